# which harness and build variant decides which property
HARNESS_SRC = {
    "codec": ["codec.cc", "codec6.cc", "locale.cc", "fsguard.cc"],
    "net": ["net.cc", "net2.cc", "net3.cc", "net4.cc"],
    "cli": ["cli.cc"],
    "tls": ["tls.cc"],
    "conc": ["conc.cc", "reactor.cc", "threads.cc"],
    "conf": ["conf.cc"],
}
PLAN = {}
for p in ("C01", "C02", "C03", "C04", "C05", "C06"):
    PLAN[p] = {"parts": [{"harness": "codec", "variant": "asan"}]}

for p in ("C07", "C08", "C09", "C10", "C11", "C12"):
    PLAN[p] = {"parts": [{"harness": "net", "variant": "fast"}]}

_seq = "exhaustive bounded enumeration of inputs on the compiled library (stateless explorer, ASan, leak accounting, confirmed replays)"
_net = "stateless model checking of the compiled server: real server threads under a controlled scheduler and a simulated socket layer, every choice inside the budget explored, violations replayed"
TECH = {
    "C01": (_seq, "every value tree / text / parameter list inside the bounds; larger values are not covered"),
    "C02": (_seq + "; reference decoder over the DOM as oracle", "every derivation, mutation and token sequence inside the bounds; points the specification leaves open are not judged"),
    "C03": (_seq + "; outside calls intercepted in the process", "every combination of declaration, identifier, position and document kind listed"),
    "C04": (_seq + "; RFC 4648 reference codec as oracle", "all byte strings up to 3 bytes, all texts up to 6 characters over 13 classes"),
    "C05": (_seq + "; reference validator as oracle", "all pairs of fields, all years, all single and double character replacements"),
    "C07": (_net, "all pairs and triples of the listed request shapes, all read sizes, up to 2 cuts placed freely"),
    "C08": (_net, "up to 2 short writes or 3 scheduling deviations, up to 3 connections"),
    "C09": (_net, "every combination of the listed header features; one free cut of the reads"),
    "C10": (_net, "sizes around two limits, all splits listed, one free cut"),
    "C11": (_net, "histories of up to 4 requests, one or two short reads or writes, one scheduling deviation"),
    "C12": (_net, "histories of up to 4 requests over 23 credential forms"),
    "C13": (_net, "histories of up to 5 clients, up to 3 failing socket calls"),
    "C14": (_net, "21 payloads with 4 endings, up to 2 such clients, up to 3 failing socket calls, one scheduling deviation"),
    "C15": (_net + "; allocations and descriptors accounted per execution", "the same faults and endings as C14 and all pairs of method outcomes"),
    "C16": (_net, "sequences of up to 4 outcomes, one scheduling deviation"),
    "C17": (_net + "; reference model of registration", "histories of up to 5 registrations"),
    "C18": (_net + "; happens-before monitor over the instrumented library (vector clocks) in the same schedules", "up to 3 preemptions, serial and pooled, up to three runs of one server"),
    "C19": (_net + "; happens-before monitor over the instrumented library (vector clocks) in the same schedules", "1 to 3 workers, 1 to 3 connections, up to 3 preemptions"),
    "C20": (_net + "; happens-before monitor and ASan builds of the same schedules", "1 to 3 workers, 0 to 3 queued calls, up to 4 preemptions (1 worker), 3 (2 workers), 2 (3 workers)"),
    "C21": ("exhaustive enumeration of histories of the compiled event loop (poll and select builds) against a reference model", "all histories of length 6 over two descriptors, 4 over three, up to two interruptions per wait"),
    "C22": (_net + "; happens-before monitor over the instrumented library (vector clocks) in the same schedules", "up to four calls per client, 22 behaviours of the peer per call (replies cut at every byte), single short reads and writes at every length, up to three connect/resolver/transfer faults, two clients and two workers with up to two preemptions"),
    "C23": (_net + " in virtual time", "seven steps of the peer with four delays each, every cut of the reply, one interrupted wait, poll and select builds"),
    "C24": (_net, "all combinations of 4 paths, 2 virtual hosts, 8 credentials, 5+3 header sets, keep-alive, proxy and 5 parameter lists; histories of four calls with one change between them"),
    "C25": (_net + "; happens-before monitor over the instrumented library (vector clocks) in the same schedules", "histories of four uses with every pattern of failing lookups, two and three threads with up to five preemptions, all ports"),
    "C26": (_net + "; real TLS of the linked OpenSSL over the simulated transport with a fixed random sequence", "every byte position of a session of two calls for pauses, ends and damage, single short reads and writes at every length, two transport faults, three calls against 23 behaviours of the server, TLS 1.2 and 1.3"),
    "C27": (_net + "; real TLS of the linked OpenSSL over the simulated transport with a fixed random sequence", "two sessions (three in the deep tier) with every verifier setting and certificate, handshakes cut at every byte, resumed sessions, one renegotiation"),
    "C28": (_net + "; real TLS of the linked OpenSSL over the simulated transport with a fixed random sequence", "up to three calls, 25 answers of the proxy, each cut at every byte, 21 behaviours of the server behind it"),
    "C29": (_net + "; happens-before monitor over the instrumented library (vector clocks) in the same schedules", "each pair (and triple) of 11 operations and of 9 ways to read shared objects, first use in the process included, one preemption at any allocation; two servers with one or two scheduling deviations"),
    "C30": (_net, "every status, 22 behaviours of the peer in sequences of two calls (three without silence), replies cut at every byte, up to two transport or connect faults, three calls refused by the library's own server"),
    "C31": (_net + "; allocations and descriptors accounted per execution", "histories of up to 3 requests or clients, 10 plugged-in functions, 7 kinds of exception"),
    "C32": ("exhaustive enumeration of the failing allocation in executions of the compiled library (operator new fails at every place in turn) over a simulated network; allocations accounted per execution, AddressSanitizer build", "one failing allocation in every pair of 162 value operations, two in messages, one in client calls and in requests to serial and pooled servers (two in the deep tier for the client and the serial server)"),
    "C33": ("exhaustive differential enumeration on the compiled library: each operation, call and request under each locale against the same under the classic one", "6 locales, 283 operations, 4 kinds of client, 12 requests to serial and pooled servers, tunnels to three targets"),
    "C06": ("exhaustive bounded enumeration of operation histories on the compiled library against a reference model", "histories up to the stated depth"),
}
for p in ("C13", "C14", "C15", "C16", "C17"):
    PLAN[p] = {"parts": [{"harness": "net", "variant": "fast"}, {"harness": "net", "variant": "asan"}]}

for p in ("C18", "C19"):
    PLAN[p] = {"parts": [{"harness": "conc", "variant": "fast"}, {"harness": "conc", "variant": "race"}]}
for p in ("C22", "C23"):
    PLAN[p] = {"parts": [{"harness": "cli", "variant": "fast"}, {"harness": "cli", "variant": "select"}]}
PLAN["C22"]["parts"].append({"harness": "cli", "variant": "race"})
PLAN["C15"]["parts"] += [{"harness": "cli", "variant": "fast"}, {"harness": "cli", "variant": "asan"}]
for p in ("C26", "C27", "C28"):
    PLAN[p] = {"parts": [{"harness": "tls", "variant": "fast"}]}
PLAN["C15"]["parts"] += [{"harness": "tls", "variant": "fast"}, {"harness": "tls", "variant": "asan"}]
PLAN["C31"] = {"parts": [{"harness": "net", "variant": "fast"}, {"harness": "net", "variant": "asan"}]}
PLAN["C33"] = {"parts": [{"harness": "codec", "variant": "asan"}, {"harness": "cli", "variant": "asan"}, {"harness": "net", "variant": "asan"}, {"harness": "tls", "variant": "fast"}]}
PLAN["C32"] = {"parts": [{"harness": "codec", "variant": "asan"}, {"harness": "cli", "variant": "asan"}, {"harness": "net", "variant": "asan"}]}
PLAN["C30"] = {"parts": [{"harness": "cli", "variant": "fast"}]}
for p in ("C07", "C08", "C09", "C10", "C11", "C12", "C13", "C14", "C16", "C18", "C19", "C22", "C23", "C30", "C31"):
    PLAN[p]["parts"].append({"harness": "tls", "variant": "fast"})
PLAN["C29"] = {"parts": [{"harness": "conc", "variant": "race"}, {"harness": "conc", "variant": "fast"}]}
PLAN["C24"] = {"parts": [{"harness": "cli", "variant": "fast"}]}
PLAN["C25"] = {"parts": [{"harness": "cli", "variant": "fast"}, {"harness": "cli", "variant": "race"}]}
PLAN["C20"] = {"parts": [{"harness": "conc", "variant": "fast"}, {"harness": "conc", "variant": "race"}, {"harness": "conc", "variant": "asan"}]}
PLAN["C21"] = {"parts": [{"harness": "conc", "variant": "fast"}, {"harness": "conc", "variant": "select"}, {"harness": "conc", "variant": "race"}]}
