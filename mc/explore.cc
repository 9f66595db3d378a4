// Choice-tree explorer: master / worker processes, stateless depth-first search, replay, reporting.
#include "mc.h"
#include "engine.h"
#include <cerrno>
#include <csignal>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <deque>
#include <fcntl.h>
#include <fstream>
#include <map>
#include <set>
#include <sstream>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/socket.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/wait.h>
#include <unistd.h>
#include <unordered_map>
#include <libxml/xmlerror.h>

namespace mc {
void mc_sigpipe(int) {}

static double wall() {
  struct timespec t;
  syscall(SYS_clock_gettime, CLOCK_MONOTONIC, &t);
  return t.tv_sec + t.tv_nsec * 1e-9;
}

static inline uint64_t mix(uint64_t h, uint64_t v) {
  h ^= v + 0x9e3779b97f4a7c15ULL + (h << 6) + (h >> 2);
  h *= 0xff51afd7ed558ccdULL;
  h ^= h >> 32;
  return h;
}
uint64_t hash_str(const std::string& s) {
  uint64_t h = 1469598103934665603ULL;
  for (unsigned char c : s) { h ^= c; h *= 1099511628211ULL; }
  return mix(h, s.size());
}

struct HashSet64 {
  std::vector<uint64_t> t; size_t n = 0;
  bool insert(uint64_t k) {
    if (!k) k = 1;
    if ((n + 1) * 2 > t.size()) grow();
    size_t m = t.size() - 1, i = (k * 0x9e3779b97f4a7c15ULL) & m;
    while (t[i]) { if (t[i] == k) return false; i = (i + 1) & m; }
    t[i] = k; n++; return true;
  }
  void grow() {
    std::vector<uint64_t> o; o.swap(t); t.assign(o.empty() ? 1024 : o.size() * 2, 0); n = 0;
    for (uint64_t k : o) if (k) insert(k);
  }
};

static const int MAXP = 60000;
struct Shm {
  volatile uint64_t execs;
  volatile double started;
  volatile uint32_t plen;
  uint16_t prefix[MAXP];
  volatile int fatal;            // set when the worker recorded a fatal violation before leaving
  char vsig[256];
  char vmsg[8192];
  volatile uint32_t tlen;
  char trace[1 << 19];
  // what the process executed before: two halves, the older one is overwritten when the newer one is full
  volatile uint32_t hcur, hlen[2];
  uint16_t hist[2][1 << 20];
};

struct Point { uint16_t n, chosen; uint8_t cls; uint64_t sig; };
typedef std::vector<uint16_t> Prefix;
struct Job { Prefix p; uint64_t sig = 0; };

// ---- per-execution state (worker side) ---------------------------------------------------------
static Shm* shm;
static bool g_tracing;
static Job* cur_job;
static std::vector<Point> pts;
static uint64_t cur_sig;
static bool diverged;
static std::string diverge_msg;
static bool vflag;
static std::string vsig, vmsg;
static std::string out_text;
static HashSet64 w_states;
static std::vector<uint64_t> new_states;
static std::set<std::string> known_sigs;
static std::set<std::string> w_known_hit;
static const uint64_t STATE_CAP = 6000000;
static uint64_t state_events;

bool tracing() { return g_tracing; }
void trace(const char* fmt, ...) {
  if (!g_tracing) return;
  char b[2048];
  va_list ap; va_start(ap, fmt); int n = vsnprintf(b, sizeof b - 2, fmt, ap); va_end(ap);
  if (n < 0) return;
  if (n > (int)sizeof b - 2) n = sizeof b - 2;
  b[n++] = '\n';
  uint32_t at = shm->tlen;
  if (at + n < sizeof(shm->trace)) { memcpy(shm->trace + at, b, n); shm->tlen = at + n; }
}

int choose(int n, Cls cls, const char* label) {
  if (n <= 1) return 0;
  Guard g;
  size_t pos = pts.size();
  if (pos + 1 >= (size_t)MAXP) fatal_violation("step-limit", "execution made too many choices (livelock?)");
  uint64_t lh = 1469598103934665603ULL;
  for (const char* c = label; *c; ++c) { lh ^= (unsigned char)*c; lh *= 1099511628211ULL; }
  cur_sig = mix(cur_sig, lh ^ (uint64_t(n) << 8) ^ cls);
  int c = pos < cur_job->p.size() ? cur_job->p[pos] : 0;
  if (c >= n) { diverged = true; diverge_msg = std::string("choice out of range at ") + label; c = 0; }
  Point pt; pt.n = n; pt.chosen = c; pt.cls = cls; pt.sig = cur_sig;
  pts.push_back(pt);
  if (pos + 1 == cur_job->p.size() && cur_job->sig && cur_job->sig != cur_sig) {
    diverged = true; diverge_msg = std::string("different choice point at ") + label;
  }
  if (g_tracing && c) trace("  choose %s: %d of %d", label, c, n);
  return c;
}
bool violated() { return vflag; }
static bool is_known(const std::string& sig) {
  if (known_sigs.count(sig)) { w_known_hit.insert(sig); return true; }
  return false;
}
void violation(const std::string& sig, const std::string& msg) {
  Guard g;
  trace("!! VIOLATION %s: %s", sig.c_str(), msg.c_str());
  if (is_known(sig)) return;
  if (vflag) return;
  vflag = true; vsig = sig; vmsg = msg;
}
void fatal_violation(const std::string& sig, const std::string& msg) {
  Guard g;
  trace("!! FATAL VIOLATION %s: %s", sig.c_str(), msg.c_str());
  snprintf(shm->vsig, sizeof shm->vsig, "%s", vflag ? vsig.c_str() : sig.c_str());
  snprintf(shm->vmsg, sizeof shm->vmsg, "%s", (vflag ? vmsg + " | then: " + msg : msg).c_str());
  shm->fatal = 1;
  __sync_synchronize();
  _exit(77);
}
void outcome(const std::string& s) { Guard g; out_text += s; }
bool state(uint64_t h) {
  Guard g;
  state_events++;
  if (w_states.n < STATE_CAP && w_states.insert(h)) { new_states.push_back(h); return true; }
  return w_states.n >= STATE_CAP;
}

// ---- known findings ----------------------------------------------------------------------------
static std::map<std::string, std::string> known_text;
static void load_known(const std::string& file, const std::string& prop) {
  std::ifstream in(file);
  std::string l;
  while (std::getline(in, l)) {
    if (l.compare(0, 6, "known:") != 0) continue;
    std::istringstream ss(l.substr(6));
    std::string p, s; ss >> p >> s;
    if (p != "property=" + prop || s.compare(0, 4, "sig=") != 0) continue;
    std::string rest; std::getline(ss, rest);
    known_sigs.insert(s.substr(4)); known_text[s.substr(4)] = rest;
  }
}

// ---- one execution -----------------------------------------------------------------------------
static int err_fd = -1;
static void remember(const Prefix& p) {
  uint32_t h = shm->hcur; const uint32_t cap = 1 << 20;
  if (p.size() + 1 > cap) return;
  if (shm->hlen[h] + p.size() + 1 > cap) { h = 1 - h; shm->hlen[h] = 0; shm->hcur = h; }
  uint32_t at = shm->hlen[h];
  shm->hist[h][at] = p.size();
  if (!p.empty()) memcpy(&shm->hist[h][at + 1], p.data(), p.size() * 2);
  shm->hlen[h] = at + 1 + p.size();
}
static std::vector<Prefix> remembered(const Shm* s) {
  std::vector<Prefix> v;
  for (int k = 0; k < 2; k++) {
    uint32_t h = k ? s->hcur : 1 - s->hcur;
    for (uint32_t i = 0; i < s->hlen[h]; i += 1 + s->hist[h][i])
      v.push_back(Prefix(&s->hist[h][i + 1], &s->hist[h][i + 1] + s->hist[h][i]));
  }
  return v;
}

static void exec_once(const Scenario& sc, Job& j) {
  cur_job = &j;
  pts.clear(); cur_sig = 0x1234; diverged = false; vflag = false; out_text.clear();
  if (j.p.size() < (size_t)MAXP) {
    shm->plen = j.p.size();
    if (!j.p.empty()) memcpy(shm->prefix, j.p.data(), j.p.size() * 2);
  }
  shm->started = wall();
  shm->execs = shm->execs + 1;
  if (g_tracing) shm->tlen = 0;
  if (err_fd >= 0 && (shm->execs & 255) == 0 && lseek(err_fd, 0, SEEK_CUR) > (1 << 20)) {
    if (ftruncate(err_fd, 0) == 0) lseek(err_fd, 0, SEEK_SET);
  }
  bool track = sc.leaks;
  if (track) mem_begin();
  if (sc.managed) run_managed(sc.run);
  else sc.run();
  xmlResetLastError();
  if (track) {
    size_t live = mem_live();
    if (live && !vflag) {
      // could be a lazily initialised static: run the very same execution again in this process
      mem_end();
      std::string o = out_text; std::vector<Point> sp = pts;
      Job again; for (auto& p : sp) again.p.push_back(p.chosen);
      again.sig = sp.empty() ? 0 : sp.back().sig;
      Job* save = cur_job; cur_job = &again;
      pts.clear(); cur_sig = 0x1234; out_text.clear();
      mem_begin();
      if (sc.managed) run_managed(sc.run); else sc.run();
      xmlResetLastError();
      live = mem_live();
      if (live && !vflag) {
        Guard gg; std::ostringstream m; m << live << " block(s) allocated during the execution were never released: " << mem_report(6);
        violation("leak", m.str());
      }
      cur_job = save; pts = sp; out_text = o;
    }
    mem_end();
  }
  shm->started = 0;
}

// ---- messages ----------------------------------------------------------------------------------
struct Buf {
  std::string d; size_t r = 0;
  template <class T> void put(T v) { d.append((const char*)&v, sizeof v); }
  void puts(const std::string& s) { put<uint32_t>(s.size()); d += s; }
  template <class T> T get() { T v; memcpy(&v, d.data() + r, sizeof v); r += sizeof v; return v; }
  std::string gets() { uint32_t n = get<uint32_t>(); std::string s = d.substr(r, n); r += n; return s; }
  void putj(const Job& j) { put<uint64_t>(j.sig); put<uint32_t>(j.p.size()); d.append((const char*)j.p.data(), j.p.size() * 2); }
  Job getj() { Job j; j.sig = get<uint64_t>(); uint32_t n = get<uint32_t>(); j.p.resize(n); memcpy(j.p.data(), d.data() + r, n * 2); r += n * 2; return j; }
};
static ssize_t raw_read(int fd, void* p, size_t n) { return syscall(SYS_read, fd, p, n); }
static ssize_t raw_write(int fd, const void* p, size_t n) { return syscall(SYS_write, fd, p, n); }
static bool rd(int fd, void* p, size_t n) {
  char* c = (char*)p;
  while (n) { ssize_t k = raw_read(fd, c, n); if (k < 0 && errno == EINTR) continue; if (k <= 0) return false; c += k; n -= k; }
  return true;
}
static bool wr(int fd, const void* p, size_t n) {
  const char* c = (const char*)p;
  while (n) { ssize_t k = raw_write(fd, c, n); if (k < 0 && errno == EINTR) continue; if (k <= 0) return false; c += k; n -= k; }
  return true;
}
static bool send_buf(int fd, const Buf& b) { uint64_t n = b.d.size(); return wr(fd, &n, 8) && wr(fd, b.d.data(), n); }
static bool recv_buf(int fd, Buf& b) { uint64_t n; if (!rd(fd, &n, 8)) return false; b.d.resize(n); b.r = 0; return n == 0 || rd(fd, &b.d[0], n); }

static int cost_of(const std::vector<Point>& v, size_t upto, int* cls) {
  int t = 0; for (int i = 0; i < NCLS; i++) cls[i] = 0;
  for (size_t i = 0; i < upto; i++) if (v[i].chosen && v[i].cls != C_FREE) { t++; cls[v[i].cls]++; }
  return t;
}

static void warm_up(const Scenario& sc) {   // lazily initialised statics
  Job j; Scenario w = sc; w.leaks = false; bool t = g_tracing; g_tracing = false; exec_once(w, j); g_tracing = t;
}

// runs the job in a process of its own, for code that carries something over from one execution to the next
static void exec_apart(const Scenario& sc, Job& j) {
  int sv[2]; if (pipe(sv)) _exit(3);
  pid_t pid = fork();
  if (pid < 0) _exit(3);
  if (!pid) {
    syscall(SYS_close, sv[0]);
    HashSet64 ws = w_states;
    warm_up(sc);
    w_states = ws; new_states.clear(); state_events = 0;
    exec_once(sc, j);
    Buf o; o.put<uint32_t>(pts.size()); o.d.append((const char*)pts.data(), pts.size() * sizeof(Point));
    o.put<uint8_t>(diverged); o.puts(diverge_msg); o.put<uint8_t>(vflag); o.puts(vsig); o.puts(vmsg); o.puts(out_text);
    o.put<uint32_t>(new_states.size()); o.d.append((const char*)new_states.data(), new_states.size() * 8);
    o.put<uint64_t>(state_events);
    o.put<uint32_t>(w_known_hit.size()); for (auto& k : w_known_hit) o.puts(k);
    send_buf(sv[1], o); _exit(0);
  }
  syscall(SYS_close, sv[1]);
  Buf b; bool got = recv_buf(sv[0], b);
  syscall(SYS_close, sv[0]);
  int st = 0; waitpid(pid, &st, 0);
  if (!got) {
    if (WIFSIGNALED(st)) { signal(WTERMSIG(st), SIG_DFL); kill(getpid(), WTERMSIG(st)); }
    _exit(WIFEXITED(st) ? WEXITSTATUS(st) : 3);
  }
  uint32_t n = b.get<uint32_t>(); pts.resize(n); if (n) memcpy(pts.data(), b.d.data() + b.r, n * sizeof(Point)); b.r += n * sizeof(Point);
  diverged = b.get<uint8_t>(); diverge_msg = b.gets(); vflag = b.get<uint8_t>(); vsig = b.gets(); vmsg = b.gets(); out_text = b.gets();
  n = b.get<uint32_t>();
  for (uint32_t i = 0; i < n; i++) { uint64_t h = b.get<uint64_t>(); if (w_states.insert(h)) new_states.push_back(h); }
  state_events += b.get<uint64_t>();
  n = b.get<uint32_t>(); for (uint32_t i = 0; i < n; i++) w_known_hit.insert(b.gets());
}

static void worker_loop(const Scenario& sc, int fd, bool apart) {
  if (!apart) {
    warm_up(sc);
    new_states.clear(); w_states = HashSet64();
    w_known_hit.clear();
  }
  for (;;) {
    Buf in;
    if (!recv_buf(fd, in)) _exit(0);
    uint32_t ms = in.get<uint32_t>();
    uint32_t n = in.get<uint32_t>();
    std::vector<Job> st;
    for (uint32_t i = 0; i < n; i++) st.push_back(in.getj());
    double t0 = wall();
    uint64_t execs = 0, edges = 0, choice_pts = 0, maxpts = 0;
    std::map<uint64_t, std::string> outs; std::map<uint64_t, uint64_t> outn;
    bool bad = false; Buf viol;
    while (!st.empty()) {
      Job j; std::swap(j, st.back()); st.pop_back();
      size_t plen = j.p.size();
      if (apart) exec_apart(sc, j);
      else { exec_once(sc, j); remember(j.p); }
      execs++;
      if (!diverged && pts.size() < plen) { diverged = true; diverge_msg = "execution ended before its prefix"; }
      if (diverged) {
        bad = true; viol.put<uint8_t>(2); viol.putj(j); viol.puts("divergence"); viol.puts(diverge_msg); break;
      }
      edges += pts.size() - plen + 1;
      choice_pts += pts.size();
      if (pts.size() > maxpts) maxpts = pts.size();
      uint64_t oh = hash_str(out_text);
      outn[oh]++;
      if (outs.size() < 4000 && !outs.count(oh)) outs[oh] = out_text.substr(0, 600);
      if (vflag) {
        bad = true; viol.put<uint8_t>(1);
        Job f; for (auto& p : pts) f.p.push_back(p.chosen);
        while (!f.p.empty() && f.p.back() == 0) f.p.pop_back();
        viol.putj(f); viol.puts(vsig); viol.puts(vmsg); break;
      }
      // expand
      int cls[NCLS]; int tot = cost_of(pts, plen, cls);
      for (size_t i = plen; i < pts.size(); i++) {
        const Point& p = pts[i];
        if (p.cls != C_FREE && (tot >= sc.budget.total || cls[p.cls] >= sc.budget.cls[p.cls])) continue;
        for (int a = p.n - 1; a >= 1; a--) {
          Job c; c.p.reserve(i + 1);
          for (size_t k = 0; k < i; k++) c.p.push_back(pts[k].chosen);
          c.p.push_back(a); c.sig = p.sig;
          st.push_back(std::move(c));
        }
      }
      if ((wall() - t0) * 1000 > ms) break;
    }
    Buf o;
    o.put<uint64_t>(execs); o.put<uint64_t>(edges); o.put<uint64_t>(choice_pts); o.put<uint64_t>(maxpts);
    o.put<uint32_t>(new_states.size());
    o.d.append((const char*)new_states.data(), new_states.size() * 8);
    new_states.clear();
    o.put<uint64_t>(state_events); state_events = 0;
    o.put<uint32_t>(outn.size());
    for (auto& k : outn) { o.put<uint64_t>(k.first); o.put<uint64_t>(k.second); o.puts(outs.count(k.first) ? outs[k.first] : ""); }
    o.put<uint32_t>(w_known_hit.size());
    for (auto& k : w_known_hit) o.puts(k);
    o.put<uint8_t>(bad ? 1 : 0);
    if (bad) o.d += viol.d;
    else {
      // hand back the oldest (largest) subtrees when stopping early
      o.put<uint32_t>(st.size());
      for (auto& j : st) o.putj(j);
    }
    if (!send_buf(fd, o)) _exit(0);
  }
}

// ---- master ------------------------------------------------------------------------------------
struct Worker { pid_t pid = 0; int fd = -1; Shm* sh = nullptr; std::string errfile; bool busy = false; std::vector<Job> jobs; };

struct Found { bool yes = false; bool error = false; std::string sig, msg, detail; Job job; std::vector<Prefix> before; };

struct Stats {
  uint64_t execs = 0, edges = 0, choice_pts = 0, maxpts = 0, state_events = 0;
  HashSet64 states;
  std::map<uint64_t, std::pair<uint64_t, std::string>> outs;
  std::set<std::string> known;
  bool complete = true; double secs = 0;
};

static std::string run_dir;
static int g_workers = 8;

static std::string tail(const std::string& f, size_t n) {
  std::ifstream in(f, std::ios::binary); std::string s((std::istreambuf_iterator<char>(in)), std::istreambuf_iterator<char>());
  size_t p = s.find("ERROR: AddressSanitizer");
  if (p == std::string::npos) p = s.find("runtime error");
  if (p != std::string::npos) { size_t b = s.rfind('\n', p); s = s.substr(b == std::string::npos ? 0 : b + 1); return s.substr(0, n); }
  return s.size() > n ? s.substr(s.size() - n) : s;
}

static void spawn_worker(Worker& w, const Scenario& sc, int idx, bool trace_on, const Job* single, const std::vector<Prefix>* before = nullptr, bool apart = false) {
  int sv[2]; if (socketpair(AF_UNIX, SOCK_STREAM | SOCK_CLOEXEC, 0, sv)) { perror("socketpair"); exit(2); }
  if (!w.sh) w.sh = (Shm*)mmap(0, sizeof(Shm), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  w.sh->fatal = 0; w.sh->started = 0; w.sh->plen = 0; w.sh->tlen = 0;
  w.sh->hcur = w.sh->hlen[0] = w.sh->hlen[1] = 0;
  w.errfile = run_dir + "/w" + std::to_string(idx) + ".err";
  fflush(stdout); fflush(stderr);
  pid_t pid = fork();
  if (pid < 0) { perror("fork"); exit(2); }
  if (!pid) {
    prctl(PR_SET_PDEATHSIG, SIGKILL);
    err_fd = open(w.errfile.c_str(), O_CREAT | O_TRUNC | O_RDWR, 0644);
    dup2(err_fd, 2);
    syscall(SYS_close, sv[0]);
    shm = w.sh; g_tracing = trace_on;
    if (single) {
      Scenario s2 = sc;
      warm_up(sc);
      if (before) {
        bool t = g_tracing; g_tracing = false;
        for (auto& p : *before) { Job j; j.p = p; exec_once(s2, j); }
        g_tracing = t;
      }
      Job j = *single; exec_once(s2, j);
      Buf o; o.put<uint8_t>(diverged ? 2 : vflag ? 1 : 0); o.puts(vsig); o.puts(diverged ? diverge_msg : vmsg); o.puts(out_text);
      send_buf(sv[1], o); _exit(0);
    }
    worker_loop(sc, sv[1], apart);
    _exit(0);
  }
  syscall(SYS_close, sv[1]);
  w.pid = pid; w.fd = sv[0]; w.busy = false;
}

static std::string status_text(int st) {
  std::ostringstream s;
  if (WIFSIGNALED(st)) s << "killed by signal " << WTERMSIG(st) << " (" << strsignal(WTERMSIG(st)) << ")";
  else s << "exited with code " << WEXITSTATUS(st);
  return s.str();
}

// runs one job alone; returns kind: 0 fine, 1 violation, 2 divergence
static int run_single(const Scenario& sc, const Job& j, double limit, std::string& sig, std::string& msg, std::string& tr, std::string& outc,
                      const std::vector<Prefix>* before = nullptr) {
  Worker w; spawn_worker(w, sc, 99, true, &j, before);
  double t0 = wall(); int st = 0; bool dead = false; Buf b; bool got = false;
  struct Pfd { int fd; short ev, rev; } p = {w.fd, 1, 0};
  while (wall() - t0 < limit) {
    p.rev = 0;
    int r = syscall(SYS_poll, &p, 1, 200);
    if (r > 0) { got = recv_buf(w.fd, b); break; }
  }
  if (!got && wall() - t0 >= limit) { kill(w.pid, SIGKILL); waitpid(w.pid, &st, 0); sig = "hang"; std::ostringstream m; m << "execution did not end within " << limit << " s"; msg = m.str(); dead = true; }
  else waitpid(w.pid, &st, 0);
  int kind = 0;
  if (dead) kind = 1;
  else if (got) { kind = b.get<uint8_t>(); sig = b.gets(); msg = b.gets(); outc = b.gets(); if (kind == 0) sig.clear(); }
  else if (w.sh->fatal) { kind = 1; sig = w.sh->vsig; msg = w.sh->vmsg; }
  else { kind = 1; sig = "crash"; msg = status_text(st) + "\n" + tail(w.errfile, 6000); }
  tr.assign(w.sh->trace, w.sh->tlen);
  syscall(SYS_close, w.fd); munmap(w.sh, sizeof(Shm));
  return kind;
}

static Found explore(const Scenario& sc, Stats& S, double deadline, bool apart = false) {
  Found F;
  std::vector<Worker> W(g_workers);
  double t0 = wall();
  std::vector<Job> stack; stack.push_back(Job());
  for (int i = 0; i < g_workers; i++) spawn_worker(W[i], sc, i, false, nullptr, nullptr, apart);
  size_t busy = 0; bool stop = false;
  auto dispatch = [&](Worker& w) {
    if (stack.empty() || stop) return;
    Buf b;
    size_t share = stack.size() / (g_workers * 2); if (share < 1) share = 1; if (share > 64) share = 64;
    uint32_t ms = stack.size() < (size_t)g_workers * 4 ? 8 : sc.batch_ms;
    b.put<uint32_t>(ms); b.put<uint32_t>(share);
    w.jobs.clear();
    // oldest entries are the largest subtrees; take from the top to keep memory small once the stack is big
    for (size_t i = 0; i < share; i++) {
      w.jobs.push_back(std::move(stack.back())); stack.pop_back();
      b.putj(w.jobs.back());
    }
    w.busy = true; busy++;
    send_buf(w.fd, b);
  };
  double last_check = wall();
  for (;;) {
    for (auto& w : W) if (!w.busy && w.pid) dispatch(w);
    if (!busy) break;
    struct Pfd { int fd; short ev, rev; }; std::vector<Pfd> p;
    for (auto& w : W) p.push_back(Pfd{w.busy ? w.fd : -1, 1, 0});
    syscall(SYS_poll, p.data(), p.size(), 500);
    for (size_t i = 0; i < W.size(); i++) {
      if (!p[i].rev) continue;
      Worker& w = W[i];
      Buf b;
      if (!recv_buf(w.fd, b)) {
        int st; waitpid(w.pid, &st, 0);
        w.busy = false; busy--; w.pid = 0;
        F.yes = true;
        F.job.p.assign(w.sh->prefix, w.sh->prefix + w.sh->plen); F.job.sig = 0;
        F.before = remembered(w.sh);
        if (w.sh->fatal) { F.sig = w.sh->vsig; F.msg = w.sh->vmsg; }
        else { F.sig = "crash"; F.msg = status_text(st); F.detail = tail(w.errfile, 6000); }
        stop = true; break;
      }
      w.busy = false; busy--;
      S.execs += b.get<uint64_t>(); S.edges += b.get<uint64_t>(); S.choice_pts += b.get<uint64_t>();
      uint64_t mp = b.get<uint64_t>(); if (mp > S.maxpts) S.maxpts = mp;
      uint32_t ns = b.get<uint32_t>();
      for (uint32_t k = 0; k < ns; k++) { uint64_t h = b.get<uint64_t>(); if (S.states.n < 60000000) S.states.insert(h); }
      S.state_events += b.get<uint64_t>();
      uint32_t no = b.get<uint32_t>();
      for (uint32_t k = 0; k < no; k++) {
        uint64_t h = b.get<uint64_t>(), c = b.get<uint64_t>(); std::string s = b.gets();
        auto& e = S.outs[h]; e.first += c; if (e.second.empty()) e.second = s;
      }
      uint32_t nk = b.get<uint32_t>();
      for (uint32_t k = 0; k < nk; k++) S.known.insert(b.gets());
      if (b.get<uint8_t>()) {
        int kind = b.get<uint8_t>(); F.job = b.getj(); F.sig = b.gets(); F.msg = b.gets();
        F.yes = true; F.error = kind == 2; stop = true;
        F.before = remembered(w.sh); if (!F.before.empty()) F.before.pop_back();   // the last one is the execution itself
        break;
      }
      uint32_t nj = b.get<uint32_t>();
      for (uint32_t k = 0; k < nj; k++) stack.push_back(b.getj());
    }
    if (stop) break;
    double now = wall();
    if (now - last_check > 1) {
      last_check = now;
      for (auto& w : W) if (w.busy && w.sh->started != 0 && now - w.sh->started > 30) {
        F.yes = true; F.sig = "hang"; F.msg = "execution does not end";
        F.job.p.assign(w.sh->prefix, w.sh->prefix + w.sh->plen); F.job.sig = 0; F.before = remembered(w.sh); stop = true; break;
      }
      if (now > deadline || (sc.max_exec && S.execs >= sc.max_exec)) { S.complete = false; stack.clear(); if (now > deadline + 5) break; stop = true; }
    }
    if (stop && F.yes) break;
    if (stop && !busy) break;
    if (stop && now > deadline + 10) break;
  }
  if (!stack.empty()) S.complete = false;
  for (auto& w : W) {
    if (w.pid) { kill(w.pid, SIGKILL); int st; waitpid(w.pid, &st, 0); }
    syscall(SYS_close, w.fd); if (w.sh) munmap(w.sh, sizeof(Shm));
  }
  S.secs = wall() - t0;
  if (F.yes) S.complete = false;
  return F;
}

// ---- json helpers ------------------------------------------------------------------------------
static std::string js(const std::string& s) {
  std::string o = "\"";
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') { o += '\\'; o += c; }
    else if (c == '\n') o += "\\n";
    else if (c < 32 || c >= 127) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); o += b; }
    else o += c;
  }
  return o + "\"";
}

static std::string read_file(const std::string& f) {
  std::ifstream in(f, std::ios::binary); return std::string((std::istreambuf_iterator<char>(in)), std::istreambuf_iterator<char>());
}

int driver_main(int argc, char** argv, const std::function<void(Driver&)>& setup) {
  std::string prop, tier = "quick", out, rdir = ".", replay, only, known, variant;
  double tlimit = 600;
  for (int i = 1; i < argc; i++) {
    std::string a = argv[i]; auto nx = [&]() { return std::string(i + 1 < argc ? argv[++i] : ""); };
    if (a == "--property") prop = nx(); else if (a == "--tier") tier = nx(); else if (a == "--out") out = nx();
    else if (a == "--dir") rdir = nx(); else if (a == "--replay") replay = nx(); else if (a == "--scenario") only = nx();
    else if (a == "--known") known = nx(); else if (a == "--time-limit") tlimit = atof(nx().c_str());
    else if (a == "--workers") g_workers = atoi(nx().c_str()); else if (a == "--variant") variant = nx();
    else { fprintf(stderr, "unknown argument %s\n", a.c_str()); return 2; }
  }
  run_dir = rdir; mkdir(rdir.c_str(), 0755);
  signal(SIGPIPE, mc_sigpipe);   // SIG_IGN would hide whether the library protects itself
  engine_init();
  if (!replay.empty() && variant.empty()) {
    std::istringstream ss(read_file(replay)); std::string l;
    while (std::getline(ss, l)) if (l.compare(0, 9, "variant: ") == 0) { variant = l.substr(9); break; }
  }
  Driver D; D.property = prop; D.tier = tier; D.variant = variant;
  setup(D);
  if (!known.empty()) load_known(known, prop);
  if (D.scenarios.empty()) { fprintf(stderr, "no scenarios for %s\n", prop.c_str()); return 2; }

  if (!replay.empty()) {
    std::istringstream ss(read_file(replay)); std::string key; Job j; std::string name; std::string l; std::vector<Prefix> before;
    while (std::getline(ss, l)) {
      std::istringstream ls(l); ls >> key;
      if (key == "trace:") break;
      if (key == "scenario:") ls >> name;
      if (key == "before:") { int v; before.push_back(Prefix()); while (ls >> v) before.back().push_back(v); }
      if (key == "choices:") { int v; while (ls >> v) j.p.push_back(v); }
    }
    for (auto& sc : D.scenarios) if (sc.name == name) {
      std::string sig, msg, tr, oc; int k = run_single(sc, j, 120, sig, msg, tr, oc, &before);
      printf("%s\noutcome: %s\n", tr.c_str(), oc.c_str());
      if (k == 1) { printf("violated: %s: %s\n", sig.c_str(), msg.c_str()); return 1; }
      if (k == 2) { printf("replay diverged: %s\n", msg.c_str()); return 2; }
      printf("no violation in this execution\n"); return 0;
    }
    fprintf(stderr, "scenario %s not found\n", name.c_str()); return 2;
  }

  double t0 = wall(); double end = t0 + tlimit;
  std::ostringstream J; J << "{\"scenarios\":["; bool first = true; int rc = 0;
  uint64_t te = 0, ts = 0, tt = 0; bool all = true; std::set<std::string> kh;
  for (auto& sc : D.scenarios) {
    if (!only.empty() && sc.name != only) continue;
    if (wall() > end) { all = false; printf("time limit: scenario %s not run\n", sc.name.c_str()); continue; }
    Stats S; Found F; bool apart = sc.apart; std::vector<Prefix> before;
    std::string sig, msg, tr, oc; int k1 = 0, k2 = 0;
   again:
    for (int attempt = 0;; attempt++) {
      F = explore(sc, S, apart && !sc.apart ? wall() + (end - wall()) / 2 : end, apart);
      if (F.yes && !F.error && F.sig == "hang") {   // a slow machine is not a hang: run it alone with a long limit
        std::string sig, msg, tr, oc; int k = run_single(sc, F.job, 150, sig, msg, tr, oc);
        if (k == 0 && attempt < 2) { S = Stats(); continue; }
      }
      break;
    }
    if (F.yes) {
      std::string sig2, msg2, tr2;
      if (!F.error) { k1 = run_single(sc, F.job, 150, sig, msg, tr, oc); k2 = run_single(sc, F.job, 150, sig2, msg2, tr2, oc); }
      // what the code keeps between executions may be what makes it fail: put the executions of that process in front
      if (!F.error && (k1 != 1 || k2 != 1)) {
        for (size_t n = 1; !F.before.empty(); n *= 2) {
          if (n > F.before.size()) n = F.before.size();
          before.assign(F.before.end() - n, F.before.end());
          k1 = run_single(sc, F.job, 150, sig, msg, tr, oc, &before);
          k2 = k1 == 1 ? run_single(sc, F.job, 150, sig2, msg2, tr2, oc, &before) : 0;
          if ((k1 == 1 && k2 == 1) || n == F.before.size() || wall() > end) break;
        }
        if (k1 != 1 || k2 != 1) before.clear();
      }
      if ((F.error || k1 != 1 || k2 != 1) && !apart && wall() < end) {
        printf("%s/%s: executions influence each other (%s: %s); exploring with a process for each\n", prop.c_str(), sc.name.c_str(), F.sig.c_str(), F.msg.c_str());
        fflush(stdout);
        apart = true; S = Stats(); goto again;
      }
    }
    te += S.execs; ts += S.states.n; tt += S.edges; if (!S.complete) all = false;
    for (auto& k : S.known) kh.insert(k);
    printf("%s/%s: executions=%llu transitions=%llu states=%llu outcomes=%zu max_choices=%llu %s %.1fs\n", prop.c_str(), sc.name.c_str(),
      (unsigned long long)S.execs, (unsigned long long)S.edges, (unsigned long long)S.states.n, S.outs.size(), (unsigned long long)S.maxpts,
      S.complete ? "complete" : "INCOMPLETE", S.secs);
    fflush(stdout);
    if (!first) J << ","; first = false;
    J << "{\"name\":" << js(sc.name) << ",\"note\":" << js(sc.note) << ",\"executions\":" << S.execs << ",\"transitions\":" << S.edges
      << ",\"states\":" << S.states.n << ",\"distinct_outcomes\":" << S.outs.size() << ",\"max_choices\":" << S.maxpts
      << ",\"complete\":" << (S.complete ? "true" : "false") << ",\"seconds\":" << S.secs << ",\"budget\":{\"total\":" << sc.budget.total
      << ",\"preempt\":" << sc.budget.cls[C_PREEMPT] << ",\"switch\":" << sc.budget.cls[C_SWITCH] << ",\"io\":" << sc.budget.cls[C_IO]
      << ",\"fault\":" << sc.budget.cls[C_FAULT] << ",\"script\":" << sc.budget.cls[C_SCRIPT] << "},\"samples\":[";
    int ns = 0; for (auto& o : S.outs) { if (ns >= 3) break; if (ns++) J << ","; J << js(o.second.second); }
    J << "]}";
    if (F.yes) {
      if (F.error || k1 == 2) {
        printf("ERROR: exploration diverged in %s: %s / %s\n", sc.name.c_str(), F.msg.c_str(), msg.c_str());
        rc = 2; continue;
      }
      if (k1 != 1 || k2 != 1) {
        printf("ERROR: violation in %s did not replay (%s: %s) k=%d,%d\n%s\n", sc.name.c_str(), F.sig.c_str(), F.msg.c_str(), k1, k2, F.detail.c_str());
        std::string f = rdir + "/unreplayed.txt"; std::ofstream o(f); o << "scenario: " << sc.name << "\nchoices:"; for (auto c : F.job.p) o << " " << c; o << "\n";
        rc = 2; continue;
      }
      std::string f = rdir + "/" + prop + "-" + sc.name + ".replay";
      std::ofstream o(f);
      o << "property: " << prop << "\nscenario: " << sc.name << "\ntier: " << tier << "\nvariant: " << variant;
      for (auto& p : before) { o << "\nbefore:"; for (auto c : p) o << " " << c; }
      o << "\nchoices:";
      for (auto c : F.job.p) o << " " << c;
      o << "\nsignature: " << sig << "\nmessage: " << msg << "\n\ntrace:\n" << tr << "\n";
      o.close();
      printf("violated (%s): %s\n", sig.c_str(), msg.substr(0, 3000).c_str());
      printf("REPLAY %s\n", f.c_str());
      rc = 1; break;
    }
  }
  J << "],\"executions\":" << te << ",\"states\":" << ts << ",\"transitions\":" << tt << ",\"exhaustive\":" << (all && rc == 0 ? "true" : "false")
    << ",\"violations\":" << (rc == 1 ? 1 : 0) << ",\"seconds\":" << wall() - t0 << ",\"assumptions\":[";
  for (size_t i = 0; i < D.assumptions.size(); i++) J << (i ? "," : "") << js(D.assumptions[i]);
  J << "]}";
  for (auto& k : kh) printf("KNOWN-FINDING: property=%s %s\n", prop.c_str(), known_text[k].c_str());
  if (!out.empty()) { std::ofstream o(out); o << J.str(); }
  return rc;
}

}  // namespace mc
