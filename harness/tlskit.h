// Raw TLS endpoints over the simulated network (OpenSSL on memory buffers), deterministic randomness.
#pragma once
#include "peerkit.h"
#include <libiqxmlrpc/https_client.h>
#include <libiqxmlrpc/https_server.h>
#include <libiqxmlrpc/ssl_lib.h>
#include <openssl/err.h>
#include <openssl/rand.h>
#include <openssl/sha.h>
#include <openssl/ssl.h>
#include <openssl/x509.h>

namespace nk {
inline uint64_t& rng() { static uint64_t x = 1; return x; }
inline int det_bytes(unsigned char* b, int n) { uint64_t& x = rng(); for (int i = 0; i < n; i++) { x ^= x << 13; x ^= x >> 7; x ^= x << 17; b[i] = x >> 32; } return 1; }
inline int det_status() { return 1; }
inline std::string pem(const std::string& n) { std::string f = __FILE__; return f.substr(0, f.rfind('/')) + "/pem/" + n; }

// TLS objects of the library that exist now
inline int& live_ssl() { static int n = 0; return n; }
inline SSL_CTX*& lib_ctx() { static SSL_CTX* c = nullptr; return c; }

struct TlsWorld { SSL_CTX *cl = nullptr, *cl_cert = nullptr, *cl_other = nullptr, *sv = nullptr, *sv_other = nullptr, *cl_chain = nullptr, *sv_chain = nullptr; X509 *authority = nullptr; };
inline TlsWorld& W() { static TlsWorld* w = new TlsWorld; return *w; }
inline SSL_CTX* mkctx(const char* name) {
  SSL_CTX* c = SSL_CTX_new(TLS_method()); SSL_CTX_set_session_cache_mode(c, SSL_SESS_CACHE_OFF);
  if (name && (SSL_CTX_use_certificate_chain_file(c, pem(std::string(name) + ".crt").c_str()) != 1 || SSL_CTX_use_PrivateKey_file(c, pem(std::string(name) + ".key").c_str(), SSL_FILETYPE_PEM) != 1)) { fprintf(stderr, "cannot load %s\n", pem(name).c_str()); _exit(3); }
  return c;
}

struct TlsEnd {
  SSL* s = nullptr; BIO *in = nullptr, *out = nullptr; int fd = -1;
  long sent = 0;                           // bytes of ciphertext produced so far
  long cut = -1, limit = -1, flip = -1; int flip_bit = 0;
  std::function<void()> at_cut, at_limit;  // at_limit ends the transport
  bool ended = false, eof = false, impatient = false;   // impatient: gives up when the other side has nothing more to say
  std::string err;
  void init(SSL_CTX* c, int f, bool server, int ver) {
    Guard g; fd = f; s = SSL_new(c); in = BIO_new(BIO_s_mem()); out = BIO_new(BIO_s_mem()); BIO_set_mem_eof_return(in, -1); SSL_set_bio(s, in, out);
    int v = ver == 2 ? TLS1_2_VERSION : TLS1_3_VERSION; SSL_set_min_proto_version(s, v); SSL_set_max_proto_version(s, v);
    if (server) SSL_set_accept_state(s); else SSL_set_connect_state(s);
  }
  std::string take() { Guard g; std::string r; char b[4096]; int n; while ((n = BIO_read(out, b, sizeof b)) > 0) r.append(b, n); return r; }
  void push(const std::string& p) {        // reads what the other side sends while it does not take more
    for (size_t o = 0; o < p.size();) {
      ssize_t n = ::send(fd, p.data() + o, p.size() - o, MSG_NOSIGNAL | MSG_DONTWAIT);
      if (n > 0) { o += n; continue; }
      if (errno != EAGAIN) return;
      pollfd q{fd, (short)(eof ? POLLOUT : POLLIN | POLLOUT), 0}; ::poll(&q, 1, -1);
      if (!eof && (q.revents & POLLIN)) pull();
    }
  }
  bool put(std::string& d) {               // ships ciphertext, with the configured deviation
    if (ended) return false;
    long a = sent, e = sent + (long)d.size();
    if (flip >= a && flip < e) { Guard g; d[flip - a] ^= 1 << flip_bit; }
    long pos = a;
    auto seg = [&](long to) { if (to > pos) { std::string p; { Guard g; p = d.substr(pos - a, to - pos); } push(p); { Guard g; p = std::string(); } pos = to; } };
    if (cut > a && cut < e && (limit < 0 || cut < limit)) { seg(cut); if (at_cut) at_cut(); }
    if (limit >= 0 && limit <= e && limit >= a) { seg(limit); sent = limit; ended = true; if (at_limit) at_limit(); return false; }
    seg(e); sent = e;
    return true;
  }
  bool ship() { std::string d = take(); bool ok = d.empty() || put(d); Guard g; d = std::string(); return ok && !ended; }
  bool pull() {
    if (fd < 0 || eof) return false;
    if (impatient) { wait_idle(); if (net::recv_would_block(fd)) return false; }
    std::string d = net::recv_some(fd); if (d.empty()) { eof = true; return false; }
    Guard g; BIO_write(in, d.data(), (int)d.size()); d = std::string(); return true;
  }
  template <class F> int drive(F op) {
    for (;;) {
      int r, e = 0; { Guard g; ERR_clear_error(); r = op(); if (r <= 0) e = SSL_get_error(s, r); }
      if (!ship()) return -1;
      if (r > 0) return r;
      if (e == SSL_ERROR_WANT_READ) { if (!pull()) return 0; continue; }
      if (e == SSL_ERROR_ZERO_RETURN) { eof = true; return 0; }
      Guard g; char b[200]; ERR_error_string_n(ERR_peek_error(), b, sizeof b); err = b; return -1;
    }
  }
  bool handshake() { return drive([&] { return SSL_do_handshake(s); }) > 0; }
  bool write(const std::string& d, size_t rec = 0) {
    for (size_t p = 0; p < d.size();) { size_t n = rec ? std::min(rec, d.size() - p) : d.size() - p; int r = drive([&] { return SSL_write(s, d.data() + p, (int)n); }); if (r <= 0) return false; p += r; }
    return true;
  }
  // "" at the end
  std::string read() { std::string r; { Guard g; r.resize(16384); } int n = drive([&] { return SSL_read(s, &r[0], (int)r.size()); }); Guard g; r.resize(n > 0 ? n : 0); return r; }
  void close_notify() { { Guard g; ERR_clear_error(); SSL_shutdown(s); } ship(); }
  bool got_close_notify() { Guard g; return s && (SSL_get_shutdown(s) & SSL_RECEIVED_SHUTDOWN); }
  void close(bool rst = false) { if (fd >= 0) { if (rst) net::reset(fd); else net::close_fd(fd); fd = -1; } ended = true; }
  void done() { Guard g; if (s) SSL_free(s); s = nullptr; at_cut = at_limit = nullptr; err = std::string(); }
  ~TlsEnd() { done(); }
};

// a TLS client that speaks to the server under test
struct TConn : Conn {
  TlsEnd t; bool up = false;
  bool dial(int ver, SSL_CTX* c = nullptr, int port = 3000) { open(port); t.init(c ? c : W().cl, fd, false, ver); return up = t.handshake(); }
  bool send(const std::string& s, size_t rec = 0) { return t.write(s, rec); }
  bool wait(size_t n) { while (rd.out.size() < n && !eof && rd.err.empty()) { std::string s = t.read(); if (s.empty()) { eof = true; break; } rd.feed(s); Guard g; s = std::string(); } return rd.out.size() >= n; }
  void drain() {
    for (;;) {
      for (;;) { std::string r; int n; { Guard g; r.resize(16384); ERR_clear_error(); n = SSL_read(t.s, &r[0], (int)r.size()); r.resize(n > 0 ? n : 0); if (n <= 0 && SSL_get_error(t.s, n) != SSL_ERROR_WANT_READ) eof = true; } if (n <= 0) break; rd.feed(r); Guard g; r = std::string(); }
      if (!t.ship() || fd < 0 || eof || net::recv_would_block(fd)) break;
      if (!t.pull()) { eof = true; break; }
    }
  }
  void close(bool rst = false) { t.fd = fd; t.close(rst); fd = -1; }
  ~TConn() { if (fd >= 0) close(); t.done(); }
};
typedef iqxmlrpc::Client<iqxmlrpc::Https_client_connection> HttpsClient;

inline void ssl_new_cb(void*, void* ptr, CRYPTO_EX_DATA*, int, long, void*) {}
inline void tls_world() {
  static RAND_METHOD m = {nullptr, det_bytes, nullptr, nullptr, det_bytes, det_status};
  RAND_set_rand_method(&m);
  iqnet::ssl::ctx = iqnet::ssl::Ctx::client_server(pem("server.crt"), pem("server.key"));
  lib_ctx() = iqnet::ssl::ctx->context(); SSL_CTX_set_session_cache_mode(lib_ctx(), SSL_SESS_CACHE_OFF);
  W().cl = mkctx(nullptr); W().cl_cert = mkctx("client"); W().cl_other = mkctx("other"); W().sv = mkctx("server"); W().sv_other = mkctx("other"); W().cl_chain = mkctx("member"); W().sv_chain = mkctx("member");
  { STACK_OF(X509)* ch = nullptr; SSL_CTX_get0_chain_certs(W().cl_chain, &ch); W().authority = sk_X509_value(ch, 0); }
  SSL_get_ex_new_index(0, nullptr, [](void* p, void*, CRYPTO_EX_DATA*, int, long, void*) { if (SSL_get_SSL_CTX((SSL*)p) == lib_ctx()) live_ssl()++; },
                       nullptr, [](void* p, void*, CRYPTO_EX_DATA*, int, long, void*) { if (SSL_get_SSL_CTX((SSL*)p) == lib_ctx()) live_ssl()--; });
}
// what the library's context trusts: nothing, or the authority that signed "member"
inline void trust(bool t) { Guard g; X509_STORE* s = X509_STORE_new(); if (t) X509_STORE_add_cert(s, W().authority); SSL_CTX_set_cert_store(lib_ctx(), s); }
inline void tls_reset() { rng() = 88172645463325252ull; iqnet::ssl::ctx->verify_server(nullptr); iqnet::ssl::ctx->verify_client(false, nullptr); live_ssl() = 0; reset_log(); }

// the digest of the certificate in hexadecimal, byte by byte, with or without padding
inline void judge_finger(const std::string& f, X509* x) {
  unsigned char* der = nullptr; int n = i2d_X509(x, &der); unsigned char md[32]; SHA256(der, n, md); OPENSSL_free(der);
  std::string full, bare; for (unsigned char c : md) { char b[8]; snprintf(b, sizeof b, "%02x", c); full += b; snprintf(b, sizeof b, "%x", c); bare += b; }
  if (f != full && f != bare) violation("fingerprint", "a verifier was given the fingerprint " + esc(f) + " for a certificate of fingerprint " + full);
}
// decides per certificate shown: 1 accept, 0 reject, 2 throw
struct Verif : iqnet::ssl::ConnectionVerifier {
  mutable int asked = 0; mutable std::vector<std::string> seen; std::function<int(bool, const std::string&)> rule;
  int do_verify(bool prev, X509_STORE_CTX* c) const override {
    if (rule && X509_STORE_CTX_get_current_cert(c)) { std::string f = cert_finger_sha256(c); Guard g; judge_finger(f, X509_STORE_CTX_get_current_cert(c)); f = std::string(); }
    int r; { Guard g; char b[200] = ""; X509* x = X509_STORE_CTX_get_current_cert(c); if (x) X509_NAME_get_text_by_NID(X509_get_subject_name(x), NID_commonName, b, sizeof b); seen.push_back(b); asked++; r = rule ? rule(prev, b) : 1; }
    if (r == 2) throw std::runtime_error("verifier fails"); if (r == 3) throw Thrown();
    return r;
  }
  ~Verif() { Guard g; seen = std::vector<std::string>(); rule = nullptr; }
};

// a session in memory: used to warm up OpenSSL and to learn how many bytes each side sends
struct Lens { long client = 0, server = 0, client_hs = 0, server_hs = 0; };
inline Lens in_memory(SSL_CTX* c, SSL_CTX* sv, int ver, const std::vector<std::string>& rqs, const std::vector<std::string>& reps, bool ask = false) {
  tls_reset();
  TlsEnd a, b; a.init(c, -1, false, ver); b.init(sv, -1, true, ver); Lens l; if (ask) SSL_set_verify(b.s, SSL_VERIFY_PEER, [](int, X509_STORE_CTX*) { return 1; });
  auto xfer = [&] { bool any = false; std::string x = a.take(); if (!x.empty()) { any = true; l.client += x.size(); BIO_write(b.in, x.data(), (int)x.size()); } x = b.take(); if (!x.empty()) { any = true; l.server += x.size(); BIO_write(a.in, x.data(), (int)x.size()); } return any; };
  bool da = false, db = false;
  for (int i = 0; i < 20 && !(da && db); i++) { if (!da) da = SSL_do_handshake(a.s) == 1; xfer(); if (!db) db = SSL_do_handshake(b.s) == 1; xfer(); }
  if (!da || !db) { fprintf(stderr, "no TLS session in memory\n"); ERR_print_errors_fp(stderr); _exit(3); }
  l.client_hs = l.client; l.server_hs = l.server;
  char buf[16384];
  for (size_t i = 0; i < rqs.size(); i++) { SSL_write(a.s, rqs[i].data(), (int)rqs[i].size()); xfer(); SSL_read(b.s, buf, sizeof buf); if (i < reps.size()) { SSL_write(b.s, reps[i].data(), (int)reps[i].size()); xfer(); SSL_read(a.s, buf, sizeof buf); } }
  ERR_clear_error();
  return l;
}
}
