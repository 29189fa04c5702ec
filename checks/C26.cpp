/* C26: the HTTPS client against a scripted TLS server: requests, trust, answers in every piece and cut off at every byte, transport failures */
#include <functional>
#define SRV_NO_STUB
#include "mc.hpp"
#include "servers.hpp"
#include "net.hpp"
#include "sizes.hpp"
#include <atomic>
#include <poll.h>
#include <sys/eventfd.h>
using mc::Ctx; using mc::Opts; using mc::comb; using mc::fnvs; using namespace srv;
static Site W; static Id twindom, sub, subleaf, twinleaf, expired, selfsrv, lookalike; static std::string DIR;
/* what the server does with its one connection */
enum End { NOTICE, ABRUPT, RESET, HOLD };
struct Script { const Cert *cert = nullptr; const Key *key = nullptr; std::vector<const Cert *> chain; int maxver = 0; bool askcert = true; std::vector<std::string> out; double gap = 0; End end = NOTICE; int early = 0; /* 1 close at accept, 2 garbage at accept, 3 reset at accept, 4 close after the handshake, 5 answer before the request is read, 6 cut off while the request is sent */ };
struct Seen { int conns = 0, shakes = 0, reqs = 0; std::string req, rest; bytes peer; std::string sni; };
struct Server { net::Port p; int ls = -1, stopfd = -1; std::thread t; Script s; Seen seen;
  bool stopped(int fd, short ev, int ms) { struct pollfd f[2] = {{fd, ev, 0}, {stopfd, POLLIN, 0}}; for (;;) { int r = poll(f, 2, ms); if (r < 0 && errno == EINTR) continue; if (r <= 0) return true; if (f[1].revents) { f[0].revents = 0; struct pollfd g = {fd, ev, 0}; if (poll(&g, 1, 0) > 0 && drain) return false; return true; } return false; } }
  bool drain = true; /* what already arrived is still looked at when the client is done */
  void start(const Script &sc) { s = sc; seen = Seen(); if (!p.open(true)) pki::die("port"); ls = socket(AF_INET, SOCK_STREAM | SOCK_CLOEXEC, 0); int one = 1; setsockopt(ls, SOL_SOCKET, SO_REUSEPORT, &one, sizeof one); sockaddr_in a = {}; a.sin_family = AF_INET; a.sin_port = htons(p.n); a.sin_addr.s_addr = htonl(INADDR_LOOPBACK); if (bind(ls, (sockaddr *)&a, sizeof a) || listen(ls, 8)) pki::die("listen"); stopfd = eventfd(0, EFD_CLOEXEC); t = std::thread([this] { serve(); OPENSSL_thread_stop(); }); }
  void stop() { if (stopfd < 0) return; uint64_t one = 1; if (write(stopfd, &one, 8) != 8) pki::die("stop"); t.join(); close(ls); close(stopfd); stopfd = ls = -1; p.close(); }
  ~Server() { stop(); }
  void serve() {
    SSL_CTX *x = SSL_CTX_new(TLS_server_method()); if (s.maxver) SSL_CTX_set_max_proto_version(x, s.maxver); SSL_CTX_set_session_cache_mode(x, SSL_SESS_CACHE_OFF); SSL_CTX_set_num_tickets(x, 0); if (s.cert) { if (SSL_CTX_use_certificate(x, s.cert->x) != 1 || SSL_CTX_use_PrivateKey(x, s.key->k) != 1) pki::die("script"); for (auto *y : s.chain) SSL_CTX_add1_chain_cert(x, y->x); } if (s.askcert) SSL_CTX_set_verify(x, SSL_VERIFY_PEER, [](int, X509_STORE_CTX *) { return 1; });
    while (!stopped(ls, POLLIN, 60000)) { int c = accept4(ls, nullptr, nullptr, SOCK_CLOEXEC); if (c < 0) continue; seen.conns++; one(x, c); } SSL_CTX_free(x); }
  void rst(int c) { struct linger l = {1, 0}; setsockopt(c, SOL_SOCKET, SO_LINGER, &l, sizeof l); }
  void one(SSL_CTX *x, int c) {
    int nd = 1; setsockopt(c, IPPROTO_TCP, TCP_NODELAY, &nd, sizeof nd); if (s.early == 1) { close(c); return; } if (s.early == 3) { rst(c); close(c); return; } if (s.early == 2) { if (write(c, "HTTP/1.1 200 OK\r\nContent-Length: 2\r\n\r\nhi", 40) < 0) {} close(c); return; }
    fcntl(c, F_SETFL, O_NONBLOCK); SSL *l = SSL_new(x); SSL_set_fd(l, c); bool ok = false; for (;;) { ERR_clear_error(); int r = SSL_accept(l); if (r == 1) { ok = true; break; } int e = SSL_get_error(l, r); if (e == SSL_ERROR_WANT_READ ? stopped(c, POLLIN, 20000) : e == SSL_ERROR_WANT_WRITE ? stopped(c, POLLOUT, 20000) : true) break; }
    if (ok) { seen.shakes++; if (const char *n = SSL_get_servername(l, TLSEXT_NAMETYPE_host_name)) seen.sni = n; X509 *pc = SSL_get0_peer_certificate(l); if (pc) { unsigned char *d = nullptr; int n = i2d_X509(pc, &d); if (n > 0) seen.peer.assign((char *)d, n); OPENSSL_free(d); }
      if (s.early == 5) put(l, c); if (s.early != 4) { std::string in; char b[16384]; size_t want = (size_t)-1; bool got = false; for (;;) { ERR_clear_error(); int r = SSL_read(l, b, sizeof b); if (r > 0) { in.append(b, r); size_t h = in.find("\r\n\r\n"); if (s.early == 6 && in.size() > 20) break; if (h != std::string::npos) { if (want == (size_t)-1) { size_t k = net::lower(in.substr(0, h)).find("content-length:"); want = h + 4 + (k == std::string::npos ? 0 : strtoul(in.c_str() + k + 15, nullptr, 10)); } if (in.size() >= want) { got = true; break; } } continue; } int e = SSL_get_error(l, r); if (e == SSL_ERROR_WANT_READ ? stopped(c, POLLIN, 20000) : true) break; }
        if (in.size()) { seen.reqs++; seen.req = got ? in.substr(0, want) : in; seen.rest = got ? in.substr(want) : ""; } if (got && s.early != 5 && s.early != 6) { put(l, c); if (s.end == HOLD) { char b2; struct pollfd f = {stopfd, POLLIN, 0}; poll(&f, 1, 60000); (void)b2; } } }
      if (s.end == NOTICE && s.early != 6) { ERR_clear_error(); SSL_shutdown(l); }
      if (s.end == RESET || s.early == 6) rst(c); else { shutdown(c, SHUT_WR); /* read what is still there, so that closing doesn't reset the connection */ ERR_clear_error(); char b[4096]; while (!stopped(c, POLLIN, 20000)) { ssize_t r = read(c, b, sizeof b); if (r <= 0) break; } } }
    SSL_free(l); close(c); ERR_clear_error();
  }
  void put(SSL *l, int c) { for (size_t i = 0; i < s.out.size(); i++) { if (i && s.gap > 0) net::nap(s.gap); size_t n = 0; const std::string &d = s.out[i]; while (n < d.size()) { ERR_clear_error(); int r = SSL_write(l, d.data() + n, (int)std::min<size_t>(d.size() - n, 16384)); if (r > 0) { n += r; continue; } int e = SSL_get_error(l, r); if (e == SSL_ERROR_WANT_WRITE ? stopped(c, POLLOUT, 20000) : e == SSL_ERROR_WANT_READ ? stopped(c, POLLIN, 20000) : true) return; } } }
};
struct Out { int st; std::string body; bool peerset = false, peersame = false; bytes peer; };
struct Rq { std::string key, cert, host = "127.0.0.1", path = "/.well-known/brski/requestvoucher", body = "{\"a\":1}", type = "application/voucher-cms+json", ca; bool verify = false, withca = false; int port = -1; };
static Rq good() { Rq q; q.key = W.p("pledge.key"); q.cert = W.p("pledge.crt"); return q; }
static Script ok() { Script s; s.cert = &W.regtls.cert; s.key = &W.regtls.key; s.out = {"HTTP/1.1 200 OK\r\nContent-Length: 2\r\nContent-Type: text/plain\r\n\r\nhi"}; return s; }
static const char MARK[] = "as it was";
static Out call(const Rq &q, int port) { Out o; if (q.port >= 0) port = q.port; if (q.withca) { o.body = MARK; o.st = https_post_request_ca(q.key, q.cert, q.ca, q.host, port, q.path, q.body, q.type, o.body); } else { HttpResponse r; r.response = MARK; static char mark; r.peer_certificate = (CRYPTO_CERT)&mark; o.st = https_post_request(q.key, q.cert, q.host, port, q.path, q.verify, q.body, q.type, r); o.body = r.response; o.peersame = r.peer_certificate == (CRYPTO_CERT)&mark; o.peerset = r.peer_certificate && !o.peersame; if (o.peerset) { unsigned char *d = nullptr; int n = i2d_X509((X509 *)r.peer_certificate, &d); if (n > 0) o.peer.assign((char *)d, n); OPENSSL_free(d); crypto_free_certcontext(r.peer_certificate); } } return o; }
static Out run(Ctx &c, const Rq &q, const Script &s, Seen &seen) { Server v; v.start(s); Out o = call(q, v.p.n); v.stop(); seen = v.seen; c.eval(); c.transition(); c.validated(); return o; }
/* a failure changes nothing */
static void failed(Ctx &c, const Out &o, const Rq &q) { if (o.st != -1) c.fail("succeeds", "%s: the result is %d", c.w->note, o.st); if (o.body != MARK) c.fail("changed", "%s: failure, but the response is '%.60s'", c.w->note, o.body.c_str()); if (!q.withca && !o.peersame) c.fail("changed-certificate", "%s: failure, but the certificate is changed", c.w->note); }
static void answered(Ctx &c, const Out &o, const Rq &q, const Script &s, int st, const std::string &body) { if (o.st != st) c.fail("status", "%s: the result is %d, not %d", c.w->note, o.st, st); if (o.body != body) c.fail("body", "%s: a body of %zu bytes ('%.40s') is reported as %zu bytes ('%.40s')", c.w->note, body.size(), body.c_str(), o.body.size(), o.body.c_str()); if (!q.withca && (!o.peerset || o.peer != s.cert->der)) c.fail("certificate", "%s: the server's certificate is %s", c.w->note, o.peerset ? "reported as another one" : "not reported"); }
/* the request that was seen */
static void requested(Ctx &c, const Seen &s, const Rq &q, int port) {
  if (s.reqs != 1 || s.rest.size()) c.fail("requests", "%s: %d requests were sent, %zu bytes after the last", c.w->note, s.reqs, s.rest.size()); if (s.peer != W.pledge.cert.der) c.fail("client-certificate", "%s: the server is shown %s", c.w->note, s.peer.empty() ? "no certificate" : "another certificate"); size_t h = s.req.find("\r\n\r\n"); std::string hd = s.req.substr(0, h + 2), body = s.req.substr(h + 4); std::string l = hd.substr(0, hd.find("\r\n")); if (l != "POST " + q.path + " HTTP/1.1") c.fail("request-line", "%s: the request line is '%s'", c.w->note, l.c_str());
  std::multimap<std::string, std::string> m; for (size_t i = l.size() + 2; i < hd.size();) { size_t e = hd.find("\r\n", i); std::string x = hd.substr(i, e - i); i = e + 2; size_t k = x.find(": "); if (k == std::string::npos) c.fail("header-line", "%s: header '%s'", c.w->note, x.c_str()); m.emplace(net::lower(x.substr(0, k)), x.substr(k + 2)); }
  auto only = [&](const char *n, const std::string &v) { if (m.count(n) != 1 || m.find(n)->second != v) c.fail("request-header", "%s: %zu headers %s: '%s'", c.w->note, m.count(n), n, m.count(n) ? m.find(n)->second.c_str() : ""); }; only("host", q.host + ":" + std::to_string(port)); only("content-length", std::to_string(q.body.size())); if (q.type.size()) only("content-type", q.type); if (m.count("transfer-encoding")) c.fail("request-header", "%s: a transfer encoding", c.w->note); if (body != q.body) c.fail("request-body", "%s: a body of %zu bytes was sent as %zu", c.w->note, q.body.size(), body.size());
}
static std::vector<std::string> bodies() { std::string all; for (int i = 0; i < 256; i++) all += (char)i; std::string big; for (int i = 0; i < 200000; i++) big += (char)(i * 7 + i / 251); return {"", "x", "{\"ietf-voucher:voucher\":{}}", all, "a\r\n\r\nb", "\r\n", std::string(4096, 'q'), std::string(16384, 'q'), std::string(16385, 'r'), big}; }
static void fam_request(Ctx &c) {
  static const char *P[] = {"/.well-known/brski/requestvoucher", "/", "/x?a=b&c=d", "/a-b_c.d~e"}, *T[] = {"application/voucher-cms+json", "text/plain", "application/pkcs7-mime; smime-type=certs-only"}; static const char *HO[] = {"127.0.0.1", "localhost"}; auto B = bodies(); B.push_back(std::string(3000000, 'z')); int p = c.choose(4), t = c.choose(3), b = c.choose((int)B.size()), h = c.choose(2), f = c.choose(2), v = c.choose(2); if (!c.mine()) return; Rq q = good(); q.path = P[p]; q.type = T[t]; q.body = B[b]; q.host = HO[h]; q.withca = f; if (f) q.ca = W.dom.cert.pem; Script s = ok(); if (v) s.maxver = TLS1_2_VERSION;
  c.note("POST %s to %s, %s, body %d, %s", P[p], HO[h], T[t], b, f ? "with CA" : "without CA"); uint64_t k = comb(comb(p, t), comb(comb(b, h), f * 2 + v)); c.state(k); c.distinct(k); Seen n; Server sv; sv.start(s); Out o = call(q, sv.p.n); int port = sv.p.n; sv.stop(); n = sv.seen; c.eval(); c.transition(); c.validated(); answered(c, o, q, s, 200, "hi"); requested(c, n, q, port); if (n.conns != 1) c.fail("connections", "%s: %d connections", c.w->note, n.conns);
}
/* ---- trust */
enum { S_DOM, S_TWIN, S_OTHER, S_EXPIRED, S_SUB, S_SUBALONE, S_SELF, S_CA, S_LOOK, NS }; static const char *SN_[] = {"signed by the CA", "signed by its twin", "another, self-signed", "expired", "through an intermediate", "through an intermediate not sent", "self-signed end entity", "the CA itself", "signed by an end entity of the CA"};
static void srvcert(Script &s, int k) { const Id *i = k == S_DOM ? &W.regtls : k == S_TWIN ? &twinleaf : k == S_OTHER ? &W.other : k == S_EXPIRED ? &expired : k == S_SUB || k == S_SUBALONE ? &subleaf : k == S_SELF ? &selfsrv : k == S_CA ? &W.dom : &lookalike; s.cert = &i->cert; s.key = &i->key; if (k == S_SUB) s.chain = {&sub.cert}; if (k == S_LOOK) s.chain = {&W.regtls.cert}; }
static void fam_trust(Ctx &c) {
  static const char *CA[] = {"the CA", "the twin CA", "another CA", "the CA and another", "nothing", "garbage", "half a certificate", "a key", "the server's own certificate", "the intermediate alone", "the CA as text with remarks", "no call: verified by the system's CAs", "no call: not verified"}; static const char *SY[] = {"none", "another", "the CA", "the twin", "all"}; int ca = c.choose(13), k = c.choose(NS), sy = c.choose(5), ver = c.choose(2), ask = c.choose(2); if (!c.mine()) return;
  Script s = ok(); srvcert(s, k); if (ver) s.maxver = TLS1_2_VERSION; s.askcert = !ask; Rq q = good(); q.withca = ca < 11; q.verify = ca == 11; switch (ca) { case 0: q.ca = W.dom.cert.pem; break; case 1: q.ca = twindom.cert.pem; break; case 2: q.ca = W.other.cert.pem; break; case 3: q.ca = W.dom.cert.pem + W.other.cert.pem; break; case 5: q.ca = "-----BEGIN CERTIFICATE-----\ngarbage\n-----END CERTIFICATE-----\n"; break; case 6: q.ca = W.dom.cert.pem.substr(0, W.dom.cert.pem.size() / 2); break; case 7: q.ca = W.dom.key.pem; break; case 8: q.ca = s.cert->pem; break; case 9: q.ca = sub.cert.pem; break; case 10: q.ca = "a remark\n" + W.dom.cert.pem + "\nanother\n"; break; }
  static const char *SF[] = {"empty", "other.crt", "dom.crt", "twindom.crt", "all.crt"}; setenv("SSL_CERT_FILE", W.p(SF[sy]).c_str(), 1); setenv("SSL_CERT_DIR", W.p("dir").c_str(), 1); c.note("trusted: %s; the system trusts %s; the server's certificate: %s, TLS 1.%d%s", CA[ca], SY[sy], SN_[k], ver ? 2 : 3, ask ? ", no client certificate asked for" : ""); uint64_t h = comb(comb(ca, k), comb(comb(sy, ver), ask)); c.state(h); c.distinct(h);
  /* who vouches for the server: bit 0 the CA, 1 its twin, 2 the other, 3 its own certificate */
  int by = k == S_DOM || k == S_SUB || k == S_CA ? 1 : k == S_TWIN ? 2 : k == S_OTHER ? 4 : k == S_SELF ? 8 : 0; bool unspec = false, want = false; int trust = 0; switch (ca) { case 0: case 10: trust = 1; break; case 1: trust = 2; break; case 2: trust = 4; break; case 3: trust = 5; break; case 8: if (k == S_CA) trust = 1; else if (k == S_OTHER) trust = 4; else if (k == S_SELF) unspec = true; else unspec = k == S_DOM || k == S_SUB || k == S_SUBALONE || k == S_TWIN || k == S_LOOK; break; case 9: unspec = k == S_SUB || k == S_SUBALONE; break; case 11: trust = sy == 1 ? 4 : sy == 2 ? 1 : sy == 3 ? 2 : sy == 4 ? 7 : 0; break; case 12: trust = 15; by = 1; break; }
  want = by & trust; Seen n; Out o = run(c, q, s, n); if (unspec) return; if (want) { answered(c, o, q, s, 200, "hi"); if (n.reqs != 1) c.fail("requests", "%s: %d requests", c.w->note, n.reqs); c.user(1); } else { failed(c, o, q); if (n.reqs) c.fail("sent", "%s: a request was sent to a server that is not trusted", c.w->note); c.user(0); }
}
/* ---- answers */
static const struct { const char *line; int st; } SL[] = {{"HTTP/1.1 200 OK", 200}, {"HTTP/1.1 201 Created", 201}, {"HTTP/1.1 202 Accepted", 202}, {"HTTP/1.1 299 x", 299}, {"HTTP/1.1 301 Moved", 301}, {"HTTP/1.1 302 Found", 302}, {"HTTP/1.1 307 Temporary", 307}, {"HTTP/1.1 400 Bad Request", 400}, {"HTTP/1.1 401 Unauthorized", 401}, {"HTTP/1.1 404 Not Found", 404}, {"HTTP/1.1 407 Proxy", 407}, {"HTTP/1.1 500 x", 500}, {"HTTP/1.1 503 x", 503}, {"HTTP/1.1 599 x", 599}, {"HTTP/1.0 200 OK", 200}, {"HTTP/1.1 200 ", 200}, {"HTTP/1.1 200 a b c (d)", 200},
  {"HTTP/1.1 204 No Content", 204}, {"HTTP/1.1 304 Not Modified", 304}, {"garbage", -1}, {"", -1}, {"HTTP/2 200 OK", -1}, {"HTTP/1.1 abc OK", -1}, {"HTTP/1.1 20 OK", -1}, {"HTTP/1.1 2000 OK", -1}, {"HTTP/1.1", -1}, {"HTTP/1.1 -20 OK", -1}, {"200 OK", -1}, {"ICY 200 OK", -1}};
enum { NSL = sizeof SL / sizeof *SL };
static std::string chunked(const std::string &b, size_t k, const char *trailer = "") { std::string r; for (size_t i = 0; i < b.size(); i += k) { std::string p = b.substr(i, k); char h[20]; snprintf(h, sizeof h, "%zx\r\n", p.size()); r += h + p + "\r\n"; } return r + "0\r\n" + trailer + "\r\n"; }
static void fam_answers(Ctx &c) {
  auto B = bodies(); int l = c.choose(NSL), f = c.choose(6), b = c.choose((int)B.size()), e = c.choose(4), w = c.choose(2); if (!c.mine()) return; static const char *FR[] = {"length", "chunks of 7", "chunks of 5000", "until the end", "length after other headers", "after a 100 Continue"}; if (SL[l].st < 0 && (f > 1 || b > 1)) return; if ((SL[l].st == 204 || SL[l].st == 304) && b) return; if (f == 1 && B[b].size() > 20000) return; std::string hd = std::string(SL[l].line) + "\r\n", x; bool nobody = SL[l].st == 204 || SL[l].st == 304;
  if (f == 3 && e == HOLD) return; /* never ends */ if (!c.thorough && ((l > 2 && b > 3) || (w && f && l))) return; if (nobody && f) return; switch (f) { case 0: x = hd + (nobody ? "" : "Content-Length: " + std::to_string(B[b].size()) + "\r\n") + "\r\n" + B[b]; break; case 1: x = hd + "Transfer-Encoding: chunked\r\n\r\n" + chunked(B[b], 7); break; case 2: x = hd + "Transfer-Encoding: chunked\r\nContent-Type: text/plain\r\n\r\n" + chunked(B[b], 5000); break; case 3: x = hd + "\r\n" + B[b]; break; case 4: x = hd + "Server: x\r\nLocation: https://127.0.0.1:1/\r\nX-A: b\r\ncontent-length:" + std::to_string(B[b].size()) + "\r\nSet-Cookie: a=b\r\nContent-Type: application/json\r\n\r\n" + B[b]; break; case 5: x = "HTTP/1.1 100 Continue\r\n\r\n" + hd + "Content-Length: " + std::to_string(B[b].size()) + "\r\n\r\n" + B[b]; break; }
  Rq q = good(); q.withca = w; if (w) q.ca = W.dom.cert.pem; Script s = ok(); s.out = {x}; s.end = (End)e; c.note("'%s' with a body of %zu bytes, %s, then %s", SL[l].line, B[b].size(), FR[f], e == NOTICE ? "the end" : e == ABRUPT ? "the end without notice" : e == RESET ? "a reset" : "nothing"); uint64_t h = comb(comb(l, f), comb(comb(b, e), w)); c.state(h); c.distinct(h); Seen n; Out o = run(c, q, s, n); if (n.reqs > 1 || n.conns > 1) c.fail("requests", "%s: %d requests over %d connections", c.w->note, n.reqs, n.conns);
  bool reset = e == RESET, until = f == 3 && !nobody; if (SL[l].st < 0) { if (SL[l].line == std::string("HTTP/1.1") && o.st >= 0) return; failed(c, o, q); c.user(0); return; } if (o.st < 0 && reset) { failed(c, o, q); return; } /* a reset may overtake the answer */ if (until && e != NOTICE) { if (o.st < 0) failed(c, o, q); return; } /* the end is not certain */ answered(c, o, q, s, SL[l].st, B[b]); c.user(1);
}
/* a good answer cut off at each byte, and in two pieces at each byte */
static const char *FULL[] = {"HTTP/1.1 200 OK\r\nContent-Length: 11\r\nContent-Type: text/plain\r\n\r\nhello world", "HTTP/1.1 200 OK\r\nTransfer-Encoding: chunked\r\nContent-Type: text/plain\r\n\r\n5\r\nhello\r\n6\r\n world\r\n0\r\n\r\n", "HTTP/1.1 404 Not Found\r\nX: y\r\nContent-Length: 11\r\n\r\nhello world", "HTTP/1.1 100 Continue\r\n\r\nHTTP/1.1 200 OK\r\nContent-Length: 11\r\n\r\nhello world"};
static void fam_cut(Ctx &c) {
  int a = c.choose(4), e = c.choose(3), w = c.choose(2); std::string x = FULL[a]; int at = c.choose((int)x.size()); if (!c.mine()) return; Rq q = good(); q.withca = w; if (w) q.ca = W.dom.cert.pem; Script s = ok(); s.out = {x.substr(0, at)}; s.end = (End)e; c.note("answer %d cut off after %d of %zu bytes by %s", a, at, x.size(), e == NOTICE ? "a proper end" : e == ABRUPT ? "an abrupt end" : "a reset"); uint64_t h = comb(comb(51, a), comb(comb(at, e), w)); c.state(h); c.distinct(h); Seen n; Out o = run(c, q, s, n); if (n.reqs > (at ? 1 : 2)) c.fail("requests", "%s: %d requests", c.w->note, n.reqs);
  bool lasteol = a == 1 && at >= (int)x.size() - 4; if (lasteol && o.st == 200 && o.body == "hello world") return; failed(c, o, q);
}
static void fam_pieces(Ctx &c) {
  int a = c.choose(4), w = c.choose(2), g = c.choose(2); std::string x = FULL[a]; int at = c.choose((int)x.size()); if (!c.mine()) return; Rq q = good(); q.withca = w; if (w) q.ca = W.dom.cert.pem; Script s = ok(); s.gap = g ? 0.002 : 0; s.out = {x.substr(0, at), x.substr(at)}; if (!at) { s.out.clear(); for (char ch : x) s.out.push_back(std::string(1, ch)); s.gap = 0; } c.note("answer %d in two pieces at byte %d", a, at); uint64_t h = comb(comb(52, a), comb(comb(at, g), w)); c.state(h); c.distinct(h); Seen n; Out o = run(c, q, s, n); answered(c, o, q, s, a == 2 ? 404 : 200, "hello world");
  if (c.thorough && at) for (size_t b = at + 1; b < x.size(); b++) { s.out = {x.substr(0, at), x.substr(at, b - at), x.substr(b)}; o = run(c, q, s, n); answered(c, o, q, s, a == 2 ? 404 : 200, "hello world"); c.w->beat++; }
}
/* malformed answers and transports */
static void fam_bad(Ctx &c) {
  static const struct { const char *name; int kind; const char *text; } X[] = {{"short body", -1, "HTTP/1.1 200 OK\r\nContent-Length: 100\r\n\r\nhello"}, {"huge length", -1, "HTTP/1.1 200 OK\r\nContent-Length: 18446744073709551615\r\n\r\nhello"}, {"bad chunk size", -1, "HTTP/1.1 200 OK\r\nTransfer-Encoding: chunked\r\n\r\nzz\r\nhello\r\n0\r\n\r\n"}, {"huge chunk", -1, "HTTP/1.1 200 OK\r\nTransfer-Encoding: chunked\r\n\r\nffffffffffffffff\r\nhello"}, {"chunk without end", -1, "HTTP/1.1 200 OK\r\nTransfer-Encoding: chunked\r\n\r\n5\r\nhelloworld\r\n0\r\n\r\n"}, {"bytes after the body", 1, "HTTP/1.1 200 OK\r\nContent-Length: 5\r\n\r\nhelloHTTP/1.1 404 x\r\n\r\n"}, {"two answers", 1, "HTTP/1.1 200 OK\r\nContent-Length: 5\r\n\r\nhelloHTTP/1.1 200 OK\r\nContent-Length: 5\r\n\r\nworld"}, {"length in words", 0, "HTTP/1.1 200 OK\r\nContent-Length: five\r\n\r\nhello"}, {"negative length", 0, "HTTP/1.1 200 OK\r\nContent-Length: -5\r\n\r\nhello"}, {"two lengths", 0, "HTTP/1.1 200 OK\r\nContent-Length: 5\r\nContent-Length: 3\r\n\r\nhello"}, {"bare line feeds", 0, "HTTP/1.1 200 OK\nContent-Length: 5\n\nhello"}, {"unknown encoding", 0, "HTTP/1.1 200 OK\r\nContent-Encoding: gzip\r\nContent-Length: 5\r\n\r\nhello"}, {"trailers", 1, "HTTP/1.1 200 OK\r\nTransfer-Encoding: chunked\r\n\r\n5\r\nhello\r\n0\r\n\r\n"}, {"chunk extension", 0, "HTTP/1.1 200 OK\r\nTransfer-Encoding: chunked\r\n\r\n5;a=b\r\nhello\r\n0\r\n\r\n"}, {"no answer", -1, ""}, {"a line without end", -1, "HTTP/1.1 200 OK"},
    {"a long reason", 2, nullptr}, {"a long reason after 100 Continue", 7, nullptr}, {"a long line", 3, nullptr}, {"a long header", 4, nullptr}, {"many headers", 5, nullptr}, {"NUL bytes", 6, nullptr}, {"closed at once", 11, nullptr}, {"no TLS", 12, nullptr}, {"reset at once", 13, nullptr}, {"closed after the handshake", 14, nullptr}, {"answer first", 15, nullptr}, {"reset while sending", 16, nullptr}, {"nobody listens", 20, nullptr}, {"no such host", 21, nullptr}, {"empty host", 22, nullptr}, {"silence", 23, nullptr}};
  int n = sizeof X / sizeof *X, i = c.choose(n), w = c.choose(2), e = c.choose(2); if (!c.mine()) return; Rq q = good(); q.withca = w; if (w) q.ca = W.dom.cert.pem; Script s = ok(); int k = X[i].kind; if (e && (k > 10 || k == -1)) { if (k > 10) return; } s.end = e ? ABRUPT : NOTICE; c.note("%s%s", X[i].name, e ? ", ended abruptly" : ""); uint64_t h = comb(comb(53, i), w * 2 + e); c.state(h); c.distinct(h); Seen sn; Out o;
  if (X[i].text) s.out = {X[i].text}; if (k == 2) s.out = {"HTTP/1.1 200 " + std::string(400000, 'r') + "\r\nContent-Length: 2\r\n\r\nhi"}; if (k == 7) s.out = {"HTTP/1.1 100 Continue\r\n\r\nHTTP/1.1 200 " + std::string(400000, 'r') + "\r\nContent-Length: 2\r\n\r\nhi"}; if (k == 3) s.out = {std::string(400000, 'r') + "\r\n\r\n"}; if (k == 4) s.out = {"HTTP/1.1 200 OK\r\nX-A: " + std::string(400000, 'r') + "\r\nContent-Length: 2\r\n\r\nhi"}; if (k == 5) { std::string x = "HTTP/1.1 200 OK\r\n"; for (int j = 0; j < 5000; j++) x += "X-" + std::to_string(j) + ": y\r\n"; s.out = {x + "Content-Length: 2\r\n\r\nhi"}; } if (k == 6) s.out = {std::string("HTTP/1.1 200 OK\0\r\nContent-Length: 2\r\n\r\nhi", 40)};
  if (k >= 11 && k <= 16) s.early = k - 10; if (k == 16) q.body = std::string(3000000, 'z'); if (k == 20 || k == 21 || k == 22) { net::Port p; p.open(); if (k == 21) q.host = "no such host"; if (k == 22) q.host = ""; o = call(q, p.n); c.eval(); c.transition(); c.validated(); failed(c, o, q); return; } if (k == 23) { s.out.clear(); s.end = HOLD; }
  o = run(c, q, s, sn); if (sn.reqs > (X[i].text && !*X[i].text ? 2 : 1)) c.fail("requests", "%s: %d requests", c.w->note, sn.reqs); if (k == -1 || (k >= 11 && k <= 14) || k == 16 || k == 23 || k == 3) failed(c, o, q); else if (k == 1) answered(c, o, q, s, 200, "hello"); else if (o.st < 0) failed(c, o, q);
}
/* the client's own certificate and key */
static void fam_client(Ctx &c) {
  static const char *CE[] = {"pledge.crt", "missing.crt", "empty", "garbage", "dir", "half.crt", "pledge.key"}, *KE[] = {"pledge.key", "missing.crt", "empty", "garbage", "dir", "other.key", "pledge.crt"}; int ce = c.choose(7), ke = c.choose(7), w = c.choose(2); if (!c.mine()) return; Rq q = good(); q.cert = W.p(CE[ce]); q.key = W.p(KE[ke]); q.withca = w; if (w) q.ca = W.dom.cert.pem; c.note("client certificate %s, key %s", CE[ce], KE[ke]); uint64_t h = comb(54, comb(ce * 7 + ke, w)); c.state(h); c.distinct(h); Script s = ok(); Seen n; Out o = run(c, q, s, n); if (!ce && !ke) answered(c, o, q, s, 200, "hi"); else { failed(c, o, q); if (n.reqs) c.fail("sent", "%s: a request was sent", c.w->note); }
}
/* two requests after each other do not affect each other */
static void fam_two(Ctx &c) {
  int a = c.choose(5), b = c.choose(5), w = c.choose(4); if (!c.mine()) return; c.note("request of kind %d after one of kind %d", b, a); uint64_t h = comb(55, comb(a * 5 + b, w)); c.state(h); c.distinct(h); for (int i = 0; i < 2; i++) { int k = i ? b : a; Rq q = good(); q.withca = (w >> i) & 1; if (q.withca) q.ca = k == 3 ? twindom.cert.pem : W.dom.cert.pem; Script s = ok(); if (k == 1) s.out = {"HTTP/1.1 404 x\r\nContent-Length: 3\r\n\r\nnot"}; if (k == 2) s.out = {"HTTP/1.1 200 OK\r\nContent-Length: 30\r\n\r\nhi"}; if (k == 4) s.cert = &W.other.cert, s.key = &W.other.key; Seen n; Out o = run(c, q, s, n); bool bad = k == 2 || (q.withca && k >= 3); if (bad) failed(c, o, q); else answered(c, o, q, s, k == 1 ? 404 : 200, k == 1 ? "not" : "hi"); }
}
/* every length class of the request body and of the answer */
static void fam_sizes(Ctx &c) {
  auto &sz = mc::sizes(c.thorough); size_t n = sz[c.choose((int)sz.size())]; int k = c.choose(6); if (!c.mine()) return; static const char *KN[] = {"request body", "answer with its length", "answer until the end", "answer in chunks of 1000", "answer in one chunk", "remarks in front of the trusted CA"}; std::string b(n, 0); for (size_t i = 0; i < n; i++) b[i] = (char)(i * 7 + i / 251); c.note("%s: %zu bytes", KN[k], n); uint64_t h = comb(comb(5551, n), k); c.state(h); c.distinct(h);
  Rq q = good(); q.withca = k == 5 || n & 1; if (q.withca) q.ca = W.dom.cert.pem; if (k == 5) { std::string r; while (r.size() < n) r += std::string(std::min<size_t>(59, n - r.size() - 1), 'r') + "\n"; q.ca = r + q.ca; } Script s = ok(); const std::string hd = "HTTP/1.1 200 OK\r\n"; if (k == 0) q.body = b; if (k == 1) s.out = {hd + "Content-Length: " + std::to_string(n) + "\r\n\r\n" + b}; if (k == 2) s.out = {hd + "\r\n" + b}; if (k == 3 || k == 4) s.out = {hd + "Transfer-Encoding: chunked\r\n\r\n" + chunked(b, k == 3 ? 1000 : n)};
  Server sv; Seen seen; sv.start(s); Out o = call(q, sv.p.n); int port = sv.p.n; sv.stop(); seen = sv.seen; c.eval(); c.transition(); c.validated(); answered(c, o, q, s, 200, k && k < 5 ? b : "hi"); requested(c, seen, q, port);
}
typedef void (*Fam)(Ctx &); static const Fam FAM[] = {fam_request, fam_trust, fam_answers, fam_cut, fam_pieces, fam_bad, fam_client, fam_two, fam_sizes};
static void body(Ctx &c) { const char *only = getenv("C26_ONLY"); int f = c.choose(sizeof FAM / sizeof *FAM); if (only && atoi(only) != f) return; unsetenv("SSL_CERT_FILE"); setenv("SSL_CERT_DIR", W.p("dir").c_str(), 1); setenv("SSL_CERT_FILE", W.p("empty").c_str(), 1); FAM[f](c); }
static void init() {
  W.make(); twindom = id("twindom", cn("domain"), nullptr, 1, 1); twinleaf = id("twinleaf", cn("registrar tls"), &twindom, 0, 9); sub = id("sub", cn("domain sub ca"), &W.dom, 1, 41); subleaf = id("subleaf", cn("leaf"), &sub, 0, 42); selfsrv = id("selfsrv", cn("registrar tls"), nullptr, 0, 44); lookalike = id("lookalike", cn("leaf of a leaf"), &W.regtls, 0, 45); expired.key = ec("expired"); Spec s; s.subject = cn("expired"); s.key = &expired.key; s.ca = &W.dom.cert; s.by = &W.dom.key; s.isca = 0; s.serial = 43; s.from = -864000; s.to = -86400; expired.cert = cert(s); W.files(DIR); write(W.p("twindom.crt"), twindom.cert.pem); write(W.p("all.crt"), W.dom.cert.pem + W.other.cert.pem + twindom.cert.pem);
}
int main(int argc, char **argv) { signal(SIGPIPE, SIG_IGN); for (int i = 1; i + 1 < argc; i++) if (!strcmp(argv[i], "--scratch")) DIR = std::string(argv[i + 1]) + "/site"; if (DIR.empty()) return 3; mkdir(DIR.c_str(), 0700); quiet_logs(); init(); Opts o; o.worker_init = quiet_logs; o.settle = pki::settle; o.case_timeout = 120; return mc::run(argc, argv, body, o); }
