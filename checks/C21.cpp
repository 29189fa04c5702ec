/* C21: the real servers over loopback TLS: every method and path of an alphabet, request and response framings, client certificates,
 * connection histories, servers that cannot start, and the whole protocol between the real client and the real servers */
#include <functional>
#define SRV_NO_STUB
#include "mc.hpp"
#include "servers.hpp"
#include "net.hpp"
#include "sizes.hpp"
#include <stdexcept>
#include "brski/http/https_server.hpp"
#include "brski/masa/masa_server.hpp"
#include "brski/registrar/registrar_server.hpp"
#include "brski/pledge/pledge_request.hpp"
using mc::Ctx; using mc::Opts; using mc::comb; using mc::fnvs; using namespace srv; using net::Conn; using net::Resp;
static Site W; static Id regtls2, twinreg, selfmade, expired, sub, subleaf; static std::string DIR, LOGF;
extern "C" { FILE *__real_fopen(const char *, const char *); FILE *__wrap_fopen(const char *p, const char *m) { if (p && !strncmp(p, "/var/log/", 9)) return __real_fopen(LOGF.c_str(), m); return __real_fopen(p, m); } }
/* ---- the servers */
enum { MASA, REG, OWN, NSRV }; static const char *SN[] = {"MASA", "registrar", "server"};
struct Route { std::string m, p; Handler h; };
static std::vector<Route> routes(int k) {
  if (k == MASA) return {{"POST", "/.well-known/brski/requestvoucher", masa_requestvoucher}, {"POST", "/.well-known/brski/voucher_status", masa_voucher_status}, {"POST", "/.well-known/brski/requestauditlog", masa_requestauditlog}, {"POST", "/.well-known/brski/enrollstatus", masa_enrollstatus}, {"GET", "/.well-known/est/cacerts", get_est_cacerts},
    {"POST", "/.well-known/est/simpleenroll", post_est_simpleenroll}, {"POST", "/.well-known/est/simplereenroll", post_est_simplereenroll}, {"POST", "/.well-known/est/fullcmc", post_est_fullcmc}, {"POST", "/.well-known/est/serverkeygen", post_est_serverkeygen}, {"GET", "/.well-known/est/csrattrs", get_est_csrattrs}};
  if (k == REG) return {{"POST", "/.well-known/brski/requestvoucher", registrar_requestvoucher}, {"POST", "/.well-known/brski/voucher_status", registrar_voucher_status}, {"POST", "/.well-known/brski/requestauditlog", registrar_requestauditlog}, {"POST", "/.well-known/brski/enrollstatus", registrar_enrollstatus}, {"POST", "/.well-known/est/simpleenroll", registrar_est_simpleenroll}};
  return {};
}
/* routes of a server of our own: what a handler sees and answers */
static const char *MN[] = {"GET", "HEAD", "POST", "PUT", "DELETE", "CONNECT", "OPTIONS", "TRACE", "PATCH", "PRI"};
static std::string hex(const bytes &b) { static const char *d = "0123456789abcdef"; std::string r; for (unsigned char ch : b) r += d[ch >> 4], r += d[ch & 15]; return r; }
static const char *LIT[] = {"/a.b", "/a+b", "/a*", "/a?b", "/(a)", "/[a]", "/a|b", "/^a$", "/{a}", "/a\\d", "/:a", "/a/:b", "/(", "/["};
enum { NLIT = sizeof LIT / sizeof *LIT };
struct Want { int status; std::string type, extra, body; };
static std::vector<Want> WANT; /* answers of /any, by the number in the request's body */
static int own_ctx;
static std::vector<RouteTuple> own_routes() {
  std::vector<RouteTuple> r;
  for (int m = 0; m < 10; m++) { std::string n = MN[m];
    r.push_back({"/m/" + n, (HTTP_METHOD)m, [n](const RequestHeader &, const std::string &b, CRYPTO_CERT, ResponseHeader &h, std::string &o, void *c) { h["Content-Type"] = "text/x-m"; o = n + ":" + b + (c == &own_ctx ? "" : " context"); return 200; }});
    r.push_back({"/every", (HTTP_METHOD)m, [n](const RequestHeader &, const std::string &b, CRYPTO_CERT, ResponseHeader &h, std::string &o, void *) { h["Content-Type"] = "text/x-m"; o = n + "=" + b; return 201; }});
    r.push_back({"/any", (HTTP_METHOD)m, [](const RequestHeader &q, const std::string &b, CRYPTO_CERT, ResponseHeader &h, std::string &o, void *) { auto i = q.find("X-Want"); size_t k = i == q.end() ? (size_t)-1 : strtoul(i->second.c_str(), nullptr, 10); (void)b; if (k >= WANT.size()) return 500; const Want &w = WANT[k]; if (w.type.size()) h["Content-Type"] = w.type; if (w.extra.size()) h["X-Extra"] = w.extra; o = w.body; return w.status; }});
    r.push_back({"/throw", (HTTP_METHOD)m, [](const RequestHeader &q, const std::string &, CRYPTO_CERT, ResponseHeader &h, std::string &o, void *) -> int { auto i = q.find("X-Want"); int k = i == q.end() ? 0 : atoi(i->second.c_str()); h["Content-Type"] = "application/json"; o = "half"; switch (k) { case 0: throw std::runtime_error("what it says"); case 1: throw 42; case 2: throw std::runtime_error(""); case 3: throw std::runtime_error("a\r\nX-Extra: b\r\n\r\nc"); case 4: throw std::runtime_error(std::string(20000, 'w')); case 5: throw std::out_of_range("%s%n"); default: throw std::bad_alloc(); } }}); }
  r.push_back({"/echo", HTTP_METHOD_POST, [](const RequestHeader &, const std::string &b, CRYPTO_CERT, ResponseHeader &h, std::string &o, void *) { h["Content-Type"] = "application/octet-stream"; o = b; return 200; }});
  r.push_back({"/seen", HTTP_METHOD_GET, [](const RequestHeader &q, const std::string &, CRYPTO_CERT, ResponseHeader &h, std::string &o, void *) { h["Content-Type"] = "text/plain"; for (auto &i : q) o += i.first + "=" + i.second + "\n"; return 200; }});
  r.push_back({"/cert", HTTP_METHOD_GET, [](const RequestHeader &, const std::string &, CRYPTO_CERT p, ResponseHeader &h, std::string &o, void *) { h["Content-Type"] = "text/plain"; unsigned char *d = nullptr; int n = p ? i2d_X509((X509 *)p, &d) : 0; o = n > 0 ? hex(bytes((char *)d, n)) : "none"; OPENSSL_free(d); return 200; }});
  for (int i = 0; i < NLIT; i++) r.push_back({LIT[i], HTTP_METHOD_GET, [i](const RequestHeader &, const std::string &, CRYPTO_CERT, ResponseHeader &h, std::string &o, void *) { h["Content-Type"] = "text/plain"; o = "lit" + std::to_string(i); return 200; }});
  return r;
}
struct Server { net::Port port; net::Srv s; Conf *conf = nullptr; int kind = -1; bool fresh = false;
  /* the configuration lives as long as the server */
  void start(Ctx &c, int k, int mport = 0) {
    stop(); kind = k; if (!port.open()) pki::die("port"); conf = new Conf(W); conf->r.tls_ca_cert_path = conf->str(W.p("dom.crt")); if (k == MASA) conf->m.bind_address = conf->str("127.0.0.1"), conf->m.port = port.n; else { conf->r.port = port.n; conf->m.bind_address = conf->str("127.0.0.1"); conf->m.port = mport ? mport : 1; if (k == REG) conf->r.tls_ca_cert_path = conf->str(W.p("ldevid.crt")); }
    Conf *f = conf; unsigned pn = port.n; s.run(c.scratch + "/srv" + std::to_string(c.wi) + ".log", [k, f, pn]() -> int { if (k == MASA) { MasaContext *x = nullptr; return masa_start(&f->r, &f->m, nullptr, &x); } if (k == REG) { RegistrarContext *x = nullptr; return registrar_start(&f->r, &f->m, &x); }
      auto r = own_routes(); http_config h = {}; h.bind_address = f->r.bind_address; h.port = pn; h.tls_cert_path = f->r.tls_cert_path; h.tls_key_path = f->r.tls_key_path; void *x = nullptr; return https_start(&h, r, &own_ctx, &x); });
    if (!s.up(port.n)) { std::string t = s.tail(); bool b = s.returned; stop(); c.fail("no-start", "%s: the %s does not start (%s): %s", c.w->note, SN[k], b ? "it gave up" : "nobody listens", t.c_str()); }
  }
  void stop() { s.stop(); port.close(); delete conf; conf = nullptr; kind = -1; }
  ~Server() { stop(); }
};
static Server KEPT[NSRV];
static Server &kept(Ctx &c, int k) { Server &s = KEPT[k]; if (s.kind < 0 || !s.s.alive() || s.s.returned) s.start(c, k); return s; }
static void living(Ctx &c, Server &s) { net::nap(0); if (!s.s.alive() || s.s.returned) { std::string t = s.s.tail(); bool r = s.s.returned; int st = s.s.st; s.stop(); c.fail("server-ended", "%s: the server %s: %s", c.w->note, r ? "stopped serving" : ("process ended with status " + std::to_string(st)).c_str(), t.c_str()); } }
/* ---- clients */
enum { C_REG, C_PLEDGE, C_NONE, C_SELF, C_TWIN, C_OTHER, C_EXPIRED, C_SUB, C_SUBNOCHAIN, C_DOM, C_LDEVID, NCL }; static const char *CN_[] = {"registrar", "pledge", "no certificate", "self-signed", "signed by a twin of the CA", "another CA", "expired", "through an intermediate", "intermediate not sent", "the domain CA", "the LDevID CA"};
static SSL_CTX *CL[NCL], *CL12;
static const Cert *clcert(int k) { switch (k) { case C_REG: return &W.regtls.cert; case C_PLEDGE: return &W.pledge.cert; case C_SELF: return &selfmade.cert; case C_TWIN: return &twinreg.cert; case C_OTHER: return &W.other.cert; case C_EXPIRED: return &expired.cert; case C_SUB: case C_SUBNOCHAIN: return &subleaf.cert; case C_DOM: return &W.dom.cert; case C_LDEVID: return &W.ldevid.cert; default: return nullptr; } }
static int who(int k) { return k == MASA ? C_REG : C_PLEDGE; }
static void clients() { CL[C_REG] = net::client(&W.regtls.cert, &W.regtls.key); CL[C_PLEDGE] = net::client(&W.pledge.cert, &W.pledge.key); CL[C_NONE] = net::client(nullptr, nullptr); CL[C_SELF] = net::client(&selfmade.cert, &selfmade.key); CL[C_TWIN] = net::client(&twinreg.cert, &twinreg.key); CL[C_OTHER] = net::client(&W.other.cert, &W.other.key);
  CL[C_EXPIRED] = net::client(&expired.cert, &expired.key); CL[C_SUB] = net::client(&subleaf.cert, &subleaf.key, {&sub.cert}); CL[C_SUBNOCHAIN] = net::client(&subleaf.cert, &subleaf.key); CL[C_DOM] = net::client(&W.dom.cert, &W.dom.key); CL[C_LDEVID] = net::client(&W.ldevid.cert, &W.ldevid.key); CL12 = net::client(&W.regtls.cert, &W.regtls.key, {}, TLS1_2_VERSION); }
static std::string req(const std::string &m, const std::string &p, const std::string &b = "", const std::string &h = "", bool len = true) { std::string r = m + " " + p + " HTTP/1.1\r\nHost: localhost\r\n" + h; if (len && (b.size() || m == "POST" || m == "PUT" || m == "PATCH" || m == "DELETE" || m == "PRI")) r += "Content-Length: " + std::to_string(b.size()) + "\r\n"; return r + "\r\n" + b; }
/* what every answer must look like */
static void formed(Ctx &c, const Resp &r, const char *w) {
  if (!r.ok) c.fail("no-answer", "%s: %s: no proper answer: %s (got '%.80s')", c.w->note, w, r.why.c_str(), r.raw.c_str());
  if (r.status < 100 || r.status > 599 || r.version.compare(0, 7, "HTTP/1.")) c.fail("status-line", "%s: %s: answered %s %d", c.w->note, w, r.version.c_str(), r.status);
  auto t = r.all("content-type"); if (t.size() > 1) c.fail("two-types", "%s: %s: status %d with %zu content types: %s, %s", c.w->note, w, r.status, t.size(), t[0].c_str(), t[1].c_str());
  if (r.body.size() && t.empty()) c.fail("no-type", "%s: %s: status %d with a body and no content type", c.w->note, w, r.status);
  if (r.status >= 400 && t.size() && t[0].compare(0, 10, "text/plain")) c.fail("error-type", "%s: %s: error %d as %s", c.w->note, w, r.status, t[0].c_str());
}
static void refused(Ctx &c, const Resp &r, const char *w, std::initializer_list<int> st, bool headreq = false) {
  formed(c, r, w); bool in = false; for (int s : st) in |= s == r.status; if (!in) c.fail("error-status", "%s: %s: status %d", c.w->note, w, r.status);
  if (!headreq && r.body != HTTP_ERROR_REPLY) c.fail("error-body", "%s: %s: status %d with the body '%.60s'", c.w->note, w, r.status, r.body.c_str()); if (!headreq && r.all("content-type").empty()) c.fail("no-type", "%s: %s: status %d without a content type", c.w->note, w, r.status);
}
static std::map<std::string, Got> DIRECT;
static void served(Ctx &c, Server &s, const Resp &r, const Route &t, const std::string &body, int cl, const char *w) {
  formed(c, r, w); std::string key = SN[s.kind] + t.m + t.p + "|" + body + "|" + std::to_string(cl); auto i = DIRECT.find(key); if (i == DIRECT.end()) i = DIRECT.emplace(key, ask(t.h, s.kind == MASA ? (void *)&s.conf->mc : (void *)&s.conf->rc, body, clcert(cl))).first; const Got &g = i->second;
  if (r.status != g.status) c.fail("served-status", "%s: %s: status %d, the handler says %d", c.w->note, w, r.status, g.status); std::string ex = g.body.empty() && g.status >= 400 ? HTTP_ERROR_REPLY : g.body;
  if (r.body != ex) c.fail("served-body", "%s: %s: the body is '%.80s', the handler says '%.80s'", c.w->note, w, r.body.c_str(), ex.c_str()); auto ty = r.all("content-type"); std::string ext = g.status >= 400 ? "text/plain" : g.type(); if (ty.size() != 1 || ty[0] != ext) c.fail("served-type", "%s: %s: the content type is '%s', the handler says '%s'", c.w->note, w, ty.empty() ? "" : ty[0].c_str(), ext.c_str());
}
/* one good request on a connection of its own */
static double good(Ctx &c, Server &s, const char *w, SSL_CTX *cl = nullptr) {
  auto R = routes(s.kind); double t = net::now(); Conn k; k.tmo = 25; std::string b = "{\"a\":1}"; if (!cl) cl = CL[who(s.kind)];
  if (!k.open(s.port.n, cl)) { living(c, s); c.fail("no-service", "%s: %s: the connection fails", c.w->note, w); }
  if (s.kind == OWN) { if (!k.send(req("POST", "/echo", b, "Connection: close\r\n"))) c.fail("no-service", "%s: %s: the request can't be sent", c.w->note, w); Resp r = k.get(); living(c, s); formed(c, r, w); if (r.status != 200 || r.body != b) c.fail("no-service", "%s: %s: answered %d '%.60s'", c.w->note, w, r.status, r.body.c_str()); return net::now() - t; }
  const Route &g = R[1]; if (!k.send(req(g.m, g.p, b, "Connection: close\r\n"))) { living(c, s); c.fail("no-service", "%s: %s: the request can't be sent", c.w->note, w); } Resp r = k.get(); if (!r.ok) living(c, s); served(c, s, r, g, b, who(s.kind), w); c.transition(); return net::now() - t;
}
/* ---- routes: every method with every documented path and everything one edit away from it */
static const char *METH[] = {"GET", "POST", "HEAD", "PUT", "DELETE", "OPTIONS", "PATCH", "TRACE", "CONNECT", "PRI", "FOO", "get", "Post", "POSTX", "POS", ""};
enum { NMETH = sizeof METH / sizeof *METH };
static std::vector<std::string> edits(const std::string &p, bool wide, bool thorough) {
  std::vector<std::string> v; auto add = [&](std::string s) { if (s.size() && s[0] == '/') v.push_back(s); }; add(p); add(p + "/"); add(p + "/x"); add(p + "//"); add("/" + p); add(p + p); add(p + ".html"); add(p + "%00"); add(p + "%20"); add(p + "%0a"); add("/"); add("/x"); add("/.well-known"); add("/.well-known/"); add("/.well-known/brski"); add("/.well-known/est/"); add("/../" + p); add("/x/.." + p); add("/./" + p.substr(1)); add(p + "/."); add(p + "/../requestvoucher"); add(p + ";x=1"); add("/*");
  if (!wide) return v;
  std::string sub = "X./%0"; if (thorough) { sub.clear(); for (char ch = 33; ch < 127; ch++) if (ch != '?' && ch != '#') sub += ch; }
  for (size_t i = 0; i < p.size(); i++) { std::string a = p; a.erase(i, 1); add(a); a = p; a[i] = (char)(a[i] >= 'a' && a[i] <= 'z' ? a[i] - 32 : a[i] ^ 1); if (isprint(a[i]) && a[i] != ' ' && a[i] != '#' && a[i] != '?') add(a); add(p.substr(0, i)); for (char ch : sub) { a = p; if (a[i] != ch) { a[i] = ch; add(a); } a = p; a.insert(i, 1, ch); add(a); } if (i + 1 < p.size() && p[i] != p[i + 1]) { a = p; std::swap(a[i], a[i + 1]); add(a); } }
  return v;
}
static std::string decoded(const std::string &p) { std::string o; for (size_t i = 0; i < p.size(); i++) { auto h = [](char ch) { return ch >= '0' && ch <= '9' ? ch - '0' : ch >= 'a' && ch <= 'f' ? ch - 'a' + 10 : ch >= 'A' && ch <= 'F' ? ch - 'A' + 10 : -1; }; if (p[i] == '%' && i + 2 < p.size() && h(p[i + 1]) >= 0 && h(p[i + 2]) >= 0) { o += (char)(h(p[i + 1]) * 16 + h(p[i + 2])); i += 2; } else o += p[i]; } return o; }
static void fam_routes(Ctx &c) {
  int k = c.choose(2, "server"), m = c.choose(NMETH, "method"); auto R = routes(k); int b = c.choose((int)R.size(), "path"); if (!c.mine()) return; std::string M = METH[m]; Server &s = kept(c, k); int cl = who(k);
  c.note("%s: method '%s', paths around %s", SN[k], METH[m], R[b].p.c_str()); auto P = edits(R[b].p, m < 2 || c.thorough, c.thorough); Conn con; int used = 0; bool parse = M == "GET" || M == "POST" || M == "HEAD" || M == "PUT" || M == "DELETE" || M == "OPTIONS" || M == "PATCH"; bool hasbody = M == "POST" || M == "PUT" || M == "DELETE" || M == "PATCH";
  for (auto &p : P) { c.w->beat++; if (!used) { con.close(); if (!con.open(s.port.n, CL[cl])) { living(c, s); c.fail("no-service", "%s: the connection fails", c.w->note); } }
    std::string body = hasbody ? "x" : ""; bool last = used == 4 || !parse; con.send(req(M, p, body, last ? "Connection: close\r\n" : "")); Resp r = con.get(M == "HEAD"); used = last ? 0 : used + 1; c.eval(); c.transition(); if (!r.ok) living(c, s); std::string wn = M + " " + p; const char *w = wn.c_str();
    const Route *hit = nullptr, *path = nullptr, *dec = nullptr; for (auto &t : R) { if (t.p == p) { path = &t; if (t.m == M) hit = &t; } if (t.p != p && t.p == decoded(p)) dec = &t; } c.distinct(comb(fnvs(wn), k)); c.state(comb(comb(hit ? 1 : path ? 2 : dec ? 3 : 4, m), k)); c.validated();
    if (!parse) { refused(c, r, w, {400, 404, 405, 501}); continue; }
    if (M == "HEAD") { formed(c, r, w); if (con.in.size()) c.fail("head-body", "%s: %s: bytes follow the answer", c.w->note, w); bool g = path && path->m == "GET"; if (!(r.status == 404 || r.status == 405 || ((g || dec) && r.status == 503))) c.fail("error-status", "%s: %s: status %d", c.w->note, w, r.status); continue; }
    if (hit) served(c, s, r, *hit, body, cl, w); else if (dec && dec->m == M && r.status != 404) served(c, s, r, *dec, body, cl, w); else if (path || dec) refused(c, r, w, {404, 405}); else refused(c, r, w, {404}); }
}
/* queries and fragments: the resource is the path before them, if they are served at all */
static void fam_query(Ctx &c) {
  int k = c.choose(2), b = c.choose((int)routes(k).size()); if (!c.mine()) return; auto R = routes(k); Server &s = kept(c, k); c.note("%s: queries after %s", SN[k], R[b].p.c_str());
  for (auto *q : {"?", "?a=b", "?a=%zz&&=&b", "?/../x", "#f", "?a#b", "??", "?%00"}) { Conn n; if (!n.open(s.port.n, CL[who(k)])) c.fail("no-service", "%s: the connection fails", c.w->note); std::string body = R[b].m == "POST" ? "x" : "", w = R[b].p + q; n.send(req(R[b].m, w, body)); Resp r = n.get(); c.eval(); c.transition(); c.validated(); c.distinct(comb(fnvs(w), k)); if (r.ok && r.status == 404) refused(c, r, w.c_str(), {404}); else served(c, s, r, R[b], body, who(k), w.c_str()); 
    Conn n2; if (!n2.open(s.port.n, CL[who(k)])) c.fail("no-service", "%s: the connection fails", c.w->note); std::string w2 = "/nothing" + std::string(q); n2.send(req(R[b].m, w2, body)); refused(c, n2.get(), w2.c_str(), {404}); }
}
/* ---- a server with routes of every method: the right handler, literal paths */
static void fam_methods(Ctx &c) {
  int m = c.choose(10), part = c.choose(2); if (!c.mine()) return; Server &s = kept(c, OWN); std::string M = MN[m]; bool reg = m == 0 || m == 2 || m == 3 || m == 4 || m == 6 || m == 8, hasbody = m == 2 || m == 3 || m == 4 || m == 8; c.note("routes of every method, %s", MN[m]);
  auto one = [&](const std::string &p, const std::string &body, const std::string &h = "") { Conn n; if (!n.open(s.port.n, CL[C_REG])) c.fail("no-service", "%s: the connection fails", c.w->note); n.send(req(M, p, body, h)); Resp r = n.get(m == 1); c.eval(); c.transition(); c.validated(); c.distinct(comb(fnvs(p + "|" + h), m)); living(c, s); return r; };
  if (part == 0) { for (int o = 0; o < 10; o++) { std::string p = std::string("/m/") + MN[o], b = hasbody ? "body" : ""; Resp r = one(p, b); formed(c, r, p.c_str()); if (o == m && reg) { if (r.status != 200 || r.body != M + ":" + b || r.all("content-type") != std::vector<std::string>{"text/x-m"}) c.fail("handler", "%s: %s answered %d '%.60s'", c.w->note, p.c_str(), r.status, r.body.c_str()); } else if (m == 1) { if (r.status >= 500) c.fail("error-status", "%s: %s: %d", c.w->note, p.c_str(), r.status); } else if (o == m) { if (r.status < 400) { if (r.body != M + ":" + b) c.fail("handler", "%s: %s answered '%.60s'", c.w->note, p.c_str(), r.body.c_str()); } } else refused(c, r, p.c_str(), {404, 405, 400, 501}); }
    if (reg) { Resp r = one("/every", hasbody ? "b" : ""); if (!r.ok || r.status != 201 || r.body != M + "=" + (hasbody ? "b" : "")) c.fail("handler", "%s: /every answered %d '%.60s'", c.w->note, r.status, r.body.c_str()); }
    if (reg) for (int k = 0; k < 7; k++) { Resp r = one("/throw", "", "X-Want: " + std::to_string(k) + "\r\n"); std::string w = "exception " + std::to_string(k); formed(c, r, w.c_str()); if (r.status != 500 || r.body.empty() || r.all("content-type").size() != 1) c.fail("exception", "%s: %s answered %d '%.60s'", c.w->note, w.c_str(), r.status, r.body.c_str()); if (r.all("x-extra").size()) c.fail("exception-header", "%s: the text of an exception became a header", c.w->note); }
    return; }
  if (m) return; /* paths are literal text */
  for (int i = 0; i < NLIT; i++) { std::string e; for (const char *p = LIT[i]; *p; p++) if (strchr("?{}|\\^[]", *p)) { char b[4]; snprintf(b, sizeof b, "%%%02X", *p); e += b; } else e += *p; Resp r = one(e, ""); formed(c, r, LIT[i]); if (r.status != 200 || r.body != "lit" + std::to_string(i)) c.fail("literal", "%s: %s answered %d '%.60s'", c.w->note, LIT[i], r.status, r.body.c_str()); }
  for (auto *p : {"/aXb", "/ab", "/aab", "/a", "/aa", "/", "/b", "/a5", "/x", "/a/x", "/5", "/a/5", "/^a", "/aaaa"}) refused(c, one(p, ""), p, {404});
}
/* ---- responses: status, type, further header and body of a handler reach the client unchanged */
static const int STS[] = {200, 201, 202, 204, 299, 301, 304, 400, 401, 403, 404, 406, 415, 499, 500, 503}; static const char *TYP[] = {"", "text/plain", "application/json", "application/voucher-cms+json", "application/pkcs7-mime; smime-type=certs-only"}; static const char *XTR[] = {"", "v"};
static std::vector<std::string> bodies() { std::string all; for (int i = 0; i < 256; i++) all += (char)i; std::string big; for (int i = 0; i < 200000; i++) big += (char)(i * 7 + i / 251); return {"", "x", all, "a\r\n\r\nb", "\r\n", std::string(16384, 'q'), std::string(16385, 'q'), big}; }
static void fam_responses(Ctx &c) {
  int st = c.choose(sizeof STS / 4), ty = c.choose(5), m = c.choose(6); if (!c.mine()) return; static const int MM[] = {0, 2, 3, 4, 6, 8}; Server &s = kept(c, OWN); auto B = bodies(); c.note("a handler answers %d with type '%s' to %s", STS[st], TYP[ty], MN[MM[m]]);
  for (int x = 0; x < 2; x++) for (size_t b = 0; b < B.size(); b++) { size_t id = ((size_t)(st * 5 + ty) * 2 + x) * B.size() + b; Conn n; if (!n.open(s.port.n, CL[C_REG])) c.fail("no-service", "%s: the connection fails", c.w->note); n.send(req(MN[MM[m]], "/any", "", "X-Want: " + std::to_string(id) + "\r\nConnection: close\r\n")); Resp r = n.get(); c.eval(); c.transition(); c.validated(); c.distinct(comb(id, m)); c.state(comb(st, comb(ty, b))); if (!r.ok) living(c, s);
    char w[60]; snprintf(w, sizeof w, "body %zu, header %d", b, x); if (STS[st] == 204 || STS[st] == 304) { if (!r.ok || r.status != STS[st]) c.fail("status", "%s: %s: status %d", c.w->note, w, r.status); continue; } formed(c, r, w); if (r.status != STS[st]) c.fail("status", "%s: %s: status %d", c.w->note, w, r.status);
    std::string ex = B[b].empty() && STS[st] >= 400 ? HTTP_ERROR_REPLY : B[b]; if (r.body != ex) c.fail("body", "%s: %s: a body of %zu bytes came as %zu bytes", c.w->note, w, ex.size(), r.body.size()); auto t = r.all("content-type"); std::string want = STS[st] >= 400 ? "text/plain" : TYP[ty]; if (want.size() && (t.size() != 1 || t[0] != want)) c.fail("type", "%s: %s: the content type is '%s'", c.w->note, w, t.empty() ? "" : t[0].c_str());
    auto e = r.all("x-extra"); if ((x && (e.size() != 1 || e[0] != "v")) || (!x && e.size())) c.fail("header", "%s: %s: the header of the handler arrived %zu times", c.w->note, w, e.size()); auto l = r.all("content-length"); if (l.size() != 1 || l[0] != std::to_string(ex.size())) c.fail("length", "%s: %s: the length is given as '%s'", c.w->note, w, l.empty() ? "" : l[0].c_str()); }
}
/* ---- request framings: the handler is given exactly the body that was sent, however it was sent */
static void fam_framing(Ctx &c) {
  int mode = c.choose(4); Server *s; std::vector<std::string> B = {"", "a", "ab", "\r\n", "0\r\n\r\n", "a\0b" + std::string(1, 0)}; std::string all; for (int i = 0; i < 256; i++) all += (char)i; B.push_back(all); for (size_t n : {2047, 2048, 2049, 4095, 4096, 4097, 16383, 16384, 16385, 100000, 1000000}) { std::string x; for (size_t i = 0; i < n; i++) x += (char)(i * 11 + i / 253); B.push_back(x); }
  auto one = [&](const std::string &body, const std::vector<std::string> &pieces, double gap, const char *w) { Conn n; if (!n.open(s->port.n, CL[C_REG])) c.fail("no-service", "%s: the connection fails", c.w->note); for (size_t i = 0; i < pieces.size(); i++) { if (i && gap > 0) net::nap(gap); n.send(pieces[i]); } Resp r = n.get(); if (!r.ok) living(c, *s); c.eval(); c.transition(); c.validated(); formed(c, r, w); if (r.status != 200 || r.body != body) c.fail("request-body", "%s: %s: answered %d, a body of %zu bytes came back as %zu", c.w->note, w, r.status, body.size(), r.body.size()); };
  char w[80];
  if (mode == 0) { for (size_t n : mc::sizes(c.thorough)) { std::string x(n, 0); for (size_t i = 0; i < n; i++) x[i] = (char)(i * 11 + i / 253); B.push_back(x); } int b = c.choose((int)B.size()); if (!c.mine()) return; s = &kept(c, OWN); c.note("a body of %zu bytes", B[b].size()); one(B[b], {req("POST", "/echo", B[b])}, 0, "in one piece"); one(B[b], {req("POST", "/echo", "", "Content-Length: " + std::to_string(B[b].size()) + "\r\n", false), B[b]}, 0.002, "after the headers"); one(B[b], {req("POST", "/echo", B[b], "Content-Type: application/voucher-cms+json\r\n")}, 0, "with a type");
    for (size_t k : {(size_t)1, (size_t)3, (size_t)100, (size_t)4096, (size_t)70000, B[b].size()}) { if (!k || (k == 1 && B[b].size() > 5000)) continue; std::string r = req("POST", "/echo", "", "Transfer-Encoding: chunked\r\n", false); for (size_t i = 0; i < B[b].size(); i += k) { std::string p = B[b].substr(i, k); char h[20]; snprintf(h, sizeof h, "%zx\r\n", p.size()); r += h + p + "\r\n"; } r += "0\r\n\r\n"; snprintf(w, sizeof w, "in chunks of %zu", k); one(B[b], {r}, 0, w); } c.distinct(comb(1, b)); c.state(comb(1, b)); return; }
  std::string body = "{\"k\":\"v\"}", r = req("POST", "/echo", body); std::string ch = req("POST", "/echo", "", "Transfer-Encoding: chunked\r\n", false) + "4\r\n{\"k\"\r\n5\r\n:\"v\"}\r\n0\r\n\r\n"; const std::string &q = mode == 2 ? ch : r;
  if (mode < 3) { int at = c.choose((int)q.size()); if (!c.mine()) return; s = &kept(c, OWN); c.note("a request %s split at byte %d", mode == 2 ? "in chunks" : "with a length", at); c.distinct(comb(mode, at)); c.state(comb(mode, at)); one(body, {q.substr(0, at), q.substr(at)}, 0, "at once"); one(body, {q.substr(0, at), q.substr(at)}, 0.003, "with a pause"); if (c.thorough) for (size_t b2 = at + 1; b2 < q.size(); b2++) one(body, {q.substr(0, at), q.substr(at, b2 - at), q.substr(b2)}, 0.001, "in three"); return; }
  if (!c.mine()) return; s = &kept(c, OWN); c.note("a request byte by byte"); std::vector<std::string> v; for (char x : r) v.push_back(std::string(1, x)); one(body, v, 0, "at once"); v.clear(); for (char x : ch) v.push_back(std::string(1, x)); one(body, v, 0, "in chunks"); c.distinct(99);
}
/* ---- request headers as the handler sees them */
static void fam_headers(Ctx &c) {
  static const struct { const char *in, *name, *val; } H[] = {{"X-A: v\r\n", "X-A", "v"}, {"X-A: v\r\nX-A: w\r\n", "X-A", "v, w"}, {"X-A: a, b\r\nX-A: c\r\nX-A: d\r\n", "X-A", "a, b, c, d"}, {"X-A:v\r\n", "X-A", "v"}, {"X-A: \t v \t \r\n", "X-A", "v"}, {"X-A: a b  c\r\n", "X-A", "a b  c"}, {"X-A: a:b=c;d\r\n", "X-A", "a:b=c;d"}, {"Content-Type: application/voucher-cms+json\r\n", "Content-Type", "application/voucher-cms+json"}, {"Accept: x\r\nX-B: y\r\nAccept: z\r\n", "Accept", "x, z"}}; int n = sizeof H / sizeof *H, i = c.choose(n), j = c.choose(n); if (!c.mine()) return; Server &s = kept(c, OWN); c.note("request headers %d and %d", i, j);
  Conn k; if (!k.open(s.port.n, CL[C_REG])) c.fail("no-service", "%s: the connection fails", c.w->note); std::string filler; for (int f = 0; f < 20; f++) filler += "X-F" + std::to_string(f) + ": " + std::to_string(f * f) + "\r\n"; bool same = !strcmp(H[i].name, H[j].name); k.send(req("GET", "/seen", "", std::string(H[i].in) + filler + (i == j || same ? "" : H[j].in))); Resp r = k.get(); c.eval(); c.transition(); c.validated(); c.distinct(comb(i, j)); c.state(comb(7, comb(i, j))); living(c, s); formed(c, r, "headers");
  auto has = [&](const std::string &x) { return ("\n" + r.body).find("\n" + x + "\n") != std::string::npos; }; for (int t = 0; t < (i == j || same ? 1 : 2); t++) { const auto &x = H[t ? j : i]; if (!has(std::string(x.name) + "=" + x.val)) c.fail("headers", "%s: %s is not given to the handler as '%s'", c.w->note, x.name, x.val); } for (int f = 0; f < 20; f++) if (!has("X-F" + std::to_string(f) + "=" + std::to_string(f * f))) c.fail("headers", "%s: one of the other headers is lost", c.w->note); if (!has("Host=localhost")) c.fail("headers", "%s: the host is lost", c.w->note);
}
/* ---- client certificates */
static void fam_certs(Ctx &c) {
  int k = c.choose(3), cl = c.choose(NCL), ver = c.choose(2), cafile = c.choose(5); if (cafile && k != MASA) return; if (!c.mine()) return; static const char *CA[] = {"dom.crt", "missing.crt", "empty", "garbage", "other.crt"}; c.note("%s with client CA %s, client %s, TLS 1.%d", SN[k], k == MASA ? CA[cafile] : "(any)", CN_[cl], ver ? 2 : 3);
  SSL_CTX *x = CL[cl]; if (ver) { x = SSL_CTX_new(TLS_client_method()); SSL_CTX_set_max_proto_version(x, TLS1_2_VERSION); const Cert *ce = clcert(cl); const Key *ky = cl == C_REG ? &W.regtls.key : cl == C_PLEDGE ? &W.pledge.key : cl == C_SELF ? &selfmade.key : cl == C_TWIN ? &twinreg.key : cl == C_OTHER ? &W.other.key : cl == C_EXPIRED ? &expired.key : cl == C_SUB || cl == C_SUBNOCHAIN ? &subleaf.key : cl == C_DOM ? &W.dom.key : cl == C_LDEVID ? &W.ldevid.key : nullptr; if (ce && (SSL_CTX_use_certificate(x, ce->x) != 1 || SSL_CTX_use_PrivateKey(x, ky->k) != 1)) pki::die("client"); if (cl == C_SUB) SSL_CTX_add1_chain_cert(x, sub.cert.x); }
  struct Rel { SSL_CTX *x; ~Rel() { if (x) SSL_CTX_free(x); } } rel{ver ? x : nullptr};
  Server own, *s; if (k == MASA && cafile) { own.kind = MASA; own.port.open(); own.conf = new Conf(W); Conf *f = own.conf; f->m.bind_address = f->str("127.0.0.1"); f->m.port = own.port.n; f->r.tls_ca_cert_path = f->str(W.p(CA[cafile])); own.s.run(c.scratch + "/srv" + std::to_string(c.wi) + "x.log", [f] { MasaContext *y = nullptr; return masa_start(&f->r, &f->m, nullptr, &y); }); s = &own; if (!own.s.up(own.port.n)) { if (!own.s.returned) c.fail("no-start", "%s: nobody listens", c.w->note); if (cafile == 4) c.fail("no-start", "%s: the MASA does not start", c.w->note); c.eval(); return; /* refusing to start is fine, too */ } } else s = &kept(c, k);
  bool want = cl != C_NONE; if (k == MASA) { want = cl == C_REG || cl == C_SUB || cl == C_DOM; if (cafile) want = cafile == 4 && cl == C_OTHER; } c.eval(); c.transition(); c.validated(); c.distinct(comb(comb(k, cl), comb(ver, cafile))); c.state(comb(comb(k, cl), comb(ver, cafile)));
  Conn n; std::string b = "x"; bool sh = n.open(s->port.n, x); Resp r; if (sh) { n.send(k == OWN ? req("GET", "/cert") : req(routes(k)[0].m, routes(k)[0].p, b)); r = n.get(); } living(c, *s);
  if (!want) { if (r.any) c.fail("unauthenticated", "%s: answered %d", c.w->note, r.status); } else { if (!sh || !r.any) c.fail("refused-client", "%s: no answer", c.w->note); if (k == OWN) { formed(c, r, "certificate"); if (r.status != 200 || r.body != hex(clcert(cl)->der)) c.fail("peer", "%s: the handler is given another certificate", c.w->note); } else served(c, *s, r, routes(k)[0], b, cl, "request"); }
}
/* ---- connection histories */
struct Ev { const char *name; bool held; };
static const Ev EV[] = {{"connect and close", 0}, {"connect and reset", 0}, {"connect and wait", 1}, {"plain HTTP", 0}, {"plain HTTP and wait", 1}, {"random bytes", 0}, {"half a hello", 0}, {"half a hello and wait", 1}, {"handshake and close", 0}, {"handshake and reset", 0}, {"handshake and wait", 1}, {"half a request line", 0}, {"half a request line and wait", 1}, {"half the headers", 0}, {"half the headers and wait", 1}, {"half a body", 0}, {"half a body and wait", 1}, {"half a chunk", 0}, {"half a chunk and wait", 1},
  {"no client certificate", 0}, {"request not read", 0}, {"good request", 0}, {"good request, TLS 1.2", 0}, {"five requests at once", 0}, {"five requests, one answer read", 0}, {"garbage line", 0}, {"two words", 0}, {"two spaces", 0}, {"HTTP/2.0", 0}, {"HTTP/0.9", 0}, {"bare line feeds", 0}, {"a NUL in the line", 0}, {"a NUL in a header", 0}, {"an empty line", 0}, {"a very long path", 0}, {"a very long header", 0}, {"very many headers", 0}, {"a header without colon", 0}, {"a bad chunk size", 0}, {"a huge chunk size", 0}, {"a huge length", 0}, {"a length in words", 0}, {"a negative length", 0}, {"two lengths", 0}, {"length and chunks", 0}, {"no length", 0}, {"unknown method", 0}, {"unknown path with a body", 0}, {"expect continue", 0}, {"a range", 0}, {"bad ranges", 0}, {"compressed body", 0}, {"multipart without boundary", 0}, {"bad multipart", 0}, {"a big form", 0}, {"three megabytes", 0}, {"binary body", 0}, {"HTTP/1.0", 0}, {"request after close", 0}, {"percent signs", 0}, {"TLS close without notice", 0}};
enum { NEV = sizeof EV / sizeof *EV };
static bytes HELLO;
static void hello() { SSL_CTX *x = net::client(nullptr, nullptr); SSL *s = SSL_new(x); BIO *o = BIO_new(BIO_s_mem()), *i = BIO_new(BIO_s_mem()); SSL_set_bio(s, i, o); SSL_connect(s); char *p; long n = BIO_get_mem_data(o, &p); HELLO.assign(p, n); SSL_free(s); SSL_CTX_free(x); ERR_clear_error(); }
static void rawsend(Conn &k, const std::string &d) { size_t n = 0; while (n < d.size()) { ssize_t r = ::send(k.s, d.data() + n, d.size() - n, MSG_NOSIGNAL); if (r <= 0) break; n += r; } }
static std::string big(size_t n) { std::string x; for (size_t i = 0; i < n; i++) x += (char)('a' + i % 26); return x; }
/* one event; a held connection stays in k.  what it may be answered: nothing, an error, or (serve) the right answer */
static void happen(Ctx &c, Server &s, int e, Conn &k) {
  SSL_CTX *cl = CL[who(s.kind)]; const Route g = s.kind == OWN ? Route{"POST", "/echo", nullptr} : routes(s.kind)[1]; std::string b = "body", w = EV[e].name; const char *n = EV[e].name; k.tmo = 25; c.transition();
  auto tls = [&](SSL_CTX *x = nullptr) { if (!k.open(s.port.n, x ? x : cl)) { living(c, s); c.fail("no-service", "%s: %s: the connection fails", c.w->note, n); } };
  auto right = [&](const Resp &r, const std::string &body) { if (s.kind == OWN) { formed(c, r, n); if (r.status != 200 || r.body != body) c.fail("wrong-answer", "%s: %s: answered %d '%.60s'", c.w->note, n, r.status, r.body.c_str()); } else served(c, s, r, g, body, who(s.kind), n); };
  auto bad = [&](const std::string &d, bool close, bool oserve = false, const std::string &body = "") { tls(); k.send(d); if (close) { SSL_shutdown(k.ssl); } Resp r = k.get(); if (!r.any) { if (!close && !r.closed) c.fail("hangs", "%s: %s: neither an answer nor the end of the connection", c.w->note, n); k.close(); return; } if (oserve && r.ok && r.status < 400) { right(r, body); k.close(); return; } formed(c, r, n); if (r.status < 400 && !oserve) c.fail("served-bad", "%s: %s: answered %d", c.w->note, n, r.status); k.close(); };
  auto part = [&](const std::string &d) { tls(); k.send(d); if (!EV[e].held) k.close(); };
  if (w.compare(0, 7, "connect") == 0 && w != "connection") { k.dialled(s.port.n); if (w == "connect and close") k.close(); else if (w == "connect and reset") k.reset(); }
  else if (w.compare(0, 10, "plain HTTP") == 0) { k.dialled(s.port.n); rawsend(k, req("POST", g.p, b)); if (!EV[e].held) k.close(); }
  else if (w == "random bytes") { k.dialled(s.port.n); std::string x; for (int i = 0; i < 3000; i++) x += (char)(i * 37 + i / 7); rawsend(k, x); k.close(); }
  else if (w.compare(0, 12, "half a hello") == 0) { k.dialled(s.port.n); rawsend(k, HELLO.substr(0, HELLO.size() / 2)); if (!EV[e].held) k.close(); }
  else if (w == "handshake and close") { tls(); k.close(); } else if (w == "handshake and reset") { tls(); k.reset(); } else if (w == "handshake and wait") tls();
  else if (w.compare(0, 19, "half a request line") == 0) part(g.m + " " + g.p.substr(0, 5)); else if (w.compare(0, 16, "half the headers") == 0) part(g.m + " " + g.p + " HTTP/1.1\r\nHost: loc"); else if (w.compare(0, 11, "half a body") == 0) part(req(g.m, g.p, "", "Content-Length: 100\r\n", false) + "0123456789"); else if (w.compare(0, 12, "half a chunk") == 0) part(req(g.m, g.p, "", "Transfer-Encoding: chunked\r\n", false) + "64\r\n0123456789");
  else if (w == "no client certificate") { if (k.open(s.port.n, CL[C_NONE])) { k.send(req(g.m, g.p, b)); Resp r = k.get(); if (r.any) c.fail("unauthenticated", "%s: %s: answered %d", c.w->note, n, r.status); } k.close(); }
  else if (w == "request not read") { tls(); k.send(req(g.m, g.p, b)); k.reset(); } else if (w == "good request") { tls(); k.send(req(g.m, g.p, b)); right(k.get(), b); k.close(); } else if (w == "good request, TLS 1.2") { tls(s.kind == MASA || s.kind == OWN ? CL12 : nullptr); k.send(req(g.m, g.p, b)); right(k.get(), b); k.close(); }
  else if (w == "five requests at once" || w == "five requests, one answer read") { tls(); for (int i = 0; i < 5; i++) k.send(req(g.m, g.p, b + std::to_string(i))); int m = w == "five requests at once" ? 5 : 1; for (int i = 0; i < m; i++) right(k.get(), b + std::to_string(i)); k.close(); }
  else if (w == "garbage line") bad("\x01\x02\xff garbage\r\n\r\n", false); else if (w == "two words") bad(g.m + " " + g.p + "\r\nHost: x\r\n\r\n", false); else if (w == "two spaces") bad(g.m + "  " + g.p + "  HTTP/1.1\r\nHost: x\r\nContent-Length: 4\r\n\r\nbody", false, true, b); else if (w == "HTTP/2.0") bad(g.m + " " + g.p + " HTTP/2.0\r\nHost: x\r\nContent-Length: 0\r\n\r\n", false); else if (w == "HTTP/0.9") bad("GET /\r\n\r\n", false); else if (w == "bare line feeds") bad(g.m + " " + g.p + " HTTP/1.1\nHost: x\nContent-Length: 4\n\nbody", true, true, b);
  else if (w == "a NUL in the line") { std::string x = req(g.m, g.p, b); x.insert(g.m.size() + 4, 1, 0); bad(x, true); } else if (w == "a NUL in a header") { tls(); std::string x = req(g.m, g.p, b, "X-A: a?b\r\n"); x[x.find("a?b") + 1] = 0; k.send(x); Resp r = k.get(); if (r.any) { if (r.ok && r.status < 400) right(r, b); else formed(c, r, n); } k.close(); } else if (w == "an empty line") bad("\r\n\r\n", true);
  else if (w == "a very long path") bad(req(g.m, "/" + big(100000), b, "Connection: close\r\n"), true); else if (w == "a very long header") bad(req(g.m, g.p, b, "X-A: " + big(100000) + "\r\n"), true, true, b); else if (w == "very many headers") { std::string h; for (int i = 0; i < 3000; i++) h += "X-" + std::to_string(i) + ": y\r\n"; bad(req(g.m, g.p, b, h), true, true, b); } else if (w == "a header without colon") bad(req(g.m, g.p, b, "nonsense\r\n: v\r\n"), true, true, b);
  else if (w == "a bad chunk size") bad(req(g.m, g.p, "", "Transfer-Encoding: chunked\r\n", false) + "zz\r\nbody\r\n0\r\n\r\n", true); else if (w == "a huge chunk size") bad(req(g.m, g.p, "", "Transfer-Encoding: chunked\r\n", false) + "ffffffffffffffff\r\nbody", true); else if (w == "a huge length") bad(req(g.m, g.p, "", "Content-Length: 18446744073709551615\r\n", false) + b, true); else if (w == "a length in words" || w == "a negative length" || w == "two lengths" || w == "length and chunks") { tls(); k.send(req(g.m, g.p, "", w == "a length in words" ? "Content-Length: four\r\n" : w == "a negative length" ? "Content-Length: -1\r\n" : w == "two lengths" ? "Content-Length: 4\r\nContent-Length: 2\r\n" : "Content-Length: 2\r\nTransfer-Encoding: chunked\r\n", false) + (w == "length and chunks" ? "4\r\nbody\r\n0\r\n\r\n" : b)); SSL_shutdown(k.ssl); Resp r = k.get(); if (r.any) formed(c, r, n); k.close(); }
  else if (w == "no length") { tls(); k.send(req(g.m, g.p, b, "", false)); SSL_shutdown(k.ssl); Resp r = k.get(); if (r.any) formed(c, r, n); k.close(); } else if (w == "unknown method") bad(req("BREW", g.p, b), true); else if (w == "unknown path with a body") { tls(); k.send(req("POST", "/nothing", b)); k.send(req(g.m, g.p, b)); refused(c, k.get(), n, {404}); right(k.get(), b); k.close(); }
  else if (w == "expect continue") { tls(); k.send(req(g.m, g.p, "", "Expect: 100-continue\r\nContent-Length: 4\r\n", false)); Resp r = k.get(); if (r.ok && r.status == 100) { k.send(b); r = k.get(); } else k.send(b); right(r, b); k.close(); } else if (w == "a range" || w == "bad ranges") { tls(); k.send(req(g.m, g.p, b, w == "a range" ? "Range: bytes=0-1\r\n" : "Range: bytes=9-1,x,,-\r\n")); Resp r = k.get(); if (r.any) formed(c, r, n); k.close(); }
  else if (w == "compressed body") { tls(); k.send(req(g.m, g.p, b, "Content-Encoding: gzip\r\n")); Resp r = k.get(); if (r.any) formed(c, r, n); k.close(); } else if (w == "multipart without boundary") { tls(); k.send(req(g.m, g.p, b, "Content-Type: multipart/form-data\r\n")); Resp r = k.get(); if (r.any) formed(c, r, n); k.close(); } else if (w == "bad multipart") { tls(); k.send(req(g.m, g.p, "--x\r\nnonsense", "Content-Type: multipart/form-data; boundary=x\r\n")); Resp r = k.get(); if (r.any) formed(c, r, n); k.close(); }
  else if (w == "a big form") { tls(); k.send(req(g.m, g.p, big(9000), "Content-Type: application/x-www-form-urlencoded\r\n")); Resp r = k.get(); if (r.any) formed(c, r, n); k.close(); } else if (w == "three megabytes") { tls(); std::string x = big(3000000); k.send(req(g.m, g.p, x)); right(k.get(), x); k.close(); } else if (w == "binary body") { tls(); std::string x; for (int i = 0; i < 600; i++) x += (char)i; k.send(req(g.m, g.p, x)); right(k.get(), x); k.close(); }
  else if (w == "HTTP/1.0") { tls(); std::string x = req(g.m, g.p, b); x.replace(x.find("HTTP/1.1"), 8, "HTTP/1.0"); k.send(x); right(k.get(), b); k.close(); } else if (w == "request after close") { tls(); k.send(req(g.m, g.p, b, "Connection: close\r\n")); right(k.get(), b); k.send(req(g.m, g.p, b)); if (k.get().any) c.fail("after-close", "%s: %s: a request after the last one was answered", c.w->note, n); k.close(); }
  else if (w == "percent signs") bad(req(g.m, "/%", b) , true); else if (w == "TLS close without notice") { tls(); k.send(req(g.m, g.p, b)); right(k.get(), b); k.close(false); }
  else pki::die(n);
}
static void fam_histories(Ctx &c) {
  int k = c.choose(2), d = c.thorough ? 3 : 2, e[3], n = 0; for (; n < d; n++) { int x = c.choose(NEV + 1); if (x == NEV) break; e[n] = x; } if (d == 3 && n == 3) { int nh = 0; for (int i = 0; i < 3; i++) nh += EV[e[i]].held || i == 0; (void)nh; } if (!c.mine()) return; std::string w = SN[k]; for (int i = 0; i < n; i++) w += std::string(i ? ", then " : ": ") + EV[e[i]].name; c.note("%s", w.c_str()); uint64_t h = comb(21, k); for (int i = 0; i < n; i++) h = comb(h, e[i]); c.state(h); c.distinct(h); c.eval(); c.validated();
  for (int t = 0;; t++) { Server s; s.start(c, k); Conn con[3]; int held = 0; for (int i = 0; i < n; i++) { happen(c, s, e[i], con[i]); held += EV[e[i]].held; } double took = good(c, s, "the request afterwards"); living(c, s); if (took > 4) { if (t < 2) continue; c.fail("blocked", "%s: the next request had to wait %.1f s behind %d open connections", c.w->note, took, held); } break; }
}
/* all of a server's threads are waiting on connections that send nothing */
static void fam_pool(Ctx &c) {
  int k = c.choose(2), e = c.choose(NEV), n = 7 + c.choose(c.thorough ? 10 : 4); if (!EV[e].held) return; if (!c.thorough && k != (e & 1)) return; if (!c.mine()) return; c.note("%s: %d connections: %s", SN[k], n, EV[e].name); Server s; s.start(c, k); std::vector<Conn> con(n); c.eval(); c.validated(); c.state(comb(comb(3, k), comb(e, n))); c.distinct(comb(comb(3, k), comb(e, n)));
  bool tls = strncmp(EV[e].name, "connect", 7) && strncmp(EV[e].name, "plain", 5) && strncmp(EV[e].name, "half a hello", 12); if (tls && n > 7) { for (int i = 0; i < 7; i++) happen(c, s, e, con[i]); for (int i = 7; i < n; i++) con[i].dialled(s.port.n); } else for (int i = 0; i < n; i++) happen(c, s, e, con[i]);
  c.w->beat++; good(c, s, "the request afterwards"); living(c, s);
}
/* memory: the same history again and again must not make the server grow */
static void fam_growth(Ctx &c) {
  int k = c.thorough ? c.choose(3) : 1 + c.choose(2), e = c.choose(NEV); if (EV[e].held) return; if (!c.mine()) return; c.note("%s, again and again: %s", SN[k], EV[e].name); Server s; s.start(c, k); bool fat = !strcmp(EV[e].name, "three megabytes") || !strcmp(EV[e].name, "very many headers"); int per = fat ? 6 : 16; auto round = [&](int n) { for (int i = 0; i < n; i++) { Conn x; happen(c, s, e, x); c.w->beat++; } for (int i = 0; i < 9; i++) good(c, s, "in between"); return s.s.settled(); };
  round(24); long m0 = round(per), m1 = round(per), m2 = round(per), m3 = round(per); living(c, s); c.eval(); c.validated(); c.state(comb(comb(9, k), e)); c.distinct(comb(comb(9, k), e)); long d1 = m1 - m0, d2 = m2 - m1, d3 = m3 - m2, lo = std::min(d1, std::min(d2, d3)); if (lo >= 8 * per) c.fail("grows", "%s: every %d of them leave %ld, %ld and %ld bytes behind", c.w->note, per, d1, d2, d3);
}
/* two connections whose bytes arrive in every order */
static void fam_interleaved(Ctx &c) {
  int a = c.choose(4), b = c.choose(4), P = c.thorough ? 4 : 3; int na = 0, nb = 0; std::string ord; while (na < P || nb < P) { int o = na == P ? 1 : nb == P ? 0 : c.choose(2); ord += (char)('a' + o); (o ? nb : na)++; } if (!c.mine()) return; Server &s = kept(c, OWN); c.note("two connections %d and %d in the order %s", a, b, ord.c_str());
  std::string body[2] = {"the first body", "another one"}, q[2]; for (int i = 0; i < 2; i++) { int v = i ? b : a; q[i] = v == 0 ? req("POST", "/echo", body[i]) : v == 1 ? req("POST", "/echo", "", "Transfer-Encoding: chunked\r\n", false) + (i ? "b" : "e") + "\r\n" + body[i] + "\r\n0\r\n\r\n" : v == 2 ? req("PUT", "/nothing", body[i]) : req("GET", "/cert"); } Conn k[2]; int cl[2] = {C_REG, C_PLEDGE}; for (int i = 0; i < 2; i++) if (!k[i].open(s.port.n, CL[cl[i]])) c.fail("no-service", "%s: the connection fails", c.w->note); int at[2] = {0, 0}; for (char o : ord) { int i = o - 'a'; size_t n = q[i].size(), f = n * at[i] / P, t = n * (at[i] + 1) / P; at[i]++; k[i].send(q[i].substr(f, t - f)); net::nap(0.0005); }
  for (int i = 0; i < 2; i++) { int v = i ? b : a; Resp r = k[i].get(); c.transition(); if (!r.ok) living(c, s); char w[20]; snprintf(w, sizeof w, "connection %d", i); if (v == 2) refused(c, r, w, {404, 405}); else { formed(c, r, w); if (r.status != 200 || r.body != (v == 3 ? hex(clcert(cl[i])->der) : body[i])) c.fail("mixed", "%s: %s: answered %d '%.60s'", c.w->note, w, r.status, r.body.c_str()); } } c.eval(); c.validated(); c.distinct(comb(fnvs(ord), a * 4 + b)); c.state(comb(fnvs(ord), a * 4 + b));
}
/* the requests of one connection: every sequence */
static void fam_keepalive(Ctx &c) {
  int n = 1 + c.choose(c.thorough ? 5 : 4), e[5]; for (int i = 0; i < n; i++) e[i] = c.choose(6); int pipe = c.choose(2); if (!c.mine()) return; Server &s = kept(c, OWN); std::string w; for (int i = 0; i < n; i++) w += std::to_string(e[i]); c.note("requests %s on one connection%s", w.c_str(), pipe ? ", all at once" : ""); Conn k; if (!k.open(s.port.n, CL[C_REG])) c.fail("no-service", "%s: the connection fails", c.w->note);
  auto q = [&](int i) { std::string b = "b" + std::to_string(i); switch (e[i]) { case 0: return req("GET", "/m/GET"); case 1: return req("POST", "/echo", b); case 2: return req("POST", "/nothing", b); case 3: return req("HEAD", "/nothing"); case 4: return req("PUT", "/throw", b); default: return req("POST", "/echo", "", "Transfer-Encoding: chunked\r\n", false) + "2\r\n" + b + "\r\n0\r\n\r\n"; } }; if (pipe) for (int i = 0; i < n; i++) k.send(q(i)); /* one TLS record each: of requests that share a record only the first must be answered */
  for (int i = 0; i < n; i++) { if (!pipe) k.send(q(i)); Resp r = k.get(e[i] == 3); c.transition(); if (!r.ok) living(c, s); char x[30]; snprintf(x, sizeof x, "request %d", i + 1); std::string b = "b" + std::to_string(i); formed(c, r, x); int st = e[i] == 2 || e[i] == 3 ? 404 : e[i] == 4 ? 500 : 200; bool ok = r.status == st || (e[i] == 3 && r.status == 405); if (e[i] == 0) ok &= r.body == "GET:"; if (e[i] == 1 || e[i] == 5) ok &= r.body == b; if (!ok) c.fail("sequence", "%s: %s: answered %d '%.60s'", c.w->note, x, r.status, r.body.c_str()); } if (k.in.size()) c.fail("too-much", "%s: more bytes follow the last answer", c.w->note); c.eval(); c.validated(); c.distinct(comb(fnvs(w), pipe)); c.state(comb(fnvs(w), pipe));
}
/* what one request leaves behind is not seen by the next: every sequence of handlers on one connection, whose requests share a thread */
static void fam_sequence(Ctx &c) {
  int k = c.choose(NSRV), n = 2 + c.choose(c.thorough || k == OWN ? 2 : 1), nb = k == OWN ? 1 : n == 2 ? 2 : 1; auto R = routes(k); static const struct { int st; const char *type, *extra; int body; } A[] = {{200, "", "", 0}, {200, "application/json", "v", 2}, {400, "text/plain", "", 1}, {404, "", "", 0}, {500, "application/json", "v", 1}, {200, "text/plain", "", 7}, {201, "", "v", 0}}; enum { NA = sizeof A / sizeof *A }; int ne = k == OWN ? NA + 3 : (int)R.size() * nb, e[3];
  std::string w; for (int i = 0; i < n; i++) { e[i] = c.choose(ne); w += " " + std::to_string(e[i]); } if (!c.mine()) return; c.note("%s, one connection, handlers%s", SN[k], w.c_str()); Server &s = kept(c, k); Conn x; if (!x.open(s.port.n, CL[who(k)])) { living(c, s); c.fail("no-service", "%s: the connection fails", c.w->note); } static const auto B = bodies();
  for (int i = 0; i < n; i++) { char at[30]; snprintf(at, sizeof at, "request %d", i + 1); c.eval(); c.transition(); int v = e[i];
    if (k != OWN) { const Route &g = R[v / nb]; std::string b = v % nb ? "" : "{\"a\":1}"; if (g.m == "GET") b = ""; x.send(req(g.m, g.p, b)); Resp r = x.get(); if (!r.ok) living(c, s); served(c, s, r, g, b, who(k), at); continue; }
    std::string q; size_t id = 0; if (v < NA) { for (auto &o : WANT) { if (o.status == A[v].st && o.type == A[v].type && o.extra == A[v].extra && o.body == B[A[v].body]) break; id++; } q = req("POST", "/any", "", "X-Want: " + std::to_string(id) + "\r\n"); } else q = v == NA ? req("POST", "/throw") : v == NA + 1 ? req("POST", "/nothing", "x") : req("POST", "/echo", "echoed");
    x.send(q); Resp r = x.get(); if (!r.ok) living(c, s); if (v == NA) { formed(c, r, at); if (r.status != 500 || r.body.empty() || r.body == "half") c.fail("exception", "%s: %s: answered %d '%.60s'", c.w->note, at, r.status, r.body.c_str()); continue; } if (v == NA + 1) { refused(c, r, at, {404, 405}); continue; } formed(c, r, at); int st = v < NA ? A[v].st : 200; std::string b = v < NA ? B[A[v].body].empty() && st >= 400 ? HTTP_ERROR_REPLY : B[A[v].body] : "echoed", ty = v < NA ? st >= 400 ? "text/plain" : A[v].type : "application/octet-stream";
    if (r.status != st) c.fail("status", "%s: %s: status %d", c.w->note, at, r.status); if (r.body != b) c.fail("left-behind", "%s: %s: the body is '%.60s' (%zu bytes), the handler gives %zu bytes", c.w->note, at, r.body.c_str(), r.body.size(), b.size()); auto t = r.all("content-type"); if (ty.size() ? t.size() != 1 || t[0] != ty : t.size() && t[0].size() && t[0].compare(0, 5, "text/")) c.fail("left-behind-type", "%s: %s: the content type is '%s', the handler says '%s'", c.w->note, at, t.empty() ? "" : t[0].c_str(), ty.c_str()); if (r.all("x-extra").size() != (size_t)(v < NA && *A[v].extra)) c.fail("left-behind-header", "%s: %s: the handler's header arrived %zu times", c.w->note, at, r.all("x-extra").size()); }
  c.validated(); c.distinct(comb(comb(4711, k), fnvs(w))); c.state(comb(comb(4711, k), fnvs(w)));
}
/* ---- servers that cannot start say so */
static void fam_start(Ctx &c) {
  static const char *CE[] = {"regtls.crt", nullptr, "missing.crt", "empty", "garbage", "dir", "half.crt", "regtls.key"}, *KE[] = {"regtls.key", nullptr, "missing.crt", "empty", "garbage", "dir", "other.key", "regtls.crt"}, *AD[] = {"127.0.0.1", nullptr, "256.1.1.1", "203.0.113.1", "no such host", "::g"}; int k = c.choose(3), ce = c.choose(8), ke = c.choose(8), ad = c.choose(6), po = c.choose(2); if ((ce != 0) + (ke != 0) + (ad != 0) + po > (c.thorough ? 4 : 2)) return; if (!c.mine()) return;
  c.note("%s with certificate %s, key %s, address %s, port %s", SN[k], CE[ce] ? CE[ce] : "(none)", KE[ke] ? KE[ke] : "(none)", AD[ad] ? AD[ad] : "(none)", po ? "taken" : "free"); net::Port p; if (!p.open(!po, po)) pki::die("port"); Conf f(W); auto opt = [&](const char *x) { return x ? f.str(W.p(x)) : nullptr; }; f.m.tls_cert_path = f.r.tls_cert_path = opt(CE[ce]); f.m.tls_key_path = f.r.tls_key_path = opt(KE[ke]); f.m.bind_address = f.r.bind_address = AD[ad] ? f.str(AD[ad]) : nullptr; f.m.port = f.r.port = p.n; f.r.tls_ca_cert_path = f.str(W.p("dom.crt"));
  net::Srv s; int unset = 7; (void)unset; s.run(c.scratch + "/srv" + std::to_string(c.wi) + "s.log", [&]() -> int { int r, bad = 0; if (k == MASA) { MasaContext *x = (MasaContext *)16; r = masa_start(&f.r, &f.m, nullptr, &x); if (x == (MasaContext *)16) return 77; masa_stop(x); } else if (k == REG) { RegistrarContext *x = (RegistrarContext *)16; r = registrar_start(&f.r, &f.m, &x); if (x == (RegistrarContext *)16) return 77; registrar_stop(x); } else { auto rt = own_routes(); http_config h = {}; h.bind_address = f.r.bind_address; h.port = p.n; h.tls_cert_path = f.r.tls_cert_path; h.tls_key_path = f.r.tls_key_path; void *x = &bad; r = https_start(&h, rt, nullptr, &x); if (x == &bad) return 77; https_stop(x); } return r; });
  c.eval(); c.transition(); c.validated(); bool want = !ce && !ke && !ad && !po; uint64_t h = comb(comb(k, ce * 8 + ke), ad * 2 + po); c.state(h); c.distinct(h); if (want) { if (!s.up(p.n)) c.fail("no-start", "%s: it does not start: %s", c.w->note, s.tail().c_str()); return; }
  if (!s.back(30)) c.fail("started", "%s: no failure is reported", c.w->note); if (s.dead) c.fail("server-ended", "%s: the process ended with status %d: %s", c.w->note, s.st, s.tail().c_str()); if (s.result == 77) c.fail("context", "%s: the caller's context pointer is left as it was", c.w->note); if (s.result >= 0) c.fail("start-result", "%s: the start ended with %d", c.w->note, s.result);
}
/* starting and failing again and again leaves nothing behind, and the server can be started afterwards */
static void fam_restart(Ctx &c) {
  int k = c.choose(3), why = c.choose(3); if (!c.mine()) return; static const char *Y[] = {"no key", "port taken", "mismatching key"}; c.note("%s: started again after a failure: %s", SN[k], Y[why]); net::Port p, t; if (!p.open() || !t.open(false, true)) pki::die("port"); Conf f(W), g(W); for (Conf *x : {&f, &g}) { x->m.tls_cert_path = x->r.tls_cert_path; x->m.tls_key_path = x->r.tls_key_path; x->m.bind_address = x->str("127.0.0.1"); x->m.port = x->r.port = p.n; x->r.tls_ca_cert_path = x->str(W.p("dom.crt")); } if (why == 0) f.m.tls_key_path = f.r.tls_key_path = nullptr; if (why == 1) f.m.port = f.r.port = t.n; if (why == 2) f.m.tls_key_path = f.r.tls_key_path = f.str(W.p("other.key"));
  auto start = [k](Conf &f, unsigned pn, bool stop) -> int { int r; if (k == MASA) { MasaContext *x = nullptr; r = masa_start(&f.r, &f.m, nullptr, &x); if (stop) masa_stop(x); } else if (k == REG) { RegistrarContext *x = nullptr; r = registrar_start(&f.r, &f.m, &x); if (stop) registrar_stop(x); } else { auto rt = own_routes(); http_config h = {}; h.bind_address = f.r.bind_address; h.port = pn; h.tls_cert_path = f.r.tls_cert_path; h.tls_key_path = f.r.tls_key_path; void *x = nullptr; r = https_start(&h, rt, nullptr, &x); if (stop) https_stop(x); } return r; };
  net::Srv s; s.run(c.scratch + "/srv" + std::to_string(c.wi) + "r.log", [&]() -> int { size_t m[4]; for (int i = 0; i < 4; i++) { for (int j = 0; j < (i ? 6 : 3); j++) if (start(f, why == 1 ? t.n : p.n, true) >= 0) return 70; pki::settle(); m[i] = net::heap(); } long a = (long)(m[1] - m[0]), b = (long)(m[2] - m[1]), d = (long)(m[3] - m[2]); if (a >= 48 && b >= 48 && d >= 48) return 71; return start(g, p.n, false); });
  c.eval(); c.transition(); c.validated(); c.state(comb(77, k * 3 + why)); c.distinct(comb(77, k * 3 + why)); if (!s.up(p.n)) { if (s.returned && s.result == 71) c.fail("grows", "%s: every failed start leaves memory behind", c.w->note); c.fail("no-restart", "%s: it does not start: %s", c.w->note, s.tail().c_str()); }
}
/* ---- the whole protocol: the real client, registrar and MASA */
static const char *E2[] = {"everything as it should be", "no MASA", "no registrar", "the MASA does not know the registrar's TLS certificate", "the MASA does not know the registrar's signer", "the registrar does not know the manufacturer", "the pledge does not know the MASA", "another pledge's serial number", "the registrar's TLS certificate is of another domain", "the pinned certificate is of another domain", "the registrar cannot issue", "registrar restarted in between", "MASA restarted in between", "RSA keys", "P-384 keys", "certified through intermediates", "RSA keys, certified through intermediates", "certified through intermediates, which the pledge keeps to itself"};
static Site OTHERS[4]; /* RSA, P-384, intermediates, RSA with intermediates */
static void fam_whole(Ctx &c) {
  int v = c.choose(sizeof E2 / sizeof *E2); if (!c.mine()) return; const Site &W = v < 13 ? ::W : OTHERS[v < 17 ? v - 13 : 2]; c.note("the whole protocol: %s", E2[v]); Server m, r; m.port.open(); r.port.open(); m.conf = new Conf(W); r.conf = new Conf(W); Conf &a = *m.conf, &b = *r.conf; m.kind = MASA; r.kind = REG; for (Conf *f : {&a, &b}) { f->m.bind_address = f->str("127.0.0.1"); f->m.port = m.port.n; f->r.port = r.port.n; } a.r.tls_ca_cert_path = a.str(W.p(v == 3 ? "other.crt" : "dom.crt"));
  if (v == 4) { List l; (void)l; a.ms = List(); paths(a.ms, {W.p("other.crt")}); a.m.cms_verify_store_paths = a.ms; } if (v == 5) { b.rs = List(); paths(b.rs, {W.p("other.crt")}); b.r.cms_verify_store_paths = b.rs; } if (v == 8) b.r.tls_cert_path = b.str(W.p("other.crt")), b.r.tls_key_path = b.str(W.p("other.key")), a.r.tls_ca_cert_path = a.str(W.p("other.crt")); if (v == 9) a.m.ldevid_ca_cert_path = a.str(W.p("other.crt")); if (v == 10) b.r.tls_ca_key_path = b.str(W.p("missing.crt"));
  auto sm = [&] { m.s.run(c.scratch + "/srv" + std::to_string(c.wi) + "m.log", [&]() -> int { MasaContext *x = nullptr; return masa_start(&a.r, &a.m, nullptr, &x); }); if (!m.s.up(m.port.n)) c.fail("no-start", "%s: the MASA does not start", c.w->note); }; auto sr = [&] { r.s.run(c.scratch + "/srv" + std::to_string(c.wi) + "g.log", [&]() -> int { RegistrarContext *x = nullptr; return registrar_start(&b.r, &b.m, &x); }); if (!r.s.up(r.port.n)) c.fail("no-start", "%s: the registrar does not start", c.w->note); }; if (v != 1) sm(); if (v != 2) sr();
  if (v == 11) { r.s.stop(); sr(); } if (v == 12) { good(c, m, "before"); m.s.stop(); sm(); }
  struct P { Strs str; List a, st; pledge_config p; P() { memset(&p, 0, sizeof p); } } k; pledge_config &p = k.p; p.created_on = k.str("2024-01-01T00:00:00Z"); p.serial_number = k.str(v == 7 ? "67890" : "12345"); p.nonce = k.str("bm9uY2U="); p.idevid_cert_path = k.str(W.p("pledge.crt")); p.idevid_key_path = k.str(W.p("pledge.key")); p.idevid_ca_cert_path = k.str(W.p("mfr.crt")); p.cms_sign_cert_path = k.str(W.p("pledge.crt")); p.cms_sign_key_path = k.str(W.p("pledge.key")); paths(k.a, {W.p("mfr.crt")}); if (W.via && v != 17) paths(k.a, {W.p("mfrsub.crt")}); p.cms_add_certs_paths = k.a; paths(k.st, {W.p(v == 6 ? "other.crt" : W.via ? "masaroot.crt" : "masa.crt")}); p.cms_verify_store_paths = k.st;
  BinaryArray cert = {}, key = {}; int res = post_sign_cert(&p, &b.r, &b.m, &cert, &key); bytes bc = cert.array ? bytes((char *)cert.array, cert.length) : "", bk = key.array ? bytes((char *)key.array, key.length) : ""; bool ptr = cert.array || key.array; free_binary_array_content(&cert); free_binary_array_content(&key); c.eval(); c.transition(3); c.validated(); c.state(comb(1000, v)); c.distinct(comb(1000, v)); c.user(res == 0 ? 1 : 0);
  bool want = v == 0 || v == 11 || v == 12 || (v > 12 && v < 17); if (v != 1) living(c, m); if (v != 2) living(c, r); if (want != (res == 0)) c.fail(want ? "whole-fails" : "whole-succeeds", "%s: the client reports %s; MASA: %s; registrar: %s", c.w->note, res == 0 ? "success" : "failure", m.s.tail().c_str(), r.s.tail().c_str()); if (res && ptr) c.fail("handed-back", "%s: failure, but something is handed back", c.w->note);
  if (want) { const unsigned char *q = (const unsigned char *)bc.data(); X509 *x = d2i_X509(nullptr, &q, (long)bc.size()); q = (const unsigned char *)bk.data(); EVP_PKEY *e = d2i_AutoPrivateKey(nullptr, &q, (long)bk.size()); EVP_PKEY *ca = W.ldevid.key.k; bool ok = x && e && X509_check_private_key(x, e) == 1 && X509_verify(x, ca) == 1; X509_free(x); EVP_PKEY_free(e); ERR_clear_error(); if (!ok) c.fail("whole-certificate", "%s: what is handed back is no certificate of the domain's CA for the key", c.w->note); }
}
typedef void (*Fam)(Ctx &); static const Fam FAM[] = {fam_routes, fam_query, fam_methods, fam_responses, fam_framing, fam_headers, fam_certs, fam_histories, fam_pool, fam_growth, fam_interleaved, fam_keepalive, fam_sequence, fam_start, fam_restart, fam_whole};
static void body(Ctx &c) { c.noleak_case = true; const char *only = getenv("C21_ONLY"); int f = c.choose(sizeof FAM / sizeof *FAM); if (only && atoi(only) != f) return; c.note("family %d", f); FAM[f](c); }
static void init() {
  W.make(); regtls2 = id("regtls2", cn("registrar tls 2"), &W.dom, 0, 19); Id twindom = id("twindom", cn("domain"), nullptr, 1, 1); twinreg = id("twinreg", cn("registrar tls"), &twindom, 0, 9); selfmade = id("selfmade", cn("self"), nullptr, 0, 4); sub = id("sub", cn("domain sub ca"), &W.dom, 1, 41); subleaf = id("subleaf", cn("leaf"), &sub, 0, 42); expired.key = ec("expired"); Spec s; s.subject = cn("expired"); s.key = &expired.key; s.ca = &W.dom.cert; s.by = &W.dom.key; s.isca = 0; s.serial = 43; s.from = -864000; s.to = -86400; expired.cert = cert(s); W.files(DIR); for (int i = 0; i < 4; i++) { std::string d = DIR + "-" + std::to_string(i); mkdir(d.c_str(), 0700); OTHERS[i].make(i == 0 || i == 3 ? 1 : i == 1 ? 2 : 0, i >= 2); OTHERS[i].files(d); }
  clients(); hello(); auto B = bodies(); for (int st : STS) for (auto *t : TYP) for (auto *x : XTR) for (auto &b : B) WANT.push_back({st, t, x, b});
}
int main(int argc, char **argv) { signal(SIGPIPE, SIG_IGN); for (int i = 1; i + 1 < argc; i++) if (!strcmp(argv[i], "--scratch")) DIR = std::string(argv[i + 1]) + "/site"; if (DIR.empty()) return 3; mkdir(DIR.c_str(), 0700); LOGF = DIR + "/registrar.log"; quiet_logs(); init(); Opts o; o.worker_init = quiet_logs; o.settle = pki::settle; o.leakcheck = false; o.case_timeout = 120; return mc::run(argc, argv, body, o); }
