/* C13: concurrent requests to the registrar, all schedules up to a preemption bound */
#define CONC_STUB
#include "conc.hpp"
using namespace mc; using namespace conc; typedef sched::Space Space;
/* the MASA: records what it is asked (one scheduling point before and one after) and answers by what was asked */
static std::string ASKED[sched::MAXT + 1]; static int NASKED[sched::MAXT + 1], FAILS[sched::MAXT];
static int slot() { return sched::TID < 0 ? sched::MAXT : sched::TID; }
int https_post_request(const std::string &k, const std::string &c, const std::string &host, int port, const std::string &path, bool verify, const std::string &body, const std::string &type, struct HttpResponse &res) {
  sched::point(); sched::BUSY = 1; int t = slot(); NASKED[t]++; ASKED[t] += "asked " + k.substr(k.rfind('/') + 1) + " " + c.substr(c.rfind('/') + 1) + " " + host + " " + std::to_string(port) + " " + path + " " + type + " [" + body + "]"; std::string answer = "answer to " + std::to_string(std::hash<std::string>()(body) % 1000000); sched::BUSY = 0; sched::point();
  if (body.find("FAILNOW") != std::string::npos) return -1; res.response = answer; res.peer_certificate = nullptr; sched::point(); return t < sched::MAXT && FAILS[t] ? FAILS[t] : 200; }
int https_post_request_ca(const std::string &, const std::string &, const std::string &, const std::string &, int, const std::string &, const std::string &, const std::string &, std::string &) { return -1; }
std::string get_https_address(const char *a, int p) { return std::string("https://") + a + ":" + std::to_string(p); }
static Site W; static Conf *F, *F2; static std::string DIR; struct RQ_ { Req q; int fail; }; static std::vector<RQ_> RQ;
struct Scen { const char *name; std::vector<int> r; bool logs; int k, kt; };
static const std::vector<Scen> KINDS = {{"two voucher requests", {0, 1}, false, 2, 3}, {"two enrolments", {2, 3}, false, 2, 3}, {"voucher request and enrolment", {0, 2}, false, 1, 2}, {"valid and forged voucher request", {0, 4}, false, 1, 2}, {"enrolment of garbage and enrolment", {5, 3}, false, 1, 2}, {"the MASA refuses one", {6, 1}, false, 1, 2}, {"two registrars", {0, 7}, false, 1, 2}, {"three enrolments", {2, 3, 8}, false, 1, 2}, {"voucher request and two enrolments", {0, 2, 3}, false, 1, 1}, {"status reports", {9, 10}, false, 2, 3}, {"with logging", {1, 2}, true, 1, 1}};
static std::vector<Space> SPS;
static std::string logpath() { return DIR + "/enrol" + std::to_string(sched::TAG); }
static void make() {
  W.make(); W.files(DIR); F = new Conf(W); F2 = new Conf(W); F2->r.cms_sign_cert_path = F2->str(W.p("other.crt")); F2->r.cms_sign_key_path = F2->str(W.p("other.key")); F2->m.bind_address = F2->str("second.example"); F2->r.tls_cert_path = F2->str(W.p("masatls.crt")); F2->r.tls_key_path = F2->str(W.p("masatls.key"));
  const bytes &prox = W.regtls.cert.der; static Key K1 = ec("k1"), K2 = ec("k2", NID_secp384r1); auto en = [](Key &k, const char *cnm, const char *sn, long serial) { Spec s; s.key = &k; s.subject = Name{{"CN", cnm}, {"serialNumber", sn}}; s.isca = 0; s.keyids = false; s.serial = serial; return b64(cert(s).der); };
  auto vr = [&](const Id &p, const char *sn, const char *nonce) { return b64(pvr(p, sn, prox, nonce)); }; Handler v = registrar_requestvoucher, e = registrar_est_simpleenroll; const Cert *p1 = &W.pledge.cert, *p2 = &W.pledge2.cert;
  RQ = {{{v, &F->rc, vr(W.pledge, "12345", "nonce-0"), p1}, 0}, {{v, &F->rc, vr(W.pledge2, "67890", "nonce-1"), p2}, 0}, {{e, &F->rc, en(K1, "first", "77", 77), p1}, 0}, {{e, &F->rc, en(K2, "second one", "serial 88", 88), p2}, 0}, {{v, &F->rc, b64(pvr(W.other, "12345", prox, "nonce")), p1}, 0}, {{e, &F->rc, b64("garbage"), p1}, 0}, {{v, &F->rc, vr(W.pledge, "12345", "nonce-6"), p1}, 404}, {{v, &F2->rc, vr(W.pledge2, "67890", "nonce-7"), p2}, 0}, {{e, &F->rc, en(K1, "third", "99", 0x99999999), &W.noserial.cert}, 0}, {{registrar_voucher_status, &F->rc, "{}", p1}, 0}, {{registrar_enrollstatus, &F->rc, "{\"a\":1}", p2}, 0}};
  for (auto &k : KINDS) { Space sp; sp.s.name = k.name; std::vector<int> rs = k.r; bool lg = k.logs;
    sp.s.prepare = [rs, lg] { logs(lg, DIR + "/log" + std::to_string(sched::TAG)); det(); for (auto *f : {F, F2}) snprintf(f->rc.log_path, sizeof f->rc.log_path, "%s", logpath().c_str()); write(logpath(), "first line\n"); for (int i = 0; i < 3; i++) sched::VT[i] = 1700000000 + 1000000 * i; for (size_t i = 0; i < rs.size(); i++) FAILS[i] = RQ[rs[i]].fail; };
    for (size_t i = 0; i < rs.size(); i++) { int r = rs[i]; sp.s.threads.push_back([r] { int t = sched::TID; FAILS[t] = RQ[r].fail; const Req &q = RQ[r].q; std::string x = text(ask(q.h, q.ctx, q.body, q.peer)); sched::BUSY = 1; std::string y = std::to_string(x.size()) + "\n" + x + ASKED[t]; sched::BUSY = 0; return y; }); }
    sp.s.finish = [] { bytes b; read(logpath(), b); return b; }; SPS.push_back(sp); }
  Space::measure_all(SPS);
}
/* what can be compared: the MASA's view with the voucher request decoded, and the answer (a certificate without its signature) */
static std::string seen(const std::string &t, bool enrol) {
  size_t nl = t.find('\n'), n = atoi(t.c_str()); std::string a = t.substr(nl + 1, n), q = t.substr(nl + 1 + n); size_t i = q.find('['); if (i != std::string::npos) { bool ok; Msg m; bytes d = unb64(q.substr(i + 1, q.size() - i - 2), &ok); if (ok) m = open_cms(d); if (!m.ok) return "the MASA is sent no properly signed message"; q = q.substr(0, i) + m.data; for (auto &x : m.signers) q += "|signer " + x; std::sort(m.certs.begin(), m.certs.end()); for (auto &x : m.certs) q += "|" + x; size_t h = a.find("answer to "); if (h != std::string::npos && !a.compare(0, 4, "200|")) a = a.substr(0, h) + (a.substr(h) == "answer to " + std::to_string(std::hash<std::string>()(t.substr(nl + 1 + n + i + 1, t.size() - nl - 1 - n - i - 2)) % 1000000) ? "its answer" : "another answer"); }
  if (enrol && !a.compare(0, 4, "200|")) { size_t b = a.rfind('|'); bytes d = unb64(a.substr(b + 1)); X509 *x = x509(d); if (!x) return "no certificate: " + a; if (X509_verify(x, W.ldevid.key.k) != 1) { X509_free(x); return "a certificate the CA did not sign"; } unsigned char *p = nullptr; int l = i2d_re_X509_tbs(x, &p); a = a.substr(0, b + 1) + bytes((char *)p, l); OPENSSL_free(p); X509_free(x); ERR_clear_error(); }
  return a + "\n" + q; }
static std::vector<std::string> lines(const std::string &s) { std::vector<std::string> v; size_t i = 0; while (i < s.size()) { size_t e = s.find('\n', i); e = e == std::string::npos ? s.size() : e + 1; v.push_back(s.substr(i, e - i)); i = e; } std::sort(v.begin(), v.end()); return v; }
static std::string flat(const std::string &s) { std::string o; for (char ch : s) o += ch == '\n' ? ';' : (unsigned char)ch < 32 || (unsigned char)ch > 126 ? '?' : ch; return o; }
static void body(Ctx &c) {
  int k = c.choose((int)KINDS.size()); const Space &sp = SPS[k]; const Scen &K = KINDS[k]; int n = (int)K.r.size(); if (sp.err.size()) { if (!c.mine()) return; c.fail("crash", "%s: %s", K.name, sp.err.c_str()); } sched::Plan p; sp.pick(c, c.thorough ? K.kt : K.k, p); if (!c.mine()) return; std::string why = std::string(K.name) + "; " + Space::show(p, n); c.note("%s", why.c_str()); DIR = c.scratch;
  sched::Out o = sp.run(p); c.transition(o.points); c.eval(); c.user(0); if (o.points > sp.bound(p)) c.user(1); if (o.used) c.user(2); if (!o.ok) c.fail("crash", "%s: %s", why.c_str(), o.what.c_str());
  uint64_t h = k; for (int t = 0; t < n; t++) { h = comb(h, fnvs(o.res[t])); if (o.res[t] == sp.alone[t]) continue; bool en = RQ[K.r[t]].q.h == registrar_est_simpleenroll; std::string a = seen(o.res[t], en), b = seen(sp.alone[t], en); if (a != b) c.fail("interference", "%s: request %d gives %s instead of %s", why.c_str(), t, flat(a).substr(0, 400).c_str(), flat(b).substr(0, 400).c_str()); }
  std::string want = "first line\n"; for (int t = 0; t < n; t++) want += sp.alone_extra[t].substr(11); if (lines(want) != lines(o.extra) || o.extra.compare(0, 11, "first line\n")) c.fail("log", "%s: the enrolment log is %s instead of %s", why.c_str(), flat(o.extra).c_str(), flat(want).c_str());
  c.state(comb(h, fnv(&p, sizeof p))); c.validated(n); if (p.n && p.p[0].at == 7) c.sample("%s", why.c_str());
}
int main(int argc, char **argv) { if (!plain()) return 3; setenv("TZ", "UTC", 1); tzset(); quiet_logs(); sched::init(); sched::ENTRY = true; for (int i = 1; i + 1 < argc; i++) { if (!strcmp(argv[i], "--scratch")) DIR = argv[i + 1]; if (!strcmp(argv[i], "--tier") && !strcmp(argv[i + 1], "thorough")) sched::ENTRY = false; } make(); Opts o; o.leakcheck = false; return run(argc, argv, body, o); }
