/* C11: answers of both servers are determined by request, client certificate and configuration, whatever came before */
#include "mc.hpp"
#include <functional>
#include <algorithm>
#include <dirent.h>
#include "servers.hpp"
using namespace mc; using namespace srv;
static Site W; static bytes PVR, RVR;
/* what is known about an answer without its random and time dependent parts */
struct Q { std::string name; Handler h; bool masa; std::string body; const Cert *peer; int status; int kind; /* 0 error, 1 fixed text, 2 MASA voucher, 3 registrar voucher, 4 enrolment */ std::string text; bytes nonce; int masastatus = 200; };
static std::vector<Q> QS; static const bytes VOUCHER = "dGhlIHZvdWNoZXI=";
static void init() { W.make(); PVR = pvr(W.pledge, "12345", W.regtls.cert.der); RVR = rvr(W.reg, "12345", PVR); bytes P2 = pvr(W.pledge2, "67890", W.regtls.cert.der, "other nonce"), R2 = rvr(W.reg, "67890", P2, "other nonce"), R3 = rvr(W.reg, "12345", pvr(W.pledge, "12345", W.regtls.cert.der, ""), ""), RB = rvr(W.reg, "12344", PVR), RO = rvr(W.other, "12345", PVR), RT = rvr(W.reg, "12345", pvr(W.twinpledge, "12345", W.regtls.cert.der)); bytes cut = RVR.substr(0, RVR.size() - 9);
  auto add = [](const std::string &n, Handler h, bool masa, const std::string &b, const Cert *p, int st, int kind, const std::string &t = "", const bytes &no = "", int ms = 200) { Q q; q.name = n; q.h = h; q.masa = masa; q.body = b; q.peer = p; q.status = st; q.kind = kind; q.text = t; q.nonce = no; q.masastatus = ms; QS.push_back(q); };
  /* the first ten are the alphabet of the longest sequences */
  add("MASA voucher request", masa_requestvoucher, true, b64(RVR), &W.regtls.cert, 200, 2, "12345", "nonce");
  add("MASA voucher request for another pledge", masa_requestvoucher, true, b64(R2), &W.regtls.cert, 200, 2, "67890", "other nonce");
  add("MASA request with another serial number inside", masa_requestvoucher, true, b64(RB), &W.regtls.cert, 400, 0);
  add("MASA request by an unknown registrar", masa_requestvoucher, true, b64(RO), &W.other.cert, 400, 0);
  add("registrar voucher request", registrar_requestvoucher, false, b64(PVR), &W.pledge.cert, 200, 3, "12345", "nonce");
  add("registrar voucher request by another pledge", registrar_requestvoucher, false, b64(P2), &W.pledge2.cert, 200, 3, "67890", "other nonce");
  add("registrar voucher request, MASA refuses", registrar_requestvoucher, false, b64(PVR), &W.pledge.cert, 502, 0, "", "", 403);
  add("registrar request with another's serial number", registrar_requestvoucher, false, b64(PVR), &W.pledge2.cert, 400, 0);
  add("enrolment", registrar_est_simpleenroll, false, b64(W.other.cert.der), &W.pledge.cert, 200, 4);
  add("enrolment of garbage", registrar_est_simpleenroll, false, "garbage!", &W.pledge.cert, 400, 0);
  add("MASA request without nonce", masa_requestvoucher, true, b64(R3), &W.regtls.cert, 200, 2, "12345", "");
  add("MASA request, garbage", masa_requestvoucher, true, "!!", &W.regtls.cert, 400, 0);
  add("MASA request, nothing", masa_requestvoucher, true, "", &W.regtls.cert, 400, 0);
  add("MASA request, cut", masa_requestvoucher, true, b64(cut), &W.regtls.cert, 400, 0);
  add("MASA request, forged pledge", masa_requestvoucher, true, b64(RT), &W.regtls.cert, 400, 0);
  add("MASA request, the pledge's own", masa_requestvoucher, true, b64(PVR), &W.pledge.cert, 400, 0);
  add("MASA voucher status", masa_voucher_status, true, "{\"x\":1}", &W.regtls.cert, 200, 1, "masa_voucher_status");
  add("MASA audit log", masa_requestauditlog, true, "", &W.regtls.cert, 200, 1, "masa_requestauditlog");
  add("MASA enrol status", masa_enrollstatus, true, std::string(5000, 'x'), &W.regtls.cert, 200, 1, "masa_enrollstatus");
  add("MASA cacerts", get_est_cacerts, true, "", &W.regtls.cert, 503, 1, "get_est_cacerts");
  add("MASA csrattrs", get_est_csrattrs, true, "%s%n", &W.regtls.cert, 503, 1, "get_est_csrattrs");
  add("MASA simpleenroll", post_est_simpleenroll, true, "x", &W.regtls.cert, 503, 1, "post_est_simpleenroll");
  add("MASA simplereenroll", post_est_simplereenroll, true, "x", nullptr, 503, 1, "post_est_simplereenroll");
  add("MASA fullcmc", post_est_fullcmc, true, "", &W.other.cert, 503, 1, "post_est_fullcmc");
  add("MASA serverkeygen", post_est_serverkeygen, true, "", &W.regtls.cert, 503, 1, "post_est_serverkeygen");
  add("registrar voucher status", registrar_voucher_status, false, "{}", &W.pledge.cert, 200, 1, "registrar_voucher_status");
  add("registrar audit log", registrar_requestauditlog, false, "", nullptr, 200, 1, "registrar_requestauditlog");
  add("registrar enrol status", registrar_enrollstatus, false, "s", &W.pledge.cert, 200, 1, "registrar_enrollstatus");
  add("registrar request without certificate", registrar_requestvoucher, false, b64(PVR), nullptr, 400, 0);
  add("registrar request of garbage", registrar_requestvoucher, false, "AAAA", &W.pledge.cert, 400, 0);
  add("registrar voucher request, no MASA", registrar_requestvoucher, false, b64(PVR), &W.pledge.cert, 502, 0, "", "", -1);
  add("enrolment with an unusual client", registrar_est_simpleenroll, false, b64(W.pledge2.cert.der), &W.noserial.cert, 200, 4);
}
static int fds() { int n = 0; DIR *d = opendir("/proc/self/fd"); if (!d) return -1; while (readdir(d)) n++; closedir(d); return n; }
static const char *WHY;
static std::string want_voucher(const std::string &m, const std::string &sn, const bytes &no, const T6 *exp = nullptr, const Id *pin = nullptr) { bool okb; Msg o = open_cms(unb64(m, &okb)); if (!okb || !o.ok || o.signers.size() != 1 || o.signers[0] != W.masa.cert.der) return "the answer is not a voucher signed by the MASA"; V w; std::string e = parse_strict(o.data, w); if (!e.empty()) return e; T6 ex{2030, 1, 2, 3, 4, 5};
  if (w.a[SERIAL].s != sn) return "the voucher is for " + w.a[SERIAL].s; if (w.a[NONCE].s != no || w.a[NONCE].set != (no.size() > 0)) return "the voucher has a wrong nonce"; if (w.a[PINNED].s != (pin ? pin : &W.dom)->cert.der) return "the voucher pins another certificate"; if (!(w.a[EXPIRES].t == (exp ? *exp : ex))) return "the voucher expires at another time"; bool f = false; for (auto &x : o.certs) f |= x == W.other.cert.der; if (!f) return "the configured additional certificate is missing"; return ""; }
/* asks and compares with the answer of a fresh server, which the table gives */
static void one(Ctx &c, Conf &f, const Q &q, const std::string &errbody, std::string *seen = nullptr) {
  ANSWERER = nullptr; ANSWER = Answer(); ANSWER.status = q.masastatus; ANSWER.body = q.masastatus == 200 ? VOUCHER : "refused"; ANSWER.peer = &W.masatls.cert; CALLS.clear(); bytes before, after; bool had = read(f.rc.log_path, before);
  Got g = ask(q.h, q.masa ? (void *)&f.mc : (void *)&f.rc, q.body, q.peer); c.transition(); c.validated(); bool has = read(f.rc.log_path, after);
  if (g.status != q.status) c.fail("status", "%s: %s answered %d instead of %d", WHY, q.name.c_str(), g.status, q.status);
  if (q.kind == 0) { if (seen) *seen = g.body; else if (g.body != errbody) c.fail("error-text", "%s: %s answered other text than on a fresh server: %.80s", WHY, q.name.c_str(), g.body.c_str()); if (g.body.find(VOUCHER) != std::string::npos || g.body.size() > 1000) c.fail("error-text", "%s: %s answered an error with %zu bytes", WHY, q.name.c_str(), g.body.size()); }
  std::string e; if (q.kind == 1 && (g.body != q.text || g.type() != "text/plain")) e = "answered \"" + g.body.substr(0, 60) + "\" of type " + g.type();
  if (q.kind == 2) { e = want_voucher(g.body, q.text, q.nonce); if (e.empty() && g.type() != "text/plain") e = "content type " + g.type(); }
  if (q.kind == 3 && (g.body != VOUCHER || g.type() != "application/voucher-cms+json")) e = "the MASA's voucher is not passed on unchanged";
  if (q.kind == 3 || (q.h == registrar_requestvoucher && q.status == 502)) { if (CALLS.size() != 1) e = "the MASA was contacted " + std::to_string(CALLS.size()) + " times"; else { Msg m = open_cms(unb64(CALLS[0].body)); V v; std::string x = m.ok ? parse_strict(m.data, v) : "unreadable"; std::string sn = q.kind == 3 ? q.text : "12345"; bytes no = q.kind == 3 ? q.nonce : bytes("nonce"); time_t now = time(nullptr); struct tm ct = tm6(v.a[CREATED].t); if (!x.empty() || v.a[SERIAL].s != sn || v.a[NONCE].s != no || v.a[PRIOR].s != unb64(q.body) || m.signers.size() != 1 || m.signers[0] != W.reg.cert.der || labs((long)(timegm(&ct) - now)) > 120) e = "the request sent to the MASA is wrong " + x; } } else if (CALLS.size()) e = "the MASA was contacted";
  if (q.kind == 4) { bytes d = unb64(g.body); X509 *o = x509(d); ERR_clear_error(); bytes sub; if (o) { unsigned char *p = nullptr; int l = i2d_X509_NAME(X509_get_subject_name(o), &p); sub.assign((char *)p, l); OPENSSL_free(p); } bytes src = unb64(q.body); X509 *s = x509(src); unsigned char *p = nullptr; int l = i2d_X509_NAME(X509_get_subject_name(s), &p); bytes want((char *)p, l); OPENSSL_free(p);
    if (!o || sub != want || X509_verify(o, W.ldevid.key.k) != 1 || ASN1_INTEGER_cmp(X509_get0_serialNumber(o), X509_get0_serialNumber(s))) e = "the issued certificate is wrong"; ERR_clear_error(); X509_free(o); X509_free(s); }
  if (!e.empty()) c.fail("answer", "%s: %s: %s", WHY, q.name.c_str(), e.c_str());
  size_t lb = std::count(before.begin(), before.end(), '\n'), la = std::count(after.begin(), after.end(), '\n'); if (had && (!has || after.compare(0, before.size(), before) != 0) || la - lb != (q.kind == 4 ? 1u : 0u)) c.fail("log", "%s: %s added %zu lines to the enrolment log", WHY, q.name.c_str(), la - lb);
}
static std::vector<std::string> BASE; /* texts of error answers on a fresh server, one process each */
static void baseline(Ctx &c) { if (BASE.size()) return; for (auto &q : QS) { int p[2]; if (pipe(p)) die("pipe"); fflush(nullptr); pid_t k = fork(); if (k == 0) { close(p[0]); Conf f(W); std::string s; int r = 0; try { one(c, f, q, "", &s); } catch (...) { r = 1; } if (write(p[1], s.data(), s.size()) < 0) r = 1; _exit(r); } close(p[1]); std::string s; char b[4096]; ssize_t n; while ((n = ::read(p[0], b, sizeof b)) > 0) s.append(b, n); close(p[0]); int st; waitpid(k, &st, 0); BASE.push_back(s); } }
static void body(Ctx &c) {
  static bool made = false; if (!made) { W.files(c.scratch); WHY = "on a fresh server"; made = true; }
  int part = c.choose(5); const int n = (int)QS.size(); 
  auto run1 = [&](Conf &f, int i) { one(c, f, QS[i], BASE[i]); };
  if (part == 0) { /* every history of three (thorough: four) requests over the main alphabet */
    int d = c.thorough ? 4 : 3, k[4]; for (int i = 0; i < d; i++) k[i] = c.choose(10); if (!c.mine()) return; baseline(c); Conf f(W); unlink(f.rc.log_path); int fd = fds(); uint64_t h = 1; std::string w = "after"; for (int i = 0; i < d; i++) { WHY = w.c_str(); c.note("%s, then %s", w.c_str(), QS[k[i]].name.c_str()); h = comb(h, k[i]); c.distinct(h); c.eval(); run1(f, k[i]); w += " " + QS[k[i]].name + ","; } if (fds() != fd) c.fail("descriptor-leak", "%s: %d descriptors instead of %d", w.c_str(), fds(), fd);
  } else if (part == 1) { /* every pair of all requests, and the first again */
    int a = c.choose(n), b = c.choose(n); if (!c.mine()) return; baseline(c); Conf f(W); unlink(f.rc.log_path); std::string w = "after " + QS[a].name + " and " + QS[b].name; c.note("%s", w.c_str()); WHY = c.w->note; c.distinct(comb(comb(2, a), b)); c.eval(); run1(f, a); run1(f, b); run1(f, a);
  } else if (part == 2) { /* one request many times, with another between */
    int a = c.choose(n), b = c.choose(3); if (!c.mine()) return; baseline(c); Conf f(W); unlink(f.rc.log_path); int fd = fds(), r = c.thorough ? 300 : 40; c.distinct(comb(comb(3, a), b)); c.eval(); for (int i = 0; i < r; i++) { c.note("%s for the %d. time%s", QS[a].name.c_str(), i + 1, b ? ", others between" : ""); WHY = c.w->note; run1(f, a); if (b && i % 2 == 0) run1(f, b == 1 ? 2 : 6); } if (fds() != fd) c.fail("descriptor-leak", "%s: %d descriptors instead of %d", WHY, fds(), fd);
  } else if (part == 3) { /* the MASA's own files and settings unusable, then repaired, around requests */
    int w = c.choose(12), k = c.choose(7), v = c.choose(4); if (!c.mine()) return; baseline(c); static const int VI[] = {0, 10, 2, 11}; const Q &q = QS[VI[v]]; Conf f(W); unlink(f.rc.log_path); std::vector<List *> keep; struct Rel { std::vector<List *> &k; ~Rel() { for (auto *l : k) delete l; } } rel{keep}; static const char *WN[] = {"certificate to pin", "signing certificate", "signing key", "registrar certificates", "registrar certificates (second)", "registrar store", "registrar store (second)", "pledge certificates", "pledge store", "pledge store (second)", "additional certificates", "expiry"}; static const char *KN[] = {"missing", "empty", "garbage", "directory", "wrong kind", "not configured", "cut"};
    std::string bad = k == 0 ? W.p("nofile") : k == 1 ? W.p("empty") : k == 2 ? W.p("garbage") : k == 3 ? W.p("dir") : k == 6 ? W.p("half.crt") : w == 2 ? W.p("masa.crt") : W.p("masa.key"); registrar_config r0 = f.r; masa_config m0 = f.m; char *bs = k == 5 ? nullptr : f.str(bad); auto list = [&](const std::vector<std::string> &x) { List *l = new List(); paths(*l, x); keep.push_back(l); return l->l; }; bool effect = true;
    switch (w) { case 0: f.m.ldevid_ca_cert_path = bs; break; case 1: f.m.cms_sign_cert_path = bs; break; case 2: f.m.cms_sign_key_path = bs; break; case 11: { static const char *X[] = {"", "2030-01-02", "2030-01-02T03:04:05", "tomorrow", "2030-13-02T03:04:05Z", nullptr, "2030-01-02T03:04:05Zx"}; f.m.expires_on = X[k] ? f.str(X[k]) : nullptr; break; }
      default: { if (k == 5) { effect = false; break; } std::vector<std::string> x; if (w == 4) x.push_back(W.p("dom.crt")); if (w == 6) x.push_back(W.p("dom.crt")); if (w == 9) x.push_back(W.p("mfr.crt")); x.push_back(bad); struct BinaryArrayList *l = list(x); if (w == 3 || w == 4) f.m.cms_verify_certs_paths = l; else if (w == 5 || w == 6) f.m.cms_verify_store_paths = l; else if (w == 7) f.r.cms_verify_certs_paths = l; else if (w == 8 || w == 9) f.r.cms_verify_store_paths = l; else f.m.cms_add_certs_paths = l; } }
    Q bq = q; if (effect) { bq.status = 400; bq.kind = 0; bq.name += std::string(" with an unusable ") + WN[w] + " (" + KN[k] + ")"; } c.note("%s", bq.name.c_str()); WHY = c.w->note; c.eval(); c.distinct(comb(comb(comb(4, w), k), v)); registrar_config r1 = f.r; masa_config m1 = f.m;
    f.r = r0; f.m = m0; one(c, f, q, BASE[VI[v]]); f.r = r1; f.m = m1; std::string any; one(c, f, bq, BASE[VI[v]], effect ? &any : nullptr); f.r = r0; f.m = m0; one(c, f, q, BASE[VI[v]]); 
  } else { /* the settings of the voucher: expiry, pinned certificate, in every order of two */
    static const char *X[] = {"2030-01-02T03:04:05Z", "1973-11-29T21:33:09Z", "9999-12-31T23:59:59Z", "1900-01-01T00:00:00Z"}; static const T6 T[] = {{2030, 1, 2, 3, 4, 5}, {1973, 11, 29, 21, 33, 9}, {9999, 12, 31, 23, 59, 59}, {1900, 1, 1, 0, 0, 0}}; const Id *P[] = {&W.dom, &W.regtls, &W.ldevid}; static const char *PN[] = {"dom.crt", "regtls.crt", "ldevid.crt"};
    int a = c.choose(12), b = c.choose(12), q = c.choose(2); if (!c.mine()) return; baseline(c); Conf f(W); unlink(f.rc.log_path); for (int i = 0; i < 3; i++) { int k = i == 1 ? b : a; f.m.expires_on = f.str(X[k % 4]); f.m.ldevid_ca_cert_path = f.str(W.p(PN[k / 4])); c.note("expires %s, pinned %s", X[k % 4], PN[k / 4]); c.eval(); c.distinct(comb(comb(comb(comb(5, a), b), q), i)); Got g = ask(masa_requestvoucher, &f.mc, QS[q].body, QS[q].peer); c.transition(); std::string e = g.status == 200 ? want_voucher(g.body, QS[q].text, QS[q].nonce, &T[k % 4], P[k / 4]) : "answered " + std::to_string(g.status); if (!e.empty()) c.fail("answer", "%s: %s", c.w->note, e.c_str()); }
  }
}
int main(int argc, char **argv) { quiet_logs(); setenv("TZ", "UTC", 1); init(); Opts o; o.worker_init = quiet_logs; o.settle = pki::settle; return run(argc, argv, body, o); }
