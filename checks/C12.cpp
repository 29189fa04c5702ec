/* C12: concurrent voucher requests to the MASA, all schedules up to a preemption bound */
#include "conc.hpp"
using namespace mc; using namespace conc; typedef sched::Space Space;
static Site W; static Conf *F, *F2; static std::vector<Req> RQ; static std::string DIR;
struct Scen { const char *name; std::vector<int> r; bool logs; int k, kt; };
static const std::vector<Scen> KINDS = {{"two pledges", {0, 1}, false, 2, 3}, {"same pledge, two nonces", {0, 2}, false, 1, 3}, {"valid and forged", {0, 3}, false, 1, 2}, {"valid and not base64", {1, 4}, false, 1, 2}, {"no nonce and other registrar", {5, 6}, false, 1, 2}, {"two servers", {0, 7}, false, 1, 2}, {"two servers, one broken", {8, 7}, false, 1, 2}, {"three requests", {0, 1, 3}, false, 1, 2}, {"with logging", {0, 3}, true, 1, 1}};
static std::vector<Space> SPS;
static void make() {
  W.make(); W.files(DIR); F = new Conf(W); F2 = new Conf(W); F2->m.expires_on = F2->str("2041-05-06T07:08:09Z"); F2->m.ldevid_ca_cert_path = F2->str(W.p("other.crt")); F2->m.cms_sign_cert_path = F2->str(W.p("other.crt")); F2->m.cms_sign_key_path = F2->str(W.p("other.key")); static Conf *F3 = new Conf(W); F3->m.ldevid_ca_cert_path = F3->str(W.p("garbage"));
  static Id reg2 = id("reg2", cn("registrar 2"), &W.dom, 0, 18); bytes prox = W.regtls.cert.der; auto q = [&](const Id &r, const Id &p, const char *sn, const bytes &nonce) { return b64(rvr(r, sn, pvr(p, sn, prox, nonce), nonce)); };
  bytes forged = rvr(W.reg, "12345", pvr(W.other, "12345", prox, "forged"), "forged"); Handler h = masa_requestvoucher;
  RQ = {{h, &F->mc, q(W.reg, W.pledge, "12345", "nonce-0"), nullptr}, {h, &F->mc, q(W.reg, W.pledge2, "67890", "another nonce 1"), nullptr}, {h, &F->mc, q(W.reg, W.pledge, "12345", "nonce-2"), nullptr}, {h, &F->mc, b64(forged), nullptr}, {h, &F->mc, "!!", nullptr}, {h, &F->mc, q(W.reg, W.pledge, "12345", ""), nullptr}, {h, &F->mc, q(reg2, W.pledge2, "67890", "nonce-6"), nullptr}, {h, &F2->mc, q(W.reg, W.pledge2, "67890", "nonce-7"), nullptr}, {h, &F3->mc, q(W.reg, W.pledge, "12345", "nonce-8"), nullptr}};
  for (auto &k : KINDS) { Space sp; sp.s.name = k.name; bool lg = k.logs; sp.s.prepare = [lg] { logs(lg, DIR + "/log" + std::to_string(sched::TAG)); det(); for (int i = 0; i < 3; i++) sched::VT[i] = 1700000000 + 100000 * i; }; for (int r : k.r) sp.s.threads.push_back([r] { return text(ask(RQ[r].h, RQ[r].ctx, RQ[r].body, nullptr)); }); SPS.push_back(sp); }
  Space::measure_all(SPS);
}
/* what a requester sees: status, type, and the voucher or the error text */
static std::string seen(const std::string &t, const Cert *) { size_t a = t.find('|'), b = t.find('|', a + 1); if (t.compare(0, a, "200")) return t; bool ok; bytes c = unb64(t.substr(b + 1), &ok); Msg m = ok ? open_cms(c) : Msg(); if (!m.ok) return "no properly signed message: " + t; std::string r = t.substr(0, b + 1) + m.data; for (auto &x : m.signers) r += "|signer " + x; std::sort(m.certs.begin(), m.certs.end()); for (auto &x : m.certs) r += "|" + x; return r; }
static void body(Ctx &c) {
  int k = c.choose((int)KINDS.size()); const Space &sp = SPS[k]; const Scen &K = KINDS[k]; int n = (int)K.r.size(); if (sp.err.size()) { if (!c.mine()) return; c.fail("crash", "%s: %s", K.name, sp.err.c_str()); } sched::Plan p; sp.pick(c, c.thorough ? K.kt : K.k, p); if (!c.mine()) return; std::string why = std::string(K.name) + "; " + Space::show(p, n); c.note("%s", why.c_str());
  sched::Out o = sp.run(p); c.transition(o.points); c.eval(); c.user(0); if (o.points > sp.bound(p)) c.user(1); if (o.used) c.user(2); if (!o.ok) c.fail("crash", "%s: %s", why.c_str(), o.what.c_str());
  uint64_t h = k; for (int t = 0; t < n; t++) { h = comb(h, fnvs(o.res[t])); if (o.res[t] == sp.alone[t]) continue; std::string a = seen(o.res[t], nullptr), b = seen(sp.alone[t], nullptr); if (a != b) c.fail("interference", "%s: request %d is answered %s instead of %s", why.c_str(), t, a.substr(0, 300).c_str(), b.substr(0, 300).c_str()); } c.state(comb(h, fnv(&p, sizeof p))); c.validated(n); if (p.n && p.p[0].at == 7) c.sample("%s", why.c_str());
}
int main(int argc, char **argv) { if (!plain()) return 3; setenv("TZ", "UTC", 1); tzset(); quiet_logs(); sched::init(); sched::ENTRY = true; for (int i = 1; i + 1 < argc; i++) if (!strcmp(argv[i], "--tier") && !strcmp(argv[i + 1], "thorough")) sched::ENTRY = false; for (int i = 1; i + 1 < argc; i++) if (!strcmp(argv[i], "--scratch")) DIR = std::string(argv[i + 1]); make(); Opts o; o.leakcheck = false; return run(argc, argv, body, o); }
