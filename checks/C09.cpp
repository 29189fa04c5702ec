/* C09: histories of several runs with an attacker who records everything and may deliver any message to anyone.
 * Explicit-state: a state is what every run has reached; every delivery is executed with the real message functions and
 * its outcome compared with the abstract protocol (model); the binding property is checked on every accepting delivery. */
#include "mc.hpp"
#include "world.hpp"
#include <map>
using namespace mc; using namespace world;
static Id mfr, pl[3], evilmfr, evilpl, D[2], RG[3], RT[3], masa, evilmasa, evildom, evilreg, att; static const char *SN[] = {"111", "222", "333"}; /* 333: the attacker's own, genuine device */
static int DOMOF[3] = {0, 1, 0}; static List *MST, *RST, *PST; /* anchors: pledges', registrar domains', MASA */
struct Keys { Key k[3]; Keys(const std::string &n) { k[0] = ec(n); k[1] = rsa(2048); k[2] = ec(n, NID_secp384r1); } };
static Keys *RK[8]; static const char *RN[] = {"mfr", "pledge", "dom", "registrar", "masa root", "inter 1", "inter 2", "masa"};
static void init() {
  mfr = id("mfr", cn("manufacturer"), nullptr, 1, 1); evilmfr = id("evilmfr", cn("manufacturer"), nullptr, 1, 1); for (int i = 0; i < 3; i++) pl[i] = id(std::string("pl") + SN[i], Name{{"CN", "pledge"}, {"serialNumber", SN[i]}}, &mfr, 0, 10 + i); evilpl = id("evilpl", Name{{"CN", "pledge"}, {"serialNumber", "111"}}, &evilmfr, 0, 10);
  for (int i = 0; i < 2; i++) D[i] = id(i ? "D1" : "D0", cn(i ? "domain 1" : "domain 0"), nullptr, 1, 1); for (int i = 0; i < 3; i++) { std::string n = "reg" + std::to_string(i); RG[i] = id(n, cn(n), &D[DOMOF[i]], 0, 20 + i); RT[i] = id(n + "tls", cn(n + " tls"), &D[DOMOF[i]], 0, 30 + i); }
  masa = id("masa", cn("masa"), nullptr, 1, 1); evilmasa = id("evilmasa", cn("masa"), nullptr, 1, 1); evildom = id("evildom", cn("domain 0"), nullptr, 1, 1); evilreg = id("evilreg", cn("reg0"), &evildom, 0, 20); att = id("att", cn("reg0 tls"), &evildom, 0, 30);
  MST = new List(); MST->add(mfr.cert.der, 0); RST = new List(); RST->add(D[0].cert.der, 0); RST->add(D[1].cert.der, 0); PST = new List(); PST->add(masa.cert.der, 0); for (int i = 0; i < 8; i++) RK[i] = new Keys(RN[i]);
}
static int owner(const char *, const struct BinaryArrayList *certs, void *, struct BinaryArray *pin) {
  std::vector<bytes> v = items((struct BinaryArrayList *)certs); if (v.size() != 1) return -1; int d = -1; for (int i = 0; i < 3; i++) if (v[0] == RG[i].cert.der) d = DOMOF[i]; if (d < 0) return -1;
  pin->array = (uint8_t *)malloc(D[d].cert.der.size()); memcpy(pin->array, D[d].cert.der.data(), D[d].cert.der.size()); pin->length = D[d].cert.der.size(); return 0;
}
enum Kind { PVR, RVR, VOU, FAKE };
struct M { bytes m; int kind, s, r; std::string name; }; /* s: run it belongs to (-1: attacker), r: registrar that made the request */
struct Session { int p, t; bytes nonce, pvr; }; /* t: registrar 0..2, 3: an impostor that only presents a certificate */
static bytes tlsof(int t) { return t < 3 ? RT[t].cert.der : att.cert.der; }
struct World {
  Ctx &c; std::vector<Session> runs; std::vector<M> msgs; std::map<std::string, bool> tried; bool full; std::string conf; int serialno = 0;
  World(Ctx &c) : c(c), full(c.thorough) {}
  void learn(const M &m) { msgs.push_back(m); }
  /* executes one delivery with the real code; to: 0..2 registrar (as = authenticated serial), 3 MASA, 4+k pledge of run k */
  bool deliver(const M &m, int to, int as, bytes &out) {
    char what[300]; snprintf(what, sizeof what, "%s: %s delivered to %s%s", conf.c_str(), m.name.c_str(), to < 3 ? "registrar " : to == 3 ? "the MASA" : "the pledge of run ", to < 3 ? (std::to_string(to) + " as pledge " + SN[as]).c_str() : to == 3 ? "" : std::to_string(to - 4).c_str()); c.note("%s", what); c.transition();
    Arr a(m.m); struct tm t = tm6(T6{2024, 1, 1, 0, 0, serialno++ % 60}); bool got = false, want;
    if (to < 3) { Arr iss("manufacturer"), tls(tlsof(to)), rc(RG[to].cert.der), rk(RG[to].key.der); struct BinaryArray *o = sign_voucher_request(a, &t, SN[as], iss, tls, rc, rk, nullptr, *MST, nullptr); got = o; out = take(o); want = m.kind == PVR && (m.s < 0 ? m.r == to && as == 2 : runs[m.s].t == to && runs[m.s].p == as); }
    else if (to == 3) { Arr mc_(masa.cert.der), mk(masa.key.der); struct BinaryArray *o = sign_masa_pledge_voucher(a, &t, owner, nullptr, mc_, mk, nullptr, *RST, nullptr, *MST, nullptr); got = o; out = take(o); want = m.kind == RVR; }
    else { const Session &r = runs[to - 4]; Arr n(r.nonce), tls(tlsof(r.t)); struct BinaryArray pin = {nullptr, 0}; got = verify_masa_pledge_voucher(a, SN[r.p], n, tls, nullptr, nullptr, *PST, nullptr, &pin) == 0; out = str(&pin); free_binary_array_content(&pin); want = m.kind == VOU && m.s == to - 4;
      if (got && (r.t > 2 || m.kind != VOU || m.s != to - 4 || m.r != r.t || out != D[DOMOF[r.t]].cert.der)) c.fail("bound-wrong", "%s: the pledge is bound although the voucher does not come from its current request to that registrar", what); }
    if (got && !want) c.fail("accepted", "%s was accepted", what); if (!got && want) c.fail("refused", "%s was refused", what); c.validated();
    if (got && to < 4 && m.s >= 0) { Msg o = open_cms(out); V w; if (!o.ok || !parse_strict(o.data, w).empty() || w.a[SERIAL].s != SN[runs[m.s].p] || w.a[NONCE].s != runs[m.s].nonce) c.fail("content", "%s: the message made from it does not carry the run's serial number and nonce", what); }
    return got;
  }
  void start(int k) { Session &r = runs[k]; Arr n(r.nonce), tls(tlsof(r.t)), pc(pl[r.p].cert.der), pk(pl[r.p].key.der); struct tm t = tm6(T6{2024, 1, 1, 0, 0, 0}); r.pvr = take(sign_pledge_voucher_request(&t, SN[r.p], n, tls, pc, pk, nullptr)); c.transition(); if (r.pvr.empty()) c.fail("refused", "pledge request not made");
    learn({r.pvr, PVR, k, r.t, "pledge request of run " + std::to_string(k)});
    /* what an attacker can make of it */
    V v; parse_strict(open_cms(r.pvr).data, v); V q; S(q, SERIAL, SN[r.p]); S(q, NONCE, r.nonce); S(q, PRIOR, r.pvr); T(q, CREATED, T6{2024, 1, 1, 0, 0, 0}); std::string ks = std::to_string(k);
    learn({cms(doc(q), {{&evilreg.cert, &evilreg.key}}, {evildom.cert.der}), FAKE, k, -1, "request of an impostor registrar around the request of run " + ks}); learn({cms(doc(q), {{&pl[2].cert, &pl[2].key}}), FAKE, k, -1, "registrar request signed by the attacker's device around the request of run " + ks});
    V w; S(w, SERIAL, SN[r.p]); S(w, NONCE, r.nonce); E(w, ASSERTION, 3); S(w, PINNED, evildom.cert.der); T(w, EXPIRES, T6{2030, 1, 1, 0, 0, 0}); learn({cms(doc(w), {{&evilmasa.cert, &evilmasa.key}}), FAKE, k, -1, "voucher of an impostor MASA for run " + ks}); learn({cms(doc(w), {{&pl[2].cert, &pl[2].key}}, {mfr.cert.der}), FAKE, k, -1, "voucher signed by the attacker's device for run " + ks});
    V x = v; S(x, PROX, RT[0].cert.der); learn({cms(doc(x), {{&evilpl.cert, &evilpl.key}}), FAKE, k, -1, "pledge request of run " + ks + " re-signed by an impostor device for registrar 0"}); if (r.t == 3) return; }
};
static void explore(World &w, std::vector<int> prog) { /* prog per run: 0 not started, 1 request made, 2 registrar request made, 3 voucher issued, 4 bound */
  Ctx &c = w.c; uint64_t h = mc::fnvs(w.conf); for (int x : prog) h = comb(h, x); if (!c.state(h)) return; bytes out; size_t n = w.msgs.size();
  /* every delivery that is not part of a run's own progress leads back to this state */
  for (size_t i = 0; i < n; i++) { M m = w.msgs[i]; for (int to = 0; to < 4 + (int)w.runs.size(); to++) for (int as = 0; as < (to < 3 ? 3 : 1); as++) {
    if (to >= 4 && prog[to - 4] == 0) continue; bool own = (m.kind == PVR && m.s >= 0 && to < 3 && w.runs[m.s].t == to && w.runs[m.s].p == as) || (m.kind == RVR && to == 3) || (m.kind == VOU && m.s == to - 4) || (m.kind == PVR && m.s < 0 && to == m.r && as == 2); if (own) continue; if (m.kind == PVR && m.s < 0 && as == 2 && to < 3 && to == m.r) continue;
    std::string key = m.name + "|" + std::to_string(to) + "|" + std::to_string(as); if (!w.full && w.tried[key]) continue; w.tried[key] = true; w.deliver(m, to, as, out); } }
  for (size_t k = 0; k < prog.size(); k++) { std::vector<M> save = w.msgs; bool moved = false; std::string ks = std::to_string(k);
    if (prog[k] == 0) { w.start((int)k); moved = true; }
    else if (prog[k] < 4) for (size_t i = 0; i < n && !moved; i++) { const M m = w.msgs[i]; if (m.s != (int)k) continue; Session &r = w.runs[k];
      if (prog[k] == 1 && m.kind == PVR && r.t < 3) { moved = w.deliver(m, r.t, r.p, out); if (moved) w.learn({out, RVR, (int)k, r.t, "registrar request for run " + ks}); }
      else if (prog[k] == 2 && m.kind == RVR) { moved = w.deliver(m, 3, 0, out); if (moved) w.learn({out, VOU, (int)k, r.t, "voucher for run " + ks}); }
      else if (prog[k] == 3 && m.kind == VOU) moved = w.deliver(m, 4 + (int)k, 0, out); }
    if (moved) { std::vector<int> p = prog; p[k]++; explore(w, p); }
    w.msgs = save; }
}
/* undisturbed runs: every kind of key in every role, certificates issued directly or through intermediates that the messages carry;
 * next to each step the same step with a root of the same name but another key */
static int granted(const char *, const struct BinaryArrayList *certs, void *ctx, struct BinaryArray *pin) { bytes **x = (bytes **)ctx; bool f = false; for (auto &i : items((struct BinaryArrayList *)certs)) f |= i == *x[0]; if (!f) return -1; pin->array = (uint8_t *)malloc(x[1]->size()); memcpy(pin->array, x[1]->data(), x[1]->size()); pin->length = x[1]->size(); return 0; }
static void undisturbed(Ctx &c) {
  int km = c.choose(3), kp = c.choose(3), kd = c.choose(3), kr = c.choose(3), ka = c.choose(3), dp = c.choose(3), dr = c.choose(3), da = c.choose(3), fl = c.thorough ? c.choose(4) : (km + kp + kd + kr + ka + dp + dr + da) & 3; if (!c.thorough && !(dp == dr && dr == da) && !(kp == km && kd == kr && ka == (km + kd) % 3)) return; if (!c.mine()) return; bool nonce = !(fl & 1), root = fl & 2;
  char why[300]; snprintf(why, sizeof why, "keys of manufacturer %d, pledge %d, domain %d, registrar %d, MASA %d; intermediates %d, %d, %d; %s nonce%s", km, kp, kd, kr, ka, dp, dr, da, nonce ? "with" : "no", root ? ", roots embedded" : ""); c.note("%s", why); uint64_t h = 99; for (int x : {km, kp, kd, kr, ka, dp, dr, da, fl}) h = comb(h, x); c.state(h);
  struct Pki { std::vector<Cert> v; ~Pki() { for (auto &x : v) X509_free(x.x); } const Cert &mk(const Name &n, const Key &k, const Cert *ca, const Key *by, int isca, int serial) { Spec s; s.subject = n; s.key = &k; s.ca = ca; s.by = by; s.isca = isca; s.serial = serial; v.push_back(cert(s)); return v.back(); } } P; P.v.reserve(40);
  struct Leaf { bytes root, twin; std::vector<bytes> via; const Cert *c; };
  auto chain = [&](int role, const Name &leaf, const Key &lk, const Key &rk, int depth, int serial) { Leaf l; Name rn = cn(RN[role]); const Cert *up = &P.mk(rn, rk, nullptr, nullptr, 1, 1); const Key *uk = &rk; l.root = up->der; l.twin = P.mk(rn, RK[role]->k[&rk == &RK[role]->k[0] ? 2 : 0], nullptr, nullptr, 1, 1).der; for (int i = 0; i < depth; i++) { const Key &ik = RK[5 + i]->k[(depth + serial + i) % 3]; up = &P.mk(cn(std::string(RN[role]) + " inter " + std::to_string(i)), ik, up, uk, 1, 50 + i); uk = &ik; l.via.push_back(up->der); } if (root) l.via.insert(l.via.begin() + (serial & 1 ? 0 : l.via.size()), l.root); l.c = &P.mk(leaf, lk, up, uk, 0, serial); return l; };
  const Key &pk = RK[1]->k[kp], &rk = RK[3]->k[kr], &ak = RK[7]->k[ka]; Leaf p = chain(0, Name{{"CN", "pledge"}, {"serialNumber", "111"}}, pk, RK[0]->k[km], dp, 2), r = chain(2, cn("registrar"), rk, RK[2]->k[kd], dr, 3), a = chain(4, cn("masa"), ak, RK[4]->k[(ka + 1) % 3], da, 4); const Cert &dom = *[&] { for (auto &x : P.v) if (x.der == r.root) return &x; return &P.v[0]; }(); const Cert &tls = P.mk(cn("registrar tls"), RK[3]->k[(kr + 1) % 3], &dom, &RK[2]->k[kd], 0, 9);
  List pv(p.via), rv(r.via), av(a.via), ps({p.root}), pt({p.twin}), rs({r.root}), rt({r.twin}), as({a.root}), at({a.twin}); struct tm t = tm6(T6{2024, 1, 1, 0, 0, 0}); bytes no = std::string("nonce\0of this run", 17); Arr n(no), tl(tls.der), pc(p.c->der), pkb(pk.der), rc(r.c->der), rkb(rk.der), ac(a.c->der), akb(ak.der), iss("CN = issuer");
  auto carry = [&](const bytes &m, const char *what, bool isv) { Msg o = open_cms(m); V w; if (!o.ok || !parse_strict(o.data, w).empty() || w.a[SERIAL].s != "111" || w.a[NONCE].s != (nonce ? no : bytes()) || (isv && w.a[PINNED].s != r.root)) c.fail("content", "%s: the %s does not carry the run's serial number, nonce or certificate", why, what); c.validated(); }; c.eval();
  bytes m1 = take(sign_pledge_voucher_request(&t, "111", nonce ? (struct BinaryArray *)n : nullptr, tl, pc, pkb, pv)); c.transition(); if (m1.empty()) c.fail("stuck", "%s: the pledge makes no request", why); carry(m1, "pledge's request", false); Arr a1(m1);
  if (take(sign_voucher_request(a1, &t, "111", iss, tl, rc, rkb, nullptr, pt, rv)).size()) c.fail("accepted", "%s: the registrar accepts the pledge under another manufacturer of the same name", why); bytes m2 = take(sign_voucher_request(a1, &t, "111", iss, tl, rc, rkb, nullptr, ps, rv)); c.transition(2); if (m2.empty()) c.fail("stuck", "%s: the registrar makes no request", why); carry(m2, "registrar's request", false); Arr a2(m2);
  bytes dc = r.root, rder = r.c->der; bytes *g[2] = {&rder, &dc}; if (take(sign_masa_pledge_voucher(a2, &t, granted, g, ac, akb, nullptr, rt, nullptr, ps, av)).size()) c.fail("accepted", "%s: the MASA accepts a registrar of another domain of the same name", why); if (take(sign_masa_pledge_voucher(a2, &t, granted, g, ac, akb, nullptr, rs, nullptr, pt, av)).size()) c.fail("accepted", "%s: the MASA accepts a pledge of another manufacturer of the same name", why);
  bytes m3 = take(sign_masa_pledge_voucher(a2, &t, granted, g, ac, akb, nullptr, rs, nullptr, ps, av)); c.transition(3); if (m3.empty()) c.fail("stuck", "%s: the MASA issues no voucher", why); carry(m3, "voucher", true); Arr a3(m3); struct BinaryArray pin = {nullptr, 0};
  if (verify_masa_pledge_voucher(a3, "111", nonce ? (struct BinaryArray *)n : nullptr, tl, nullptr, nullptr, at, nullptr, &pin) == 0) { free_binary_array_content(&pin); c.fail("accepted", "%s: the pledge accepts a voucher of another MASA of the same name", why); } struct BinaryArray pin2 = {nullptr, 0}; int ok = verify_masa_pledge_voucher(a3, "111", nonce ? (struct BinaryArray *)n : nullptr, tl, (fl + kp) & 1 ? (struct BinaryArrayList *)rs : nullptr, nullptr, as, nullptr, &pin2); bytes got = str(&pin2); free_binary_array_content(&pin2); c.transition(2);
  if (ok != 0) c.fail("stuck", "%s: the pledge refuses its voucher", why); if (got != r.root) c.fail("bound-wrong", "%s: the pledge is bound to another certificate", why); c.distinct(h); c.user(0);
}
static void body(Ctx &c) {
  if (c.choose(2)) { undisturbed(c); return; }
  int n = c.thorough ? 3 : 2 + c.choose(2), kind[3] = {0, 0, 0}; for (int i = 0; i < n; i++) kind[i] = c.choose(8); int at = c.choose(2); if (!c.mine()) return;
  for (int i = 1; i < n; i++) if (kind[i] < kind[i - 1]) return; if (!c.thorough && n == 3 && at) return;
  World w(c); for (int i = 0; i < n; i++) { Session r; r.p = kind[i] & 1; r.t = kind[i] >> 1; r.nonce = std::string("nonce\0of run ", 13) + (char)('0' + i); w.runs.push_back(r); w.conf += std::string(i ? ", " : "") + "run " + std::to_string(i) + ": pledge " + SN[r.p] + " with " + (r.t < 3 ? "registrar " + std::to_string(r.t) : std::string("an impostor")); }
  if (at) { /* the attacker also runs its own device's enrolment, reusing the nonce of run 0 */
    V v; S(v, SERIAL, SN[2]); S(v, NONCE, w.runs[0].nonce); E(v, ASSERTION, 3); S(v, PROX, RT[0].cert.der); M m{cms(doc(v), {{&pl[2].cert, &pl[2].key}}), PVR, -1, 0, "request of the attacker's device"}; w.learn(m); bytes rv, vo;
    if (w.deliver(m, 0, 2, rv)) { M q{rv, RVR, -1, 0, "registrar request for the attacker's device"}; w.learn(q); if (w.deliver(q, 3, 0, vo)) w.learn({vo, VOU, -1, 0, "voucher for the attacker's device"}); }
    V y = v; S(y, SERIAL, SN[0]); w.learn({cms(doc(y), {{&pl[2].cert, &pl[2].key}}), FAKE, -1, 0, "request of the attacker's device with another serial number"}); w.conf += ", attacker's device enrolled";
    bytes o; M f = w.msgs.back(); for (int r = 0; r < 3; r++) w.deliver(f, r, 2, o); w.msgs.pop_back(); }
  explore(w, std::vector<int>(n, 0)); c.sample("%s: %zu kinds of delivery tried", w.conf.c_str(), w.tried.size());
}
int main(int argc, char **argv) { quiet_logs(); init(); Opts o; o.worker_init = quiet_logs; o.settle = pki::settle; o.case_timeout = 300; return run(argc, argv, body, o); }
