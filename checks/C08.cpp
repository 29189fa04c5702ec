/* C08: which vouchers a pledge accepts, for which registrar */
#include "mc.hpp"
#include "world.hpp"
#include "sizes.hpp"
#include "looks.hpp"
using namespace mc; using namespace world;
static Id masa, twinmasa, mca, masaleaf, self, dom, twind, odom, inter, reg, twinreg, oreg, ireg, lone, lonetwin; static Cert resigned;
static const char *SER[] = {"absent", "12345", "1234", "123456", "12346", "12345 ", "A2345", "\"q\\\n", "0"};
static bytes nonce(int k) { static const bytes N[] = {"", std::string("\0", 1), std::string("nonce\0tail", 10), std::string("nonce\0tai1", 10), std::string("nonce\0tai", 9), std::string("nonce\0tail\0", 11), std::string("nonce", 5), std::string(300, 'n')}; return N[k]; }
static void init() {
  masa = id("masa", cn("masa"), nullptr, 1, 1); twinmasa = id("twinmasa", cn("masa"), nullptr, 1, 1); mca = id("mca", cn("manufacturer"), nullptr, 1, 1); masaleaf = id("masaleaf", cn("masa signer"), &mca, 0, 4); self = id("self", cn("self"), nullptr, 1, 3);
  dom = id("dom", cn("domain"), nullptr, 1, 1); twind = id("twind", cn("domain"), nullptr, 1, 1); odom = id("odom", cn("other domain"), nullptr, 1, 1); inter = id("inter", cn("inter"), &dom, 1, 2);
  reg = id("reg", cn("registrar"), &dom, 0, 8); twinreg = id("twinreg", cn("registrar"), &twind, 0, 8); oreg = id("oreg", cn("registrar"), &odom, 0, 8); ireg = id("ireg", cn("registrar"), &inter, 0, 8); lone = id("lone", cn("lone"), nullptr, 0, 9); lonetwin = id("lonetwin", cn("lone"), nullptr, 0, 9);
}
static void judge(Ctx &c, Verdict ve, int r, struct BinaryArray *pin, struct BinaryArrayList *certs, const bytes &want, const bytes &signer, const char *why) {
  c.eval(); c.user(ve == ACCEPT ? 1 : ve == REJECT ? 2 : 0); bytes got = str(pin); bool had = pin->array != nullptr || pin->length; free_binary_array_content(pin); std::vector<bytes> out = items(certs); bool hadc = certs != nullptr; if (certs) free_array_list(certs);
  if (r != 0 && r != -1) c.fail("return-code", "%s: returned %d", why, r);
  if (r < 0) { if (had) c.fail("pinned-on-refusal", "%s: a pinned certificate was handed back although the voucher was refused", why); if (ve == ACCEPT) c.fail("refused-valid", "%s", why); return; }
  if (ve == REJECT) c.fail("accepted-invalid", "%s: the voucher was accepted", why);
  if (got != want) c.fail("pinned-wrong", "%s: the pinned certificate handed back is not the one in the voucher", why);
  if (hadc && (out.size() != 1 || out[0] != signer)) c.fail("signers-wrong", "%s: %zu signer certificates handed back", why, out.size());
}
/* every length class of the compared fields: equal, or differing in one place */
static bytes pat(size_t n, int k) { bytes b(n, 0); for (size_t i = 0; i < n; i++) b[i] = (char)(i * 131 + (i >> 8) * 7 + k); return b; }
static bytes txt(size_t n) { bytes b(n, 0); for (size_t i = 0; i < n; i++) b[i] = (char)('a' + (i + (i >> 7)) % 26); return b; }
static void lengths(Ctx &c) {
  auto &sz = mc::sizes(c.thorough); int ix = c.choose((int)sz.size()), k = c.choose(9); size_t n = k < 5 ? sz[ix] : 127 - ix % 126; /* serial numbers have at most 127 characters */ if (!c.mine()) return; if (!c.thorough && n > 40000 && k % 3) return; struct BinaryArray pin = {nullptr, 0};
  static const char *KN[] = {"nonce, equal", "nonce, last byte differs", "nonce, middle byte differs", "nonce, one byte less", "nonce, one byte more", "serial number, equal", "serial number, last character differs", "serial number, one character less", "serial number, one character more"};
  char why[400]; snprintf(why, sizeof why, "length %zu: %s", n, KN[k]); c.note("%s", why); c.distinct(comb(comb(5000, n), k)); bytes sn = k < 5 ? bytes("12345") : txt(n), nn = k < 5 ? pat(n, 9) : bytes("n");
  V v; S(v, SERIAL, sn); S(v, NONCE, nn); S(v, PINNED, dom.cert.der); bytes m = cms(doc(v), {{&masa.cert, &masa.key}});
  switch (k) { case 1: nn[n - 1] ^= 1; break; case 2: nn[n / 2] ^= 1; break; case 3: nn.pop_back(); break; case 4: nn += '\0'; break; case 6: sn[n - 1] = '!'; break; case 7: sn.pop_back(); break; case 8: sn += 'x'; break; default: break; }
  Arr a(m), na(nn), t(reg.cert.der); List st; st.add(masa.cert.der, 0); int r = verify_masa_pledge_voucher(a, sn.c_str(), na, t, nullptr, nullptr, st, nullptr, &pin); judge(c, k == 0 || k == 5 ? ACCEPT : REJECT, r, &pin, nullptr, dom.cert.der, masa.cert.der, why);
}
/* serial numbers and nonces that look alike, in every pair */
static void alike(Ctx &c) {
  int w = c.choose(2); auto &L = w ? mc::blooks() : mc::looks(); int n = (int)L.size(), i = c.choose(n), j = c.choose(n); if (!c.mine()) return; bool ok = i == j; if (ok && L[i].empty()) return; struct BinaryArray pin = {nullptr, 0}; char why[400]; snprintf(why, sizeof why, "look-alikes: %s %d '%s' for %d '%s'", w ? "nonce" : "serial number", i, L[i].c_str(), j, L[j].c_str()); c.note("%s", why); c.distinct(comb(comb(6000 + w, i), j));
  V v; S(v, SERIAL, w ? "12345" : L[i]); S(v, NONCE, w ? L[i] : bytes("n")); S(v, PINNED, dom.cert.der); bytes m = cms(doc(v), {{&masa.cert, &masa.key}});
  Arr a(m), na(w ? L[j] : bytes("n")), t(reg.cert.der); List st; st.add(masa.cert.der, 0); int r = verify_masa_pledge_voucher(a, w ? "12345" : L[j].c_str(), na, t, nullptr, nullptr, st, nullptr, &pin); judge(c, ok ? ACCEPT : REJECT, r, &pin, nullptr, dom.cert.der, masa.cert.der, why);
}
static void body(Ctx &c) {
  int part = c.choose(7); if (part == 5) { lengths(c); return; } if (part == 6) { alike(c); return; } char why[400]; struct BinaryArray pin = {nullptr, 0}; struct BinaryArrayList *oc = nullptr;
  if (part == 0) { /* serial number, nonce, other attributes, output of signer certificates */
    int vs = c.choose(9), ps = c.choose(9), vn = c.choose(8), pn = c.choose(9), x = c.choose(4); if (!c.mine()) return; if (!ps) return; int hp = x != 3; /* x == 3: no pinned certificate */
    if (!c.thorough && vs != ps && ps != 1 && (vn + pn) % 3) return; 
    V v; if (vs) S(v, SERIAL, SER[vs]); if (vn) S(v, NONCE, nonce(vn)); if (hp) S(v, PINNED, dom.cert.der); E(v, ASSERTION, x == 1 ? 1 : 3); if (x == 2) { T(v, EXPIRES, T6{2030, 1, 1, 0, 0, 0}); T(v, CREATED, T6{2024, 1, 1, 0, 0, 0}); v.a[REVCHK].set = v.a[REVCHK].b = true; }
    bytes m = cms(doc(v), {{&masa.cert, &masa.key}}); bool ok = vs == ps && (pn == 0 || (vn && pn < 8 && vn == pn)) && hp; if (pn == 8 && vn) ok = false; /* pn 0: none sent; 8: empty array */
    Verdict ve = ok ? ACCEPT : REJECT; if (pn == 8) ve = REJECT;
    snprintf(why, sizeof why, "voucher serial %s for pledge %s, voucher nonce %d, pledge nonce %d, other attributes %d", SER[vs], SER[ps], vn, pn, x); c.note("%s", why); c.distinct(comb(comb(comb(comb(vs, ps), vn), pn), x));
    Arr a(m), n(pn < 8 ? nonce(pn) : bytes("")), t(reg.cert.der); List st; st.add(masa.cert.der, 0);
    int r = verify_masa_pledge_voucher(a, SER[ps], pn ? (struct BinaryArray *)n : nullptr, t, nullptr, nullptr, st, (vs + pn) & 1 ? &oc : nullptr, &pin); judge(c, ve, r, &pin, oc, dom.cert.der, masa.cert.der, why); if (ok && pn == 2 && x == 2) c.sample("accepted: %s", why);
  } else if (part == 1) { /* relation of the TLS certificate and the pinned certificate, domain store */
    int tl = c.choose(13), pi = c.choose(12), ds = c.choose(6); if (!c.mine()) return;
    const Id *TI[] = {&reg, &twinreg, &oreg, &ireg, &lone, &lonetwin, &dom, &twind, &inter}; bytes tls = tl < 9 ? TI[tl]->cert.der : tl == 9 ? bytes("garbage") : tl == 10 ? bytes() : reg.cert.der; if (tl == 11) tls[tls.size() - 3] ^= 1; if (tl == 12) tls += 'x';
    const Id *PI[] = {&dom, &twind, &odom, &inter, &lone, &lonetwin, &reg, &twinreg, &self}; bytes pinned = pi < 9 ? PI[pi]->cert.der : pi == 9 ? bytes("garbage") : pi == 10 ? dom.cert.der.substr(0, dom.cert.der.size() - 1) : dom.cert.der + "x";
    /* who signed what: reg,dom,inter by dom; twinreg,twind by twind; oreg by odom; ireg by inter; lone and lonetwin by themselves */
    Verdict ve = REJECT; static const int SIGNER[] = {0, 1, 2, 3, 4, 5, 0, 1, 0}; static const int SAME[] = {6, 7, -1, -1, 4, 5, 0, 1, 3};
    if (tl < 9 && pi < 9) { if (SIGNER[tl] == pi) ve = ACCEPT; if (SAME[tl] == pi) ve = ACCEPT; }
    if (tl == 12 && ve != ACCEPT && pi < 9) ve = pi == 0 || pi == 6 ? UNSPEC : REJECT; if (pi == 11) ve = tl < 9 && (SIGNER[tl] == 0) ? UNSPEC : tl == 12 ? UNSPEC : REJECT;
    List dl; if (ds) dl.l = init_array_list(); if (ds == 2) dl.add(dom.cert.der, 0); if (ds == 3) { dl.add(dom.cert.der, 0); dl.add(lone.cert.der, 0); } if (ds == 4) dl.add(odom.cert.der, 0); if (ds == 5) dl.add("garbage", 0);
    /* whom they all go back to */ static const int ROOT[] = {0, 1, 2, 0, 4, 5, 0, 1, 8};
    if (ds && ve == ACCEPT) { bool anchored = ds == 2 || ds == 3 ? pi == 0 : false, rooted = ds == 2 ? ROOT[pi] == 0 : ds == 3 ? ROOT[pi] == 0 || ROOT[pi] == 4 : ds == 4 ? ROOT[pi] == 2 : ds == 1; ve = ds == 5 || !rooted ? REJECT : anchored ? ACCEPT : UNSPEC; }
    V v; S(v, SERIAL, "12345"); S(v, NONCE, "n"); S(v, PINNED, pinned); bytes m = cms(doc(v), {{&masa.cert, &masa.key}}); snprintf(why, sizeof why, "TLS certificate %d, pinned certificate %d, domain store %d", tl, pi, ds); c.note("%s", why); c.distinct(comb(comb(1000 + tl, pi), ds));
    Arr a(m), n("n"), t(tls); List st; st.add(masa.cert.der, 0); int r = verify_masa_pledge_voucher(a, "12345", n, t, dl, nullptr, st, &oc, &pin); judge(c, ve, r, &pin, oc, pinned, masa.cert.der, why);
  } else if (part == 2) { /* who signed the voucher, and what the pledge trusts */
    int si = c.choose(9), st = c.choose(8), ce = c.choose(4), tl = c.choose(2); if (!c.mine()) return; V v; S(v, SERIAL, "12345"); S(v, NONCE, "n"); S(v, PINNED, dom.cert.der); bytes d = doc(v), m; bool intact = true; int root = 0; const Id *by = &masa; V z = v; S(z, SERIAL, "12344");
    switch (si) { case 0: m = cms(d, {{&masa.cert, &masa.key}}); root = 1; break; case 1: m = cms(d, {{&twinmasa.cert, &twinmasa.key}}); root = 2; by = &twinmasa; break; case 2: m = cms(d, {{&masaleaf.cert, &masaleaf.key}}); root = 3; by = &masaleaf; break; case 3: m = cms(d, {{&reg.cert, &reg.key}}, {dom.cert.der}); root = 4; by = &reg; break; /* the registrar makes its own voucher */
      case 4: m = cms(doc(z), {{&masa.cert, &masa.key}}); m[m.find("12344") + 4] = '5'; intact = false; break; case 5: m = d; intact = false; break; case 6: m = cms(d, {{&masa.cert, &masa.key}}); m.resize(m.size() - 5); intact = false; break; case 7: m = ""; intact = false; break; default: m = cms(d, {{&masaleaf.cert, &masaleaf.key}}, {}, CMS_BINARY | CMS_NOCERTS); root = 6; by = &masaleaf; break; }
    List sl; if (st) sl.l = init_array_list(); if (st == 2 || st == 5) sl.add(masa.cert.der, 0); if (st == 3) sl.add(twinmasa.cert.der, 0); if (st == 4 || st == 5) sl.add(mca.cert.der, 0); if (st == 6) sl.add(dom.cert.der, 0); if (st == 7) sl.add("garbage", 0);
    List cl; if (ce) cl.l = init_array_list(); if (ce == 2) cl.add(masaleaf.cert.der, 0); if (ce == 3) cl.add("garbage", 0);
    bool tr = st == 0 || (root == 1 && (st == 2 || st == 5)) || (root == 2 && st == 3) || ((root == 3 || root == 6) && (st == 4 || st == 5)) || (root == 4 && st == 6); Verdict ve = intact && tr && (root != 6 || ce == 2) && tl == 0 && ce != 3 && st != 7 ? ACCEPT : REJECT;
    snprintf(why, sizeof why, "signer %d, trust anchors %d, certificates %d, TLS certificate %d", si, st, ce, tl); c.note("%s", why); c.distinct(comb(comb(comb(2000 + si, st), ce), tl));
    Arr a(m), n("n"), t(tl ? oreg.cert.der : reg.cert.der); int r = verify_masa_pledge_voucher(a, "12345", n, t, nullptr, cl, sl, &oc, &pin); judge(c, ve, r, &pin, oc, dom.cert.der, by->cert.der, why);
  } else if (part == 3) { /* arguments missing */
    int k = c.choose(5); if (!c.mine()) return; V v; S(v, SERIAL, "12345"); S(v, NONCE, "n"); S(v, PINNED, dom.cert.der); bytes m = cms(doc(v), {{&masa.cert, &masa.key}}); c.note("argument case %d", k); c.distinct(3000 + k); Arr a(m), n("n"), t(reg.cert.der); List st; st.add(masa.cert.der, 0);
    int r = verify_masa_pledge_voucher(k == 0 ? nullptr : (struct BinaryArray *)a, k == 1 ? nullptr : "12345", n, t, nullptr, nullptr, st, nullptr, &pin); snprintf(why, sizeof why, "argument %d missing", k); judge(c, k < 2 ? REJECT : ACCEPT, r, &pin, nullptr, dom.cert.der, masa.cert.der, why);
  } else { /* every byte of the pinned certificate inside an otherwise good, signed voucher is altered: never accepted unless it is still the issuer */
    int i = c.choose((int)dom.cert.der.size()), b = c.choose(c.thorough ? 8 : 2); if (!c.mine()) return; bytes p = dom.cert.der; p[i] = (char)(p[i] ^ (c.thorough ? 1 << b : b ? 0x80 : 0x01)); V v; S(v, SERIAL, "12345"); S(v, NONCE, "n"); S(v, PINNED, p); bytes m = cms(doc(v), {{&masa.cert, &masa.key}}); c.note("byte %d bit %d of the pinned certificate", i, b); c.distinct(comb(4000 + i, b));
    Arr a(m), n("n"), t(reg.cert.der); List st; st.add(masa.cert.der, 0); int r = verify_masa_pledge_voucher(a, "12345", n, t, nullptr, nullptr, st, nullptr, &pin); snprintf(why, sizeof why, "byte %d of the pinned certificate changed", i);
    X509 *x = x509(p); ERR_clear_error(); Verdict ve = REJECT; if (x) { EVP_PKEY *k = X509_get0_pubkey(x); if (k && X509_verify(reg.cert.x, k) == 1) ve = UNSPEC; ERR_clear_error(); X509_free(x); } judge(c, ve, r, &pin, nullptr, p, masa.cert.der, why);
  }
}
int main(int argc, char **argv) { quiet_logs(); init(); Opts o; o.worker_init = quiet_logs; o.settle = pki::settle; return run(argc, argv, body, o); }
