/* C07: when the MASA issues a voucher, and what it says */
#include <climits>
#include "mc.hpp"
#include "world.hpp"
#include "sizes.hpp"
#include "looks.hpp"
using namespace mc; using namespace world;
static Id mfr, mfr2, twinm, pledge, pledge2, twinp, self, reg, reg2, twinr, dom, twind, masa, other; static bytes TLS, PINA;
static const char *SER[] = {"absent", "12345", "1234", "123456", "12346", "12345 ", "a", "\"q\\\n", "\xc3\xa9"}; /* 127 characters are added by the length case */
static std::string serial(int i) { return i == 9 ? std::string(127, '7') : i == 10 ? std::string(126, '7') + "8" : SER[i]; }
static bytes nonce(int k) { static const bytes N[] = {"", std::string("\0", 1), std::string(16, '\xff'), std::string("nonce\0tail", 10), std::string("nonce\0tai1", 10), std::string(300, 'n')}; return N[k]; }
static void init() {
  mfr = id("mfr", cn("manufacturer"), nullptr, 1, 1); twinm = id("twinm", cn("manufacturer"), nullptr, 1, 1); dom = id("dom", cn("domain"), nullptr, 1, 1); twind = id("twind", cn("domain"), nullptr, 1, 1);
  pledge = id("pledge", cn("pledge"), &mfr, 0, 5); pledge2 = id("pledge2", cn("pledge2"), &mfr, 0, 6); twinp = id("twinp", cn("pledge"), &twinm, 0, 5); self = id("self", cn("pledge"), nullptr, 0, 5);
  reg = id("reg", cn("registrar"), &dom, 0, 8); reg2 = id("reg2", cn("registrar2"), &mfr, 0, 9); twinr = id("twinr", cn("registrar"), &twind, 0, 8); masa = id("masa", cn("masa"), nullptr, 1, 1); other = id("other", cn("other"), nullptr, 1, 3);
  TLS = reg.cert.der; PINA = dom.cert.der;
}
struct Cb { int mode = 0; bytes pin; int calls = 0; std::string serial; std::vector<bytes> certs; void *ctx = nullptr; };
static Cb CB;
static int callback(const char *serial, const struct BinaryArrayList *certs, void *ctx, struct BinaryArray *pin) {
  CB.calls++; CB.serial = serial ? serial : "(null)"; CB.certs = items((struct BinaryArrayList *)certs); CB.ctx = ctx;
  if (CB.mode == 1) return -1;
  if (CB.mode == 2) return 0; /* grants nothing */
  if (CB.mode == 3) return -1000;
  if (CB.mode >= 6) { static uint8_t left[20]; pin->array = left; pin->length = 20; return CB.mode == 6 ? -1 : CB.mode == 7 ? -2 : INT_MIN; } /* refuses, with something left behind */
  pin->array = (uint8_t *)malloc(CB.pin.size() ? CB.pin.size() : 1); memcpy(pin->array, CB.pin.data(), CB.pin.size()); pin->length = CB.pin.size(); return CB.mode == 5 ? 7 : 0;
}
static void judge(Ctx &c, Verdict ve, struct BinaryArray *out, const char *why, const std::string &sn, bool hasnonce, const bytes &no, T6 exp, const Id &regid, const std::vector<bytes> &extra, bool noask, const Id &by = masa) {
  c.eval(); c.user(ve == ACCEPT ? 1 : ve == REJECT ? 2 : 0);
  if (CB.calls > 1) { if (out) free_binary_array(out); c.fail("callback-twice", "%s: the owner callback was called %d times", why, CB.calls); }
  if (CB.calls && noask) { if (out) free_binary_array(out); c.fail("callback-early", "%s: the owner callback was asked for an inconsistent or unverified request", why); }
  if (CB.calls && (CB.serial != sn || CB.ctx != &CB || CB.certs.size() != 1 || CB.certs[0] != regid.cert.der)) { if (out) free_binary_array(out); c.fail("callback-arguments", "%s: the owner callback was called with serial number %s, %zu certificates", why, CB.serial.c_str(), CB.certs.size()); }
  if (!out) { if (ve == ACCEPT) c.fail("refused-valid", "%s: no voucher was issued", why); return; }
  if (ve == REJECT) { free_binary_array(out); c.fail("issued-invalid", "%s: a voucher was issued", why); }
  if (!CB.calls) { free_binary_array(out); c.fail("issued-unasked", "%s: a voucher was issued without asking for the owner", why); }
  bytes m = take(out); Msg o = open_cms(m); if (!o.ok) c.fail("voucher-unreadable", "%s: an independent reader refuses the voucher", why);
  V w, want; std::string e = parse_strict(o.data, w); if (!e.empty()) c.fail("voucher-malformed", "%s: %s", why, e.c_str());
  S(want, SERIAL, sn); E(want, ASSERTION, 3); S(want, PINNED, CB.pin); T(want, EXPIRES, exp); if (hasnonce) S(want, NONCE, no); want.a[REVCHK].set = w.a[REVCHK].set;
  std::string d = w.diff(want); if (!d.empty()) c.fail("voucher-content", "%s: the voucher has a wrong %s", why, d.c_str());
  for (int i = 0; i < 11; i++) if (i != REVCHK && w.a[i].set != want.a[i].set) c.fail("voucher-content", "%s: the voucher has %s %s", why, w.a[i].set ? "an unexpected" : "no", NAMES[i]);
  if (o.signers.size() != 1 || o.signers[0] != by.cert.der) c.fail("voucher-signer", "%s: not signed by the MASA", why);
  for (auto &x : extra) { bool f = false; for (auto &y : o.certs) f |= x == y; if (!f) c.fail("voucher-certs", "%s: additional certificate missing", why); }
  if (o.certs.size() != extra.size() + 1) c.fail("voucher-certs", "%s: %zu certificates embedded", why, o.certs.size());
}
static const T6 EXP[] = {{2030, 1, 2, 3, 4, 5}, {1900, 1, 1, 0, 0, 0}, {9999, 12, 31, 23, 59, 59}, {1973, 11, 29, 21, 33, 9}};
/* every length class of what is compared, passed on and copied */
static bytes pat(size_t n, int k) { bytes b(n, 0); for (size_t i = 0; i < n; i++) b[i] = (char)(i * 131 + (i >> 8) * 7 + k); return b; }
static bytes txt(size_t n) { bytes b(n, 0); for (size_t i = 0; i < n; i++) b[i] = (char)('a' + (i + (i >> 7)) % 26); return b; }
static void lengths(Ctx &c) {
  auto &sz = mc::sizes(c.thorough); int ix = c.choose((int)sz.size()), k = c.choose(6); size_t n = k == 2 || k == 3 ? sz[ix] : 127 - ix % 126; /* serial numbers have at most 127 characters */ if (!c.mine()) return; if (!c.thorough && n > 40000 && k % 2) return; CB = Cb(); CB.pin = PINA;
  static const char *KN[] = {"serial number, equal", "serial number, last character differs", "nonce", "pinned certificate", "serial number of the pledge one longer", "serial number of the pledge one shorter"};
  char why[400]; snprintf(why, sizeof why, "length %zu: %s", n, KN[k]); c.note("%s", why); c.distinct(comb(comb(5000, n), k)); bytes rs = k == 2 || k == 3 ? bytes("12345") : txt(n), ps = rs, nn = k == 2 ? pat(n, 9) : bytes("n"); bool ok = true;
  if (k == 1) ps[n - 1] = '!', ok = false; if (k == 4) ps += 'x', ok = false; if (k == 5) ps.pop_back(), ok = false; if (k == 3) CB.pin = pat(n, 5);
  V p; S(p, SERIAL, ps); E(p, ASSERTION, 3); S(p, PROX, TLS); S(p, NONCE, nn); bytes pm = cms(doc(p), {{&pledge.cert, &pledge.key}}); V r; S(r, SERIAL, rs); S(r, NONCE, nn); S(r, PRIOR, pm); bytes rm = cms(doc(r), {{&reg.cert, &reg.key}});
  Arr a(rm), mc_(masa.cert.der), mk(masa.key.der); List rst, pst; rst.add(dom.cert.der, 0); pst.add(mfr.cert.der, 0); T6 ex{2030, 1, 2, 3, 4, 5}; struct tm et = tm6(ex);
  struct BinaryArray *out = sign_masa_pledge_voucher(a, &et, callback, &CB, mc_, mk, nullptr, rst, nullptr, pst, nullptr); judge(c, ok ? ACCEPT : REJECT, out, why, rs, true, nn, ex, reg, {}, !ok);
}
/* serial numbers that look alike, in every pair */
static void alike(Ctx &c) {
  auto &L = mc::looks(); int n = (int)L.size(), i = c.choose(n), j = c.choose(n); if (!c.mine()) return; CB = Cb(); CB.pin = PINA; bool ok = i == j; if (ok && L[i].empty()) return; char why[300]; snprintf(why, sizeof why, "look-alikes: serial numbers '%s' / '%s'", L[i].c_str(), L[j].c_str()); c.note("%s", why); c.distinct(comb(comb(6000, i), j));
  V p; S(p, SERIAL, L[j]); E(p, ASSERTION, 3); S(p, PROX, TLS); S(p, NONCE, "n"); bytes pm = cms(doc(p), {{&pledge.cert, &pledge.key}}); V r; S(r, SERIAL, L[i]); S(r, NONCE, "n"); S(r, PRIOR, pm); bytes rm = cms(doc(r), {{&reg.cert, &reg.key}});
  Arr a(rm), mc_(masa.cert.der), mk(masa.key.der); List rst, pst; rst.add(dom.cert.der, 0); pst.add(mfr.cert.der, 0); T6 ex{2030, 1, 2, 3, 4, 5}; struct tm et = tm6(ex);
  struct BinaryArray *out = sign_masa_pledge_voucher(a, &et, callback, &CB, mc_, mk, nullptr, rst, nullptr, pst, nullptr); judge(c, ok ? ACCEPT : REJECT, out, why, L[i], true, "n", ex, reg, {}, !ok);
}
static void body(Ctx &c) {
  int part = c.choose(7); CB = Cb(); CB.pin = PINA; char why[400]; if (part == 5) { lengths(c); return; } if (part == 6) { alike(c); return; }
  if (part == 0) { /* serial numbers, nonces, other attributes; good signatures */
    int rs = c.choose(11), ps = c.choose(11), rn = c.choose(6), pn = c.choose(3), x = c.choose(c.thorough ? 4 : 1); if (!c.mine()) return; if (!c.thorough) x = (rs + ps + rn + pn) & 3;
    if (!c.thorough && rs != ps && pn == 2 && rn > 2) return;
    V p; if (ps) S(p, SERIAL, serial(ps)); if (pn == 1 && rn) S(p, NONCE, nonce(rn)); if (pn == 2) S(p, NONCE, nonce(rn == 3 ? 4 : 3)); E(p, ASSERTION, 3); S(p, PROX, TLS); if (x & 1) { E(p, ASSERTION, 1); S(p, PINNED, "claimed"); }
    bytes pm = cms(doc(p), {{&pledge.cert, &pledge.key}}); V r; if (rs) S(r, SERIAL, serial(rs)); if (rn) S(r, NONCE, nonce(rn)); S(r, PRIOR, pm); T(r, CREATED, T6{2024, 1, 1, 0, 0, 0});
    if (x & 2) { E(r, ASSERTION, 1 + x % 3); S(r, PINNED, "claimed pin"); S(r, PROX, "claimed"); T(r, EXPIRES, T6{2099, 1, 1, 0, 0, 0}); S(r, ISSUER, "iss"); r.a[REVCHK].set = r.a[REVCHK].b = true; T(r, EXPIRES, T6{2098, 1, 1, 0, 0, 0}); }
    bytes rm = cms(doc(r), {{&reg.cert, &reg.key}}); bool ok = rs && rs == ps; snprintf(why, sizeof why, "serial numbers %s / %s, nonces %d / %d, other attributes %d", serial(rs).c_str(), serial(ps).c_str(), rn, pn, x); c.note("%s", why); c.distinct(comb(comb(comb(comb(rs, ps), rn), pn), x));
    Arr a(rm), mc_(masa.cert.der), mk(masa.key.der); List rst, pst, add; rst.add(dom.cert.der, 0); pst.add(mfr.cert.der, 0); if (x) add.add(other.cert.der, 0); T6 ex = EXP[(rs + rn) % 4]; struct tm et = tm6(ex); if ((rs + pn) & 1) CB.mode = 5;
    struct BinaryArray *out = sign_masa_pledge_voucher(a, &et, callback, &CB, mc_, mk, nullptr, rst, nullptr, pst, add); if (str(a) != rm) { if (out) free_binary_array(out); c.fail("input-changed", "%s", why); }
    judge(c, ok ? ACCEPT : REJECT, out, why, serial(rs), rn, nonce(rn), ex, reg, x ? std::vector<bytes>{other.cert.der} : std::vector<bytes>{}, !ok); if (ok && rn == 3 && x == 2) c.sample("issued: %s", why);
  } else if (part == 1) { /* signers and trust: registrar side and pledge side */
    int rg = c.choose(8), pg = c.choose(8), rt = c.choose(6), pt = c.choose(6); if (!c.mine()) return;
    V p; S(p, SERIAL, "12345"); S(p, NONCE, "nn"); E(p, ASSERTION, 3); S(p, PROX, TLS); bytes pd = doc(p), pm; bool pint = true; int proot = 0; /* 1 mfr 2 twinm 3 self 4 dom */
    V pz = p; S(pz, SERIAL, "12344");
    switch (pg) { case 0: pm = cms(pd, {{&pledge.cert, &pledge.key}}); proot = 1; break; case 1: pm = cms(pd, {{&twinp.cert, &twinp.key}}); proot = 2; break; case 2: pm = cms(pd, {{&self.cert, &self.key}}); proot = 3; break; case 3: pm = cms(pd, {{&reg.cert, &reg.key}}); proot = 4; break; /* the registrar signs for the pledge */
      case 4: pm = cms(doc(pz), {{&pledge.cert, &pledge.key}}); pm[pm.find("12344") + 4] = '5'; pint = false; break; case 5: pm = pd; pint = false; break; case 6: pm = cms(pd, {{&pledge.cert, &pledge.key}}); pm.resize(pm.size() - 1); pint = false; break;
      default: { V n; S(n, SERIAL, "12345"); S(n, PRIOR, cms(pd, {{&pledge.cert, &pledge.key}})); pm = cms(doc(n), {{&reg.cert, &reg.key}}); proot = 4; break; } } /* a registrar request nested in another */
    V r; S(r, SERIAL, "12345"); S(r, NONCE, "nn"); if (rg != 6) S(r, PRIOR, pm); bytes rd = doc(r), rm; bool rint = true; int rroot = 0; const Id *by = &reg; V rz = r; S(rz, SERIAL, "12344");
    switch (rg) { case 0: rm = cms(rd, {{&reg.cert, &reg.key}}); rroot = 4; break; case 1: rm = cms(rd, {{&twinr.cert, &twinr.key}}); rroot = 5; by = &twinr; break; case 2: rm = cms(rd, {{&reg2.cert, &reg2.key}}); rroot = 1; by = &reg2; break; case 3: rm = cms(rd, {{&self.cert, &self.key}}); rroot = 3; by = &self; break;
      case 4: { rm = cms(doc(rz), {{&reg.cert, &reg.key}}); rm[rm.find("12344") + 4] = '5'; rint = false; break; } case 5: rm = rd; rint = false; break; case 6: rm = cms(rd, {{&reg.cert, &reg.key}}); rint = false; break; /* no pledge request inside */ default: rm = pm; rint = false; break; } /* the pledge's own request, unwrapped */
    /* trust: 0 NULL 1 empty 2 mfr 3 twinm+twind 4 dom 5 self */
    auto trust = [](List &l, int t) { if (t) l.l = init_array_list(); if (t == 2) l.add(mfr.cert.der, 0); if (t == 3) { l.add(twinm.cert.der, 0); l.add(twind.cert.der, 0); } if (t == 4) l.add(dom.cert.der, 0); if (t == 5) l.add(self.cert.der, 0); };
    auto in = [](int root, int t) { return t == 0 || (t == 2 && root == 1) || (t == 3 && (root == 2 || root == 5)) || (t == 4 && root == 4) || (t == 5 && root == 3); };
    Verdict ve = !rint || !in(rroot, rt) || !pint || !in(proot, pt) ? REJECT : ACCEPT;
    bool whole = rg == 7 && pg == 7; if (whole) ve = in(4, rt) && in(1, pt) ? ACCEPT : REJECT; /* the inner request of a nested one is a proper request itself */
    snprintf(why, sizeof why, "registrar request %d with trust %d, pledge request %d with trust %d", rg, rt, pg, pt); c.note("%s", why); c.distinct(comb(comb(comb(1000 + rg, pg), rt), pt));
    Arr a(rm), mc_(masa.cert.der), mk(masa.key.der); List rst, pst; trust(rst, rt); trust(pst, pt); struct tm et = tm6(EXP[0]);
    struct BinaryArray *out = sign_masa_pledge_voucher(a, &et, callback, &CB, mc_, mk, nullptr, rst, nullptr, pst, nullptr); judge(c, ve, out, why, "12345", !whole, "nn", EXP[0], *by, {}, ve == REJECT);
  } else if (part == 2) { /* signer certificates only in the given lists; lists must not be mixed up */
    int rc = c.choose(4), pc = c.choose(4), em = c.choose(4); if (!c.mine()) return;
    V p; S(p, SERIAL, "12345"); E(p, ASSERTION, 3); bytes pm = cms(doc(p), {{&pledge.cert, &pledge.key}}, {}, em & 1 ? CMS_BINARY | CMS_NOCERTS : CMS_BINARY); V r; S(r, SERIAL, "12345"); S(r, PRIOR, pm); bytes rm = cms(doc(r), {{&reg.cert, &reg.key}}, {}, em & 2 ? CMS_BINARY | CMS_NOCERTS : CMS_BINARY);
    /* lists: 0 NULL 1 registrar's certificate 2 pledge's certificate 3 both */
    List rl, pl; if (rc) rl.l = init_array_list(); if (rc & 1) rl.add(reg.cert.der, 0); if (rc & 2) rl.add(pledge.cert.der, 0); if (pc) pl.l = init_array_list(); if (pc & 1) pl.add(reg.cert.der, 0); if (pc & 2) pl.add(pledge.cert.der, 0);
    bool ok = (!(em & 2) || (rc & 1)) && (!(em & 1) || (pc & 2)); snprintf(why, sizeof why, "certificates given for the registrar %d, for the pledge %d, left out of the messages %d", rc, pc, em); c.note("%s", why); c.distinct(comb(comb(2000 + rc, pc), em));
    Arr a(rm), mc_(masa.cert.der), mk(masa.key.der); List rst, pst; rst.add(dom.cert.der, 0); pst.add(mfr.cert.der, 0); struct tm et = tm6(EXP[0]);
    struct BinaryArray *out = sign_masa_pledge_voucher(a, &et, callback, &CB, mc_, mk, rl, rst, pl, pst, nullptr); judge(c, ok ? ACCEPT : REJECT, out, why, "12345", false, "", EXP[0], reg, {}, !ok);
  } else if (part == 3) { /* callback answers and pinned values */
    int mode = c.choose(9), k = c.choose(12), no = c.choose(6); if (!c.mine()) return; CB.mode = mode; static const int LEN[] = {1, 2, 3, 10, 100, 255, 256, 1000, 5000, 20000}; if (k < 10) { CB.pin.clear(); for (int i = 0; i < LEN[k]; i++) CB.pin += (char)(i * 7 + (k & 1 ? 0 : 130)); } else if (k == 10) CB.pin = ""; else CB.pin = PINA;
    V p; S(p, SERIAL, "12345"); bytes pm = cms(doc(p), {{&pledge.cert, &pledge.key}}); V r; S(r, SERIAL, "12345"); if (no) S(r, NONCE, nonce(no)); S(r, PRIOR, pm); bytes rm = cms(doc(r), {{&reg.cert, &reg.key}}); bool ok = mode == 4 || mode == 5 || mode == 0 ? k != 10 : false;
    snprintf(why, sizeof why, "callback answer %d, %zu bytes, nonce %d", mode, CB.pin.size(), no); c.note("%s", why); c.distinct(comb(comb(3000 + mode, k), no)); Arr a(rm), mc_(masa.cert.der), mk(masa.key.der); struct tm et = tm6(EXP[no % 4]);
    struct BinaryArray *out = sign_masa_pledge_voucher(a, &et, callback, &CB, mc_, mk, nullptr, nullptr, nullptr, nullptr, nullptr); judge(c, ok ? ACCEPT : REJECT, out, why, "12345", no, nonce(no), EXP[no % 4], reg, {}, false);
  } else { /* missing and unusable arguments */
    int k = c.choose(13); if (!c.mine()) return; V p; S(p, SERIAL, "12345"); bytes pm = cms(doc(p), {{&pledge.cert, &pledge.key}}); V r; S(r, SERIAL, "12345"); S(r, PRIOR, pm); bytes rm = cms(doc(r), {{&reg.cert, &reg.key}}); c.note("argument case %d", k); c.eval(); c.distinct(4000 + k);
    Arr a(rm), mc_(masa.cert.der), mk(masa.key.der), ok2(other.key.der), bad("garbage"), empty(""); List bl; bl.add("garbage", 0); List rst, pst; rst.add(dom.cert.der, 0); pst.add(mfr.cert.der, 0); struct tm et = tm6(EXP[0]);
    struct BinaryArray *out = sign_masa_pledge_voucher(k == 0 ? nullptr : k == 1 ? (struct BinaryArray *)empty : (struct BinaryArray *)a, k == 2 ? nullptr : &et, k == 3 ? nullptr : callback, &CB, k == 4 ? nullptr : k == 5 ? (struct BinaryArray *)bad : (struct BinaryArray *)mc_, k == 6 ? nullptr : k == 7 ? (struct BinaryArray *)bad : k == 8 ? (struct BinaryArray *)ok2 : (struct BinaryArray *)mk,
      k == 9 ? (struct BinaryArrayList *)bl : nullptr, k == 10 ? (struct BinaryArrayList *)bl : (struct BinaryArrayList *)rst, nullptr, k == 11 ? (struct BinaryArrayList *)bl : (struct BinaryArrayList *)pst, k == 12 ? (struct BinaryArrayList *)bl : nullptr);
    if (out) { free_binary_array(out); c.fail("issued-without", "a voucher was issued although argument %d is missing or unusable", k); }
  }
}
int main(int argc, char **argv) { quiet_logs(); init(); Opts o; o.worker_init = quiet_logs; o.settle = pki::settle; return run(argc, argv, body, o); }
