/* C06: what the registrar signs and for whom; and what the pledge signs */
#include "mc.hpp"
#include "world.hpp"
#include "sizes.hpp"
#include "looks.hpp"
using namespace mc; using namespace world;
static Id mfr, twin, pledge, twinpledge, other, reg, regtls, dom, inter, deep; static bytes TLS, TLSALIKE, TLSPEM;
static const char *SERIALS[] = {"absent", "12345", "1234", "123456", "12346", "12345 ", "A2345", "\"", "\xc3\xa9", "0"};
static void init() {
  mfr = id("mfr", cn("manufacturer"), nullptr, 1, 1); twin = id("twin", cn("manufacturer"), nullptr, 1, 1); dom = id("dom", cn("domain"), nullptr, 1, 1); inter = id("inter", cn("inter"), &mfr, 1, 3);
  pledge = id("pledge", Name{{"CN", "pledge"}, {"serialNumber", "12345"}}, &mfr, 0, 5); twinpledge = id("twinpledge", Name{{"CN", "pledge"}, {"serialNumber", "12345"}}, &twin, 0, 5); deep = id("deep", cn("pledge"), &inter, 0, 6);
  other = id("other", cn("other"), nullptr, 0, 7); reg = id("reg", cn("registrar"), &dom, 0, 8); regtls = id("regtls", cn("registrar tls"), &dom, 0, 9); TLS = regtls.cert.der; TLSPEM = regtls.cert.pem;
  Spec t; t.subject = cn("registrar tls"); t.issuer = cn("domain"); t.key = &regtls.key; t.by = &dom.key; t.ca = &dom.cert; t.isca = 0; t.serial = 10; Cert x = cert(t); TLSALIKE = x.der; X509_free(x.x);
}
static struct tm tmv(T6 t) { return tm6(t); }
static void check_issued(Ctx &c, struct BinaryArray *out, const V &want, const Id &by, const std::vector<bytes> &extra, const char *why) {
  bytes m = take(out); Msg o = open_cms(m); if (!o.ok) c.fail("issued-unreadable", "%s: an independent reader refuses the issued request", why);
  V w; std::string e = parse_strict(o.data, w); if (!e.empty()) c.fail("issued-malformed", "%s: %s", why, e.c_str()); std::string d = w.diff(want); if (!d.empty()) c.fail("issued-content", "%s: the issued request has a different %s", why, d.c_str());
  for (int i = 0; i < 11; i++) if (i != REVCHK && w.a[i].set != want.a[i].set) c.fail("issued-content", "%s: the issued request has %s %s", why, w.a[i].set ? "an unexpected" : "no", NAMES[i]);
  if (o.signers.size() != 1 || o.signers[0] != by.cert.der) c.fail("issued-signer", "%s: not signed by the given identity", why);
  for (auto &x : extra) { bool f = false; for (auto &y : o.certs) f |= x == y; if (!f) c.fail("issued-certs", "%s: additional certificate missing", why); }
  if (o.certs.size() != extra.size() + 1) c.fail("issued-certs", "%s: %zu certificates embedded", why, o.certs.size());
}
/* every length class of the compared and copied fields: equal, or differing in one place */
static bytes pat(size_t n, int k) { bytes b(n, 0); for (size_t i = 0; i < n; i++) b[i] = (char)(i * 131 + (i >> 8) * 7 + k); return b; }
static bytes txt(size_t n) { bytes b(n, 0); for (size_t i = 0; i < n; i++) b[i] = (char)('a' + (i + (i >> 7)) % 26); return b; }
static void lengths(Ctx &c) {
  auto &sz = mc::sizes(c.thorough); int ix = c.choose((int)sz.size()), k = c.choose(10); size_t n = k == 5 || k == 6 || k == 9 ? 127 - ix % 127 : sz[ix]; /* serial numbers have at most 127 characters */ if (!c.mine()) return; if (!c.thorough && n > 40000 && k % 3) return;
  static const char *KN[] = {"nonce", "certificate, equal", "certificate, last byte differs", "certificate, middle byte differs", "certificate, one byte less", "serial number, equal", "serial number, last character differs", "issuer", "pledge request", "serial number, one character less"};
  char why[200]; snprintf(why, sizeof why, "length %zu: %s", n, KN[k]); c.note("%s", why); c.eval(); c.distinct(comb(comb(5000, n), k));
  bytes sn = k == 8 ? txt(127 - n % 127) : k == 5 || k == 6 || k == 9 ? txt(n) : bytes("12345"), tlsv = (k >= 1 && k <= 4) || k == 8 ? pat(n, 3) : TLS, nn = k == 0 || k == 8 ? pat(n, 9) : bytes("n"), is = k == 7 ? pat(n, 5) : bytes("I"); bool ok = true;
  V v; S(v, SERIAL, sn); E(v, ASSERTION, 3); S(v, PROX, tlsv); S(v, NONCE, nn); T6 tt{2024, 3, 1, 0, 0, 0}; struct tm ct = tmv(tt);
  if (k == 8) { Arr na(nn), ta(tlsv), pc(pledge.cert.der), pk(pledge.key.der); struct BinaryArray *out = sign_pledge_voucher_request(&ct, sn.c_str(), na, ta, pc, pk, nullptr); if (!out) c.fail("pledge-refused", "%s", why); T(v, CREATED, tt); check_issued(c, out, v, pledge, {}, why); return; }
  if (k == 2) tlsv[n - 1] ^= 1, ok = false; if (k == 3) tlsv[n / 2] ^= 1, ok = false; if (k == 4) tlsv.pop_back(), ok = false; if (k == 6) sn[n - 1] = '!', ok = false; if (k == 9) { if (n == 1) return; sn.pop_back(), ok = false; }
  bytes msg = cms(doc(v), {{&pledge.cert, &pledge.key}}); Arr a(msg), iss(is), tls(tlsv), rc(reg.cert.der), rk(reg.key.der); List store; store.add(mfr.cert.der, 0);
  struct BinaryArray *out = sign_voucher_request(a, &ct, sn.c_str(), iss, tls, rc, rk, nullptr, store, nullptr); c.user(ok ? 1 : 2);
  if (!ok) { if (out) { free_binary_array(out); c.fail("issued-invalid", "%s: a request was issued", why); } return; } if (!out) c.fail("refused-valid", "%s", why);
  V w; T(w, CREATED, tt); S(w, SERIAL, sn); S(w, ISSUER, is); S(w, NONCE, nn); S(w, PRIOR, msg); check_issued(c, out, w, reg, {}, why);
}
/* values that look alike: the serial number in every pair; the certificate in other forms */
static void alike(Ctx &c) {
  auto &L = mc::looks(); int n = (int)L.size(), i = c.choose(n), j = c.choose(n + 8); if (!c.mine()) return; if (j < n && L[j].empty()) return; char why[300]; bytes b = TLS, sn = L[i], ps = j < n ? L[j] : L[i]; if (sn.empty() && j >= n) return; int f = j - n; bool ok = j < n ? i == j : false; if (j >= n && i > 1) return;
  if (f >= 0) switch (f) { case 0: ok = true; break; case 1: b = TLSALIKE; break; case 2: b = TLSPEM; break; case 3: b = ref::b64enc(TLS); break; case 4: { unsigned char h[32]; SHA256((const unsigned char *)TLS.data(), TLS.size(), h); b.assign((char *)h, 32); break; } case 5: b = std::string("\0", 1) + TLS; break; case 6: b = TLS + TLS; break; default: b = bytes(TLS.rbegin(), TLS.rend()); break; }
  snprintf(why, sizeof why, "look-alikes: serial-number '%s' for pledge '%s', certificate form %d", sn.c_str(), ps.c_str(), f); c.note("%s", why); c.eval(); c.distinct(comb(comb(6000, i), j)); c.user(ok ? 1 : 2);
  V v; S(v, SERIAL, sn); E(v, ASSERTION, 3); S(v, PROX, b); S(v, NONCE, "n"); bytes msg = cms(doc(v), {{&pledge.cert, &pledge.key}}); T6 tt{2024, 3, 1, 0, 0, 0}; struct tm ct = tmv(tt); Arr a(msg), iss("is"), tls(TLS), rc(reg.cert.der), rk(reg.key.der); List store; store.add(mfr.cert.der, 0);
  struct BinaryArray *out = sign_voucher_request(a, &ct, ps.c_str(), iss, tls, rc, rk, nullptr, store, nullptr); if (!ok) { if (out) { free_binary_array(out); c.fail("issued-invalid", "%s: a request was issued", why); } return; } if (!out) c.fail("refused-valid", "%s", why);
  V w; T(w, CREATED, tt); S(w, SERIAL, sn); S(w, ISSUER, "is"); S(w, NONCE, "n"); S(w, PRIOR, msg); check_issued(c, out, w, reg, {}, why);
}
static void body(Ctx &c) {
  int part = c.choose(6); if (part == 4) { lengths(c); return; } if (part == 5) { alike(c); return; }
  if (part == 0) { /* attribute product with a good signature */
    int se = c.choose(10), px = c.choose(8), as = c.choose(4), no = c.choose(5); if (!c.mine()) return;
    V v; if (se) S(v, SERIAL, SERIALS[se]); if (as) E(v, ASSERTION, as);
    bytes nonces[] = {"", std::string("\0", 1), std::string(16, '\xff'), std::string("nonce\0tail", 10), std::string(300, 'n')}; if (no) S(v, NONCE, nonces[no]);
    bytes b = TLS; bool pxok = px == 1; switch (px) { case 2: b = b.substr(0, b.size() - 1); break; case 3: b += '\0'; break; case 4: b[b.size() - 1] ^= 1; break; case 5: b[0] ^= 1; break; case 6: b = reg.cert.der; break; case 7: b = "x"; break; default: break; } if (px) S(v, PROX, b);
    int extra = (se + px + as + no) % 3; if (extra) T(v, CREATED, T6{2020, 1, 2, 3, 4, 5}); if (extra == 2) { S(v, ISSUER, "claimed issuer"); S(v, PINNED, "claimed pin"); T(v, EXPIRES, T6{2030, 1, 1, 0, 0, 0}); }
    bytes msg = cms(doc(v), {{&pledge.cert, &pledge.key}});
    /* which serial number the registrar authenticated */
    for (int ps = 1; ps < 10; ps += (c.thorough ? 1 : se == 1 || !pxok ? 8 : 1)) {
      if (!c.thorough && !(pxok && as == 3) && ps != se && ps != 1) continue;
      bool ok = se == ps && pxok && as == 3; char why[300]; snprintf(why, sizeof why, "serial-number %s for pledge %s, proximity certificate form %d, assertion %d, nonce %d, other attributes %d", SERIALS[se], SERIALS[ps], px, as, no, extra); c.note("%s", why); c.eval(); c.distinct(comb(comb(comb(comb(se, px), as), no), ps)); c.user(ok ? 1 : 2);
      Arr a(msg), iss("C = IE, CN = issuer \"x\""), tls(TLS), rc(reg.cert.der), rk(reg.key.der); List store; store.add(mfr.cert.der, 0); List add; if (ps & 1) add.add(dom.cert.der, 0);
      T6 t{2024, 2, 29, 23, 59, 59}; struct tm ct = tmv(t); struct BinaryArray *out = sign_voucher_request(a, &ct, SERIALS[ps], iss, tls, rc, rk, nullptr, store, add);
      if (str(a) != msg || str(tls) != TLS) { if (out) free_binary_array(out); c.fail("input-changed", "%s: the inputs were changed", why); }
      if (!ok) { if (out) { free_binary_array(out); c.fail("issued-invalid", "%s: a request was issued", why); } continue; }
      if (!out) c.fail("refused-valid", "%s: no request was issued", why);
      V w; T(w, CREATED, t); S(w, SERIAL, SERIALS[ps]); S(w, ISSUER, "C = IE, CN = issuer \"x\""); if (no) S(w, NONCE, nonces[no]); S(w, PRIOR, msg);
      check_issued(c, out, w, reg, ps & 1 ? std::vector<bytes>{dom.cert.der} : std::vector<bytes>{}, why); if (se == 1 && no == 3) c.sample("issued: %s", why);
    }
  } else if (part == 1) { /* who signed, and what the registrar trusts */
    int si = c.choose(9), st = c.choose(7), ce = c.choose(3), no = c.choose(2); if (!c.mine()) return;
    V v; S(v, SERIAL, "12345"); E(v, ASSERTION, 3); S(v, PROX, TLS); if (no) S(v, NONCE, "abc"); bytes d = doc(v), msg; bool intact = true; int root = 0; /* 1 mfr 2 twin 3 other(self) 4 none */
    switch (si) {
      case 0: msg = cms(d, {{&pledge.cert, &pledge.key}}); root = 1; break;
      case 1: msg = cms(d, {{&twinpledge.cert, &twinpledge.key}}); root = 2; break;
      case 2: msg = cms(d, {{&other.cert, &other.key}}); root = 3; break;
      case 3: msg = cms(d, {{&deep.cert, &deep.key}}, {inter.cert.der}); root = 1; break;
      case 4: msg = cms(d, {{&deep.cert, &deep.key}}); root = 5; break; /* intermediate missing */
      case 5: { msg = cms(d, {{&pledge.cert, &pledge.key}}); size_t p = msg.find("12345"); V v2 = v; S(v2, SERIAL, "12344"); msg = cms(doc(v2), {{&pledge.cert, &pledge.key}}); p = msg.find("12344"); msg[p + 4] = '5'; intact = false; break; }
      case 6: msg = cms(d, {{&pledge.cert, &pledge.key}}).substr(0, 400); intact = false; break;
      case 7: msg = d; intact = false; break;
      default: msg = cms(d, {{&pledge.cert, &pledge.key}}, {}, CMS_BINARY | CMS_NOCERTS); root = 6; break; /* signer certificate only if given */
    }
    List store; if (st) store.l = init_array_list(); if (st == 2 || st == 4 || st == 6) store.add(mfr.cert.der, 0); if (st == 3 || st == 4) store.add(twin.cert.der, 0); if (st == 5) store.add(other.cert.der, 0); if (st == 6) store.add(other.cert.der, 0);
    List certs; if (ce) certs.l = init_array_list(); if (ce == 2) { certs.add(pledge.cert.der, 0); certs.add(inter.cert.der, 0); }
    bool m = st == 2 || st == 4 || st == 6, t = st == 3 || st == 4, o = st == 5 || st == 6; Verdict ve = !intact ? REJECT : root == 1 ? (st == 0 || m ? ACCEPT : REJECT) : root == 2 ? (st == 0 || t ? ACCEPT : REJECT) : root == 3 ? (st == 0 || o ? ACCEPT : REJECT) : root == 5 ? (st == 0 ? ACCEPT : m ? (ce == 2 ? UNSPEC : REJECT) : REJECT) : (ce == 2 ? (st == 0 || m ? ACCEPT : REJECT) : REJECT);
    if (si == 1 && ce == 2) ve = t || st == 0 ? UNSPEC : ve; /* two certificates with the same issuer name and number at hand */
    char why[200]; snprintf(why, sizeof why, "signer %d, trust anchors %d, certificates %d, nonce %d", si, st, ce, no); c.note("%s", why); c.eval(); c.distinct(comb(comb(comb(1000 + si, st), ce), no)); c.user(ve == ACCEPT ? 1 : ve == REJECT ? 2 : 0);
    Arr a(msg), iss("I"), tls(TLS), rc(reg.cert.der), rk(reg.key.der); T6 tt{2024, 3, 1, 0, 0, 0}; struct tm ct = tmv(tt); struct BinaryArray *out = sign_voucher_request(a, &ct, "12345", iss, tls, rc, rk, certs, store, nullptr);
    if (!out) { if (ve == ACCEPT) c.fail("refused-valid", "%s", why); return; } if (ve == REJECT) { free_binary_array(out); c.fail("issued-invalid", "%s: a request was issued", why); }
    V w; T(w, CREATED, tt); S(w, SERIAL, "12345"); S(w, ISSUER, "I"); if (no) S(w, NONCE, "abc"); S(w, PRIOR, msg); check_issued(c, out, w, reg, {}, why);
  } else if (part == 2) { /* missing and unusable arguments; a good request otherwise */
    int k = c.choose(12); if (!c.mine()) return; V v; S(v, SERIAL, "12345"); E(v, ASSERTION, 3); S(v, PROX, TLS); bytes msg = cms(doc(v), {{&pledge.cert, &pledge.key}});
    c.note("argument case %d", k); c.eval(); c.distinct(2000 + k);
    Arr a(msg), iss("I"), tls(TLS), rc(reg.cert.der), rk(reg.key.der), badk("nokey"), badc("nocert"), rk2(dom.key.der), empty(""); List store; store.add(mfr.cert.der, 0); List badstore; badstore.add("garbage", 0); T6 tt{2024, 3, 1, 0, 0, 0}; struct tm ct = tmv(tt);
    struct BinaryArray *out = sign_voucher_request(k == 0 ? nullptr : k == 11 ? (struct BinaryArray *)empty : (struct BinaryArray *)a, k == 1 ? nullptr : &ct, k == 2 ? nullptr : "12345", k == 3 ? nullptr : (struct BinaryArray *)iss, k == 4 ? nullptr : (struct BinaryArray *)tls, k == 5 ? (struct BinaryArray *)badc : (struct BinaryArray *)rc, k == 6 ? (struct BinaryArray *)badk : k == 7 ? (struct BinaryArray *)rk2 : (struct BinaryArray *)rk, k == 8 ? (struct BinaryArrayList *)badstore : nullptr, k == 9 ? (struct BinaryArrayList *)badstore : (struct BinaryArrayList *)store, k == 10 ? (struct BinaryArrayList *)badstore : nullptr);
    if (out) { free_binary_array(out); c.fail("issued-without", "a request was issued although argument %d is missing or unusable", k); }
  } else { /* the pledge's own request */
    int se = c.choose(11), no = c.choose(5), ce = c.choose(3), ex = c.choose(2), k = c.choose(4); if (!c.mine()) return;
    bytes nonces[] = {"", std::string("\0", 1), std::string(16, '\xff'), std::string("nonce\0tail", 10), std::string(300, 'n')}; bytes cert = ce == 1 ? TLS : ce == 2 ? std::string("\0\0x", 3) : bytes(); static const T6 TS[] = {{2024, 2, 29, 12, 0, 1}, {1000, 1, 1, 0, 0, 0}, {9999, 12, 31, 23, 59, 59}};
    char why[200]; snprintf(why, sizeof why, "pledge request: serial %d, nonce %d, certificate %d, extra %d, time %d", se, no, ce, ex, k); c.note("%s", why); c.eval(); c.distinct(comb(comb(comb(comb(3000 + se, no), ce), ex), k));
    Arr n(nonces[no]), t(cert), pc(pledge.cert.der), pk(pledge.key.der); List add; if (ex) add.add(mfr.cert.der, 0); struct tm ct = tmv(TS[k < 3 ? k : 0]); const char *sn = se == 0 ? nullptr : se == 10 ? "x\n\t\\\"/" : SERIALS[se];
    struct BinaryArray *out = sign_pledge_voucher_request(k < 3 ? &ct : nullptr, sn, no ? (struct BinaryArray *)n : nullptr, ce ? (struct BinaryArray *)t : nullptr, pc, pk, add);
    if (!sn || !ce || k == 3) { if (out) { free_binary_array(out); c.fail("pledge-issued-without", "%s: issued without a required argument", why); } return; }
    if (!out) c.fail("pledge-refused", "%s", why); V w; T(w, CREATED, TS[k]); S(w, SERIAL, sn); if (no) S(w, NONCE, nonces[no]); E(w, ASSERTION, 3); S(w, PROX, cert); check_issued(c, out, w, pledge, ex ? std::vector<bytes>{mfr.cert.der} : std::vector<bytes>{}, why);
  }
}
int main(int argc, char **argv) { quiet_logs(); init(); Opts o; o.worker_init = quiet_logs; o.settle = pki::settle; return run(argc, argv, body, o); }
