/* C05: only intact signatures of signers with a chain to a given trust anchor yield a voucher */
#include "mc.hpp"
#include "ref.hpp"
#include "repo.hpp"
#include "vmodel.hpp"
#include "pki.hpp"
#include "sizes.hpp"
using namespace mc; using namespace pki; using namespace vm;

/* ---- universe of certificates */
enum { R1, R2, R1E, I1, I1E, IX, N1, IEXP, NCA }; /* roots, evil twin root, intermediate, evil twin, cross certificate of I1's key by R2, not a CA, expired CA */
static const char *CNAME[] = {"R1", "R2", "R1-twin", "I1", "I1-twin", "I1-by-R2", "N1-notCA", "IX-expired"};
enum { L_R1, L_I1, L_I1E, L_N1, L_SELF, L_EXP, L_FORGED, L_NOAKID, L_NOAKIDF, L_IEXP, L_REV, NLEAF };
static const char *LNAME[] = {"leaf of R1", "leaf of I1", "leaf of the twin of I1", "leaf of a non-CA", "self-signed leaf", "expired leaf of R1", "leaf naming I1, signed by nobody's key", "leaf of R1 without key id", "leaf naming R1 without key id, signed by the twin", "leaf of an expired CA", "revoked leaf of R1"};
static Key kR1, kR2, kR1E, kI1, kI1E, kN1, kIE, kBad, kL, kRSA, k384, kEd; static Cert CA[NCA], LEAF[NLEAF], LRSA, L384, LED, RRSA; static bool expired_ca[NCA], expired_leaf[NLEAF]; static bool isca[NCA];
static const Key *signer_ca[NCA], *signer_leaf[NLEAF]; static bool akid_leaf[NLEAF];
static Cert TW, SUB; static bytes DOC, DOC2; static std::vector<bytes> MANY; static bytes MSG[NLEAF][16]; static bytes CRL[5]; static Voucher *VD = nullptr;
static int EMB[4] = {I1, I1E, IX, N1};

static Cert mk(const char *subj, const Key *k, const Cert *ca, const Key *by, int ca_, long serial = 1, long from = -86400, long to = 86400L * 3650, bool ids = true) { Spec s; s.subject = cn(subj); s.key = k; s.ca = ca; s.by = by; s.isca = ca_; s.serial = serial; s.from = from; s.to = to; s.keyids = ids; return cert(s); }
static void init() {
  kR1 = ec("r1"); kR2 = ec("r2"); kR1E = ec("r1e"); kI1 = ec("i1"); kI1E = ec("i1e"); kN1 = ec("n1"); kIE = ec("ie"); kBad = ec("bad"); kL = ec("leaf"); kRSA = rsa(2048); k384 = ec("384", NID_secp384r1); kEd = ed();
  CA[R1] = mk("root one", &kR1, nullptr, nullptr, 1); CA[R2] = mk("root two", &kR2, nullptr, nullptr, 1); CA[R1E] = mk("root one", &kR1E, nullptr, nullptr, 1);
  CA[I1] = mk("inter one", &kI1, &CA[R1], nullptr, 1, 11); CA[I1E] = mk("inter one", &kI1E, &CA[R1E], nullptr, 1, 11); CA[IX] = mk("inter one", &kI1, &CA[R2], nullptr, 1, 12);
  CA[N1] = mk("inter n", &kN1, &CA[R1], nullptr, 0, 13); CA[IEXP] = mk("inter x", &kIE, &CA[R1], nullptr, 1, 14, -86400 * 3, -86400);
  const Key *sc[] = {&kR1, &kR2, &kR1E, &kR1, &kR1E, &kR2, &kR1, &kR1}; for (int i = 0; i < NCA; i++) { signer_ca[i] = sc[i]; isca[i] = i != N1; expired_ca[i] = i == IEXP; }
  LEAF[L_R1] = mk("leaf", &kL, &CA[R1], nullptr, 0, 21); LEAF[L_I1] = mk("leaf", &kL, &CA[I1], nullptr, 0, 22); LEAF[L_I1E] = mk("leaf", &kL, &CA[I1E], nullptr, 0, 22); LEAF[L_N1] = mk("leaf", &kL, &CA[N1], nullptr, 0, 23);
  LEAF[L_SELF] = mk("leaf", &kL, nullptr, nullptr, -1, 24); LEAF[L_EXP] = mk("leaf", &kL, &CA[R1], nullptr, 0, 25, -86400 * 3, -86400); LEAF[L_FORGED] = mk("leaf", &kL, &CA[I1], &kBad, 0, 26);
  LEAF[L_NOAKID] = mk("leaf", &kL, &CA[R1], nullptr, 0, 27, -86400, 86400L * 3650, false); LEAF[L_NOAKIDF] = mk("leaf", &kL, &CA[R1E], nullptr, 0, 27, -86400, 86400L * 3650, false);
  LEAF[L_IEXP] = mk("leaf", &kL, &CA[IEXP], nullptr, 0, 28); LEAF[L_REV] = mk("leaf", &kL, &CA[R1], nullptr, 0, 29);
  const Key *sl[] = {&kR1, &kI1, &kI1E, &kN1, &kL, &kR1, &kBad, &kR1, &kR1E, &kIE, &kR1}; for (int i = 0; i < NLEAF; i++) { signer_leaf[i] = sl[i]; expired_leaf[i] = i == L_EXP; akid_leaf[i] = i != L_NOAKID && i != L_NOAKIDF; }
  TW = mk("leaf", &kBad, &CA[R1], &kBad, 0, 21); SUB = mk("sub", &kBad, &LEAF[L_R1], &kL, 0, 55);
  RRSA = mk("root rsa", &kRSA, nullptr, nullptr, 1); LRSA = mk("leaf rsa", &kRSA, &CA[R1], nullptr, 0, 31); L384 = mk("leaf 384", &k384, &RRSA, nullptr, 0, 32); LED = mk("leaf ed", &kEd, &CA[R1], nullptr, 0, 33);
  CRL[0] = crl(CA[R1], kR1, {29}); CRL[1] = crl(CA[R1], kR1, {}); CRL[2] = crl(CA[R1], kR1E, {}); CRL[3] = crl(CA[I1], kI1, {22}); CRL[4] = crl(CA[I1], kI1, {29, 21});
  struct Voucher *v = init_voucher(); V m; m.a[3].set = 1; m.a[3].s = "12345"; m.a[2].set = 1; m.a[2].e = 3; m.a[7].set = 1; m.a[7].s = "\x01\x02nonce"; m.a[0].set = 1; m.a[0].t = T6{2024, 2, 29, 1, 2, 3};
  for (int i : {0, 2, 3, 7}) set(v, i, m.a[i]); VD = v;
  DOC = "{\"ietf-voucher:voucher\":{\"created-on\":\"2024-02-29T01:02:03Z\",\"assertion\":\"proximity\",\"serial-number\":\"12345\",\"nonce\":\"" + ref::b64enc(m.a[7].s) + "\"}}";
  DOC2 = "{\"ietf-voucher:voucher\":{\"created-on\":\"2024-02-29T01:02:03Z\",\"assertion\":\"proximity\",\"serial-number\":\"12346\",\"nonce\":\"" + ref::b64enc(m.a[7].s) + "\"}}";
  for (int i = 0; i < 257; i++) MANY.push_back(mk("one of many", &kBad, i & 1 ? &CA[R2] : nullptr, nullptr, 0, 1000 + i).der);
  for (int l = 0; l < NLEAF; l++) for (int e = 0; e < 16; e++) { std::vector<bytes> x; for (int i = 0; i < 4; i++) if (e >> i & 1) x.push_back(CA[EMB[i]].der); MSG[l][e] = cms(DOC, {{&LEAF[l], &kL}}, x); }
}
static V want() { V o; get(VD, o); return o; }

/* does a candidate issue the certificate (really), and could it be taken for the issuer (name and key id) */
static bool issued(const Name &iss, const Key *by, int ca) { return iss == CA[ca].subject && by == CA[ca].key && isca[ca] && !expired_ca[ca]; }
static bool looks(const Name &iss, const Key *by, bool akid, int ca, const Cert *named) { (void)by; return iss == CA[ca].subject && (!akid || named == nullptr || named->key == CA[ca].key); }
/* 0 no chain, 1 chain but a wrong certificate could be picked on the way, 2 chain */
static int walk(const Name &iss, const Key *by, bool akid, const Cert *akidof, unsigned pool, unsigned anchors, int depth, bool need_ca) {
  if (depth > 5) return 0; bool any = false, dead = false;
  for (int i = 0; i < NCA; i++) {
    if (!((pool | anchors) >> i & 1)) continue;
    if (!looks(iss, by, akid, i, akidof)) continue;
    bool ok = iss == CA[i].subject && by == CA[i].key && (!need_ca || (isca[i] && !expired_ca[i])); int r = 0;
    if (ok) { bool self = CA[i].subject == CA[i].issuer; if (self) r = anchors >> i & 1 ? 2 : 0; else { static const int parent[] = {R1, R2, R1E, R1, R1E, R2, R1, R1}; r = walk(CA[i].issuer, signer_ca[i], true, &CA[parent[i]], pool, anchors, depth + 1, need_ca); } }
    if (r) any = true; if (r < 2) dead = true;
  }
  return any ? (dead ? 1 : 2) : 0;
}
static const Cert *akid_of(int l) { switch (l) { case L_R1: case L_EXP: case L_REV: case L_NOAKID: return &CA[R1]; case L_I1: case L_FORGED: return &CA[I1]; case L_I1E: return &CA[I1E]; case L_N1: return &CA[N1]; case L_IEXP: return &CA[IEXP]; case L_NOAKIDF: return &CA[R1E]; } return nullptr; }
static Verdict chain(int l, unsigned pool, unsigned anchors, bool selfanchor, bool need_ca) {
  if (expired_leaf[l]) return need_ca ? REJECT : UNSPEC;
  if (l == L_SELF) return selfanchor ? ACCEPT : REJECT;
  /* an anchor that is not self-signed does not end a chain */
  int r = walk(LEAF[l].issuer, signer_leaf[l], akid_leaf[l], akid_of(l), pool, anchors, 0, need_ca);
  if (r == 2) return ACCEPT; if (r == 1) return UNSPEC;
  return REJECT;
}
static std::string listed(unsigned s) { std::string o; for (int i = 0; i < NCA; i++) if (s >> i & 1) o += std::string(o.empty() ? "" : ", ") + CNAME[i]; return o.empty() ? "none" : o; }

/* verify a message with the code under test; every way in */
struct Res { bool ok; std::string err; };
static void expect(Ctx &c, const bytes &m, struct BinaryArrayList *certs, struct BinaryArrayList *store, Verdict v, const bytes *signer, const char *why, bool deep) {
  Arr a(m); struct BinaryArrayList *out = nullptr; c.eval();
  struct Voucher *vo = verify_cms_voucher(a, certs, store, &out); std::vector<std::string> oc = items(out); if (out) free_array_list(out);
  V got; std::string e; if (vo) { e = get(vo, got); free_voucher(vo); }
  bool acc = vo != nullptr;
  if (v == ACCEPT && !acc) c.fail("refused-valid", "%s", why);
  if (v == REJECT && acc) c.fail("accepted-invalid", "%s", why);
  if (acc) { std::string d = got.diff(want()); if (!e.empty() || !d.empty()) c.fail("wrong-voucher", "%s: accepted with a different %s%s", why, e.c_str(), d.c_str()); }
  if (acc && signer && (oc.size() != 1 || oc[0] != *signer)) c.fail("wrong-signers", "%s: accepted with %zu signer certificates that are not the signer's", why, oc.size());
  if (!deep) return;
  /* without a list to return, the verdict is the same */
  struct Voucher *v2 = verify_cms_voucher(a, certs, store, nullptr); bool acc2 = v2 != nullptr; if (v2) free_voucher(v2);
  if (acc != acc2) c.fail("verdict-depends-on-output", "%s: %d with and %d without a list of certificates", why, acc, acc2);
  uint8_t *data = nullptr; ssize_t n = crypto_verify_cms(a, certs, store, &data, nullptr); bool acc3 = n >= 0; bytes d; if (acc3 && data) d.assign((char *)data, n); if (acc3) free(data);
  if (acc && !acc3) c.fail("layers-disagree", "%s: voucher accepted, message refused", why);
  if (v == REJECT && acc3) c.fail("accepted-invalid-message", "%s", why);
  if (acc3 && d != DOC && v != UNSPEC) c.fail("wrong-content", "%s: %zu bytes returned that were not signed", why, d.size());
}
struct Reg { size_t off, len; };
static Reg find(const bytes &m, const bytes &what) { size_t p = m.find(what); return Reg{p == bytes::npos ? 0 : p, p == bytes::npos ? 0 : what.size()}; }
struct Sub { bytes m; Reg content, attrs, sig; const Cert *sc; bool withstore; const char *name; };
static std::vector<Sub> SUBJ;
static void subjects() {
  auto add = [&](const char *name, const Cert &s, const Key &k, const std::vector<bytes> &ex, bool st, unsigned fl) {
    Sub b; b.m = cms(DOC, {{&s, &k}}, ex, CMS_BINARY | fl); b.sc = &s; b.withstore = st; b.name = name; b.content = find(b.m, DOC);
    const unsigned char *p = (const unsigned char *)b.m.data(); CMS_ContentInfo *ci = d2i_CMS_ContentInfo(nullptr, &p, (long)b.m.size()); CMS_SignerInfo *si = sk_CMS_SignerInfo_value(CMS_get0_SignerInfos(ci), 0);
    ASN1_OCTET_STRING *sg = CMS_SignerInfo_get0_signature(si); b.sig = find(b.m, bytes((const char *)ASN1_STRING_get0_data(sg), ASN1_STRING_length(sg)));
    /* signed attributes: from the end of the digest algorithm of the signer to the signature algorithm; located by the message digest and content type values */
    b.attrs = Reg{0, 0}; if (!(fl & CMS_NOATTR)) { unsigned char h[32]; SHA256((const unsigned char *)DOC.data(), DOC.size(), h); Reg md = find(b.m, bytes((char *)h, 32)); b.attrs = md; }
    CMS_ContentInfo_free(ci); SUBJ.push_back(b);
  };
  add("EC", LEAF[L_I1], kL, {CA[I1].der}, true, 0); add("RSA", LRSA, kRSA, {}, true, 0); add("EC without trust anchors", LEAF[L_R1], kL, {}, false, 0); add("EC without signed attributes", LEAF[L_R1], kL, {}, true, CMS_NOATTR); add("P-384 under RSA", L384, k384, {}, true, 0);
}

/* a missing argument of the signing and verifying functions: refused without a result */
static void nothing(Ctx &c) {
  int k = c.choose(7), m = c.choose(5); if (!c.mine()) return; c.note("missing argument %d of function %d", m, k); c.eval(); c.distinct(comb(comb(992, k), m)); Arr ce(LEAF[L_R1].der), ke(kL.der); Heap d(DOC), ch(LEAF[L_R1].der), kh(kL.der); bool ok = true; uint8_t *o = nullptr; List none;
  auto ar = [&](int i, const Heap &h) { return m == i ? nullptr : h.p; };
  if (k < 3) { if (m == 4) return; ssize_t n = (k == 0 ? crypto_sign_cms : k == 1 ? crypto_sign_eccms : crypto_sign_rsacms)(ar(0, d), d.n, ar(1, ch), ch.n, ar(2, kh), kh.n, nullptr, m == 3 ? nullptr : &o); ok = n < 0 && !o; }
  else if (k < 6) { if (m > 2) return; struct Voucher *v = init_voucher(); struct BinaryArray *r = (k == 3 ? sign_cms_voucher : k == 4 ? sign_eccms_voucher : sign_rsacms_voucher)(m == 0 ? nullptr : v, m == 1 ? nullptr : (struct BinaryArray *)ce, m == 2 ? nullptr : (struct BinaryArray *)ke, nullptr); free_voucher(v); ok = !r; if (r) free_binary_array(r); }
  else { Arr a(MSG[L_R1][0]); List st; st.add(CA[R1].der, 0); if (m == 0) ok = crypto_verify_cms(nullptr, nullptr, st.l, &o, nullptr) < 0 && !o; else if (m == 1) ok = crypto_verify_cms(a, nullptr, st.l, nullptr, nullptr) < 0; else if (m == 2) { struct BinaryArrayList *l = nullptr; struct Voucher *v = verify_cms_voucher(nullptr, nullptr, st.l, &l); ok = !v && !l; if (v) free_voucher(v); } else if (m == 3) { ok = crypto_verify_cert(nullptr, 5, nullptr, st.l) != 0; } else { struct BinaryArray e; memset(&e, 0, sizeof e); struct Voucher *v = verify_cms_voucher(&e, nullptr, st.l, nullptr); ok = !v; if (v) free_voucher(v); } }
  if (!ok) c.fail("null-argument", "function %d without argument %d: not refused", k, m);
}
/* every length class of the signed content: signed, read back, and altered at its ends and middle; many certificates and trust anchors */
static void lengths(Ctx &c) {
  auto &sz = mc::sizes(c.thorough); int w = c.choose(3);
  if (w == 2) { /* n embedded, given or trusted certificates, the needed one in a place of its own */
    static const int NN[] = {1, 2, 3, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257}; int n = NN[c.choose(c.thorough ? 21 : 18)], k = c.choose(3), at = c.choose(3), v = c.choose(2); if (!c.mine()) return; c.note("%d certificates %s, the needed one %s%s", n, k == 0 ? "embedded" : k == 1 ? "among the trust anchors" : "among the signer certificates", at == 0 ? "first" : at == 1 ? "in the middle" : "last", v ? " left out" : ""); c.eval(); c.distinct(comb(comb(comb(9300 + n, k), at), v));
    const bytes &need = k == 0 ? CA[I1].der : k == 1 ? CA[R1].der : LEAF[L_I1].der; int pos = at == 0 ? 0 : at == 1 ? n / 2 : n - 1; std::vector<bytes> l; for (int i = 0; i < n; i++) l.push_back(i == pos && !v ? need : k == 1 && i % 2 ? CA[R2].der : MANY[i]);
    List store; if (k != 1) store.add(CA[R1].der, 0); else for (auto &x : l) store.add(x, 0);
    bytes m = cms(DOC, {{&LEAF[L_I1], &kL}}, k == 0 ? l : std::vector<bytes>{CA[I1].der}, k == 2 ? CMS_BINARY | CMS_NOCERTS : CMS_BINARY); if (k == 2) m = cms(DOC, {{&LEAF[L_R1], &kL}}, {}, CMS_BINARY | CMS_NOCERTS);
    List g2; if (k == 2) for (int i = 0; i < n; i++) g2.add(i == pos && !v ? LEAF[L_R1].der : MANY[i], 0); bool want_ = !v; c.user(want_ ? 1 : 2);
    Arr a(m); struct BinaryArrayList *out = nullptr; struct Voucher *vo = verify_cms_voucher(a, k == 2 ? g2.l : nullptr, store.l, &out); std::vector<std::string> oc = items(out); if (out) free_array_list(out); bool acc = vo; if (vo) free_voucher(vo);
    if (acc && !want_) c.fail("accepted-invalid", "%s", c.w->note); if (!acc && want_) c.fail("refused-valid", "%s", c.w->note); if (acc && (oc.size() != 1 || oc[0] != (k == 2 ? LEAF[L_R1].der : LEAF[L_I1].der))) c.fail("wrong-signers", "%s: %zu signer certificates", c.w->note, oc.size()); return;
  }
  size_t n = sz[c.choose((int)sz.size())]; if (!c.mine()) return; if (!c.thorough && n > 70000 && w) return; c.note("content of %zu bytes%s", n, w ? ", as data" : ", as voucher"); c.eval(); c.distinct(comb(comb(9200, n), w)); bytes d(n, 0); for (size_t i = 0; i < n; i++) d[i] = (char)(i * 131 + (i >> 8) * 7 + 1);
  Arr ce(LEAF[L_R1].der), ke(kL.der); List store; store.add(CA[R1].der, 0); struct BinaryArray *out;
  if (!w) { struct Voucher *v = init_voucher(); V m; m.a[3].set = 1; m.a[3].s = "a"; set(v, 3, m.a[3]); m.a[9].set = 1; m.a[9].s = d; set(v, 9, m.a[9]); out = sign_cms_voucher(v, ce, ke, nullptr); free_voucher(v); if (!out) c.fail("sign-failed", "%s", c.w->note); bytes msg = take(out); Arr a(msg); struct Voucher *b = verify_cms_voucher(a, nullptr, store.l, nullptr); if (!b) c.fail("own-refused", "%s", c.w->note); V g; std::string e = get(b, g); free_voucher(b); if (!e.empty() || !g.diff(m).empty()) c.fail("own-differs", "%s: %s%s", c.w->note, e.c_str(), g.diff(m).c_str()); return; }
  uint8_t *o = nullptr; Heap dd(d), ch(LEAF[L_R1].der), kh(kL.der); ssize_t r = crypto_sign_cms(dd.p, dd.n, ch.p, ch.n, kh.p, kh.n, nullptr, &o); if (r <= 0 || !o) c.fail("sign-failed", "%s", c.w->note); bytes msg((char *)o, r); free(o); Msg x = open_cms(msg); if (!x.ok || x.data != d) c.fail("signed-unreadable", "%s: an independent reader gets other content", c.w->note);
  for (int e = 0; e < 4; e++) { bytes m = msg; size_t p = m.find(d); if (p == bytes::npos) break; if (e) m[p + (e == 1 ? 0 : e == 2 ? n / 2 : n - 1)] ^= 4; Arr a(m); uint8_t *q = nullptr; ssize_t l = crypto_verify_cms(a, nullptr, store.l, &q, nullptr); bytes got; if (l >= 0 && q) { got.assign((char *)q, l); free(q); } if (!e && (l < 0 || got != d)) c.fail("wrong-content", "%s: %zd bytes returned", c.w->note, l); if (e && l >= 0) c.fail("accepted-altered", "%s: altered at place %d", c.w->note, e); }
}
static void body(Ctx &c) {
  int top = c.choose(3); if (top == 2) { lengths(c); return; }
  if (top) { nothing(c); return; }
  int part = c.choose(6);
  if (part == 0) { /* signer x embedded x given x anchors x revocation x order */
    int l = c.choose(NLEAF), emb = c.choose(16), giv = c.choose(c.thorough ? 17 : 7); if (!c.mine()) return;
    static const int GQ[] = {0, 1, 2, 3, 4, 8, 16}; int gm = c.thorough ? giv : GQ[giv]; /* 16 = list absent */
    unsigned pool = 0, epool = 0; for (int i = 0; i < 4; i++) { if (emb >> i & 1) pool |= 1u << EMB[i], epool |= 1u << EMB[i]; if (gm < 16 && gm >> i & 1) pool |= 1u << EMB[i]; }
    static const unsigned ST[] = {0, 1u << R1, 1u << R2, 1u << R1E, 1u << R1 | 1u << R2, 1u << R1 | 1u << R1E, 1u << R2 | 1u << R1E, 7, 1u << I1, 1u << R1 | 1u << I1, 1u << I1E, 1u << IEXP | 1u << R1};
    for (int rev = 0; rev < 2; rev++) {
      List given; if (gm < 16) given.l = init_array_list();
      if (gm < 16) for (int k = 0; k < 4; k++) { int i = rev ? 3 - k : k; if (gm >> i & 1) given.add(CA[EMB[i]].der, CRYPTO_CERTIFICATE_VALID); }
      for (int s = 0; s < 14; s++) for (int cr = 0; cr < 6; cr++) {
        if (s >= 12 && cr) continue;
        if (!c.thorough && (cr || rev) && (gm || (emb & (emb - 1)))) continue;
        bool nostore = s == 12, self = s == 13; unsigned anch = s < 12 ? ST[s] : 0; List store; if (!nostore) store.l = init_array_list();
        auto putcrl = [&] { if (cr) store.add(CRL[cr - 1], CRYPTO_CERTIFICATE_CRL); };
        if (rev && !nostore) putcrl();
        if (!nostore) for (int k = 0; k < NCA; k++) { int i = rev ? NCA - 1 - k : k; if (anch >> i & 1) store.add(CA[i].der, CRYPTO_CERTIFICATE_VALID); }
        if (self) store.add(LEAF[L_SELF].der, CRYPTO_CERTIFICATE_VALID);
        if (!rev && !nostore) putcrl();
        Verdict v = nostore ? ACCEPT : chain(l, pool, anch, self, true);
        if (!nostore && pool != epool) { Verdict v1 = chain(l, epool, anch, self, true); if (v1 != v) v = UNSPEC; } /* whether chains run through the given certificates is not specified */
        if (cr && v == ACCEPT) {
          int iss = LEAF[l].issuer == CA[R1].subject ? R1 : I1; long sn = l == L_REV ? 29 : l == L_R1 ? 21 : l == L_I1 ? 22 : 0;
          bool covers = (cr <= 2 && iss == R1) || (cr >= 4 && iss == I1); bool listed = (cr == 1 && iss == R1 && sn == 29) || (cr == 4 && iss == I1 && sn == 22);
          bool key_ok = iss == R1 ? signer_leaf[l] == &kR1 : signer_leaf[l] == &kI1;
          v = covers && key_ok ? (listed ? REJECT : iss == I1 ? UNSPEC : ACCEPT) : UNSPEC; /* no list of the issuer at hand: not specified */
          if (covers && key_ok && !listed && iss == I1) v = ACCEPT;
        }
        char why[700]; snprintf(why, sizeof why, "%s; embedded %s; given %s%s; anchors %s; revocation list %d; order %d", LNAME[l], listed([&] { unsigned u = 0; for (int i = 0; i < 4; i++) if (emb >> i & 1) u |= 1u << EMB[i]; return u; }()).c_str(), gm == 16 ? "(absent) " : "", listed([&] { unsigned u = 0; for (int i = 0; i < 4; i++) if (gm < 16 && gm >> i & 1) u |= 1u << EMB[i]; return u; }()).c_str(), nostore ? "(absent)" : self ? "the self-signed leaf" : listed(anch).c_str(), cr, rev);
        c.note("%s", why); c.user(v); c.distinct(comb(comb(comb(comb(l, emb), gm), s), cr * 2 + rev));
        expect(c, MSG[l][emb], given.l, store.l, v, v == UNSPEC ? nullptr : &LEAF[l].der, why, c.thorough || (!cr && !rev && gm < 2));
        if (v == ACCEPT && s == 1 && rev == 0 && emb == 1) c.sample("accepted: %s", why);
      }
    }
  } else if (part == 1) { /* certificate chains on their own */
    int l = c.choose(NLEAF), a = c.choose(1 << 7); if (!c.mine()) return; /* given: R1,R2,R1E,I1,I1E,IX,N1 */
    for (int rev = 0; rev < 2; rev++) {
      List given; given.l = init_array_list(); for (int k = 0; k < 7; k++) { int i = rev ? 6 - k : k; if (a >> i & 1) given.add(CA[i].der, CRYPTO_CERTIFICATE_VALID); }
      /* no anchors: the certificate must carry the signature of a given one, and so on up the chain */
      Verdict v; { int nm = 0; bool signer = false; for (int i = 0; i < 7; i++) if (a >> i & 1 && looks(LEAF[l].issuer, nullptr, akid_leaf[l], i, akid_of(l))) { nm++; if (signer_leaf[l] == CA[i].key) signer = true; }
        if (l == L_SELF) v = UNSPEC; else if (!signer) v = REJECT; else if (nm > 1) v = UNSPEC; else v = ACCEPT;
        if (v == ACCEPT) { /* the next steps only if present */ int i = 0; for (i = 0; i < 7; i++) if (a >> i & 1 && looks(LEAF[l].issuer, nullptr, akid_leaf[l], i, akid_of(l))) break; if (!isca[i] || expired_leaf[l]) v = UNSPEC; } }
      char why[400]; snprintf(why, sizeof why, "%s; given %s; no anchors; order %d", LNAME[l], listed(a).c_str(), rev); c.note("%s", why);
      Heap h(LEAF[l].der); c.eval(); c.distinct(comb(comb(77, l), a)); c.user(v);
      int r = crypto_verify_cert(h.p, h.n, given, nullptr); if (r != 0 && r != -1) c.fail("return-value", "%s: %d", why, r);
      if (v == ACCEPT && r) c.fail("refused-valid-chain", "%s", why); if (v == REJECT && !r) c.fail("accepted-invalid-chain", "%s", why);
      for (unsigned s : {0u, 1u, 2u, 4u, 3u, 5u, 6u, 7u}) {
        List store; store.l = init_array_list(); for (int i = 0; i < 3; i++) if (s >> i & 1) store.add(CA[i].der, CRYPTO_CERTIFICATE_VALID);
        Verdict w = l == L_SELF ? UNSPEC : chain(l, a & ~7u, s, false, false); /* a root among the given ones is no anchor but may be picked */
        if (w == ACCEPT && (a & 7u & ~s)) w = UNSPEC;
        if (w == ACCEPT && (l == L_N1 || l == L_IEXP)) w = UNSPEC;
        snprintf(why, sizeof why, "%s; given %s; anchors %s; order %d", LNAME[l], listed(a).c_str(), listed(s).c_str(), rev); c.note("%s", why); c.eval(); c.user(w); c.distinct(comb(comb(comb(78, l), a), s));
        r = crypto_verify_cert(h.p, h.n, given, store);
        if (w == ACCEPT && r) c.fail("refused-valid-chain", "%s", why); if (w == REJECT && !r) c.fail("accepted-invalid-chain", "%s", why);
      }
    }
    Heap h(LEAF[l].der); if (crypto_verify_cert(nullptr, 0, nullptr, nullptr) == 0 || crypto_verify_cert(h.p, h.n, nullptr, nullptr) == 0) c.fail("null-accepted", "no certificate or no list was accepted");
  } else if (part == 2) { /* every byte of a message, replaced */
    int si = c.choose((int)SUBJ.size()), pos = c.choose(2600); const Sub &s = SUBJ[si]; if (pos >= (int)s.m.size()) return; if (!c.mine()) return;
    List store; if (s.withstore) { store.add(CA[R1].der, 0); store.add(RRSA.der, 0); }
    auto in = [&](const Reg &r) { return r.len && (size_t)pos >= r.off && (size_t)pos < r.off + r.len; };
    bool must = in(s.content) || in(s.sig) || in(s.attrs); static const int FEW[] = {1, 255, 32, 128, 4, 2, 8, 16, 64}; c.distinct(comb(comb(90, si), pos));
    bool all = c.thorough; int nx = all ? 255 : must ? 9 : 5;
    for (int xi = 0; xi < nx; xi++) { int x = all ? xi + 1 : FEW[xi];
      bytes m = s.m; m[pos] = (char)(m[pos] ^ x); char why[200]; snprintf(why, sizeof why, "%s message of %zu bytes, byte %d changed by %02x%s", s.name, m.size(), pos, x, in(s.content) ? " (content)" : in(s.sig) ? " (signature)" : in(s.attrs) ? " (message digest)" : ""); c.note("%s", why);
      Arr a(m); struct BinaryArrayList *out = nullptr; c.eval(); struct Voucher *vo = verify_cms_voucher(a, nullptr, store.l, &out); std::vector<std::string> oc = items(out); if (out) free_array_list(out);
      V got; std::string e; if (vo) { e = get(vo, got); free_voucher(vo); }
      if (!vo) { c.user(2); continue; }
      c.user(1);
      if (must) c.fail("accepted-altered", "%s", why);
      std::string d = got.diff(want()); if (!e.empty() || !d.empty()) c.fail("altered-voucher", "%s: accepted with a different %s", why, d.c_str());
      if (s.withstore && (oc.size() != 1 || oc[0] != s.sc->der)) c.fail("altered-signer", "%s: accepted with other signer certificates", why);
      Msg o = open_cms(m); if (!o.ok && s.withstore) { /* accepted though an independent reader refuses: only trailing data is tolerated there */ }
    }
    if (pos == (int)s.content.off + 3) c.sample("byte %d of the content of the %s message: all changes refused", pos, s.name);
  } else if (part == 3) { /* truncations and extensions */
    int si = c.choose((int)SUBJ.size()), pos = c.choose(2600); const Sub &s = SUBJ[si]; if (pos >= (int)s.m.size()) return; if (!c.mine()) return;
    List store; if (s.withstore) { store.add(CA[R1].der, 0); store.add(RRSA.der, 0); } c.distinct(comb(comb(91, si), pos));
    for (int k = 0; k < 4; k++) {
      bytes m = s.m; if (k == 0) m.resize(pos); else if (k == 1) m.erase(pos, 1); else if (k == 2) m.insert(pos, 1, '\0'); else if (pos + 1 < (int)m.size()) { if (m[pos] == m[pos + 1]) continue; std::swap(m[pos], m[pos + 1]); } else continue;
      c.note("%s message, edit %d at byte %d", s.name, k, pos); Arr a(m); c.eval(); struct Voucher *vo = verify_cms_voucher(a, nullptr, store.l, nullptr); V got; if (vo) { get(vo, got); free_voucher(vo); std::string d = got.diff(want()); if (!d.empty()) c.fail("altered-voucher", "%s message, edit %d at byte %d: accepted with a different %s", s.name, k, pos, d.c_str()); if (k == 0) c.fail("accepted-truncated", "%s message cut at %d", s.name, pos); }
    }
  } else if (part == 4) { /* structures */
    int k = c.choose(24), st = c.choose(3); if (!c.mine()) return; List store; if (st) store.l = init_array_list(); if (st == 1) { store.add(CA[R1].der, 0); } c.distinct(comb(comb(92, k), st)); c.note("structure %d anchors %d", k, st);
    const Cert &L = LEAF[L_R1]; bytes m; Verdict v = REJECT; const char *what = ""; bool notdoc = false;
    auto raw = [](CMS_ContentInfo *ci) { unsigned char *p = nullptr; int n = i2d_CMS_ContentInfo(ci, &p); bytes b((char *)p, n > 0 ? n : 0); OPENSSL_free(p); CMS_ContentInfo_free(ci); return b; };
    auto parse = [](const bytes &d) { const unsigned char *p = (const unsigned char *)d.data(); return d2i_CMS_ContentInfo(nullptr, &p, (long)d.size()); };
    if (k == 0) { what = "intact"; m = cms(DOC, {{&L, &kL}}); v = st == 2 ? REJECT : ACCEPT; }
    else if (k == 1) { what = "plain data"; BIO *b = BIO_new_mem_buf(DOC.data(), (int)DOC.size()); m = raw(CMS_data_create(b, CMS_BINARY)); BIO_free(b); }
    else if (k == 2) { what = "digested data"; BIO *b = BIO_new_mem_buf(DOC.data(), (int)DOC.size()); m = raw(CMS_digest_create(b, EVP_sha256(), CMS_BINARY)); BIO_free(b); }
    else if (k == 3) { what = "the voucher itself"; m = DOC; }
    else if (k == 4) { what = "nothing"; m = ""; }
    else if (k == 5) { what = "detached signature"; CMS_ContentInfo *ci = nullptr; BIO *b = BIO_new_mem_buf(DOC.data(), (int)DOC.size()); ci = CMS_sign(L.x, kL.k, nullptr, b, CMS_BINARY | CMS_DETACHED); m = raw(ci); BIO_free(b); }
    else if (k == 6) { what = "no signer"; BIO *b = BIO_new_mem_buf(DOC.data(), (int)DOC.size()); CMS_ContentInfo *ci = CMS_sign(nullptr, nullptr, nullptr, b, CMS_BINARY | CMS_PARTIAL); CMS_add1_cert(ci, L.x); CMS_final(ci, b, nullptr, CMS_BINARY); m = raw(ci); BIO_free(b); }
    else if (k == 7) { what = "signer certificate missing"; m = cms(DOC, {{&L, &kL}}, {}, CMS_BINARY | CMS_NOCERTS); }
    else if (k == 8) { what = "two trusted signers"; m = cms(DOC, {{&L, &kL}, {&LRSA, &kRSA}}); v = st == 2 ? REJECT : ACCEPT; }
    else if (k == 9) { what = "trusted and untrusted signer"; m = cms(DOC, {{&L, &kL}, {&LEAF[L_SELF], &kL}}); v = st == 0 ? ACCEPT : REJECT; }
    else if (k == 10) { what = "untrusted and trusted signer"; m = cms(DOC, {{&LEAF[L_SELF], &kL}, {&L, &kL}}); v = st == 0 ? ACCEPT : REJECT; }
    else if (k == 11) { what = "content replaced by another signed document"; m = cms(DOC, {{&L, &kL}}); bytes m2 = DOC2; size_t p = m.find(DOC); m.replace(p, DOC.size(), m2); }
    else if (k == 12) { what = "content and message digest replaced"; m = cms(DOC, {{&L, &kL}}); size_t p = m.find(DOC); unsigned char h1[32], h2[32]; SHA256((const unsigned char *)DOC.data(), DOC.size(), h1); SHA256((const unsigned char *)DOC2.data(), DOC2.size(), h2); m.replace(p, DOC.size(), DOC2); p = m.find(bytes((char *)h1, 32)); m.replace(p, 32, bytes((char *)h2, 32)); }
    else if (k == 13) { what = "signature of another document by the same signer"; CMS_ContentInfo *a = parse(cms(DOC, {{&L, &kL}})), *b = parse(cms(DOC2, {{&L, &kL}})); ASN1_OCTET_STRING *sa = CMS_SignerInfo_get0_signature(sk_CMS_SignerInfo_value(CMS_get0_SignerInfos(a), 0)), *sb = CMS_SignerInfo_get0_signature(sk_CMS_SignerInfo_value(CMS_get0_SignerInfos(b), 0)); ASN1_STRING_copy(sa, sb); m = raw(a); CMS_ContentInfo_free(b); }
    else if (k == 14) { what = "empty signature"; CMS_ContentInfo *a = parse(cms(DOC, {{&L, &kL}})); ASN1_OCTET_STRING_set(CMS_SignerInfo_get0_signature(sk_CMS_SignerInfo_value(CMS_get0_SignerInfos(a), 0)), (const unsigned char *)"", 0); m = raw(a); }
    else if (k == 15) { what = "signed with another key than the certificate's"; /* signer info of key kBad under a certificate with the same identity */ const Cert &tw = TW, &fake = TW; m = cms(DOC, {{&fake, &kBad}}); size_t p = m.find(tw.der); if (p != bytes::npos) { CMS_ContentInfo *a = parse(cms(DOC, {{&fake, &kBad}}, {}, CMS_BINARY | CMS_NOCERTS)); CMS_add1_cert(a, L.x); m = raw(a); } }
    else if (k == 16) { what = "not a voucher"; m = cms("hello", {{&L, &kL}}); notdoc = true; }
    else if (k == 17) { what = "empty content"; m = cms("", {{&L, &kL}}); notdoc = true; }
    else if (k == 18) { what = "truncated voucher"; m = cms(DOC.substr(0, DOC.size() - 2), {{&L, &kL}}); notdoc = true; }
    else if (k == 19) { what = "voucher nested in a second signature"; m = cms(cms(DOC, {{&L, &kL}}), {{&L, &kL}}); notdoc = true; }
    else if (k == 20) { what = "a certificate"; m = L.der; }
    else if (k == 21) { what = "base64 text of the message"; m = ref::b64enc(cms(DOC, {{&L, &kL}})); }
    else if (k == 22) { what = "leaf certificate signed by a leaf"; const Cert &x = SUB; m = cms(DOC, {{&x, &kBad}}, {L.der}); v = st == 0 ? ACCEPT : REJECT; }
    else { what = "a kilobyte of zeros"; m = bytes(1024, 0); }
    c.note("%s, anchors %d", what, st); c.user(v);
    Arr a(m); struct BinaryArrayList *out = nullptr; c.eval(); struct Voucher *vo = verify_cms_voucher(a, nullptr, store.l, &out); std::vector<std::string> oc = items(out); bool acc = vo; if (vo) { V got; get(vo, got); free_voucher(vo); if (!got.diff(want()).empty()) { if (out) free_array_list(out); c.fail("wrong-voucher", "%s", what); } } if (out) free_array_list(out);
    if (acc && v == REJECT) c.fail("accepted-invalid", "%s, anchors %d", what, st); if (!acc && v == ACCEPT) c.fail("refused-valid", "%s, anchors %d", what, st);
    if (!notdoc && v == REJECT) { uint8_t *d = nullptr; ssize_t n = crypto_verify_cms(a, nullptr, store.l, &d, nullptr); if (n >= 0) { free(d); c.fail("accepted-invalid-message", "%s, anchors %d", what, st); } }
    if (notdoc && st == 1) { bytes w = k == 16 ? "hello" : k == 17 ? "" : k == 18 ? DOC.substr(0, DOC.size() - 2) : bytes(); uint8_t *d = nullptr; ssize_t n = crypto_verify_cms(a, nullptr, store.l, &d, nullptr); if (n < 0) c.fail("refused-valid-message", "%s", what); if (k < 19 && bytes(d ? (char *)d : "", n) != w) { free(d); c.fail("wrong-content", "%s", what); } free(d); }
    if (verify_cms_voucher(nullptr, nullptr, store.l, nullptr)) c.fail("accepted-invalid", "no message");
  } else { /* signing: every key kind, function and extra certificates */
    int kk = c.choose(6), fn = c.choose(3), ex = c.choose(4), doc = c.choose(3); if (!c.mine()) return;
    const Key *K[] = {&kL, &kRSA, &k384, &kBad, &kRSA, &kEd}; const Cert *S[] = {&LEAF[L_R1], &LRSA, &L384, &LEAF[L_R1], &LEAF[L_R1], &LED}; /* 3, 4: key of another certificate */
    bool isec = kk == 0 || kk == 2 || kk == 3, isrsa = kk == 1 || kk == 4; bool good = kk < 3 && (fn == 0 || (fn == 1 && isec) || (fn == 2 && isrsa)); bool unspec = kk == 5;
    c.note("sign with key kind %d, function %d, extra %d, document %d", kk, fn, ex, doc); c.distinct(comb(comb(comb(comb(93, kk), fn), ex), doc)); c.eval();
    struct Voucher *v = init_voucher(); V m; m.a[3].set = 1; m.a[3].s = doc == 2 ? std::string(127, 'x') : "a"; set(v, 3, m.a[3]); if (doc >= 1) { m.a[9].set = 1; m.a[9].s = bytes(500, '\0'); set(v, 9, m.a[9]); }
    List extra; if (ex) { extra.l = init_array_list(); if (ex > 1) extra.add(CA[I1].der, 0); if (ex > 2) extra.add(RRSA.der, 0); }
    Arr ce(S[kk]->der), ke(K[kk]->der); struct BinaryArray *out = fn == 0 ? sign_cms_voucher(v, ce, ke, extra) : fn == 1 ? sign_eccms_voucher(v, ce, ke, extra) : sign_rsacms_voucher(v, ce, ke, extra);
    V own; get(v, own); free_voucher(v); if (!own.diff(m).empty()) { if (out) free_binary_array(out); c.fail("sign-changed-voucher", "signing changed the voucher: %s", own.diff(m).c_str()); }
    bool ok = out; bytes msg = take(out);
    if (unspec) return;
    if (good != ok) c.fail(good ? "sign-failed" : "sign-accepted-mismatch", "key kind %d, function %d: %s", kk, fn, ok ? "signed" : "refused");
    if (!ok) return;
    Msg o = open_cms(msg); if (!o.ok) c.fail("signed-unreadable", "an independent reader refuses the signed voucher"); V w; std::string e = parse_strict(o.data, w); if (!e.empty() || !w.diff(m).empty()) c.fail("signed-content", "the signed document is not the voucher: %s", e.c_str());
    if (o.signers.size() != 1 || o.signers[0] != S[kk]->der) c.fail("signed-signer", "the signer's certificate is not embedded");
    size_t need = ex < 2 ? 0 : ex - 1; for (size_t i = 0; i < need; i++) { const bytes &d = i ? RRSA.der : CA[I1].der; bool f = false; for (auto &x : o.certs) f |= x == d; if (!f) c.fail("signed-extra", "an additional certificate is not embedded"); }
    if (o.certs.size() != need + 1) c.fail("signed-extra", "%zu certificates embedded, not %zu", o.certs.size(), need + 1);
    Arr a(msg); List store; store.add(CA[R1].der, 0); store.add(RRSA.der, 0); struct BinaryArrayList *oc = nullptr; struct Voucher *back = verify_cms_voucher(a, nullptr, store, &oc); std::vector<std::string> it = items(oc); if (oc) free_array_list(oc); if (!back) c.fail("own-refused", "own signed voucher refused"); V g; get(back, g); free_voucher(back);
    if (!g.diff(m).empty()) c.fail("own-differs", "own signed voucher read differently: %s", g.diff(m).c_str()); if (it.size() != 1 || it[0] != S[kk]->der) c.fail("own-signers", "signer certificates differ");
  }
}
int main(int argc, char **argv) { quiet_logs(); init(); subjects(); Opts o; o.worker_init = quiet_logs; o.settle = pki::settle; return run(argc, argv, body, o); }
