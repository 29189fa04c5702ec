/* C24: generated keys and certificates */
#include "mc.hpp"
#include <functional>
#include <algorithm>
#define SRV_NO_STUB
#include "servers.hpp"
using namespace mc; using namespace srv;
typedef std::vector<std::pair<std::string, std::string>> NV;
struct Kv { struct keyvalue_list *l; Kv(const NV &v, bool null = false) { l = null ? nullptr : init_keyvalue_list(); if (!null) for (auto &e : v) if (push_keyvalue_list(l, (char *)e.first.c_str(), (char *)e.second.c_str()) < 0) die("push"); } ~Kv() { if (l) free_keyvalue_list(l); } };
static NV read(struct keyvalue_list *l) { NV v; struct keyvalue_list *el; dl_list_for_each(el, &l->list, struct keyvalue_list, list) v.push_back({el->key, el->value}); return v; }
struct Nm { NV v; bool ok; }; static std::vector<Nm> NMS; static const uint64_t SN[] = {0, 1, 127, 128, 255, 256, 32767, 32768, 0x7fffffff, 0x80000000ull, 0xffffffffull, 0x100000000ull, 0x123456789abcdefull, 0x7fffffffffffffffull, 0x8000000000000000ull, 0xff00000000000000ull, 0xffffffffffffffffull};
struct Tm { long from, to; const char *abs; int ok; const char *want; }; /* want: UTC text of notAfter */
static const Tm TMS[] = {{0, 86400L * 365, nullptr, 1, nullptr}, {-3600, 0, nullptr, 1, nullptr}, {86400, 86400L * 30, nullptr, 1, nullptr}, {0, -1, nullptr, 1, nullptr}, {-86400L * 365 * 90, 86400L * 365 * 90, nullptr, 1, nullptr}, {0, 86400L * 365 * 7900, nullptr, 1, nullptr}, {0, 86400L * 365 * 9000, nullptr, 0, nullptr},
  {0, 0, "99991231235959Z", 1, "99991231235959Z"}, {0, 0, "20491231235959Z", 1, "20491231235959Z"}, {0, 0, "20500101000000Z", 1, "20500101000000Z"}, {0, 0, "19700101000000Z", 1, "19700101000000Z"}, {0, 0, "20240229120000Z", 1, "20240229120000Z"}, {0, 0, "301230010203Z", 1, "20301230010203Z"},
  {0, 5, "99991231235959Z", 0, nullptr}, {0, 0, "", 0, nullptr}, {0, 0, "tomorrow", 0, nullptr}, {0, 0, "20301331000000Z", 0, nullptr}, {0, 0, "20300101250000Z", 0, nullptr}, {0, 0, "2030-01-01T00:00:00Z", 0, nullptr}, {0, 0, "99991231235959Zx", 0, nullptr}, {0, 0, "20230229000000Z", 0, nullptr}};
struct Bc { const char *t; int ok, ca, crit, path; }; static const Bc BCS[] = {{nullptr, 1, -1, 0, -1}, {"CA:TRUE", 1, 1, 0, -1}, {"CA:FALSE", 1, 0, 0, -1}, {"critical,CA:TRUE", 1, 1, 1, -1}, {"critical,CA:FALSE", 1, 0, 1, -1}, {"CA:TRUE,pathlen:0", 1, 1, 0, 0}, {"critical, CA:TRUE, pathlen:3", 1, 1, 1, 3}, {"CA:maybe", 0, 0, 0, 0}, {"nonsense", 0, 0, 0, 0}, {"pathlen:x", 0, 0, 0, 0}};
static Key ECK, RSAK, P384, EDK; static Site W; static bytes KEYS[8]; static const char *KN[] = {"EC", "RSA", "P-384", "Ed25519", "empty", "garbage", "certificate", "cut EC"};
static void init() { W.make(); ECK = ec("k"); RSAK = rsa(2048); P384 = ec("p", NID_secp384r1); EDK = ed(); KEYS[0] = ECK.der; KEYS[1] = RSAK.der; KEYS[2] = P384.der; KEYS[3] = EDK.der; KEYS[5] = "garbage"; KEYS[6] = W.dom.cert.der; KEYS[7] = ECK.der.substr(0, ECK.der.size() - 3);
  auto n = [](const NV &v, bool ok) { NMS.push_back({v, ok}); }; n({}, true); n({{"CN", "x"}}, true); n({{"C", "IE"}, {"ST", "s"}, {"L", "l"}, {"O", "o"}, {"OU", "u"}, {"CN", "c"}, {"emailAddress", "a@b"}, {"serialNumber", "1234"}, {"SN", "sur"}, {"GN", "given"}}, true); n({{"GN", "g"}, {"CN", "c"}, {"C", "IE"}}, true); n({{"CN", std::string(64, 'n')}, {"O", std::string(64, 'o')}, {"emailAddress", std::string(128, 'e')}}, true);
  n({{"CN", "a, b=c+d;\"e\"<f>#g\\"}}, true); n({{"CN", " lead and trail "}}, true); n({{"CN", "\xc3\x89ire \xe2\x82\xac"}}, true); n({{"O", "\xce\xb1\xce\xb2\xce\xb3"}, {"serialNumber", "0"}}, true); n({{"serialNumber", "12345"}, {"CN", "12345"}}, true); n({{"OU", "1"}, {"OU", "2"}, {"CN", "dup"}}, true); n({{"CN", "%s%n"}}, true); n({{"serialNumber", "a b-c:d/e"}}, true);
  n({{"CN", std::string(65, 'n')}}, false); n({{"C", "IRL"}}, false); n({{"C", "I"}}, false); n({{"XX", "x"}}, false); n({{"", "x"}}, false); n({{"CN", "ok"}, {"noSuchName", "x"}}, false); n({{"serialNumber", std::string(65, '1')}}, false); n({{"emailAddress", "\xc3\xa9@x"}}, false); }
static bytes nametxt(const X509_NAME *n, NV *out) { for (int i = 0; i < X509_NAME_entry_count(n); i++) { X509_NAME_ENTRY *e = X509_NAME_get_entry(n, i); unsigned char *u = nullptr; int l = ASN1_STRING_to_UTF8(&u, X509_NAME_ENTRY_get_data(e)); out->push_back({OBJ_nid2sn(OBJ_obj2nid(X509_NAME_ENTRY_get_object(e))), l < 0 ? "(unreadable)" : bytes((char *)u, l)}); if (l >= 0) OPENSSL_free(u); } return ""; }
static std::string tim(const ASN1_TIME *t, time_t *o) { struct tm x; if (!ASN1_TIME_to_tm(t, &x)) return "unreadable time"; *o = timegm(&x); bool gen = x.tm_year >= 150 || x.tm_year < 50; if ((ASN1_STRING_type(t) == V_ASN1_GENERALIZEDTIME) != gen) return "time of the wrong type"; return ""; }
struct Req { uint64_t sn; int tm, iss, sub, bc; bool nulliss = false, nullsub = false; };
static std::string str(const Req &q) { char b[300]; snprintf(b, sizeof b, "serial number %llx, validity %d (%ld, %ld, %s), issuer %d, subject %d, constraints %s", (unsigned long long)q.sn, q.tm, TMS[q.tm].from, TMS[q.tm].to, TMS[q.tm].abs ? TMS[q.tm].abs : "-", q.nulliss ? -1 : q.iss, q.nullsub ? -1 : q.sub, BCS[q.bc].t ? BCS[q.bc].t : "-"); return b; }
/* generates and judges; key 0.. ; fn 0 EC 1 RSA */
static bytes gen(Ctx &c, const Req &q, int key, int fn) {
  Kv is(NMS[q.iss].v, q.nulliss), su(NMS[q.sub].v, q.nullsub); struct crypto_cert_meta m; memset(&m, 0, sizeof m); m.serial_number = q.sn; const Tm &T = TMS[q.tm]; m.not_before = T.from; m.not_after = T.to; m.not_after_absolute = T.abs; m.issuer = is.l; m.subject = su.l; std::string bcs = BCS[q.bc].t ? BCS[q.bc].t : ""; m.basic_constraints = BCS[q.bc].t ? &bcs[0] : nullptr;
  c.note("%s certificate, %s key: %s", fn ? "RSA" : "EC", KN[key], str(q).c_str()); c.eval(); c.transition(); const char *why = c.w->note; bool ok = (fn == 0 ? key == 0 || key == 2 : key == 1) && T.ok && (q.nulliss || NMS[q.iss].ok) && (q.nullsub || NMS[q.sub].ok) && BCS[q.bc].ok; Heap k(KEYS[key]); uint8_t *o = nullptr; time_t t0 = time(nullptr); ssize_t n = fn ? crypto_generate_rsacert(&m, k.p, k.n, &o) : crypto_generate_eccert(&m, k.p, k.n, &o); time_t t1 = time(nullptr);
  if (n < 0) { bool left = o; if (ok) c.fail("refused", "%s: refused", why); if (left) c.fail("refused-with-result", "%s: refused with a certificate left", why); return ""; } if (!ok) { free(o); c.fail("accepted", "%s: an unusable request gave a certificate", why); } bytes d((char *)o, n); free(o); X509 *x = x509(d); ERR_clear_error(); if (!x || der(x) != d) c.fail("unreadable", "%s: not a certificate", why);
  struct Rel { X509 *x; ~Rel() { X509_free(x); } } rel{x}; std::string e; BIGNUM *b = ASN1_INTEGER_to_BN(X509_get0_serialNumber(x), nullptr); char *h = BN_bn2hex(b); if (strtoull(h, nullptr, 16) != q.sn || strlen(h) > 16 || BN_is_negative(b)) e = std::string("serial number ") + h; OPENSSL_free(h); BN_free(b); NV ni, ns; nametxt(X509_get_issuer_name(x), &ni); nametxt(X509_get_subject_name(x), &ns); if (ni != (q.nulliss ? NV{} : NMS[q.iss].v)) e = "issuer"; if (ns != (q.nullsub ? NV{} : NMS[q.sub].v)) e = "subject"; if (X509_get_version(x) != 2) e = "version";
  time_t nb, na; std::string te = tim(X509_get0_notBefore(x), &nb); if (te.empty()) te = tim(X509_get0_notAfter(x), &na); if (!te.empty()) e = te; else if (nb < t0 + T.from || nb > t1 + T.from) e = "start of validity"; else if (!T.abs && (na < t0 + T.to || na > t1 + T.to)) e = "end of validity"; else if (T.abs) { struct tm w; memset(&w, 0, sizeof w); sscanf(T.want, "%4d%2d%2d%2d%2d%2d", &w.tm_year, &w.tm_mon, &w.tm_mday, &w.tm_hour, &w.tm_min, &w.tm_sec); w.tm_year -= 1900; w.tm_mon--; if (timegm(&w) != na) e = "end of validity"; }
  const Bc &B = BCS[q.bc]; if (X509_get_ext_count(x) != (B.t ? 1 : 0)) e = "extensions"; else if (B.t) { int crit = 0; BASIC_CONSTRAINTS *bc = (BASIC_CONSTRAINTS *)X509_get_ext_d2i(x, NID_basic_constraints, &crit, nullptr); if (!bc || crit != B.crit || !!bc->ca != B.ca || (bc->pathlen ? ASN1_INTEGER_get(bc->pathlen) : -1) != B.path) e = "basic constraints"; BASIC_CONSTRAINTS_free(bc); }
  const unsigned char *kp = (const unsigned char *)KEYS[key].data(); EVP_PKEY *pk = d2i_AutoPrivateKey(nullptr, &kp, (long)KEYS[key].size()); if (EVP_PKEY_eq(X509_get0_pubkey(x), pk) != 1) e = "public key"; else if (X509_verify(x, pk) != 1) e = "signature"; EVP_PKEY_free(pk); int md; if (!OBJ_find_sigid_algs(X509_get_signature_nid(x), &md, nullptr) || md != NID_sha256) e = "signature digest"; ERR_clear_error(); if (!e.empty()) c.fail("content", "%s: wrong %s", why, e.c_str());
  /* read back by the code itself */
  { Kv i2({}), s2({}); struct crypto_cert_meta r; memset(&r, 0, sizeof r); r.issuer = i2.l; r.subject = s2.l; CRYPTO_CERT cc = crypto_cert2context((const uint8_t *)d.data(), d.size()); int g = crypto_getcert_meta(cc, &r); static const char *K[] = {"C", "ST", "L", "O", "OU", "CN", "emailAddress", "serialNumber", "SN", "GN"}; auto first = [&](const NV &v) { std::vector<std::pair<std::string, std::string>> o; for (auto k : K) for (auto &p : v) if (p.first == k) { o.push_back(p); break; } std::sort(o.begin(), o.end()); return o; }; NV gi = read(i2.l), gs = read(s2.l); std::sort(gi.begin(), gi.end()); std::sort(gs.begin(), gs.end()); const char *sn = crypto_getcert_serial(&r); std::string s = sn ? sn : "", wsn; for (auto &p : ns) if (p.first == "serialNumber") { wsn = p.second; break; } bool hassn = sn; crypto_free_certcontext(cc); 
    if (g != 0 || r.serial_number != q.sn || gi != first(ni) || gs != first(ns)) c.fail("read-back", "%s: the data read back differ", why); if (s != wsn || hassn != !wsn.empty()) c.fail("read-back", "%s: serial number %s read back", why, s.c_str()); }
  c.validated(); return d;
}
static void keycheck(Ctx &c, const bytes &k, int type, int bits, const char *why) { const unsigned char *p = (const unsigned char *)k.data(); EVP_PKEY *x = d2i_AutoPrivateKey(nullptr, &p, (long)k.size()); bool ok = x && EVP_PKEY_get_base_id(x) == type && EVP_PKEY_get_bits(x) == bits; if (ok) { EVP_PKEY_CTX *q = EVP_PKEY_CTX_new(x, nullptr); ok = EVP_PKEY_check(q) == 1 && EVP_PKEY_pairwise_check(q) == 1; EVP_PKEY_CTX_free(q); char g[50]; size_t l; if (ok && type == EVP_PKEY_EC) ok = EVP_PKEY_get_group_name(x, g, sizeof g, &l) && !strcmp(g, "prime256v1"); } ok = ok && der(x) == k; EVP_PKEY_free(x); ERR_clear_error(); if (!ok) c.fail("key", "%s: not a usable key of the requested kind and size", why); }
/* a missing argument: refused, and what is there stays */
static void nothing(Ctx &c) {
  int k = c.choose(11); if (!c.mine()) return; c.note("missing argument %d", k); c.eval(); c.transition(); c.distinct(comb(996, k)); bool ok = true; Heap sk(W.dom.key.der), cc(W.dom.cert.der); bytes d = W.pledge.cert.der; uint8_t *p = (uint8_t *)malloc(d.size()), *z = nullptr; memcpy(p, d.data(), d.size()); uint8_t *q = p; struct crypto_cert_meta m; memset(&m, 0, sizeof m);
  switch (k) { case 0: ok = crypto_sign_cert(nullptr, 0, cc.p, cc.n, d.size(), &p) < 0; break; case 1: ok = crypto_sign_cert(sk.p, sk.n, cc.p, cc.n, d.size(), nullptr) < 0; break; case 2: ok = crypto_sign_cert(sk.p, sk.n, cc.p, cc.n, 0, &z) < 0 && !z; break; case 3: ok = crypto_sign_cert(sk.p, sk.n, nullptr, 0, d.size(), &p) < 0; break;
  case 4: { CRYPTO_CERT x = crypto_cert2context((uint8_t *)d.data(), d.size()); ok = x && crypto_getcert_meta(x, nullptr) < 0; crypto_free_certcontext(x); break; } case 5: ok = crypto_getcert_meta(nullptr, &m) < 0; break; case 6: ok = !crypto_cert2buf(nullptr); break; case 7: ok = !crypto_getcert_issuer(nullptr); break; case 9: ok = crypto_generate_eckey(nullptr) < 0; break; default: ok = crypto_getrand(nullptr) < 0; }
  ok &= p == q && !memcmp(p, d.data(), d.size()); free(p); if (!ok) c.fail("null-argument", "missing argument %d: not refused", k);
}
static void body(Ctx &c) {
  if (c.choose(2)) { nothing(c); return; }
  int part = c.choose(6); const int NN = (int)NMS.size(), NT = sizeof TMS / sizeof *TMS, NB = sizeof BCS / sizeof *BCS;
  if (part == 0) { /* every field against every other, both kinds */
    int sn = c.choose(17), t = c.choose(NT), b = c.choose(NB), f = c.choose(2); if (!c.mine()) return; if (!c.thorough && f && (sn + t + b) % 4) return; for (int i = 0; i < (c.thorough ? 3 : 1); i++) { Req q{SN[sn], t, (sn + t + i) % 13, (t + b + 3 * i) % 13, b}; c.distinct(comb(comb(comb(comb(1, sn), t), b), f * 4 + i)); gen(c, q, f, f); }
  } else if (part == 1) { /* names */
    int i = c.choose(NN + 1), s = c.choose(NN + 1), f = c.choose(2); if (!c.mine()) return; Req q{5, 0, i % NN, s % NN, 1}; q.nulliss = i == NN; q.nullsub = s == NN; c.distinct(comb(comb(comb(2, i), s), f)); gen(c, q, f, f);
  } else if (part == 2) { /* keys, and several defects at once */
    int k = c.choose(8), f = c.choose(2), d = c.choose(8); if (!c.mine()) return; Req q{7, d & 1 ? 15 : 0, d & 2 ? 13 : 1, 1, d & 4 ? 7 : 1}; c.distinct(comb(comb(comb(3, k), f), d)); gen(c, q, k, f); if (k == 0 && d == 0) { uint8_t *o = nullptr; struct crypto_cert_meta m; memset(&m, 0, sizeof m); Heap kk(KEYS[0]); auto fn = f ? crypto_generate_rsacert : crypto_generate_eccert; if (fn(nullptr, kk.p, kk.n, &o) >= 0 || o || fn(&m, nullptr, 0, &o) >= 0 || o || fn(&m, kk.p, kk.n, nullptr) >= 0) c.fail("missing-argument", "a missing argument was accepted"); }
  } else if (part == 3) { /* signing by a CA changes issuer and signature only */
    int f = c.choose(2), i = c.choose(13), s = c.choose(13), a = c.choose(6); if (!c.mine()) return; Req q{SN[(i + s) % 17], (i * 5 + s) % 6, i, s, (i + s) % 7}; bytes d = gen(c, q, f, f); c.distinct(comb(comb(comb(comb(4, f), i), s), a)); static Id ca[6]; if (!ca[0].key.k) for (int j = 0; j < 6; j++) { ca[j].key = j == 0 ? W.ldevid.key : j == 1 || j == 5 ? RSAK : j == 2 || j == 4 ? P384 : ECK; Spec sp; sp.subject = j == 0 ? cn("ca") : j == 1 ? Name{{"C", "IE"}, {"O", "\xc3\x89ire"}, {"CN", "ca"}} : j == 2 ? Name{} : cn(std::string(64, 'c')); sp.key = &ca[j].key; if (j >= 4) { sp.subject = Name{{"CN", j == 4 ? "intermediate" : "second intermediate"}, {"OU", "x"}}; sp.ca = &ca[j == 4 ? 0 : 1].cert; sp.serial = 9; /* not self-signed */ } ca[j].cert = cert(sp); }
    Heap sk(ca[a].key.der), cc(ca[a].cert.der); uint8_t *p = (uint8_t *)malloc(d.size()); memcpy(p, d.data(), d.size()); c.note("%s signed by CA %d", str(q).c_str(), a); c.transition(); ssize_t n = crypto_sign_cert(sk.p, sk.n, cc.p, cc.n, d.size(), &p); bytes r = n >= 0 ? bytes((char *)p, n) : ""; free(p); if (n < 0) c.fail("refused", "%s", c.w->note); X509 *x = x509(r), *y = x509(d); std::string e; if (!x) e = "form"; else { X509 *z = X509_dup(y); X509_set_issuer_name(z, X509_get_subject_name(ca[a].cert.x)); auto tbs = [](X509 *v) { unsigned char *u = nullptr; int l = i2d_re_X509_tbs(v, &u); bytes b((char *)u, l); OPENSSL_free(u); return b; }; if (X509_NAME_cmp(X509_get_issuer_name(x), X509_get_subject_name(ca[a].cert.x))) e = "issuer"; else if (X509_verify(x, ca[a].key.k) != 1) e = "signature"; else { auto mask = [](X509 *v) { NV n; nametxt(X509_get_subject_name(v), &n); bytes o; for (auto &p : n) o += p.first + "=" + p.second + ";"; unsigned char *u = nullptr; int l = i2d_X509_PUBKEY(X509_get_X509_PUBKEY(v), &u); o += bytes((char *)u, l); OPENSSL_free(u); const ASN1_INTEGER *i = X509_get0_serialNumber(v); o += bytes((const char *)ASN1_STRING_get0_data(i), ASN1_STRING_length(i)); for (const ASN1_TIME *t : {X509_get0_notBefore(v), X509_get0_notAfter(v)}) o += bytes((const char *)ASN1_STRING_get0_data(t), ASN1_STRING_length(t)); for (int j = 0; j < X509_get_ext_count(v); j++) { u = nullptr; l = i2d_X509_EXTENSION(X509_get_ext(v, j), &u); o += bytes((char *)u, l); OPENSSL_free(u); } return o + std::to_string(X509_get_version(v)); }; if (mask(x) != mask(y)) e = "field changed by the signing"; } X509_free(z); (void)tbs; } X509_free(x); X509_free(y); ERR_clear_error(); if (!e.empty()) c.fail("signed", "%s: wrong %s", c.w->note, e.c_str());
  } else if (part == 4) { /* keys */
    int k = c.choose(24); if (!c.mine()) return; c.eval(); c.distinct(comb(5, k)); static const int BITS[] = {512, 768, 1023, 1024, 1025, 1536, 2048, 3072, 511, 100, 10, 1, 0, -1, -2048, (int)0x80000000}; if (k < 16) { int bits = BITS[k]; c.note("RSA key of %d bits", bits); struct BinaryArray *b = crypto_generate_rsakey(bits); if (k < 8 && !b) c.fail("refused", "%s", c.w->note); if (k >= 8 && b) { free_binary_array(b); c.fail("accepted", "%s", c.w->note); } if (b) { bytes d = take(b); keycheck(c, d, EVP_PKEY_RSA, bits, c.w->note); Heap h(d); CRYPTO_KEY x = crypto_rsakey2context(h.p, h.n), y = crypto_eckey2context(h.p, h.n), z = crypto_key2context(h.p, h.n); crypto_free_keycontext(x); crypto_free_keycontext(y); crypto_free_keycontext(z); if (!x || y || !z) c.fail("key-context", "%s", c.w->note); } }
    else { std::set<bytes> seen; c.note("EC keys"); for (int i = 0; i < 40; i++) { uint8_t *p = nullptr; ssize_t n = crypto_generate_eckey(&p); c.transition(); if (n <= 0 || !p) c.fail("refused", "no EC key"); bytes d((char *)p, n); free(p); keycheck(c, d, EVP_PKEY_EC, 256, c.w->note); if (!seen.insert(d).second) c.fail("key-repeated", "the same key was generated twice"); Heap h(d); CRYPTO_KEY x = crypto_rsakey2context(h.p, h.n), y = crypto_eckey2context(h.p, h.n), z = crypto_key2context(h.p, h.n); crypto_free_keycontext(x); crypto_free_keycontext(y); crypto_free_keycontext(z); if (x || !y || !z) c.fail("key-context", "EC key"); } if (crypto_generate_eckey(nullptr) >= 0) c.fail("missing-argument", "EC key without a place"); }
  } else { /* contexts: every truncation of a key and a certificate, copies, buffers, issuer text, random bytes */
    int k = c.choose(5), i = k < 2 ? c.choose(1300) : c.choose(8); if (!c.mine()) return; const bytes &d = k == 0 ? KEYS[i & 1] : W.pledge.cert.der; c.eval(); c.distinct(comb(comb(6, k), i)); c.note("contexts %d %d", k, i);
    if (k == 0) { size_t n = i / 2 * 2; if (n > d.size()) return; Heap h(d.substr(0, n)); CRYPTO_KEY x = crypto_key2context(h.p, h.n), y = crypto_eckey2context(h.p, h.n), z = crypto_rsakey2context(h.p, h.n); crypto_free_keycontext(x); crypto_free_keycontext(y); crypto_free_keycontext(z); if ((x || y || z) != (n == d.size())) c.fail("key-context", "%zu of %zu bytes of a key %s", n, d.size(), x ? "accepted" : "refused"); }
    else if (k == 1) { if ((size_t)i > d.size()) return; Heap h(d.substr(0, i)); CRYPTO_CERT x = crypto_cert2context(h.p, h.n); bool ok = x; crypto_free_certcontext(x); if (ok != ((size_t)i == d.size())) c.fail("certificate-context", "%d of %zu bytes of a certificate", i, d.size()); }
    else { const Cert *C[] = {&W.pledge.cert, &W.dom.cert, &W.ldevid.cert, &W.reg.cert, &W.noserial.cert, &W.masa.cert, &W.other.cert, &W.mfr.cert}; const Cert &q = *C[i]; CRYPTO_CERT x = ctx_of(q); if (k == 2) { CRYPTO_CERT y = crypto_copycert(x); crypto_free_certcontext(x); struct BinaryArray *b = crypto_cert2buf(y); crypto_free_certcontext(y); bytes g = b ? take(b) : ""; if (g != q.der) c.fail("copy", "a copied certificate differs"); if (crypto_copycert(nullptr) || crypto_cert2buf(nullptr)) c.fail("copy", "a copy of nothing"); }
      else if (k == 3) { struct BinaryArray *b = crypto_getcert_issuer(x); crypto_free_certcontext(x); bytes g = b ? take(b) : ""; BIO *m = BIO_new(BIO_s_mem()); X509_NAME_print_ex(m, X509_get_issuer_name(q.x), 0, XN_FLAG_ONELINE); bytes w = bio(m); if (g != w) c.fail("issuer", "issuer text %s instead of %s", g.c_str(), w.c_str()); if (crypto_getcert_issuer(nullptr)) c.fail("issuer", "issuer of nothing"); }
      else { crypto_free_certcontext(x); static const size_t L[] = {1, 2, 3, 8, 16, 32, 64, 1000}; std::set<bytes> s; for (int r = 0; r < 20; r++) { struct BinaryArray a; a.length = L[i]; a.array = (uint8_t *)calloc(1, L[i]); if (crypto_getrand(&a) != 0) { free(a.array); c.fail("random", "%zu random bytes refused", L[i]); } s.insert(bytes((char *)a.array, L[i])); free(a.array); } if (L[i] >= 16 && s.size() != 20) c.fail("random", "random bytes repeat"); if (s.size() < 2) c.fail("random", "%zu random bytes are constant", L[i]); if (crypto_getrand(nullptr) == 0) c.fail("random", "no place accepted"); } }
  }
}
int main(int argc, char **argv) { quiet_logs(); init(); Opts o; o.worker_init = quiet_logs; o.settle = pki::settle; return run(argc, argv, body, o); }
