/* C22: the pledge client against every registrar: each of its three exchanges is answered in every way, and its settings are broken */
#include <functional>
#include "mc.hpp"
#include "servers.hpp"
#include "sizes.hpp"
extern "C" {
#include "brski/pledge/pledge_utils.h"
}
#include "brski/pledge/pledge_request.hpp"
using mc::Ctx; using mc::Opts; using mc::comb; using mc::Fail; using namespace srv;
static Site W; static Id regtls2, twindom, twinreg, twinmasa, other2; static std::string DIR, CREATED_ON = "2024-01-01T00:00:00Z";
/* the client's settings */
struct PConf { Strs str; List a, v, st; pledge_config p; registrar_config r; masa_config m;
  PConf() { memset(&p, 0, sizeof p); memset(&r, 0, sizeof r); memset(&m, 0, sizeof m); p.created_on = str(CREATED_ON); p.serial_number = str("12345"); p.nonce = str("bm9uY2U="); p.idevid_cert_path = str(W.p("pledge.crt")); p.idevid_key_path = str(W.p("pledge.key")); p.idevid_ca_cert_path = str(W.p("mfr.crt")); p.cms_sign_cert_path = str(W.p("pledge.crt")); p.cms_sign_key_path = str(W.p("pledge.key")); r.bind_address = str("registrar.example"); r.port = 12345; m.bind_address = str("masa.example"); m.port = 15678; }
  void lists(int add, int certs, int store) { static const char *N[] = {"", "masa.crt", "other.crt", "missing.crt", "garbage", "mfr.crt", "dir", "half.crt"}; if (add) paths(a, {W.p(N[add])}); if (certs) paths(v, {W.p(N[certs])}); if (store) paths(st, {W.p(N[store])}); p.cms_add_certs_paths = a; p.cms_verify_certs_paths = v; p.cms_verify_store_paths = st; }
};
/* one settings deviation: what still works.  reach: number of exchanges before the client must have given up (3: none) */
struct Cf { const char *name; int reach; bool free; };
static const Cf CF[] = {{"settings as they should be", 3, false}, {"no registrar address", 0, false}, {"no idevid key", 0, false}, {"no idevid certificate", 0, false}, {"no serial number", 1, false}, {"empty serial number", 2, false}, {"another serial number", 2, false}, {"no nonce", 3, false}, {"unreadable nonce", 1, false}, {"another nonce", 2, false},
  {"no creation time", 3, false}, {"unreadable creation time", 1, false}, {"no signing certificate", 1, false}, {"missing signing certificate", 1, false}, {"garbage signing certificate", 1, false}, {"directory as signing certificate", 1, false}, {"no signing key", 1, false}, {"missing signing key", 1, false}, {"garbage signing key", 1, false}, {"signing key of another", 1, false},
  {"no additional certificates", 3, false}, {"missing additional certificate", 1, false}, {"garbage additional certificate", 1, false}, {"no trusted certificates", 3, true}, {"other trusted certificate", 2, false}, {"missing trusted certificate", 2, false}, {"half a trusted certificate", 2, false}, {"known signer given", 3, false}, {"missing known signer", 2, false}, {"garbage known signer", 2, false}, {"empty nonce", 3, true}};
enum { NCF = sizeof CF / sizeof *CF };
static void apply(PConf &k, int c) {
  pledge_config &p = k.p; int add = 5, certs = 0, store = 1;
  switch (c) { case 1: k.r.bind_address = nullptr; break; case 2: p.idevid_key_path = nullptr; break; case 3: p.idevid_cert_path = nullptr; break; case 4: p.serial_number = nullptr; break; case 5: p.serial_number = k.str(""); break; case 6: p.serial_number = k.str("123456"); break; case 7: p.nonce = nullptr; break; case 8: p.nonce = k.str("!!!!"); break; case 9: p.nonce = k.str("bm9uY2X="); p.nonce[6] = 'A'; break;
    case 10: p.created_on = nullptr; break; case 11: p.created_on = k.str("yesterday"); break; case 12: p.cms_sign_cert_path = nullptr; break; case 13: p.cms_sign_cert_path = k.str(W.p("missing.crt")); break; case 14: p.cms_sign_cert_path = k.str(W.p("garbage")); break; case 15: p.cms_sign_cert_path = k.str(W.p("dir")); break; case 16: p.cms_sign_key_path = nullptr; break; case 17: p.cms_sign_key_path = k.str(W.p("missing.key")); break; case 18: p.cms_sign_key_path = k.str(W.p("garbage")); break; case 19: p.cms_sign_key_path = k.str(W.p("other.key")); break;
    case 20: add = 0; break; case 21: add = 3; break; case 22: add = 4; break; case 23: store = 0; break; case 24: store = 2; break; case 25: store = 3; break; case 26: store = 7; break; case 27: certs = 1; break; case 28: certs = 3; break; case 29: certs = 4; break; case 30: p.nonce = k.str(""); break; }
  k.lists(add, certs, store);
}
/* answers */
static const int ST1[] = {400, -1, 200, 404, 500, 302, 100}, ST2[] = {200, -1, 201, 204, 299, 199, 100, 300, 301, 302, 304, 307, 399, 400, 404, 500, 502, 503}, ST3[] = {200, -1, 201, 204, 299, 199, 100, 300, 301, 302, 304, 307, 399, 400, 404, 500, 502, 503};
static const char *PEER1[] = {"tls", "other", "none"}, *PEER2[] = {"tls", "tls 2", "none", "other", "twin", "masa"}, *B1[] = {"", "Router error", "a voucher"};
static const char *B2[] = {"the voucher", "nothing", "an error text", "half the voucher", "one byte more", "a changed signature", "a changed nonce", "no base64", "base64 of text", "another serial number", "no serial number", "a serial number prefix", "another nonce", "no nonce", "a nonce prefix", "no pinned certificate", "another pinned certificate", "a pinned twin", "unreadable pinned certificate",
  "signed by another", "signed by the registrar", "signed by a twin of the MASA", "signed by the pledge", "signed by the pledge's manufacturer", "unsigned", "the client's own request", "a registrar request", "no voucher inside", "two signers, one unknown", "half the pinned certificate", "an empty pinned certificate"};
enum { NB2 = sizeof B2 / sizeof *B2 };
static const char *B3[] = {"the issued certificate", "nothing", "an error text", "no base64", "base64 of text", "half the certificate", "a voucher", "a key", "a certificate for another key"};
enum { NB3 = sizeof B3 / sizeof *B3 };
static bytes voucher(int k) {
  V v; S(v, SERIAL, "12345"); S(v, NONCE, "nonce"); S(v, PINNED, W.dom.cert.der); E(v, ASSERTION, 3); T(v, CREATED, T6{2024, 1, 1, 0, 0, 0}); T(v, EXPIRES, T6{2090, 1, 1, 0, 0, 0}); const Id *by = &W.masa; V z = v;
  switch (k) { case 9: S(v, SERIAL, "12346"); break; case 10: v.a[SERIAL] = Val(); break; case 11: S(v, SERIAL, "1234"); break; case 12: S(v, NONCE, "noncf"); break; case 13: v.a[NONCE] = Val(); break; case 14: S(v, NONCE, "nonc"); break; case 15: v.a[PINNED] = Val(); break; case 16: S(v, PINNED, W.other.cert.der); break; case 17: S(v, PINNED, twindom.cert.der); break; case 18: S(v, PINNED, "no certificate"); break;
    case 19: by = &W.other; break; case 20: by = &W.reg; break; case 21: by = &twinmasa; break; case 22: by = &W.pledge; break; case 23: by = &W.mfr; break; case 29: S(v, PINNED, W.dom.cert.der.substr(0, W.dom.cert.der.size() / 2)); break; case 30: S(v, PINNED, ""); break; }
  if (k == 24) return doc(v); if (k == 27) return cms("{}", {{&by->cert, &by->key}}); if (k == 26) return rvr(W.reg, "12345", pvr(W.pledge, "12345", W.regtls.cert.der)); if (k == 28) return cms(doc(v), {{&by->cert, &by->key}, {&W.other.cert, &W.other.key}});
  bytes m = cms(doc(v), {{&by->cert, &by->key}}); size_t n; if (k == 3) m.resize(m.size() / 2); if (k == 4) m += std::string(1, 0); if (k == 5) m[m.size() - 1] ^= 1; if (k == 6 && (n = m.find("bm9uY2U=")) != bytes::npos) m[n] = 'c'; (void)z; return m;
}
static std::string nob64(const bytes &m) { std::string s = b64(m); while (s.back() == '=' || s.size() % 4 != 1) s.pop_back(); return s; }
static std::string body2(int k, const std::string &echo) { switch (k) { case 1: return ""; case 2: return "Router error"; case 7: return nob64(voucher(0)); case 8: return b64("just a text"); case 25: return echo; default: return b64(voucher(k)); } }
/* the certificate of a request: (public key, serial number) and whether it is properly self-signed */
struct Req { bool ok = false; bytes pub, serial; X509 *x = nullptr; };
static bytes pubof(EVP_PKEY *k) { unsigned char *p = nullptr; int n = i2d_PUBKEY(k, &p); bytes b; if (n > 0) b.assign((char *)p, n); OPENSSL_free(p); return b; }
static Req req(const std::string &body) { Req r; bytes d; if (ref::b64dec(body, d) != 1) return r; const unsigned char *p = (const unsigned char *)d.data(); X509 *x = d2i_X509(nullptr, &p, (long)d.size()); if (!x) { ERR_clear_error(); return r; } EVP_PKEY *k = X509_get0_pubkey(x); r.ok = k && p == (const unsigned char *)d.data() + d.size() && X509_verify(x, k) == 1; if (k) r.pub = pubof(k); BIGNUM *b = ASN1_INTEGER_to_BN(X509_get0_serialNumber(x), nullptr); unsigned char t[64]; if (b) { int n = BN_num_bytes(b); if (n <= 64) { BN_bn2bin(b, t); r.serial.assign((char *)t, n); } BN_free(b); } X509_free(x); ERR_clear_error(); return r; }
static bytes issue(const std::string &body) { bytes d = unb64(body); X509 *x = x509(d); if (!x) return ""; Key k; k.k = X509_get_pubkey(x); X509_free(x); Spec s; s.subject = cn("issued"); s.key = &k; s.ca = &W.ldevid.cert; s.by = &W.ldevid.key; s.isca = 0; s.serial = 77; Cert c = pki::cert(s); bytes r = c.der; X509_free(c.x); EVP_PKEY_free(k.k); return r; }
struct Drv { int st[3] = {0, 0, 0}, peer[2] = {0, 0}, body[3] = {0, 0, 0}; int n = 0; bytes issued; };
static const Cert *peer1(int k) { return k == 0 ? &W.regtls.cert : k == 1 ? &other2.cert : nullptr; }
static const Cert *peer2(int k) { switch (k) { case 0: return &W.regtls.cert; case 1: return &regtls2.cert; case 3: return &W.other.cert; case 4: return &twinreg.cert; case 5: return &W.masatls.cert; default: return nullptr; } }
static Answer answer(Drv &d, const Call &q) {
  Answer a; int i = d.n++;
  if (i == 0) { a.status = ST1[d.st[0]]; a.peer = peer1(d.peer[0]); a.body = d.body[0] == 1 ? "Router error" : d.body[0] == 2 ? b64(voucher(0)) : ""; }
  else if (i == 1) { a.status = ST2[d.st[1]]; a.peer = peer2(d.peer[1]); a.body = body2(d.body[1], q.body); }
  else if (i == 2) { a.status = ST3[d.st[2]]; d.issued = issue(q.body); switch (d.body[2]) { case 0: a.body = b64(d.issued); break; case 1: a.body = ""; break; case 2: a.body = "Router error"; break; case 3: a.body = nob64(d.issued); break; case 4: a.body = b64("just a text"); break; case 5: a.body = b64(d.issued.substr(0, d.issued.size() / 2)); break; case 6: a.body = b64(voucher(0)); break; case 7: a.body = b64(W.other.key.der); break; default: d.issued = W.pledge2.cert.der; a.body = b64(d.issued); } }
  else a.status = -1;
  return a;
}
static const int DIM[] = {NCF, sizeof ST1 / 4, 3, 3, sizeof ST2 / 4, 6, NB2, sizeof ST3 / 4, NB3};
static bytes SERIALS[2], PUBS[2];
static void enrol(Ctx &c, const int *o, int round) {
  const Cf &cf = CF[o[0]]; PConf k; apply(k, o[0]); Drv d; d.st[0] = o[1]; d.peer[0] = o[2]; d.body[0] = o[3]; d.st[1] = o[4]; d.peer[1] = o[5]; d.body[1] = o[6]; d.st[2] = o[7]; d.body[2] = o[8];
  /* expectations: exchanges that happen, and the outcome (1 success, 0 failure, -1 unspecified) */
  int n = 3, want = 1; bool unspec = false; auto stop = [&](int at) { if (at < n) n = at; want = 0; };
  int reach = o[0] == 24 && o[6] == 19 ? 3 : cf.reach; if (reach < 3) stop(reach); if (ST1[o[1]] < 0 || o[2] == 2) stop(1); int s2 = ST2[o[4]]; if (s2 < 200 || s2 > 299 || o[5] == 2 || (o[5] > 2 && !(o[5] == 3 && o[6] == 16) && !(o[5] == 4 && o[6] == 17))) stop(2); if (s2 > 200 && s2 < 300) unspec = true; bool nononce = o[0] == 7 || o[0] == 30, nostore = o[0] == 23; int b = o[6];
  if (b == 16 && o[5] == 3 && !unspec) unspec = true; /* pinned: the very certificate of the server */
  if (b) { bool okb = (nononce && (b == 12 || b == 13 || b == 14)) || (nostore && b >= 19 && b <= 23) || (o[0] == 24 && b == 19); if (b == 28 || b == 4) unspec = true; else if (nostore && (b == 25 || b == 26)) stop(2); else if (!okb && !(b == 16 && o[5] == 3) && !(b == 17 && o[5] == 4)) stop(2); if (b == 17 && o[5] == 4) unspec = true; }
  int s3 = ST3[o[7]]; if (n == 3 && (s3 < 200 || s3 > 299)) want = 0; if (s3 > 200 && s3 < 300) unspec = true; if (n == 3 && o[8]) want = 0; if (cf.free) unspec = true;
  /* unspecified cases that fail for another reason are still failures */
  CALLS.clear(); ANSWERER = [&](const Call &q) { return answer(d, q); }; struct BinaryArray cert = {}, key = {}; int r = post_sign_cert(&k.p, &k.r, &k.m, &cert, &key); ANSWERER = nullptr; bytes bc = str(&cert), bk = str(&key); bool ptr = cert.array || key.array || cert.length || key.length; free_binary_array_content(&cert); free_binary_array_content(&key);
  c.eval(); c.transition(CALLS.size()); c.validated(); const char *w = c.w->note; bool ok = r == 0; c.user(ok ? 1 : 0);
  if (ok && !want) c.fail("accepted", "%s: success was reported after %zu exchanges", w, CALLS.size());
  if (!ok && want && !unspec) c.fail("refused", "%s: failure was reported after %zu exchanges", w, CALLS.size());
  if (CALLS.size() > 3) c.fail("too-many", "%s: %zu requests", w, CALLS.size());
  if ((int)CALLS.size() > n) c.fail("went-on", "%s: %zu requests were sent, the client should have given up after %d", w, CALLS.size(), n);
  if (!unspec && (int)CALLS.size() < n && cf.reach == 3) c.fail("gave-up", "%s: only %zu requests were sent of %d", w, CALLS.size(), n);
  if (!ok && ptr) c.fail("handed-back", "%s: failure, but %zu bytes of certificate and %zu of key are handed back", w, bc.size(), bk.size());
  for (size_t i = 0; i < CALLS.size(); i++) { const Call &q = CALLS[i]; if (q.host != k.r.bind_address || q.port != 12345 || q.key != W.p("pledge.key") || q.cert != W.p("pledge.crt")) c.fail("request-target", "%s: request %zu goes to %s:%d as %s", w, i + 1, q.host.c_str(), q.port, q.cert.c_str());
    if (q.path != (i < 2 ? "/.well-known/brski/requestvoucher" : "/.well-known/est/simpleenroll")) c.fail("request-path", "%s: request %zu is for %s", w, i + 1, q.path.c_str()); }
  if (CALLS.size() && CALLS[0].body != "") c.fail("first-body", "%s: the first request is not empty", w);
  if (CALLS.size() > 1) { bool dec; bytes m = unb64(CALLS[1].body, &dec); Msg g = open_cms(m); V got, v; if (!dec || !g.ok || g.signers.size() != 1 || g.signers[0] != W.pledge.cert.der) c.fail("request-signature", "%s: the voucher request is not a message signed by the pledge", w);
    std::string e = parse_strict(g.data, got); if (e.size()) c.fail("request-content", "%s: voucher request: %s", w, e.c_str()); S(v, SERIAL, k.p.serial_number ? k.p.serial_number : ""); if (k.p.nonce && o[0] != 30) S(v, NONCE, unb64(k.p.nonce)); E(v, ASSERTION, 3); S(v, PROX, peer1(o[2])->der); T(v, CREATED, T6{2024, 1, 1, 0, 0, 0}); if (o[0] == 10) v.a[CREATED] = got.a[CREATED]; if (o[0] == 30) got.a[NONCE] = v.a[NONCE]; e = got.diff(v); if (e.size()) c.fail("request-content", "%s: voucher request: wrong %s", w, e.c_str()); }
  if (CALLS.size() > 2) { const Call &q = CALLS[2]; if (!q.withca) c.fail("unverified-server", "%s: the enrolment request does not verify the server", w); BIO *bio = BIO_new_mem_buf(q.ca.data(), (int)q.ca.size()); X509 *x = PEM_read_bio_X509(bio, nullptr, nullptr, nullptr), *y = x ? PEM_read_bio_X509(bio, nullptr, nullptr, nullptr) : nullptr; bytes pin = x ? pki::der(x) : ""; X509_free(x); BIO_free(bio); bool more = y; X509_free(y); ERR_clear_error();
    const bytes &expin = b == 16 ? W.other.cert.der : b == 17 ? twindom.cert.der : W.dom.cert.der; if (pin != expin || more) c.fail("pinned", "%s: the enrolment connection trusts something else than the pinned certificate", w);
    Req rq = req(q.body); if (!rq.ok) c.fail("enrol-request", "%s: the enrolment request is not a self-signed certificate", w);
    SERIALS[round] = rq.serial; PUBS[round] = rq.pub; if (rq.serial.empty()) c.fail("serial", "%s: the certificate request has no serial number", w);
    if (ok) { if (bc != d.issued) c.fail("certificate", "%s: the certificate handed back is not the one that was issued", w); const unsigned char *p = (const unsigned char *)bk.data(); EVP_PKEY *e = d2i_AutoPrivateKey(nullptr, &p, (long)bk.size()); bytes pub = e ? pubof(e) : ""; EVP_PKEY_free(e); ERR_clear_error(); if (pub.empty() || pub != rq.pub) c.fail("key", "%s: the key handed back is not the key of the request", w); } }
}
/* every length class of the nonce and of the issued certificate, every length of the serial number */
static void lengths(Ctx &c) {
  auto &sz = mc::sizes(c.thorough); int ix = c.choose((int)sz.size()), k = c.choose(6); if (!c.mine()) return; static const char *KN[] = {"nonce", "nonce, last byte of the answer differs", "issued certificate", "serial number", "serial number, last character of the answer differs", "nonce, the answer's is one byte shorter"}; size_t n = k == 3 || k == 4 ? 127 - ix % 127 : sz[ix];
  c.note("length %zu: %s", n, KN[k]); uint64_t h = comb(comb(0x5e22, n), k); c.state(h); c.distinct(h); std::string t(n, 0); for (size_t i = 0; i < n; i++) t[i] = (char)('a' + (i + (i >> 7)) % 26); bytes nn = k < 2 || k == 5 ? bytes(t) : bytes("nonce"); std::string sn = k == 3 || k == 4 ? t : "12345"; PConf q; apply(q, 0); q.p.nonce = q.str(b64(nn)); q.p.serial_number = q.str(sn); bool ok = k == 0 || k == 2 || k == 3; bytes issued; int calls = 0;
  V v; S(v, SERIAL, sn); S(v, NONCE, nn); S(v, PINNED, W.dom.cert.der); E(v, ASSERTION, 3); T(v, CREATED, T6{2024, 1, 1, 0, 0, 0}); T(v, EXPIRES, T6{2090, 1, 1, 0, 0, 0}); if (k == 1) v.a[NONCE].s[n - 1] ^= 1; if (k == 5) v.a[NONCE].s.pop_back(); if (k == 4) v.a[SERIAL].s[n - 1] = '!';
  CALLS.clear(); ANSWERER = [&](const Call &r) { Answer a; int i = calls++; a.peer = &W.regtls.cert; if (i == 0) a.status = 400; else if (i == 1) { a.status = 200; a.body = b64(cms(doc(v), {{&W.masa.cert, &W.masa.key}})); } else { a.status = 200; bytes d = unb64(r.body); X509 *x = x509(d); if (x) { Key kk; kk.k = X509_get_pubkey(x); X509_free(x); Spec s; s.subject = cn("issued"); s.key = &kk; s.ca = &W.ldevid.cert; s.by = &W.ldevid.key; s.isca = 0; s.serial = 77; if (k == 2) s.ext = {{NID_netscape_comment, t}}; Cert ce = pki::cert(s); issued = ce.der; X509_free(ce.x); EVP_PKEY_free(kk.k); } a.body = b64(issued); } return a; };
  struct BinaryArray cert = {}, key = {}; int r = post_sign_cert(&q.p, &q.r, &q.m, &cert, &key); ANSWERER = nullptr; bytes bc = str(&cert); free_binary_array_content(&cert); free_binary_array_content(&key); c.eval(); c.transition(CALLS.size()); c.validated(); c.user(r == 0);
  if (ok && r) c.fail("refused", "%s: failure was reported after %zu exchanges", c.w->note, CALLS.size()); if (!ok && !r) c.fail("accepted", "%s: success was reported", c.w->note); if (!ok && CALLS.size() > 2) c.fail("went-on", "%s: %zu requests", c.w->note, CALLS.size()); if (ok && bc != issued) c.fail("certificate", "%s: %zu other bytes are handed back", c.w->note, bc.size());
  if (CALLS.size() > 1) { V got; Msg g = open_cms(unb64(CALLS[1].body)); std::string e = parse_strict(g.data, got); if (!g.ok || e.size() || got.a[NONCE].s != nn || got.a[SERIAL].s != sn) c.fail("request-content", "%s: the voucher request has another nonce or serial number", c.w->note); }
}
static void body(Ctx &c) {
  if (c.choose(2)) { lengths(c); return; }
  /* up to k answers or settings deviate from a good enrolment */
  int o[9] = {0}, k = c.thorough ? 3 : 2, left = k, from = 0; while (left && from < 9) { int i = c.choose(9 - from + 1); if (i == 9 - from) break; from += i; o[from] = 1 + c.choose(DIM[from] - 1); from++; left--; }
  if (!c.mine()) return;
  c.note("%s; first answer %d, certificate %s, body '%s'; second answer %d, certificate %s, %s; third answer %d, %s", CF[o[0]].name, ST1[o[1]], PEER1[o[2]], B1[o[3]], ST2[o[4]], PEER2[o[5]], B2[o[6]], ST3[o[7]], B3[o[8]]);
  uint64_t h = 22; for (int i : o) h = comb(h, i); c.state(h); c.distinct(h); bool plain = true; for (int i : o) plain &= !i; enrol(c, o, 0);
  if (plain) { c.sample("enrolled with %zu exchanges", CALLS.size()); enrol(c, o, 1); if (SERIALS[0] == SERIALS[1]) c.fail("same-serial", "two certificate requests made one after the other have the same serial number"); if (PUBS[0] == PUBS[1]) c.fail("same-key", "two certificate requests have the same key"); }
}
static void init() {
  W.make(); W.files(DIR); regtls2 = id("regtls2", cn("registrar tls 2"), &W.dom, 0, 19); twindom = id("twindom", cn("domain"), nullptr, 1, 1); twinreg = id("twinreg", cn("registrar tls"), &twindom, 0, 9); twinmasa = id("twinmasa", cn("masa"), nullptr, 1, 1); other2 = id("other2", cn("somebody"), nullptr, 1, 1);
}
int main(int argc, char **argv) { quiet_logs(); for (int i = 1; i + 1 < argc; i++) if (!strcmp(argv[i], "--scratch")) DIR = std::string(argv[i + 1]) + "/site"; if (DIR.empty()) return 3; mkdir(DIR.c_str(), 0700); init(); Opts o; o.worker_init = quiet_logs; o.settle = pki::settle; return mc::run(argc, argv, body, o); }
