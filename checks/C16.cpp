/* C16: one failing allocation or library call, at every point of every public operation */
#include "mc.hpp"
#include <functional>
#include <memory>
#include "servers.hpp"
#include "fault.hpp"
#include "brski/pledge/pledge_request.hpp"
extern "C" {
#include "brski/pledge/pledge_utils.h"
}
using namespace mc; using namespace srv;
typedef std::function<std::string()> Fun; /* "" = failure reported */
struct Op { std::string name; std::function<Fun()> make; };
static std::vector<Op> OPS; static std::vector<std::string> REF; static std::vector<int> NP; static Site W; static Key RSAK; static Id RSAID, INTER, LEAF; static std::string DIR, CFILE; static bytes CRL, PLEDGECMS, REGCMS, VOUCHER, NONCEVOUCHER;
#define OP(n, ...) OPS.push_back({n, [=]() -> Fun { __VA_ARGS__ }});
template <class T> static std::shared_ptr<T> own(T *p, void (*f)(T *)) { return std::shared_ptr<T>(p, f); }
static void fre(void *p) { free(p); }
static std::string cstr(char *s) { std::string r = s ? "=" + std::string(s) : ""; free(s); return r; }
static std::string bin(struct BinaryArray *b) { std::string r = b ? (b->array ? "=" + str(b) : "BAD: an array without content") : ""; if (b) free_binary_array(b); return r; }
static std::string buf(ssize_t n, uint8_t *p) { std::string r = n < 0 ? (p ? "BAD: failure with a result left" : "") : p || n == 0 ? "=" + bytes((char *)p, n) : "BAD: success without result"; free(p); return r; }
static std::string kvs(struct keyvalue_list *l) { std::string s = "="; struct keyvalue_list *e; dl_list_for_each(e, &l->list, struct keyvalue_list, list) s += std::string(e->key) + ":" + e->value + ";"; return s; }
static std::string lst(struct BinaryArrayList *l) { std::string s = "="; for (auto &x : items(l)) s += std::to_string(x.size()) + ":" + x + ";"; return s; }
/* a signed message, canonically: content, signer, embedded certificates */
static std::string sgn(const bytes &d) { Msg m = open_cms(d); if (!m.ok) return "BAD: not an intact signed message"; std::string s = "=" + m.data; for (auto &x : m.signers) s += "|S" + x; std::set<bytes> c(m.certs.begin(), m.certs.end()); for (auto &x : c) s += "|C" + x; return s; }
static std::string sgn(struct BinaryArray *b) { std::string r = bin(b); return r.size() && r[0] == '=' ? sgn(r.substr(1)) : r; }
static std::string crt(const bytes &d, const EVP_PKEY *by) { X509 *x = x509(d); if (!x) return "BAD: not a certificate"; std::string s = "="; BIO *b = BIO_new(BIO_s_mem()); X509_print_ex(b, x, 0, X509_FLAG_NO_VALIDITY | X509_FLAG_NO_SIGDUMP | X509_FLAG_NO_SERIAL); s += bio(b); ASN1_INTEGER *n = X509_get_serialNumber(x); s += bytes((char *)ASN1_STRING_get0_data(n), ASN1_STRING_length(n)); struct tm t; ASN1_TIME_to_tm(X509_get0_notAfter(x), &t); s += std::to_string(t.tm_year > 200 ? t.tm_year : 0); if (by && X509_verify(x, (EVP_PKEY *)by) != 1) s = "BAD: wrong signature"; X509_free(x); ERR_clear_error(); return s; }
static std::string crt(ssize_t n, uint8_t *p, const EVP_PKEY *by) { std::string r = buf(n, p); return r.size() && r[0] == '=' ? crt(r.substr(1), by) : r; }
static std::string key(const bytes &d) { const unsigned char *p = (const unsigned char *)d.data(); EVP_PKEY *k = d2i_AutoPrivateKey(nullptr, &p, (long)d.size()); std::string s = k ? "=key " + std::to_string(EVP_PKEY_get_base_id(k)) + " " + std::to_string(EVP_PKEY_get_bits(k)) : "BAD: not a key"; if (k) { EVP_PKEY_CTX *c = EVP_PKEY_CTX_new(k, nullptr); if (EVP_PKEY_check(c) != 1) s = "BAD: not a valid key"; EVP_PKEY_CTX_free(c); } EVP_PKEY_free(k); ERR_clear_error(); return s; }
static std::string vch(struct Voucher *v) { if (!v) return ""; V x; std::string e = get(v, x); free_voucher(v); if (e.size()) return "BAD: " + e; return "=" + doc(x); }
static struct Voucher *full() { struct Voucher *v = init_voucher(); for (int i = 0; i < 11; i++) { Val x; x.set = true; x.t = T6{2024, 2, 3, 4, 5, 6}; x.e = 3; x.s = KIND[i] == STR ? "serial \"1\"\n" : std::string("bin\0\x01", 5) + char('a' + i); x.b = true; if (set(v, i, x) != 0) die("set"); } return v; }
struct PConf { Strs s; List add, ver, sto; pledge_config p; PConf(bool nonce = true) { memset(&p, 0, sizeof p); p.created_on = s("2024-01-01T00:00:00Z"); p.serial_number = s("12345"); p.nonce = nonce ? s(b64("nonce")) : nullptr; p.idevid_cert_path = s(W.p("pledge.crt")); p.idevid_key_path = s(W.p("pledge.key")); p.cms_sign_cert_path = s(W.p("pledge.crt")); p.cms_sign_key_path = s(W.p("pledge.key")); paths(add, {W.p("mfr.crt"), W.p("other.crt")}); p.cms_add_certs_paths = add; paths(sto, {W.p("masa.crt")}); p.cms_verify_store_paths = sto; paths(ver, {W.p("other.crt")}); p.cms_verify_certs_paths = ver; } };
static int setq(struct Voucher *v, int i, const Val &x, int via) { enum VoucherAttributes at = ATTR[i]; struct tm t = tm6(x.t); Arr a(x.s); const char *s = x.s.c_str();
  switch (KIND[i]) { case TIME: return ARM(set_attr_time_voucher(v, at, &t)); case ENUM: return ARM(set_attr_enum_voucher(v, at, x.e)); case BOOL: return ARM(set_attr_bool_voucher(v, at, x.b)); case STR: return via ? ARM(set_attr_voucher(v, at, s)) : ARM(set_attr_str_voucher(v, at, s)); default: return via ? ARM(set_attr_voucher(v, at, &a.a)) : ARM(set_attr_array_voucher(v, at, &a.a)); } }
static bytes slurp(const std::string &p) { bytes b; read(p, b); return b; }
static void setters() {
  for (int i = 0; i < 11; i++) for (int via = 0; via < 2; via++) for (int old = 0; old < 2; old++) { if (KIND[i] == TIME || KIND[i] == ENUM || KIND[i] == BOOL) if (via || old) continue;
    OP(std::string("set ") + NAMES[i] + (via ? " (variadic)" : "") + (old ? " over a value" : ""), auto v = own(old ? full() : init_voucher(), free_voucher); return [=]() -> std::string { Val x; x.set = true; x.t = T6{2031, 1, 2, 3, 4, 5}; x.e = 2; x.s = "new value"; x.b = true; V a; V b; if (get(v.get(), a).size()) die("get"); int r = setq(v.get(), i, x, via); std::string e = get(v.get(), b); if (e.size()) return "BAD: " + e; if (r != 0) { std::string d = a.diff(b); return d.size() ? "BAD: failed but changed " + d : ""; } return "=" + doc(b); };) }
}
static std::string listed(const std::vector<bytes> &v) { std::set<bytes> s(v.begin(), v.end()); std::string r; for (auto &x : s) r += "|" + x; return r; }
static void init() {
  W.make(); W.files(DIR); RSAK = rsa(2048); { Spec s; s.subject = cn("rsa"); s.key = &RSAK; RSAID.key = RSAK; RSAID.cert = cert(s); } INTER = id("inter", cn("inter"), &W.dom, 1, 20); LEAF = id("leaf", cn("leaf"), &INTER, 0, 21); CRL = crl(W.mfr.cert, W.mfr.key, {99});
  PLEDGECMS = pvr(W.pledge, "12345", W.regtls.cert.der); REGCMS = rvr(W.reg, "12345", PLEDGECMS); auto vou = [&](const bytes &pin, bool n) { V v; S(v, SERIAL, "12345"); if (n) S(v, NONCE, "nonce"); S(v, PINNED, pin); E(v, ASSERTION, 3); T(v, CREATED, T6{2024, 1, 1, 0, 0, 0}); T(v, EXPIRES, T6{2030, 1, 1, 0, 0, 0}); return cms(doc(v), {{&W.masa.cert, &W.masa.key}}); }; NONCEVOUCHER = vou(W.dom.cert.der, true); VOUCHER = vou(W.regtls.cert.der, false);
  write(W.p("rsa.crt"), RSAID.cert.pem); CFILE = W.p("conf.ini"); write(CFILE, "[masa]\nbindAddress=1.2.3.4\nport=15\nexpiresOn=2030-01-01T00:00:00Z\nldevidCACertPath=/a\ntlsCertPath=/b\ntlsKeyPath=/c\ntlsCACertPath=/d\ncmsSignCertPath=/e\ncmsSignKeyPath=/f\ncmsAdditionalCertPath=/g\ncmsAdditionalCertPath=/h\ncmsVerifyCertPath=/i\ncmsVerifyStorePath=/j\n[registrar]\nbindAddress=5.6.7.8\nport=16\ntlsCertPath=/k\ntlsKeyPath=/l\ntlsCACertPath=/m\ntlsCAKeyPath=/n\ncmsSignCertPath=/o\ncmsSignKeyPath=/p\ncmsAdditionalCertPath=/q\ncmsVerifyCertPath=/r\ncmsVerifyStorePath=/s\ncmsVerifyStorePath=/t\n"
    "[pledge]\ncreatedOn=2024-01-01T00:00:00Z\nserialNumber=12345\nnonce=bm9uY2U=\nidevidCertPath=/u\nidevidKeyPath=/v\nidevidCACertPath=/w\ncmsSignCertPath=/x\ncmsSignKeyPath=/y\ncmsAdditionalCertPath=/z\ncmsVerifyCertPath=/1\ncmsVerifyStorePath=/2\n");
  /* helpers and containers */
  OP("sys_memdup", return [] { Heap h("12345678"); void *p = ARM(sys_memdup(h.p, h.n)); return buf(p ? 8 : -1, (uint8_t *)p); };) OP("sys_strdup", return [] { return cstr(ARM(sys_strdup("some text"))); };) OP("sys_strndup", return [] { return cstr(ARM(sys_strndup("some text", 4))); };)
  OP("sys_realloc_array", auto p = std::make_shared<uint8_t *>((uint8_t *)malloc(8)); memset(*p, 7, 8); return [p] { void *q = ARM(sys_realloc_array(*p, 4, 4)); if (!q) { for (int i = 0; i < 8; i++) if ((*p)[i] != 7) return std::string("BAD: contents lost"); return std::string(); } std::string s = "=" + bytes((char *)q, 8); free(q); return s; };)
  OP("get_localtime", return [] { struct tm t; memset(&t, 0, sizeof t); if (ARM(get_localtime(&t)) != 0) return std::string(); return t.tm_year > 100 && t.tm_mday > 0 ? std::string("=ok") : std::string("BAD: wrong time"); };)
  OP("init_array_list", return [] { auto l = ARM(init_array_list()); if (!l) return std::string(); std::string s = lst(l); free_array_list(l); return s; };) OP("init_keyvalue_list", return [] { auto l = ARM(init_keyvalue_list()); if (!l) return std::string(); std::string s = kvs(l); free_keyvalue_list(l); return s; };)
  OP("init_binary_array", return [] { auto b = ARM(init_binary_array()); if (!b) return std::string(); bool ok = !b->array && !b->length; free_binary_array(b); return std::string(ok ? "=ok" : "BAD: not empty"); };)
  OP("push_array_list", auto l = std::make_shared<List>(std::vector<std::string>{"a", "bb"}); return [l] { auto a = lst(l->l); Heap h("ccc"); int r = ARM(push_array_list(l->l, h.p, h.n, 5)); auto b = lst(l->l); return r == 0 ? b : a == b ? std::string() : std::string("BAD: failed but changed"); };)
  OP("push_keyvalue_list", auto l = own(init_keyvalue_list(), free_keyvalue_list); push_keyvalue_list(l.get(), (char *)"k", (char *)"v"); return [l] { auto a = kvs(l.get()); int r = ARM(push_keyvalue_list(l.get(), (char *)"key", (char *)"value")); auto b = kvs(l.get()); return r == 0 ? b : a == b ? std::string() : std::string("BAD: failed but changed"); };)
  OP("copy_binary_array", return [] { Arr a("content"); struct BinaryArray d = {}; int r = ARM(copy_binary_array(&d, a)); if (r != 0 && (d.array || d.length)) return std::string("BAD: failed with a result"); std::string s = r ? "" : "=" + str(&d); free_binary_array_content(&d); return s; };)
  /* texts */
  for (std::string d : {std::string("a"), std::string("\0\xff\x10 text", 8), bytes(1000, 'x')}) { OP("base64 encode", return [=] { Heap h(d); uint8_t *o = nullptr; ssize_t n = ARM(serialize_array2base64str(h.p, h.n, &o)); return buf(n, o); };) OP("base64 decode", return [=] { Heap h(b64(d)); uint8_t *o = nullptr; ssize_t n = ARM(serialize_base64str2array(h.p, h.n, &o)); return buf(n, o); };) }
  OP("bool text", return [] { return cstr(ARM(serialize_bool2str(true))); };) OP("time text", return [] { struct tm t = tm6(T6{2024, 2, 3, 4, 5, 6}); return cstr(ARM(serialize_time2str(&t))); };) OP("local time text", return [] { std::string s = cstr(ARM(serialize_localtime())); return s.size() ? std::string("=ok") : s; };) OP("escape", return [] { return cstr(ARM(serialize_escapestr("a\"\\\n\x01 b"))); };) OP("unescape", return [] { return cstr(ARM(serialize_unescapestr("a\\n\\u20ac", 9))); };)
  OP("key-value JSON", auto l = own(init_keyvalue_list(), free_keyvalue_list); push_keyvalue_list(l.get(), (char *)"\"k\"", (char *)"1"); push_keyvalue_list(l.get(), (char *)"\"l\"", (char *)"2"); return [l] { return cstr(ARM(serialize_keyvalue2json(l.get()))); };)
  /* vouchers */
  OP("init_voucher", return [] { return vch(ARM(init_voucher())); };) setters(); OP("serialize_voucher", auto v = own(full(), free_voucher); return [v] { return cstr(ARM(serialize_voucher(v.get()))); };) OP("serialize empty voucher", auto v = own(init_voucher(), free_voucher); return [v] { return cstr(ARM(serialize_voucher(v.get()))); };)
  OP("deserialize_voucher", struct Voucher *v = full(); char *t = serialize_voucher(v); std::string d = t; free(t); free_voucher(v); return [d] { Heap h(d); return vch(ARM(deserialize_voucher(h.p, h.n))); };)
  for (int kind = 0; kind < 4; kind++) for (int extra = 0; extra < 2; extra++) OP("sign voucher " + std::to_string(kind) + (extra ? " with certificates" : ""), auto v = own(full(), free_voucher); const Id *i = kind == 1 || kind == 3 ? &RSAID : &W.masa; auto c = std::make_shared<Arr>(i->cert.der); auto k = std::make_shared<Arr>(i->key.der); auto l = extra ? std::make_shared<List>(std::vector<std::string>{W.dom.cert.der, W.other.cert.der}) : std::make_shared<List>(); auto f = kind == 0 ? sign_eccms_voucher : kind == 1 ? sign_rsacms_voucher : sign_cms_voucher; return [=] { return sgn(ARM(f(v.get(), *c, *k, l->l))); };)
  for (int m = 0; m < 8; m++) OP("verify voucher " + std::to_string(m), bytes d = m & 1 ? cms(doc(V()).size() ? [] { V v; S(v, SERIAL, "1"); return doc(v); }() : "", {{&LEAF.cert, &LEAF.key}}, {INTER.cert.der}) : PLEDGECMS; auto a = std::make_shared<Arr>(d); auto st = std::make_shared<List>(); if (m & 2) { st->add(m & 1 ? W.dom.cert.der : W.mfr.cert.der, CRYPTO_CERTIFICATE_VALID); st->add(W.other.cert.der, CRYPTO_CERTIFICATE_VALID); if (!(m & 1)) st->add(CRL, CRYPTO_CERTIFICATE_CRL); } auto ce = std::make_shared<List>(); if (m & 4) { ce->add(W.masa.cert.der, 0); ce->add(W.dom.cert.der, 0); }
    return [=]() -> std::string { struct BinaryArrayList *o = nullptr; struct Voucher *v = ARM(verify_cms_voucher(*a, ce->l, st->l, m & 4 || !(m & 2) ? &o : nullptr)); if (!v) { bool left = o; free_array_list(o); return left ? "BAD: failure with certificates left" : ""; } std::string s = vch(v); if (o) s += listed(items(o)); free_array_list(o); return s; };)
  for (int nonce = 0; nonce < 2; nonce++) OP("sign pledge request", auto n = std::make_shared<Arr>("nonce"); auto tls = std::make_shared<Arr>(W.regtls.cert.der); auto c = std::make_shared<Arr>(W.pledge.cert.der); auto k = std::make_shared<Arr>(W.pledge.key.der); auto l = std::make_shared<List>(std::vector<std::string>{W.mfr.cert.der}); return [=] { struct tm t = tm6(T6{2024, 1, 1, 0, 0, 0}); return sgn(ARM(sign_pledge_voucher_request(&t, "12345", nonce ? (struct BinaryArray *)*n : nullptr, *tls, *c, *k, l->l))); };)
  OP("sign registrar request", auto p = std::make_shared<Arr>(PLEDGECMS); auto is = std::make_shared<Arr>("issuer"); auto tls = std::make_shared<Arr>(W.regtls.cert.der); auto c = std::make_shared<Arr>(W.reg.cert.der); auto k = std::make_shared<Arr>(W.reg.key.der); auto st = std::make_shared<List>(std::vector<std::string>{W.mfr.cert.der}, CRYPTO_CERTIFICATE_VALID); auto ce = std::make_shared<List>(std::vector<std::string>{W.other.cert.der}); auto ad = std::make_shared<List>(std::vector<std::string>{W.dom.cert.der});
    return [=] { struct tm t = tm6(T6{2024, 1, 1, 0, 0, 0}); return sgn(ARM(sign_voucher_request(*p, &t, "12345", *is, *tls, *c, *k, ce->l, st->l, ad->l))); };)
  static auto owner = [](const char *, const struct BinaryArrayList *, void *, struct BinaryArray *out) -> int { fault::Pause z; Arr a(W.dom.cert.der); fault::ACTIVE = z.a; return copy_binary_array(out, a); };
  OP("sign voucher for a registrar", auto p = std::make_shared<Arr>(REGCMS); auto c = std::make_shared<Arr>(W.masa.cert.der); auto k = std::make_shared<Arr>(W.masa.key.der); auto rs = std::make_shared<List>(std::vector<std::string>{W.dom.cert.der}, CRYPTO_CERTIFICATE_VALID); auto rc = std::make_shared<List>(std::vector<std::string>{W.other.cert.der}); auto ps = std::make_shared<List>(std::vector<std::string>{W.mfr.cert.der}, CRYPTO_CERTIFICATE_VALID); auto ad = std::make_shared<List>(std::vector<std::string>{W.other.cert.der});
    return [=] { struct tm t = tm6(T6{2030, 1, 1, 0, 0, 0}); struct BinaryArray *r = ARM(sign_masa_pledge_voucher(*p, &t, owner, nullptr, *c, *k, rc->l, rs->l, nullptr, ps->l, ad->l)); std::string s = sgn(r); size_t x = s.find("\"created-on\":\""); if (x != std::string::npos) s.erase(x, 36); return s; };)
  for (int m = 0; m < 4; m++) OP("verify voucher as pledge " + std::to_string(m), auto p = std::make_shared<Arr>(m & 1 ? VOUCHER : NONCEVOUCHER); auto n = std::make_shared<Arr>("nonce"); auto tls = std::make_shared<Arr>(W.regtls.cert.der); auto st = std::make_shared<List>(std::vector<std::string>{W.masa.cert.der, W.other.cert.der}, CRYPTO_CERTIFICATE_VALID); auto ce = std::make_shared<List>(std::vector<std::string>{W.dom.cert.der, W.other.cert.der}); auto ds = std::make_shared<List>(std::vector<std::string>{W.dom.cert.der}, CRYPTO_CERTIFICATE_VALID); auto ra = std::make_shared<List>(std::vector<std::string>{W.other.cert.der});
    return [=]() -> std::string { struct BinaryArrayList *o = nullptr; struct BinaryArray pin = {}; int r = ARM(verify_masa_pledge_voucher(*p, "12345", m & 1 ? nullptr : (struct BinaryArray *)*n, *tls, m & 2 ? ra->l : nullptr, m & 2 ? ce->l : nullptr, st->l, m & 2 ? &o : nullptr, &pin)); std::string s; if (r != 0) s = pin.array || pin.length || o ? "BAD: failure with a result left" : ""; else s = "=" + str(&pin) + listed(items(o)); free_binary_array_content(&pin); free_array_list(o); return s; };)
  /* keys and certificates */
  OP("random bytes", return [] { uint8_t b[16] = {}; struct BinaryArray a = {b, 16}; if (ARM(crypto_getrand(&a)) != 0) return std::string(); for (int i = 0; i < 16; i++) if (b[i]) return std::string("=ok"); return std::string("BAD: no random bytes"); };)
  OP("copy certificate", auto c = own(ctx_of(W.pledge.cert), crypto_free_certcontext); return [c]() -> std::string { CRYPTO_CERT x = ARM(crypto_copycert(c.get())); if (!x) return ""; std::string s = "=" + der((X509 *)x); crypto_free_certcontext(x); return s; };) OP("certificate to buffer", auto c = own(ctx_of(W.pledge.cert), crypto_free_certcontext); return [c] { return bin(ARM(crypto_cert2buf(c.get()))); };)
  OP("certificate data", auto c = own(ctx_of(W.pledge.cert), crypto_free_certcontext); return [c]() -> std::string { auto i = own(init_keyvalue_list(), free_keyvalue_list); auto s = own(init_keyvalue_list(), free_keyvalue_list); struct crypto_cert_meta m; memset(&m, 0, sizeof m); m.issuer = i.get(); m.subject = s.get(); if (ARM(crypto_getcert_meta(c.get(), &m)) != 0) return ""; char *n = crypto_getcert_serial(&m); return "=" + std::to_string(m.serial_number) + kvs(i.get()) + kvs(s.get()) + (n ? n : ""); };)
  OP("certificate issuer", auto c = own(ctx_of(W.pledge.cert), crypto_free_certcontext); return [c] { return bin(ARM(crypto_getcert_issuer(c.get()))); };) OP("generate RSA key", return [] { std::string s = bin(ARM(crypto_generate_rsakey(1024))); return s.size() && s[0] == '=' ? key(s.substr(1)) : s; };) OP("generate EC key", return [] { uint8_t *k = nullptr; ssize_t n = ARM(crypto_generate_eckey(&k)); std::string s = buf(n, k); return s.size() && s[0] == '=' ? key(s.substr(1)) : s; };)
  for (int kind = 0; kind < 3; kind++) { OP("key context " + std::to_string(kind), return [=]() -> std::string { Heap h(kind == 1 ? RSAK.der : W.masa.key.der); auto f = kind == 0 ? crypto_eckey2context : kind == 1 ? crypto_rsakey2context : crypto_key2context; CRYPTO_KEY k = ARM(f(h.p, h.n)); if (!k) return ""; std::string s = "=" + der((EVP_PKEY *)k); crypto_free_keycontext(k); return s; };) }
  OP("certificate context", return []() -> std::string { Heap h(W.pledge.cert.der); CRYPTO_CERT x = ARM(crypto_cert2context(h.p, h.n)); if (!x) return ""; std::string s = "=" + der((X509 *)x); crypto_free_certcontext(x); return s; };)
  for (int kind = 0; kind < 2; kind++) for (int abs = 0; abs < 2; abs++) OP("generate certificate", auto i = own(init_keyvalue_list(), free_keyvalue_list); auto s = own(init_keyvalue_list(), free_keyvalue_list); push_keyvalue_list(s.get(), (char *)"C", (char *)"IE"); push_keyvalue_list(s.get(), (char *)"CN", (char *)"x"); push_keyvalue_list(i.get(), (char *)"CN", (char *)"i"); return [=] { struct crypto_cert_meta m; memset(&m, 0, sizeof m); m.serial_number = 77; m.issuer = i.get(); m.subject = s.get(); m.not_after_absolute = abs ? "99991231235959Z" : nullptr; m.not_after = abs ? 0 : 86400; m.basic_constraints = (char *)"CA:TRUE"; const Key &K = kind ? RSAK : W.masa.key; Heap k(K.der); uint8_t *o = nullptr; ssize_t n = ARM((kind ? crypto_generate_rsacert : crypto_generate_eccert)(&m, k.p, k.n, &o)); return crt(n, o, K.k); };)
  OP("sign certificate", auto b = std::make_shared<Arr>(W.pledge.cert.der); return [b] { Heap k(W.ldevid.key.der), ca(W.ldevid.cert.der); uint8_t *c = (uint8_t *)malloc(W.pledge.cert.der.size()); memcpy(c, W.pledge.cert.der.data(), W.pledge.cert.der.size()); ssize_t n = ARM(crypto_sign_cert(k.p, k.n, ca.p, ca.n, W.pledge.cert.der.size(), &c)); if (n < 0) { bool same = c && !memcmp(c, W.pledge.cert.der.data(), W.pledge.cert.der.size()); free(c); return same ? std::string() : std::string("BAD: failed but changed the certificate"); } return crt(n, c, W.ldevid.key.k); };)
  for (int m = 0; m < 6; m++) OP("verify certificate " + std::to_string(m), auto ce = std::make_shared<List>(); auto st = std::make_shared<List>(); if (m % 3 == 1) ce->add(INTER.cert.der, 0); if (m % 3 == 2) ce->add(W.dom.cert.der, 0); else { if (m / 3) st->add(W.other.cert.der, CRYPTO_CERTIFICATE_VALID); st->add(m % 3 == 1 ? W.dom.cert.der : W.mfr.cert.der, CRYPTO_CERTIFICATE_VALID); if (m == 3) st->add(CRL, CRYPTO_CERTIFICATE_CRL); } return [=] { Heap h(m % 3 == 0 ? W.pledge.cert.der : m % 3 == 1 ? LEAF.cert.der : INTER.cert.der); return std::string(ARM(crypto_verify_cert(h.p, h.n, ce->l, st->l)) == 0 ? "=verified" : ""); };)
  for (int kind = 0; kind < 3; kind++) OP("sign data " + std::to_string(kind), auto l = std::make_shared<List>(std::vector<std::string>{W.dom.cert.der, W.other.cert.der}); return [=] { const Id &i = kind == 1 ? RSAID : W.masa; Heap d("some data"), c(i.cert.der), k(i.key.der); uint8_t *o = nullptr; ssize_t n = ARM((kind == 0 ? crypto_sign_eccms : kind == 1 ? crypto_sign_rsacms : crypto_sign_cms)(d.p, d.n, c.p, c.n, k.p, k.n, l->l, &o)); std::string s = buf(n, o); return s.size() && s[0] == '=' ? sgn(s.substr(1)) : s; };)
  for (int m = 0; m < 2; m++) OP("verify data", auto a = std::make_shared<Arr>(PLEDGECMS); auto st = std::make_shared<List>(std::vector<std::string>{W.mfr.cert.der}, CRYPTO_CERTIFICATE_VALID); return [=]() -> std::string { uint8_t *d = nullptr; struct BinaryArrayList *o = nullptr; ssize_t n = ARM(crypto_verify_cms(*a, nullptr, m ? st->l : nullptr, &d, &o)); if (n < 0 && o) { free_array_list(o); free(d); return "BAD: failure with certificates left"; } std::string s = buf(n, d); if (n >= 0) s += listed(items(o)); free_array_list(o); return s; };)
  /* files */
  OP("read certificate file", return [] { return bin(ARM(file_to_x509buf(W.p("pledge.crt").c_str()))); };) OP("read key file", return [] { return bin(ARM(file_to_keybuf(W.p("pledge.key").c_str()))); };)
  for (int kind = 0; kind < 3; kind++) OP("write file " + std::to_string(kind), auto a = std::make_shared<Arr>(kind == 0 ? W.pledge.cert.der : kind == 1 ? W.pledge.key.der : PLEDGECMS); return [=]() -> std::string { std::string p = DIR + "/out" + std::to_string(getpid()); write(p, "before"); int r = ARM((kind == 0 ? certbuf_to_file : kind == 1 ? keybuf_to_file : cmsbuf_to_file)(*a, p.c_str())); bytes b = slurp(p); unlink(p.c_str()); return r == 0 ? "=" + b : ""; };)
  /* configuration */
  OP("load_brski_config", return []() -> std::string { struct brski_config c; memset(&c, 0, sizeof c); if (ARM(load_brski_config(CFILE.c_str(), &c)) != 0) { bool left = c.mconf.bind_address || c.rconf.bind_address || c.pconf.serial_number || c.mconf.cms_add_certs_paths || c.rconf.cms_verify_store_paths || c.pconf.cms_verify_store_paths; return left ? "BAD: refused with settings left" : ""; } std::string s = "="; auto a = [&](const char *x) { s += x ? std::string(x) + "," : "-,"; }; auto &m = c.mconf; auto &r = c.rconf; auto &p = c.pconf; a(m.bind_address); a(m.expires_on); a(m.ldevid_ca_cert_path); a(m.tls_cert_path); a(m.tls_key_path); a(m.tls_ca_cert_path); a(m.cms_sign_cert_path); a(m.cms_sign_key_path); a(r.bind_address); a(r.tls_cert_path); a(r.tls_key_path); a(r.tls_ca_cert_path); a(r.tls_ca_key_path); a(r.cms_sign_cert_path); a(r.cms_sign_key_path); a(p.created_on); a(p.serial_number); a(p.nonce); a(p.idevid_cert_path); a(p.idevid_key_path); a(p.idevid_ca_cert_path); a(p.cms_sign_cert_path); a(p.cms_sign_key_path); s += std::to_string(m.port) + "," + std::to_string(r.port); for (auto l : {m.cms_add_certs_paths, m.cms_verify_certs_paths, m.cms_verify_store_paths, r.cms_add_certs_paths, r.cms_verify_certs_paths, r.cms_verify_store_paths, p.cms_add_certs_paths, p.cms_verify_certs_paths, p.cms_verify_store_paths}) s += lst(l); free_config_content(&c); return s; };)
  OP("load_cert_files", auto l = std::make_shared<List>(); paths(*l, {W.p("mfr.crt"), W.p("dom.crt"), W.p("other.crt")}); return [l]() -> std::string { struct BinaryArrayList *o = nullptr; if (ARM(load_cert_files(l->l, &o)) != 0) { bool left = o; free_array_list(o); return left ? "BAD: refused with certificates left" : ""; } std::string s = lst(o); free_array_list(o); return s; };)
  /* servers and client */
  for (int nonce = 0; nonce < 2; nonce++) { OP("pledge request as text", auto p = std::make_shared<PConf>(nonce); return [p] { Arr t(W.regtls.cert.der); std::string s = cstr(ARM(voucher_pledge_request_to_base64(&p->p, t))); return s.size() && s[0] == '=' ? sgn(unb64(s.substr(1))) : s; };) OP("pledge request as file", auto p = std::make_shared<PConf>(nonce); return [p] { Arr t(W.regtls.cert.der); std::string f = DIR + "/req" + std::to_string(getpid()); int r = ARM(voucher_pledge_request_to_smimefile(&p->p, t, f.c_str())); bool there = access(f.c_str(), F_OK) == 0; unlink(f.c_str()); return std::string(r == 0 ? there ? "=ok" : "BAD: no file" : ""); };) }
  for (int nonce = 0; nonce < 2; nonce++) OP("verify_masa_pledge_request", auto p = std::make_shared<PConf>(nonce); return [=]() -> std::string { Arr t(W.regtls.cert.der), v(nonce ? NONCEVOUCHER : VOUCHER); struct BinaryArray pin = {}; int r = ARM(verify_masa_pledge_request(&p->p, v, t, &pin)); std::string s = r == 0 ? "=" + str(&pin) : pin.array || pin.length ? "BAD: failure with a certificate left" : ""; free_binary_array_content(&pin); return s; };)
    for (int enrol = 0; enrol < 2; enrol++) OP(enrol ? "post_sign_cert" : "post_voucher_pledge_request", auto p = std::make_shared<PConf>(true); auto cf = std::make_shared<Conf>(W); return [=]() -> std::string { static std::string body; body = ""; CALLS.clear(); ANSWERER = [](const srv::Call &q) { fault::Pause z; Answer a; a.peer = &W.regtls.cert; if (q.withca) { body = q.body; a.body = b64(W.other.cert.der); } else if (q.body.empty()) a.status = 400; else a.body = b64(NONCEVOUCHER); return a; };
    std::string s; struct BinaryArray x = {}, k = {}; if (!enrol) { int r = ARM(post_voucher_pledge_request(&p->p, &cf->r, &cf->m, &x)); s = r == 0 ? "=" + str(&x) : x.array || x.length ? "BAD: failure with a certificate left" : ""; }
    else { int r = ARM(post_sign_cert(&p->p, &cf->r, &cf->m, &x, &k)); if (r != 0) s = x.array || k.array || x.length || k.length ? "BAD: failure with a result left" : ""; else { s = key(str(&k)) + "=" + str(&x); X509 *c = x509(unb64(body)); const unsigned char *kp = k.array; EVP_PKEY *pk = d2i_AutoPrivateKey(nullptr, &kp, (long)k.length); if (!c || !pk || EVP_PKEY_eq(X509_get0_pubkey(c), pk) != 1) s = "BAD: the key does not match the request"; X509_free(c); EVP_PKEY_free(pk); } }
    free_binary_array_content(&x); free_binary_array_content(&k); ERR_clear_error(); return s; };)
  auto handler = [](const std::string &name, int route, const bytes &body) { OPS.push_back({name, [=]() -> Fun { auto cf = std::make_shared<Conf>(W); return [=]() -> std::string { CALLS.clear(); ANSWERER = [](const srv::Call &) { fault::Pause z; Answer a; a.body = "the voucher"; a.peer = &W.masatls.cert; return a; }; Peer peer(&W.pledge.cert); RequestHeader rh; ResponseHeader h; std::string out; int st; std::string req = b64(body); 
    try { st = ARM((route == 0 ? masa_requestvoucher : route == 1 ? registrar_requestvoucher : registrar_est_simpleenroll)(rh, req, peer.c, h, out, route == 0 ? (void *)&cf->mc : (void *)&cf->rc)); } catch (std::bad_alloc &) { return ""; }
    if (route == 1 && CALLS.size() && CALLS[0].body.size()) { std::string m = sgn(unb64(CALLS[0].body)); if (m.substr(0, 3) == "BAD") return m; } if (st < 200 || st > 299) return st >= 400 && st < 600 ? "" : "BAD: status " + std::to_string(st); if (route == 0) { std::string m = sgn(unb64(out)); size_t x = m.find("\"created-on\":\""); if (x != std::string::npos) m.erase(x, 36); return m; } if (route == 2) { unlink(cf->rc.log_path); return crt(unb64(out), W.ldevid.key.k); } return "=" + out; }; }}); };
  handler("MASA voucher request", 0, REGCMS); handler("registrar voucher request", 1, PLEDGECMS); handler("registrar enrolment", 2, W.pledge.cert.der);
  /* points of every operation */
  for (auto &o : OPS) { Fun f = o.make(); fault::want(-1, 0, 0); std::string s = f(); fault::off(); if (s.empty() || s.substr(0, 3) == "BAD") { fprintf(stderr, "%s: does not work without faults, not explored: %s\n", o.name.c_str(), s.c_str()); s = ""; } REF.push_back(s); NP.push_back(int(fault::COUNT)); }
}
static void body(Ctx &c) {
  int o = c.choose((int)OPS.size()), p = c.choose(NP[o] + 2), k = c.choose(2), st = k ? 0 : c.choose(2); if (!c.mine() || REF[o].empty()) return; c.note("%s, failure %d.%d%s", OPS[o].name.c_str(), p, k, st ? " and all later ones" : "");
  Fun f = OPS[o].make(); fault::want(p, k, st); std::string s; try { s = f(); } catch (...) { fault::off(); c.fail("exception", "%s: exception", c.w->note); } int fired = fault::FIRED; const char *what = fault::LAST; fault::off(); if (!fired && k) return; c.note("%s, failure %d.%d%s: %s", OPS[o].name.c_str(), p, k, st ? " and all later ones" : "", what); c.eval(); c.transition(); c.distinct(comb(comb(comb(o, p), k), st));
  if (s.substr(0, 3) == "BAD") c.fail("unclean", "%s: %s", c.w->note, s.c_str()); if (s.size() && s != REF[o]) c.fail("wrong-result", "%s: succeeded with a wrong result", c.w->note); if (s.empty() && !fired) c.fail("failed", "%s: failed without any fault", c.w->note);
  if (s.empty()) { std::string t = f(); if (t != REF[o]) c.fail("unusable", "%s: the operation does not work any more on the same objects: %s", c.w->note, t.empty() ? "failure" : t.substr(0, 3) == "BAD" ? t.c_str() : "wrong result"); } c.validated();
}
int main(int argc, char **argv) { quiet_logs(); for (int i = 1; i + 1 < argc; i++) if (!strcmp(argv[i], "--scratch")) DIR = std::string(argv[i + 1]) + "/site"; if (DIR.empty()) return 3; mkdir(DIR.c_str(), 0700); init(); Opts o; o.worker_init = quiet_logs; o.settle = pki::settle; return run(argc, argv, body, o); }
