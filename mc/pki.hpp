/* pki.hpp - keys, certificates, revocation lists and signed messages made with OpenSSL directly,
 * independently of the code under test.  EC keys come from fixed scalars. */
#pragma once
#include <map>
#include <string>
#include <utility>
#include <vector>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <openssl/cms.h>
#include <openssl/core_names.h>
#include <openssl/ec.h>
#include <openssl/err.h>
#include <openssl/evp.h>
#include <openssl/param_build.h>
#include <openssl/pem.h>
#include <openssl/rsa.h>
#include <openssl/sha.h>
#include <openssl/x509.h>
#include <openssl/x509v3.h>

namespace pki {
typedef std::string bytes;
[[noreturn]] inline void die(const char *w) { fprintf(stdout, "pki: %s: ", w); ERR_print_errors_fp(stdout); fflush(stdout); abort(); }

inline bytes der(X509 *x) { unsigned char *p = nullptr; int n = i2d_X509(x, &p); if (n < 0) die("i2d_X509"); bytes b((char *)p, n); OPENSSL_free(p); return b; }
inline bytes der(EVP_PKEY *x) { unsigned char *p = nullptr; int n = i2d_PrivateKey(x, &p); if (n < 0) die("i2d_PrivateKey"); bytes b((char *)p, n); OPENSSL_free(p); return b; }
inline bytes bio(BIO *b) { BUF_MEM *m; BIO_get_mem_ptr(b, &m); bytes r(m->data, m->length); BIO_free(b); return r; }
inline bytes pem(X509 *x) { BIO *b = BIO_new(BIO_s_mem()); PEM_write_bio_X509(b, x); return bio(b); }
inline bytes pem(EVP_PKEY *k) { BIO *b = BIO_new(BIO_s_mem()); PEM_write_bio_PrivateKey(b, k, nullptr, nullptr, 0, nullptr, nullptr); return bio(b); }
inline X509 *x509(const bytes &d) { const unsigned char *p = (const unsigned char *)d.data(); return d2i_X509(nullptr, &p, (long)d.size()); }

inline void settle() { OPENSSL_thread_stop(); } /* drops the error queue and other per-thread state */
struct Key { EVP_PKEY *k = nullptr; bytes der, pem; };
inline Key fin(EVP_PKEY *k) { Key r; r.k = k; r.der = pki::der(k); r.pem = pki::pem(k); return r; }
inline Key ec(const std::string &name, int nid = NID_X9_62_prime256v1) {
  unsigned char h[48]; memset(h, 0, sizeof h); unsigned char t[32]; SHA256((const unsigned char *)name.data(), name.size(), t); memcpy(h, t, 32); h[0] &= 0x7f;
  int n = nid == NID_secp384r1 ? 48 : 32;
  EC_KEY *e = EC_KEY_new_by_curve_name(nid); BIGNUM *b = BN_bin2bn(h, n, nullptr); const EC_GROUP *g = EC_KEY_get0_group(e); EC_POINT *p = EC_POINT_new(g);
  if (!EC_POINT_mul(g, p, b, nullptr, nullptr, nullptr) || !EC_KEY_set_private_key(e, b) || !EC_KEY_set_public_key(e, p)) die("ec");
  EVP_PKEY *k = EVP_PKEY_new(); EVP_PKEY_assign_EC_KEY(k, e); BN_free(b); EC_POINT_free(p);
  /* through DER, so that it is a provider key like any other */
  Key r; r.k = k; bytes d = der(k); EVP_PKEY_free(k); const unsigned char *q = (const unsigned char *)d.data(); k = d2i_AutoPrivateKey(nullptr, &q, (long)d.size()); if (!k) die("ec key");
  return fin(k);
}
inline Key rsa(int bits) { EVP_PKEY *k = EVP_RSA_gen(bits); if (!k) die("rsa"); return fin(k); }
inline Key ed() { EVP_PKEY *k = EVP_PKEY_Q_keygen(nullptr, nullptr, "ED25519"); if (!k) die("ed25519"); return fin(k); }

typedef std::vector<std::pair<std::string, std::string>> Name;
/* "NAME:12" gives the value as ASN.1 string type 12 as it is, "+NAME" adds to the previous part of the name */
inline X509_NAME *xname(const Name &n) { X509_NAME *x = X509_NAME_new(); for (auto &e : n) { std::string f = e.first; int type = 0, set = 0; if (f[0] == '+') { set = -1; f.erase(0, 1); } size_t k = f.find(':'); if (k != std::string::npos) { type = atoi(f.c_str() + k + 1); f.resize(k); }
  auto add = [&](int t) { return X509_NAME_add_entry_by_txt(x, f.c_str(), t, (const unsigned char *)e.second.data(), (int)e.second.size(), -1, set); }; if (type ? !add(type) : !add(MBSTRING_UTF8) && (ERR_clear_error(), !add(V_ASN1_UTF8STRING))) die(e.first.c_str()); } return x; }
inline Name cn(const std::string &s) { return Name{{"CN", s}}; }

struct Cert { bytes der, pem; Name subject, issuer; const Key *key = nullptr; X509 *x = nullptr; };
struct Spec {
  Name subject, issuer; const Key *key = nullptr, *by = nullptr; const Cert *ca = nullptr; /* ca: issuer certificate (name and key id) */
  int isca = 1;            /* 1 CA:TRUE, 0 CA:FALSE, -1 no basic constraints */
  long serial = 1; bytes serial_bytes;
  long from = -86400, to = 86400L * 3650;
  bool keyids = true; std::vector<std::pair<int, std::string>> ext; const EVP_MD *md = EVP_sha256();
};
inline void addext(X509 *x, X509V3_CTX *c, int nid, const char *v) { X509_EXTENSION *e = X509V3_EXT_conf_nid(nullptr, c, nid, v); if (!e) die(v); X509_add_ext(x, e, -1); X509_EXTENSION_free(e); }
inline Cert cert(const Spec &s) {
  X509 *x = X509_new(); X509_set_version(x, 2);
  if (s.serial_bytes.size()) { ASN1_INTEGER *a = ASN1_INTEGER_new(); BIGNUM *b = BN_bin2bn((const unsigned char *)s.serial_bytes.data(), (int)s.serial_bytes.size(), nullptr); BN_to_ASN1_INTEGER(b, a); X509_set_serialNumber(x, a); BN_free(b); ASN1_INTEGER_free(a); }
  else ASN1_INTEGER_set_int64(X509_get_serialNumber(x), s.serial);
  X509_gmtime_adj(X509_getm_notBefore(x), s.from); X509_gmtime_adj(X509_getm_notAfter(x), s.to);
  X509_NAME *n = xname(s.subject); X509_set_subject_name(x, n); X509_NAME_free(n);
  Name iss = s.ca ? s.ca->subject : s.issuer.size() ? s.issuer : s.subject; n = xname(iss); X509_set_issuer_name(x, n); X509_NAME_free(n);
  X509_set_pubkey(x, s.key->k);
  X509V3_CTX c; X509V3_set_ctx(&c, s.ca ? s.ca->x : x, x, nullptr, nullptr, 0);
  if (s.isca >= 0) addext(x, &c, NID_basic_constraints, s.isca ? "critical,CA:TRUE" : "CA:FALSE");
  if (s.keyids) { addext(x, &c, NID_subject_key_identifier, "hash"); addext(x, &c, NID_authority_key_identifier, "keyid"); }
  for (auto &e : s.ext) addext(x, &c, e.first, e.second.c_str());
  const Key *by = s.by ? s.by : s.ca ? s.ca->key : s.key;
  if (!X509_sign(x, by->k, EVP_PKEY_get_id(by->k) == EVP_PKEY_ED25519 ? nullptr : s.md)) die("X509_sign");
  Cert r; r.der = pki::der(x); r.pem = pki::pem(x); r.subject = s.subject; r.issuer = iss; r.key = s.key; r.x = x509(r.der); X509_free(x);
  return r;
}
/* by: issuing certificate (name), signed with key; revoked: serial numbers */
inline bytes crl(const Cert &by, const Key &key, const std::vector<long> &revoked, long number = 1, long to = 86400L * 30) {
  X509_CRL *c = X509_CRL_new(); X509_CRL_set_version(c, 1); X509_NAME *n = xname(by.subject); X509_CRL_set_issuer_name(c, n); X509_NAME_free(n);
  ASN1_TIME *t = X509_gmtime_adj(nullptr, -3600); X509_CRL_set1_lastUpdate(c, t); X509_gmtime_adj(t, to); X509_CRL_set1_nextUpdate(c, t);
  for (long s : revoked) { X509_REVOKED *r = X509_REVOKED_new(); ASN1_INTEGER *a = ASN1_INTEGER_new(); ASN1_INTEGER_set_int64(a, s); X509_REVOKED_set_serialNumber(r, a); X509_gmtime_adj(t, -3600); X509_REVOKED_set_revocationDate(r, t); X509_CRL_add0_revoked(c, r); ASN1_INTEGER_free(a); }
  ASN1_TIME_free(t); (void)number;
  X509_CRL_sort(c); if (!X509_CRL_sign(c, key.k, EVP_sha256())) die("crl sign");
  unsigned char *p = nullptr; int l = i2d_X509_CRL(c, &p); bytes b((char *)p, l); OPENSSL_free(p); X509_CRL_free(c); return b;
}
inline STACK_OF(X509) * stack(const std::vector<bytes> &v) { STACK_OF(X509) *s = sk_X509_new_null(); for (auto &d : v) sk_X509_push(s, x509(d)); return s; }
/* signed message; several signers possible */
inline bytes cms(const bytes &data, const std::vector<std::pair<const Cert *, const Key *>> &signers, const std::vector<bytes> &extra = {}, unsigned flags = CMS_BINARY) {
  BIO *in = BIO_new_mem_buf(data.data(), (int)data.size()); STACK_OF(X509) *st = stack(extra);
  CMS_ContentInfo *c = CMS_sign(nullptr, nullptr, st, in, flags | CMS_PARTIAL); if (!c) die("CMS_sign");
  for (auto &s : signers) if (!CMS_add1_signer(c, s.first->x, s.second->k, nullptr, flags)) die("CMS_add1_signer");
  if (!CMS_final(c, in, nullptr, flags)) die("CMS_final");
  unsigned char *p = nullptr; int n = i2d_CMS_ContentInfo(c, &p); if (n < 0) die("i2d_CMS"); bytes b((char *)p, n); OPENSSL_free(p);
  CMS_ContentInfo_free(c); sk_X509_pop_free(st, X509_free); BIO_free(in); return b;
}
/* independent reading: signature checked against the embedded signer certificate only */
struct Msg { bool ok = false; bytes data; std::vector<bytes> signers, certs; };
inline Msg open_cms(const bytes &d) {
  Msg m; const unsigned char *p = (const unsigned char *)d.data(); CMS_ContentInfo *c = d2i_CMS_ContentInfo(nullptr, &p, (long)d.size()); if (!c) { ERR_clear_error(); return m; }
  BIO *o = BIO_new(BIO_s_mem()); m.ok = CMS_verify(c, nullptr, nullptr, nullptr, o, CMS_NO_SIGNER_CERT_VERIFY | CMS_BINARY) == 1 && p == (const unsigned char *)d.data() + d.size(); m.data = bio(o);
  STACK_OF(X509) *s = m.ok ? CMS_get0_signers(c) : nullptr; for (int i = 0; s && i < sk_X509_num(s); i++) m.signers.push_back(der(sk_X509_value(s, i))); sk_X509_free(s);
  s = CMS_get1_certs(c); for (int i = 0; s && i < sk_X509_num(s); i++) m.certs.push_back(der(sk_X509_value(s, i))); sk_X509_pop_free(s, X509_free);
  CMS_ContentInfo_free(c); ERR_clear_error(); return m;
}
inline bool write(const std::string &path, const bytes &b) { FILE *f = fopen(path.c_str(), "wb"); if (!f) return false; bool ok = fwrite(b.data(), 1, b.size(), f) == b.size(); return fclose(f) == 0 && ok; }
inline bool read(const std::string &path, bytes &b) { FILE *f = fopen(path.c_str(), "rb"); if (!f) return false; b.clear(); char t[4096]; size_t n; while ((n = fread(t, 1, sizeof t, f)) > 0) b.append(t, n); fclose(f); return true; }
} // namespace pki
