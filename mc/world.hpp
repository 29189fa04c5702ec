/* world.hpp - a small BRSKI world: manufacturer, pledges, registrars, MASA, attacker; messages made independently of the code under test */
#pragma once
#include "ref.hpp"
#include "repo.hpp"
#include "vmodel.hpp"
#include "pki.hpp"
extern "C" {
#include "voucher/serialize.h"
}
namespace world {
using namespace pki; using namespace vm;
inline std::string doc(const V &v) { std::string o; for (int i = 0; i < 11; i++) { if (KIND[i] == BOOL ? !v.a[i].b && !v.a[i].set : !v.a[i].set) continue; o += std::string(o.empty() ? "" : ",") + "\"" + NAMES[i] + "\":" + jval(i, v.a[i]); } return "{\"ietf-voucher:voucher\":{" + o + "}}"; }
inline void S(V &v, int i, const std::string &s) { v.a[i].set = true; v.a[i].s = s; }
inline void E(V &v, int i, int e) { v.a[i].set = true; v.a[i].e = e; }
inline void T(V &v, int i, T6 t) { v.a[i].set = true; v.a[i].t = t; }
enum { CREATED, EXPIRES, ASSERTION, SERIAL, ISSUER, PINNED, REVCHK, NONCE, RENEWAL, PRIOR, PROX };
struct Id { Key key; Cert cert; };
/* keys of identities: 0 P-256, 1 RSA, 2 P-384 */
inline int &keykind() { static int k = 0; return k; }
inline Key keyof(const std::string &n) { return keykind() == 1 ? rsa(2048) : keykind() == 2 ? ec(n, NID_secp384r1) : ec(n); }
inline Id id(const std::string &name, const Name &subj, const Id *ca, int isca, int serial, bool self = false, const char *keyname = nullptr) { Id r; r.key = keyof(keyname ? keyname : name); (void)self; r.cert = Cert(); Spec s; s.subject = subj; s.key = &r.key; if (ca) s.ca = &ca->cert, s.by = &ca->key; s.isca = isca; s.serial = serial; r.cert = cert(s); return r; }
} // namespace world
