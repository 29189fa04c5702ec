/* reference model of a voucher: attribute -> value, plus wire-format oracle */
#pragma once
#include "ref.hpp"
#include "repo.hpp"
#include <array>

namespace vm {
using ref::bytes; using ref::T6; using ref::J;
static const char *NAMES[11] = {"created-on", "expires-on", "assertion", "serial-number", "idevid-issuer", "pinned-domain-cert",
  "domain-cert-revocation-checks", "nonce", "last-renewal-date", "prior-signed-voucher-request", "proximity-registrar-cert"};
static const char *ROOT = "ietf-voucher:voucher";
static const char *ASSERT[4] = {"", "verified", "logged", "proximity"};
static const enum VoucherAttributes ATTR[11] = {ATTR_CREATED_ON, ATTR_EXPIRES_ON, ATTR_ASSERTION, ATTR_SERIAL_NUMBER, ATTR_IDEVID_ISSUER,
  ATTR_PINNED_DOMAIN_CERT, ATTR_DOMAIN_CERT_REVOCATION_CHECKS, ATTR_NONCE, ATTR_LAST_RENEWAL_DATE, ATTR_PRIOR_SIGNED_VOUCHER_REQUEST, ATTR_PROXIMITY_REGISTRAR_CERT};
enum Kind { TIME, ENUM, STR, ARR, BOOL };
static const Kind KIND[11] = {TIME, TIME, ENUM, STR, ARR, ARR, BOOL, ARR, TIME, ARR, ARR};

struct Val { bool set = false; T6 t; int e = 0; std::string s; bool b = false;
  bool eq(const Val &o, Kind k) const {
    if (k == BOOL) return b == o.b;
    if (set != o.set) return false;
    if (!set) return true;
    return k == TIME ? t == o.t : k == ENUM ? e == o.e : s == o.s;
  } };
struct V { std::array<Val, 11> a;
  std::string diff(const V &o) const { for (int i = 0; i < 11; i++) if (!a[i].eq(o.a[i], KIND[i])) return NAMES[i]; return ""; } };

inline struct tm tm6(const T6 &t) { struct tm r; memset(&r, 0, sizeof r); r.tm_year = t.Y - 1900; r.tm_mon = t.M - 1; r.tm_mday = t.D; r.tm_hour = t.h; r.tm_min = t.m; r.tm_sec = t.s; return r; }
inline T6 t6(const struct tm &t) { T6 r; r.Y = t.tm_year + 1900; r.M = t.tm_mon + 1; r.D = t.tm_mday; r.h = t.tm_hour; r.m = t.tm_min; r.s = t.tm_sec; return r; }

/* set through the public setters (via: 0 typed, 1 variadic) */
inline int set(struct Voucher *v, int i, const Val &x, int via = 0) {
  enum VoucherAttributes at = ATTR[i];
  switch (KIND[i]) {
    case TIME: { struct tm t = tm6(x.t); return via ? set_attr_voucher(v, at, &t) : set_attr_time_voucher(v, at, &t); }
    case ENUM: return via ? set_attr_voucher(v, at, x.e) : set_attr_enum_voucher(v, at, x.e);
    case STR: { char *p = (char *)malloc(x.s.size() + 1); memcpy(p, x.s.c_str(), x.s.size() + 1); int r = via ? set_attr_voucher(v, at, p) : set_attr_str_voucher(v, at, p); memset(p, 'X', x.s.size()); free(p); return r; }
    case BOOL: return via ? set_attr_voucher(v, at, (int)x.b) : set_attr_bool_voucher(v, at, x.b);
    case ARR: { Heap h(x.s); struct BinaryArray b = {h.p, h.n}; int r = via ? set_attr_voucher(v, at, &b) : set_attr_array_voucher(v, at, &b); memset(h.p, 0x55, h.n); return r; }
  }
  return -2;
}
inline std::string get(struct Voucher *v, V &o) { /* through the public getters; returns error text */
  for (int i = 0; i < 11; i++) {
    Val &x = o.a[i]; x = Val(); enum VoucherAttributes at = ATTR[i];
    x.set = is_attr_voucher_nonempty(v, at);
    switch (KIND[i]) {
      case TIME: { const struct tm *t = get_attr_time_voucher(v, at); if (!t) return "time getter NULL"; if (x.set) x.t = t6(*t); break; }
      case ENUM: { const int *e = get_attr_enum_voucher(v, at); if (!e) return "enum getter NULL"; if (x.set) x.e = *e; else if (*e) return "unset enum has a value"; break; }
      case STR: { const char *const *s = get_attr_str_voucher(v, at); if (!s) return "string getter NULL"; if (x.set) { if (!*s) return "set string NULL"; x.s = *s; } else if (*s) return "unset string non NULL"; break; }
      case BOOL: { const bool *b = get_attr_bool_voucher(v, at); if (!b) return "bool getter NULL"; x.b = *b; break; }
      case ARR: { const struct BinaryArray *b = get_attr_array_voucher(v, at); if (!b) return "array getter NULL"; if (x.set) { if (!b->array) return "set array NULL"; x.s.assign((char *)b->array, b->length); } else if (b->length) return "unset array has a length"; break; }
    }
  }
  return "";
}
/* strict reading of a wire document; "" = fine */
inline std::string parse_strict(const std::string &txt, V &o) {
  J j; if (!ref::json(txt, j)) return "not well-formed JSON";
  if (j.t != J::OBJ || j.o.size() != 1 || j.o[0].first != ROOT) return "root is not exactly {\"ietf-voucher:voucher\": ...}";
  const J &r = j.o[0].second; if (r.t != J::OBJ) return "voucher is not an object";
  o = V(); bool revseen = false;
  for (auto &kv : r.o) {
    int i = 0; while (i < 11 && kv.first != NAMES[i]) i++;
    if (i == 11) return "unknown member " + kv.first;
    Val &x = o.a[i]; if (x.set || (i == 6 && revseen)) return "duplicate member " + kv.first;
    x.set = true; const J &v = kv.second;
    if (KIND[i] == BOOL) { if (v.t != J::BOOL) return "boolean member is not a JSON boolean"; x.b = v.b; revseen = true; continue; }
    if (v.t != J::STR) return std::string("member ") + NAMES[i] + " is not a JSON string";
    switch (KIND[i]) {
      case TIME: { int n = 0; if (v.s.size() != 20 || sscanf(v.s.c_str(), "%4d-%2d-%2dT%2d:%2d:%2dZ%n", &x.t.Y, &x.t.M, &x.t.D, &x.t.h, &x.t.m, &x.t.s, &n) != 6 || n != 20) return "bad date " + v.s; break; }
      case ENUM: for (x.e = 1; x.e < 4; x.e++) if (v.s == ASSERT[x.e]) break; if (x.e == 4) return "bad assertion " + v.s; break;
      case STR: x.s = v.s; break;
      case ARR: if (ref::b64dec(v.s, x.s) != 1 || ref::b64enc(x.s) != v.s) return "binary member is not canonical base64"; break;
      default: break;
    }
  }
  return "";
}
/* reference writer (valid JSON document for a model) */
inline std::string jval(int i, const Val &x) {
  switch (KIND[i]) {
    case TIME: return "\"" + ref::iso(x.t) + "\"";
    case ENUM: return std::string("\"") + ASSERT[x.e] + "\"";
    case STR: return ref::jstr(x.s);
    case BOOL: return x.b ? "true" : "false";
    case ARR: return "\"" + ref::b64enc(x.s) + "\"";
  }
  return "";
}
inline std::string show(const V &v) { std::string o; for (int i = 0; i < 11; i++) if (v.a[i].set) o += std::string(o.empty() ? "" : ", ") + NAMES[i] + "=" + (KIND[i] == ARR ? ref::hex(v.a[i].s, 12) : jval(i, v.a[i])); return o; }
/* verdict on a text as a date and time */
enum Verdict { UNSPEC, ACCEPT, REJECT, IFACC }; /* IFACC: may be refused, but if accepted the value is the one stated */
inline int two(const char *p) { return p[0] >= '0' && p[0] <= '9' && p[1] >= '0' && p[1] <= '9' ? (p[0] - '0') * 10 + p[1] - '0' : -1; }
inline Verdict time_of(const std::string &s, T6 &t) {
  bool strict = s.size() == 20 && two(s.c_str()) >= 0 && two(s.c_str() + 2) >= 0 && s[4] == '-' && two(s.c_str() + 5) >= 0 && s[7] == '-' && two(s.c_str() + 8) >= 0 && s[10] == 'T' &&
                two(s.c_str() + 11) >= 0 && s[13] == ':' && two(s.c_str() + 14) >= 0 && s[16] == ':' && two(s.c_str() + 17) >= 0 && s[19] == 'Z';
  if (strict) {
    t = T6{two(s.c_str()) * 100 + two(s.c_str() + 2), two(s.c_str() + 5), two(s.c_str() + 8), two(s.c_str() + 11), two(s.c_str() + 14), two(s.c_str() + 17)};
    if (t.M < 1 || t.M > 12 || t.D < 1 || t.D > 31 || t.h > 23 || t.m > 59 || t.s > 61) return REJECT;
    if (t.D > ref::mdays(t.Y, t.M) || t.s > 59) return UNSPEC;
    return t.Y >= 1000 ? ACCEPT : UNSPEC;
  }
  /* separators in order, nothing before or after, else refused; short or padded numbers are not specified */
  const char *sep = "--T::Z"; size_t p = 0; 
  for (int i = 0; i < 6; i++) {
    size_t q = p; while (q < s.size() && (isdigit((unsigned char)s[q]) || isspace((unsigned char)s[q]) || (s[q] == '-' || s[q] == '+') && q == p)) q++;
    if (q == p || q >= s.size()) return REJECT;
    if (s[q] != sep[i]) return REJECT;
    p = q + 1;
  }
  return p == s.size() ? UNSPEC : REJECT;
}
} // namespace vm
