/* C04: deserialize_voucher over arbitrary documents: the answer is the one the document states, or a refusal. */
#include "mc.hpp"
#include "sizes.hpp"
#include "vmodel.hpp"
using namespace mc; using namespace vm;


static bool has_root(const J &j) {
  if (j.t == J::OBJ) for (auto &k : j.o) if (k.first == ROOT || has_root(k.second)) return true;
  if (j.t == J::ARR) for (auto &k : j.a) if (has_root(k)) return true;
  return false;
}
static bool rootstr(const J &j) { /* the root name as a string value or escaped key: not specified */
  if (j.t == J::STR) return j.s == ROOT;
  if (j.t == J::OBJ) for (auto &k : j.o) if (rootstr(k.second)) return true;
  if (j.t == J::ARR) for (auto &k : j.a) if (rootstr(k)) return true;
  return false;
}
static Verdict worst(Verdict a, Verdict b) {
  if (a == REJECT || b == REJECT) return REJECT;
  if (a == UNSPEC || b == UNSPEC) return UNSPEC;
  if (a == IFACC || b == IFACC) return IFACC;
  return ACCEPT;
}
static Verdict classify(const std::string &txt, V &o) {
  o = V();
  if (txt.find('\0') != std::string::npos) return UNSPEC;
  J j; if (!ref::json(txt, j)) return UNSPEC;
  if (j.t != J::OBJ) return has_root(j) || rootstr(j) ? UNSPEC : REJECT;
  int nroot = 0; const J *r = nullptr;
  for (auto &k : j.o) if (k.first == ROOT) { nroot++; r = &k.second; }
  if (nroot == 0) return has_root(j) || rootstr(j) ? UNSPEC : REJECT;
  if (nroot > 1) return UNSPEC;
  if (txt.find(std::string("\"") + ROOT + "\"") == std::string::npos) return UNSPEC; /* written with escapes */
  if (j.o.size() > 1) return UNSPEC;
  if (r->t != J::OBJ) return REJECT;
  Verdict v = ACCEPT; bool seen[11] = {0}; 
  for (auto &kv : r->o) {
    int i = 0; while (i < 11 && kv.first != NAMES[i]) i++;
    if (i == 11) return REJECT;
    if (seen[i]) { v = worst(v, UNSPEC); } seen[i] = true;
    const J &x = kv.second; Val &y = o.a[i];
    if (x.t == J::OBJ || x.t == J::ARR) return REJECT;
    if (KIND[i] == BOOL) { 
      if (x.t == J::BOOL) { y.b = x.b; y.set = true; continue; }
      if (x.t == J::NUL) return REJECT;
      v = worst(v, UNSPEC); continue;
    }
    if (x.t != J::STR) return REJECT;
    if (x.s.find('\0') != std::string::npos) { v = worst(v, UNSPEC); continue; }
    for (size_t k = 0; k + 2 < x.s.size(); k++) if ((unsigned char)x.s[k] == 0xed && (unsigned char)x.s[k + 1] >= 0xa0) v = worst(v, UNSPEC); /* surrogates */
    y.set = true;
    switch (KIND[i]) {
      case TIME: v = worst(v, time_of(x.s, y.t)); break;
      case ENUM: for (y.e = 1; y.e < 4; y.e++) if (x.s == ASSERT[y.e]) break; if (y.e == 4) return REJECT; break;
      case STR: y.s = x.s; if (x.s.size() > 127) v = worst(v, IFACC); break;
      case ARR: { int d = ref::b64dec(x.s, y.s); if (d == 0) return REJECT; if (d < 0) v = worst(v, UNSPEC); break; }
      default: break;
    }
    if (v == REJECT) return REJECT;
  }
  return v;
}
/* verdict override: -1 none */
static void one(Ctx &c, const std::string &txt, int force = -1) {
  V want; Verdict v = force >= 0 ? (Verdict)force : classify(txt, want);
  c.note("document (%zu bytes) %s", txt.size(), txt.substr(0, 1500).c_str());
  c.eval(); c.distinct(fnvs(txt)); c.user(v);
  V got; std::string e; bool acc;
  {
    Heap h(txt);
    struct Voucher *w = deserialize_voucher(h.p, h.n);
    acc = w != nullptr;
    if (w) {
      e = vm::get(w, got);
      char *s = serialize_voucher(w); if (s) { if (strlen(s) == (size_t)-1) abort(); free(s); }
      free_voucher(w);
    }
  }
  if (acc && !e.empty()) c.fail("getter", "%s for %s", e.c_str(), txt.substr(0, 800).c_str());
  if (v == ACCEPT && !acc) c.fail("valid-refused", "a valid document was refused: %s", txt.substr(0, 800).c_str());
  if (v == REJECT && acc) c.fail("invalid-accepted", "a document that must be refused was accepted: %s", txt.substr(0, 800).c_str());
  if ((v == ACCEPT || v == IFACC) && acc) {
    got.a[6].set = want.a[6].set; std::string d = got.diff(want);
    if (!d.empty()) c.fail("value-wrong", "attribute %s has not the value stated in %s", d.c_str(), txt.substr(0, 800).c_str());
  }
}

/* ---------- alphabets ---------- */
static std::vector<std::string> values(int i) {
  std::vector<std::string> r = {"true", "false", "null", "0", "1", "-1", "12", "1.5e3", "[]", "{}", "[\"AA==\"]", "{\"a\":1}", "{\"nonce\":\"AA==\"}", "\"\"", "\"x\"", "\" \"", "\"true\"", "\"false\"", "\"\\u0000\"", "\"\\ud800\"", "\"verified \"", "\"a\\\"b\"", "\"ietf-voucher:voucher\""};
  switch (KIND[i]) {
    case TIME: for (const char *s : {"2023-01-02T03:04:05Z", "1970-01-01T00:00:00Z", "9999-12-31T23:59:59Z", "2024-02-29T00:00:00Z", "2023-02-30T00:00:00Z", "2023-13-01T00:00:00Z", "2023-00-01T00:00:00Z", "2023-01-00T00:00:00Z", "2023-01-32T00:00:00Z", "2023-01-01T24:00:00Z", "2023-01-01T23:60:00Z", "2023-01-01T23:59:62Z", "2023-01-01T00:00:00", "2023-01-01", "2023-01-01T00:00:00z", "2023-01-01T00:00:00ZZ", "2023-01-01 00:00:00Z", "2023-01-01T00:00:00.0Z", "2023-01-01T00:00:00+00:00", "20230101T000000Z", "x2023-01-01T00:00:00Z", "2023-01-01T00:00Z", "2023-01-01T00:00:00Z2023-01-01T00:00:00Z2023-01-01T00:00:00Z2023-01-01T00:00:00Z", "2023-01-01T00:00:00\\u005a", "\\u00322023-01-01T00:00:00Z", "2023\\u002d01-01T00:00:00Z"}) r.push_back(std::string("\"") + s + "\""); break;
    case ENUM: for (const char *s : {"verified", "logged", "proximity", "Verified", "verifie", "verifiedx", "none", "proximit", "logge", "proximityproximity", "\\u0076erified", "verified\\n"}) r.push_back(std::string("\"") + s + "\""); break;
    case STR: for (const char *s : {"123", "a b", "\\\\", "\\/", "\\b\\f\\n\\r\\t", "\\u0041\\u00e9\\u20ac", "\\ud83d\\udd11", "\\udd11", "\\ud83dx", "\xc3\xa9", "{", "}", "\\\"}", ",", ":", "\\u000a"}) r.push_back(std::string("\"") + s + "\"");
      for (int n : {1, 126, 127, 128, 129, 1000}) { r.push_back("\"" + std::string(n, 'y') + "\""); std::string e = "\""; for (int k = 0; k < n; k++) e += "\\u0041"; r.push_back(e + "\""); std::string q = "\""; for (int k = 0; k < n; k++) q += "\\\\"; r.push_back(q + "\""); } break;
    case BOOL: for (const char *s : {"tru", "t", "f", "truex", "falsex", "2", "10", "01", "True", "TRUE", "nul", "+1"}) r.push_back(s); break;
    case ARR: for (const char *s : {"AA==", "AAA=", "AAAA", "AA", "AAA", "A", "====", "=", "A===", "AA=A", "AA===", "AAAA====", "\\u0041A==", "AA\\u003d\\u003d", "AA\\n==", "+/+/", "\\/\\/\\/\\/", "-_-_", "AA==AA==", "!!!!"}) r.push_back(std::string("\"") + s + "\"");
      r.push_back("\"" + ref::b64enc(bytes(5000, (char)0xfb)) + "\""); break;
  }
  return r;
}
static std::string good(int i) { static const char *G[11] = {"\"2023-01-02T03:04:05Z\"", "\"2024-12-31T23:59:59Z\"", "\"proximity\"", "\"s\\\"n\"", "\"AQI=\"", "\"AQID\"", "true", "\"/+8=\"", "\"1999-09-09T09:09:09Z\"", "\"AQIDBA==\"", "\"BAMC\""}; return G[i]; }
static const char *WS[5] = {"", " ", "\n", "\t\r\n", "  \n  "};
static std::string member(int i, const std::string &v, int w) { return std::string("\"") + NAMES[i] + "\"" + WS[w] + ":" + WS[w] + v; }
static std::string doc(const std::vector<std::string> &ms, int w) {
  std::string s = std::string(WS[w]) + "{" + WS[w] + "\"" + ROOT + "\"" + WS[w] + ":" + WS[w] + "{" + WS[w];
  for (size_t k = 0; k < ms.size(); k++) s += (k ? std::string(WS[w]) + "," + WS[w] : "") + ms[k];
  return s + WS[w] + "}" + WS[w] + "}" + WS[w];
}
static std::string base(int k) {
  std::vector<std::string> m;
  if (k == 0) m = {member(3, "\"a\\u0041\\\\\"", 0), member(6, "true", 0)};
  else if (k == 1) m = {member(2, "\"logged\"", 1), member(7, "\"AQIDBAUGBwg=\"", 1), member(0, good(0), 1)};
  else if (k == 2) for (int i = 0; i < 11; i++) m.push_back(member(i, good(i), 0));
  else m = {};
  return doc(m, k == 1 ? 1 : 0);
}
static const char *NAMEMUT[] = {"", "created", "created-onx", "Created-on", "created_on", "nonc", "nonces", "voucher", "ietf-voucher:voucher", "x", "assertion ", " nonce", "\\u006eonce", "nonce\\u0000", "expires-on\\n", "created-by-on", "agent-provided-proximity-registrar-cert"};

static void body(Ctx &c) {
  int part = c.choose(9);
  if (part == 0) { /* attribute x value x white space x position */
    int i = c.choose(11); auto vs = values(i); int k = c.choose(vs.size()), w = c.choose(5); if (!c.mine()) return;
    std::string m = member(i, vs[k], w);
    if (k == 23 && w == 0) c.sample("%s", doc({m}, 0).substr(0, 300).c_str());
    one(c, doc({m}, w));
    for (int o = 0; o < 11; o++) if (o != i) { one(c, doc({m, member(o, good(o), w)}, w)); one(c, doc({member(o, good(o), w), m}, w)); }
    one(c, doc({m, m}, w));
    one(c, doc({member(i, good(i), w), m}, w)); one(c, doc({m, member(i, good(i), w)}, w));
  } else if (part == 1) { /* subsets x rotations x white space */
    int hi = c.choose(64), w = c.choose(5); if (!c.mine()) return;
    for (int lo = 0; lo < 32; lo++) for (int rot = 0; rot < 11; rot += c.thorough ? 1 : 5) {
      std::vector<std::string> m; int mask = hi * 32 + lo;
      for (int q = 0; q < 11; q++) { int i = (q + rot) % 11; if (mask >> i & 1) m.push_back(member(i, good(i), w)); }
      one(c, doc(m, w));
    }
  } else if (part == 2) { /* every truncation of the base documents: never a voucher */
    int b = c.choose(4); std::string s = base(b); int half = c.choose(2); if (!c.mine()) return;
    size_t full = s.size(); while (full && isspace((unsigned char)s[full - 1])) full--;
    for (size_t n = half; n < s.size(); n += 2) one(c, s.substr(0, n), n < full ? REJECT : -1);
    if (b == 2 && !half) c.sample("truncation: %s", s.substr(0, 120).c_str());
  } else if (part == 3) { /* every single byte replaced by every value */
    int b = c.choose(4); std::string s = base(b); int p = c.choose(s.size()); if (!c.mine()) return;
    for (int v = 0; v < 256; v++) { if ((unsigned char)s[p] == v) continue; std::string t = s; t[p] = (char)v; one(c, t); }
  } else if (part == 4) { /* every single byte deleted, doubled, swapped with the next; every symbol inserted */
    int b = c.choose(4); std::string s = base(b); int p = c.choose(s.size() + 1); if (!c.mine()) return;
    static const char INS[] = "\"\\{}[]:, \n\t0aA-=/tnf\x01\x80\xff";
    for (const char *q = INS; *q; q++) one(c, s.substr(0, p) + *q + s.substr(p));
    one(c, s.substr(0, p) + std::string(1, '\0') + s.substr(p));
    if (p < (int)s.size()) { one(c, s.substr(0, p) + s.substr(p + 1)); one(c, s.substr(0, p) + s[p] + s.substr(p)); }
    if (p + 1 < (int)s.size()) { std::string t = s; std::swap(t[p], t[p + 1]); one(c, t); }
    for (int n : {2, 4, 8, 16}) if (p + n <= (int)s.size()) { one(c, s.substr(0, p) + s.substr(p + n)); one(c, s.substr(0, p + n) + s.substr(p, n) + s.substr(p + n)); }
  } else if (part == 5) { /* all token sequences */
    static const char *T[] = {"{", "}", "[", "]", ":", ",", "\"ietf-voucher:voucher\"", "\"nonce\"", "\"AA==\"", "true", "\"serial-number\"", "\"domain-cert-revocation-checks\""};
    int a = c.choose(12), b = c.choose(12), n = c.thorough ? 5 : 4, d = c.choose(12); if (!c.mine()) return;
    std::string pre = std::string(T[a]) + T[b] + T[d]; long tot = 1; for (int k = 0; k < n - 1; k++) tot *= 12;
    one(c, pre);
    for (long x = 0; x < tot; x++) { std::string s = pre; long y = x; for (int k = 0; k < n - 1; k++) { s += T[y % 12]; y /= 12; } one(c, s); }
    /* the same behind a voucher prefix, closed or not */
    std::string q = "{\"ietf-voucher:voucher\":{";
    for (long x = 0; x < 144; x++) { std::string s = q + pre + T[x % 12] + T[x / 12]; one(c, s); one(c, s + "}}"); one(c, s + "}"); }
  } else if (part == 6) { /* names, roots, nesting, token counts */
    int k = c.choose(sizeof NAMEMUT / sizeof *NAMEMUT), w = c.choose(5); if (!c.mine()) return;
    std::string n = std::string("\"") + NAMEMUT[k] + "\"";
    for (const char *v : {"\"AA==\"", "true", "\"proximity\"", "\"2023-01-02T03:04:05Z\"", "{}", "[]", "null"}) {
      one(c, doc({n + ":" + v}, w)); one(c, doc({member(7, good(7), w), n + ":" + v}, w)); one(c, doc({n + ":" + v, member(7, good(7), w)}, w));
      one(c, "{" + n + ":" + v + "}"); one(c, "{" + n + ":{\"nonce\":" + v + "}}");
      one(c, "{\"a\":" + std::string(v) + "," + n + ":{\"nonce\":\"AA==\"}}");
    }
    for (const char *r : {"", "ietf-voucher", "ietf-voucher:vouche", "ietf-voucher:vouchers", "Ietf-voucher:voucher", "voucher", "ietf-voucher-request:voucher", "ietf-voucher:voucher "})
      one(c, std::string("{\"") + r + "\":{" + member(7, good(7), 0) + "}}");
    for (const char *v : {"1", "true", "null", "\"nonce\"", "[]", "[{\"nonce\":\"AA==\"}]", "\"\""}) one(c, std::string("{\"") + ROOT + "\":" + v + "}");
    for (const char *v : {"", "[]", "\"x\"", "1", "null", "{}", "[{\"ietf-voucher:voucher\":{\"nonce\":\"AA==\"}}]", "\"ietf-voucher:voucher\"", "{\"x\":\"ietf-voucher:voucher\"}", "{\"ietf-voucher:voucher\":{}", "{\"ietf-voucher:voucher\":", "{\"ietf-voucher:voucher\"", "{\"ietf-voucher:voucher\"}", "{\"ietf-voucher:voucher\",{}}", "  "}) one(c, v);
    for (int d = 1; d < 300; d++) { one(c, "{\"" + std::string(ROOT) + "\":" + std::string(d, '[') + std::string(d, ']') + "}"); std::vector<std::string> m(d, member(d % 11, good(d % 11), w)); one(c, doc(m, w)); std::vector<std::string> mm; for (int q = 0; q < d && q < 11; q++) mm.push_back(member(q, good(q), w)); mm.push_back("\"x\":" + std::string(d, '[') + std::string(d, ']')); one(c, doc(mm, w)); }
  } else if (part == 7) { /* large */
    auto &S = mc::sizes(c.thorough); size_t n = S[c.choose((int)S.size())]; int k = c.choose(8); if (!c.mine()) return; std::string b; for (size_t i = 0; i < n; i++) b += (char)(i * 31 + n); static const int B[] = {4, 5, 7, 9, 10};
    if (k < 5) { std::string m = member(B[k], "\"" + ref::b64enc(b) + "\"", 0); one(c, doc({m}, 0)); one(c, doc({member(3, good(3), 0), m, member(2, good(2), 0)}, k)); one(c, doc({m, m.substr(0, m.size() - 5)}, 0)); }
    else if (k == 5) { one(c, doc({member(3, "\"" + std::string(n, 'z') + "\"", 0)}, 0)); one(c, doc({member(3, good(3), 0), std::string("\"") + std::string(n, 'k') + "\":\"v\""}, 0)); one(c, doc({member(3, good(3), 0), std::string("\"x\":\"") + std::string(n, 'k') + "\""}, 0)); }
    else if (k == 6) { one(c, std::string(n, ' ') + doc({member(2, good(2), 0)}, 0)); one(c, doc({member(2, good(2), 0)}, 0) + std::string(n, '\n')); one(c, doc({member(2, std::string(n, '\t') + good(2), 0), member(3, good(3) + std::string(n, '\r'), 0)}, 0)); }
    else { std::string e; for (size_t i = 0; i < n; i++) e += i % 3 ? "\\n" : "\\u0041"; one(c, doc({member(3, "\"" + e + "\"", 0)}, 0)); if (n < 70000) { std::string l; for (size_t i = 0; i < n; i++) l += i ? ",1" : "1"; one(c, doc({member(3, good(3), 0), "\"x\":[" + l + "]"}, 0)); one(c, doc({member(3, "[" + l + "]", 0)}, 0)); } }
  } else { /* lengths: serial and binary values of every length, plain and escaped; long white space */
    int n = c.choose(c.thorough ? 2000 : 400); if (!c.mine()) return;
    one(c, doc({member(3, "\"" + std::string(n, 'z') + "\"", 0)}, 0));
    std::string e; for (int k = 0; k < n; k++) e += k % 3 ? "\\n" : "\\u0041"; one(c, doc({member(3, "\"" + e + "\"", 0)}, 0));
    std::string b; for (int k = 0; k < n; k++) b += (char)(k * 31 + n); one(c, doc({member(5, "\"" + ref::b64enc(b) + "\"", 0)}, 0));
    one(c, doc({member(9, "\"" + std::string(n, 'A') + "\"", 0)}, 0));
    one(c, std::string(n, ' ') + doc({member(2, good(2), 0)}, 0) + std::string(n, '\n'));
    one(c, doc({std::string("\"") + std::string(n, 'k') + "\":\"v\""}, 0)); one(c, doc({member(0, "\"" + std::string(n, '1') + "\"", 0)}, 0)); one(c, doc({member(2, "\"" + std::string(n, 'v') + "\"", 0)}, 0)); one(c, doc({member(6, std::string(n, '1'), 0)}, 0));
  }
}
int main(int argc, char **argv) { Opts o; o.worker_init = quiet_logs; return run(argc, argv, body, o); }
