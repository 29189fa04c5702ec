/* C01: voucher -> JSON -> voucher is the identity, and the JSON is exactly the voucher.
 * Exhaustive over attribute subsets and finite value alphabets. */
#include "mc.hpp"
#include "sizes.hpp"
#include "vmodel.hpp"
using namespace mc; using namespace vm;

static void rt(Ctx &c, const V &m, int order) {
  c.note("round trip of {%s}", show(m).c_str());
  c.eval();
  struct Voucher *v = init_voucher();
  if (!v) c.fail("init", "init_voucher returned NULL");
  for (int k = 0; k < 11; k++) {
    int i = order ? 10 - k : k;
    if (!m.a[i].set) continue;
    int r = vm::set(v, i, m.a[i], order);
    if (r != 0) { free_voucher(v); c.fail("set-refused", "setting %s to %s refused", NAMES[i], jval(i, m.a[i]).substr(0, 200).c_str()); }
  }
  char *js = serialize_voucher(v);
  free_voucher(v);
  if (!js) c.fail("serialize-fails", "serialize_voucher failed for {%s}", show(m).c_str());
  std::string txt(js); free(js);
  V p; std::string e = parse_strict(txt, p);
  if (!e.empty()) c.fail("json-wrong", "%s in %s (voucher {%s})", e.c_str(), txt.substr(0, 600).c_str(), show(m).c_str());
  std::string d = p.diff(m);
  if (!d.empty()) c.fail("json-value-wrong", "member %s differs in %s (voucher {%s})", d.c_str(), txt.substr(0, 600).c_str(), show(m).c_str());
  Heap h(txt);
  struct Voucher *w = deserialize_voucher(h.p, h.n);
  if (!w) c.fail("deserialize-refuses-own-output", "deserialize_voucher refused %s", txt.substr(0, 600).c_str());
  V g; e = vm::get(w, g);
  free_voucher(w);
  if (!e.empty()) c.fail("getter", "%s after round trip of %s", e.c_str(), txt.c_str());
  g.a[6].set = m.a[6].set;
  d = g.diff(m);
  if (!d.empty()) c.fail("roundtrip-differs", "attribute %s changed in round trip of %s", d.c_str(), txt.substr(0, 600).c_str());
}

static const char *SER[] = {"A", "\"", "\\", "/", "\n", "\t", "\r", "\b", "\f", "\x01", "\x1f", " ", "{", "}", ":", ",", "[", "'", "%", "\x7f", "\xc3\xa9", "\xe2\x82\xac", "\xf0\x9f\x94\x91", "u0041", "0"};
static const int NSER = sizeof SER / sizeof *SER;
static const T6 TT[] = {{2023, 1, 2, 3, 4, 5}, {1970, 1, 1, 0, 0, 0}, {1999, 12, 31, 23, 59, 59}, {2024, 2, 29, 12, 0, 0}, {2038, 1, 19, 3, 14, 8}, {9999, 12, 31, 23, 59, 59}, {1900, 1, 1, 0, 0, 0}, {2000, 10, 10, 10, 10, 10}};
static const int NT = sizeof TT / sizeof *TT;
static bytes arr(int k) {
  static const int L[] = {1, 2, 3, 4, 5, 31, 32, 33, 255, 1024};
  bytes s; if (k < 10) { for (int i = 0; i < L[k]; i++) s += (char)(i * 7 + k); return s; }
  if (k == 10) return bytes(1, '\0'); if (k == 11) return bytes(3, '\xff'); if (k == 12) return bytes("\xfb\xff\xbf", 3); if (k == 13) return bytes(7, '\0');
  return bytes(3000, (char)0xfb);
}
static const int NARR = 15;
static int alpha(int i) { switch (KIND[i]) { case TIME: return NT; case ENUM: return 3; case STR: return 6; case BOOL: return 2; default: return NARR; } }
static Val val(int i, int k) {
  Val x; x.set = true;
  static const char *S[] = {"serial-1", "", "a\"b", "\\", "x\n", "0123456789012345678901234567890123456789012345678901234567890123456789012345678901234567890123456789012345678901234567890123456"};
  switch (KIND[i]) { case TIME: x.t = TT[k]; break; case ENUM: x.e = 1 + k; break; case STR: x.s = S[k]; break; case BOOL: x.b = k; break; default: x.s = arr(k); }
  return x;
}
/* nothing to write or read */
static void nothing(Ctx &c) {
  int k = c.choose(5); if (!c.mine()) return; c.note("missing argument %d", k); c.eval(); c.distinct(mc::comb(994, k)); char *s = nullptr; bool ok = true;
  switch (k) { case 0: s = serialize_keyvalue2json(nullptr); break; case 1: s = serialize_escapestr(nullptr); break; case 2: s = serialize_unescapestr(nullptr, 0); break; case 3: s = serialize_voucher(nullptr); break; default: { struct Voucher *v = deserialize_voucher(nullptr, 0); ok = !v; if (v) free_voucher(v); } }
  if (s) { free(s); ok = false; } if (!ok) c.fail("null-argument", "missing argument %d: not refused", k);
}
static void body(Ctx &c) {
  if (c.choose(2)) { nothing(c); return; }
  int part = c.choose(7);
  V m;
  if (part == 0) { /* every subset of attributes x 3 value profiles x 2 set orders */
    int prof = c.choose(3), order = c.choose(2), hi = c.choose(64); if (!c.mine()) return;
    for (int lo = 0; lo < 32; lo++) {
      int mask = hi * 32 + lo; V v;
      for (int i = 0; i < 11; i++) if (mask >> i & 1) v.a[i] = val(i, (prof * 2 + i) % alpha(i));
      c.distinct(comb(prof, mask)); rt(c, v, order);
      if (mask == 0x3ff && order == 0) c.sample("subset 0x3ff, profile %d: {%s}", prof, show(v).substr(0, 500).c_str());
    }
  } else if (part == 1) { /* every pair of attributes x full value alphabets */
    int i = c.choose(11), j = c.choose(11); if (j <= i) return; int a = c.choose(alpha(i)); if (!c.mine()) return;
    for (int b = 0; b < alpha(j); b++) { V v; v.a[i] = val(i, a); v.a[j] = val(j, b); c.distinct(comb(comb(i, a), comb(j, b))); rt(c, v, b & 1); }
  } else if (part == 2) { /* serial-number: every string of <= 2 (3) symbols over the special alphabet */
    int n = c.choose(c.thorough ? 4 : 3), a = n > 0 ? c.choose(NSER) : 0, b = n > 1 ? c.choose(NSER) : 0; if (!c.mine()) return;
    for (int d = 0; d < (n > 2 ? NSER : 1); d++) {
      m.a[3].set = true; m.a[3].s = ""; if (n > 0) m.a[3].s += SER[a]; if (n > 1) m.a[3].s += SER[b]; if (n > 2) m.a[3].s += SER[d];
      c.distinct(fnvs(m.a[3].s, 99)); rt(c, m, 0);
      if (n == 2 && a == 1 && b < 3) c.sample("serial %s", ref::jstr(m.a[3].s).c_str());
    }
  } else if (part == 3) { /* serial length 0..127 x plain/escaped contents; 128+ must be refused */
    int n = c.choose(140), k = c.choose(4); if (!c.mine()) return;
    static const char F[] = {'x', '"', '\\', '\x01'};
    m.a[3].set = true; m.a[3].s = std::string(n, F[k]);
    if (n < 128) { c.distinct(comb(33, n * 4 + k)); rt(c, m, k & 1); }
    else {
      c.note("serial of length %d", n); c.eval();
      struct Voucher *v = init_voucher(); int r = vm::set(v, 3, m.a[3], 0), ne = is_attr_voucher_nonempty(v, ATTR_SERIAL_NUMBER); free_voucher(v);
      if (r != -1 || ne) c.fail("serial-too-long", "a serial number of %d characters was accepted", n);
    }
  } else if (part == 4) { /* dates: every day of the years around the boundaries */
    static const int Y[] = {1900, 1969, 1970, 1999, 2000, 2023, 2024, 2038, 2100, 9999};
    int y = Y[c.choose(10)], mo = 1 + c.choose(12); if (!c.mine()) return;
    for (int d = 1; d <= ref::mdays(y, mo); d++) for (int w = 0; w < 3; w++) {
      V v; int i = w == 0 ? 0 : w == 1 ? 1 : 8; v.a[i].set = true; v.a[i].t = T6{y, mo, d, (d * 5) % 24, (d * 7) % 60, (d * 11 + w) % 60};
      c.distinct(comb(4, comb(y, mo * 100 + d))); rt(c, v, 0); if (w == d % 3) { v.a[i].t.h = v.a[i].t.m = v.a[i].t.s = 0; rt(c, v, 1); }
    }
  } else if (part == 5) { /* binary attributes: large */
    auto &S = mc::sizes(c.thorough); size_t n = S[c.choose((int)S.size())]; int w = c.choose(5); if (!c.mine()) return; static const int B[] = {4, 5, 7, 9, 10};
    V v; int i = B[w]; v.a[i].set = true; for (size_t k = 0; k < n; k++) v.a[i].s += (char)(w & 1 ? 0xff - k : k * 13 + n); v.a[3].set = true; v.a[3].s = "after or before it"; c.distinct(comb(7, n * 5 + w)); rt(c, v, w & 1);
  } else { /* binary attributes: every length */
    int n = 1 + c.choose(c.thorough ? 4000 : 700); if (!c.mine()) return;
    for (int w = 0; w < 2; w++) { static const int B[] = {4, 5, 7, 9, 10}; V v; int i = B[(n + w) % 5]; v.a[i].set = true; for (int k = 0; k < n; k++) v.a[i].s += (char)(w ? 0xff - k : k * 13 + n); c.distinct(comb(5, n * 2 + w)); rt(c, v, w); }
  }
}
int main(int argc, char **argv) { Opts o; o.worker_init = quiet_logs; return run(argc, argv, body, o); }
