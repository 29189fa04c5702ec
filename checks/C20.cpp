/* C20: date/time and boolean codecs */
#include "mc.hpp"
#include "vmodel.hpp"
using namespace mc; using namespace vm;

static void rt(Ctx &c, const T6 &t) {
  struct tm tm = tm6(t); c.eval(); c.note("time %s", ref::iso(t).c_str());
  char *s = serialize_time2str(&tm);
  if (!s) c.fail("write-fails", "writing %s failed", ref::iso(t).c_str());
  std::string got = s; free(s);
  if (got != ref::iso(t)) c.fail("written-wrong", "%s was written as %s", ref::iso(t).c_str(), got.c_str());
  struct tm b; memset(&b, 0x5a, sizeof b);
  Heap h(got + '\0');
  if (serialize_str2time((char *)h.p, &b) != 0) c.fail("read-fails", "%s was refused", got.c_str());
  if (!(t6(b) == t)) c.fail("read-wrong", "%s was read as %s", got.c_str(), ref::iso(t6(b)).c_str());
}
static void txt(Ctx &c, const std::string &s) {
  c.eval(); c.distinct(fnvs(s)); c.note("text '%s'", s.c_str());
  T6 t; Verdict v = time_of(s, t); struct tm b; memset(&b, 0, sizeof b);
  Heap h(s + '\0'); int r = serialize_str2time((char *)h.p, &b);
  if (v == ACCEPT && (r != 0 || !(t6(b) == t))) c.fail("valid-time-wrong", "'%s' gave %d, %s", s.c_str(), r, ref::iso(t6(b)).c_str());
  if (v == REJECT && r >= 0) c.fail("bad-time-accepted", "'%s' was accepted as %s", s.c_str(), ref::iso(t6(b)).c_str());
}
static std::string base(int k) { static const char *B[] = {"2023-01-02T03:04:05Z", "1999-12-31T23:59:59Z", "2024-02-29T12:30:00Z", "1000-10-10T10:10:10Z", "9999-06-15T20:00:59Z", "2000-09-09T09:09:09Z"}; return B[k]; }
/* nothing to read or write */
static void nothing(Ctx &c) {
  int k = c.choose(6); if (!c.mine()) return; c.note("missing argument %d", k); c.eval(); c.distinct(comb(993, k)); bool ok = true; struct tm t; memset(&t, 7, sizeof t); struct tm u = t;
  switch (k) { case 0: ok = serialize_str2time("2024-01-01T00:00:00Z", nullptr) < 0; break; case 1: ok = serialize_str2time(nullptr, &t) < 0 && !memcmp(&t, &u, sizeof t); break; case 3: ok = serialize_str2bool(nullptr, 4) < 0; break; case 4: ok = serialize_str2bool("true", 0) < 0; break; default: ok = get_localtime(nullptr) < 0; }
  if (!ok) c.fail("null-argument", "missing argument %d: not refused", k);
}
static void body(Ctx &c) {
  if (c.choose(2)) { nothing(c); return; }
  int part = c.choose(6);
  if (part == 0) { /* every day of the years 1000..9999 */
    int y = 1000 + c.choose(9000); if (!c.mine()) return; c.distinct(comb(1, y));
    for (int m = 1; m <= 12; m++) for (int d = 1; d <= ref::mdays(y, m); d++) rt(c, T6{y, m, d, (d * 3 + y) % 24, (m * 5 + d) % 60, (y + m + d) % 60});
    if (y == 2024) c.sample("all days of 2024, e.g. 2024-02-29");
  } else if (part == 1) { /* every second of some days */
    int k = c.choose(4), h = c.choose(24); if (!c.mine()) return; c.distinct(comb(2, k * 24 + h));
    T6 d = k == 0 ? T6{2024, 2, 29} : k == 1 ? T6{1999, 12, 31} : k == 2 ? T6{1970, 1, 1} : T6{9999, 12, 31};
    for (int m = 0; m < 60; m++) for (int s = 0; s < 60; s++) { d.h = h; d.m = m; d.s = s; rt(c, d); }
  } else if (part == 2) { /* single character edits, prefixes, extensions */
    int k = c.choose(6), p = c.choose(21); if (!c.mine()) return; std::string s = base(k);
    for (int v = 1; v < 256; v++) { if (p < 20) { std::string t = s; t[p] = v; txt(c, t); } txt(c, s.substr(0, p) + (char)v + s.substr(p)); }
    if (p < 20) txt(c, s.substr(0, p) + s.substr(p + 1));
    txt(c, s.substr(0, p)); txt(c, s.substr(p)); txt(c, s.substr(0, p) + s); txt(c, s + s.substr(0, p)); txt(c, s + " " + s.substr(0, p));
    for (int q = p; q <= 20; q++) txt(c, s.substr(0, p) + s.substr(q));
  } else if (part == 3) { /* two digits of every field */
    int f = c.choose(5); static const int P[] = {5, 8, 11, 14, 17}; int k = c.choose(6); if (!c.mine()) return;
    for (int v = 0; v < 100; v++) { std::string t = base(k); char b[4]; snprintf(b, 4, "%02d", v); t[P[f]] = b[0]; t[P[f] + 1] = b[1]; txt(c, t); }
    if (f == 0 && !k) c.sample("month 00..99 in %s", base(k).c_str());
  } else if (part == 4) { /* years: every 4-digit value; and out of range */
    int y = c.choose(100); if (!c.mine()) return;
    for (int q = 0; q < 100; q++) { char b[32]; snprintf(b, 32, "%04d-03-01T00:00:00Z", y * 100 + q); txt(c, b); }
    for (long w : {10000L, 99999L, 2147483647L, -1L, -1000L}) { struct tm t; memset(&t, 0, sizeof t); t.tm_year = (int)(w - 1900 < -2147480000L ? 0 : w > 2147481747L ? 2147483647 : w - 1900); t.tm_mday = 1 + y % 28; c.eval(); char *s = serialize_time2str(&t); if (s) free(s); }
  } else { /* booleans: all words of <=5 letters */
    static const char A[] = "truefals01TF 2n"; int n = sizeof A - 1; /* repeated letters give repeated words; harmless */
    int a = c.choose(n), b = c.choose(n); if (!c.mine()) return;
    long tot = (long)n * n * n;
    auto chk = [&](const std::string &w) {
      c.eval(); c.note("word '%s'", w.c_str()); Heap h(w); int r = serialize_str2bool((char *)h.p, h.n);
      std::string l; for (char ch : w) l += (char)tolower(ch);
      int want = w == "true" || w == "1" ? 1 : w == "false" || w == "0" ? 0 : -1;
      if ((l == "true" || l == "false") && want < 0) { if (r >= 0 && r != (l == "true")) c.fail("bool-wrong", "'%s' read as %d", w.c_str(), r); return; }
      if (want >= 0 ? r != want : r >= 0) c.fail("bool-wrong", "'%s' read as %d", w.c_str(), r);
    };
    chk(""); chk(std::string(1, A[a])); chk(std::string() + A[a] + A[b]);
    for (long x = 0; x < tot; x++) { std::string w; w += A[a]; w += A[b]; w += A[x % n]; if (x < n) chk(w); w += A[x / n % n]; if (x < n * n) chk(w); w += A[x / n / n]; chk(w); if (x < n) chk(w + w); }
    for (const char *w : {"true", "false", "truee", "falsee", "trueX", "tru", "fals", "true ", " true", "falsefalse", "yes", "on", "00", "11", "01"}) chk(w);
    for (int v = 0; v < 2; v++) { char *s = serialize_bool2str(v); if (!s || strcmp(s, v ? "true" : "false")) c.fail("bool-written-wrong", "%d written as %s", v, s ? s : "NULL"); free(s); }
  }
}
int main(int argc, char **argv) { Opts o; o.worker_init = quiet_logs; return run(argc, argv, body, o); }
