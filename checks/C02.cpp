/* C02: the voucher attribute store behaves as a map attribute -> value.
 * Explicit-state exploration: every reachable model state over small value domains is
 * built on the real object, every operation is applied to it, and all observers are
 * compared with the model after each step. */
#include "mc.hpp"
#include "vmodel.hpp"
using namespace mc; using namespace vm;

static Val dom(int i, int k) { /* k>=1 */
  Val x; x.set = true;
  switch (KIND[i]) {
    case TIME: x.t = k == 1 ? T6{2023, 5, 6, 7, 8, 9} : T6{1973, 11, 29, 21, 33, 9}; break;
    case ENUM: x.e = k; break;
    case STR: x.s = k == 1 ? "A1" : std::string(127, 'z'); break;
    case BOOL: x.b = true; break;
    case ARR: x.s = k == 1 ? bytes(1, '\0') : bytes("\x01\x02\x03", 3); break;
  }
  return x;
}
static int ndom(int i) { return KIND[i] == ENUM ? 3 : KIND[i] == BOOL ? 1 : 2; }

struct Op { int kind, attr, val, via; };
static std::vector<Op> OPS;
enum { SET, CLEAR, BAD_ENUM, BAD_ARR, BAD_STR_NULL, BAD_STR_LONG, WRONG_SETTER, WRONG_GETTER, UNKNOWN_ATTR, NULLV, BAD_TIME_NULL };
static void mkops() {
  for (int i = 0; i < 11; i++) for (int k = 1; k <= ndom(i); k++) for (int via = 0; via < 2; via++) OPS.push_back({SET, i, k, via});
  for (int via = 0; via < 2; via++) OPS.push_back({SET, 6, 0, via});
  for (int i = 0; i < 11; i++) OPS.push_back({CLEAR, i, 0, 0});
  for (int e : {0, 4, -1, 1000}) for (int via = 0; via < 2; via++) OPS.push_back({BAD_ENUM, 2, e, via});
  for (int i = 0; i < 11; i++) if (KIND[i] == ARR) for (int k = 0; k < 3; k++) for (int via = 0; via < 2; via++) OPS.push_back({BAD_ARR, i, k, via});
  OPS.push_back({BAD_STR_NULL, 3, 0, 0}); OPS.push_back({BAD_STR_NULL, 3, 0, 1}); for (int i : {0, 1, 8}) { OPS.push_back({BAD_TIME_NULL, i, 0, 0}); OPS.push_back({BAD_TIME_NULL, i, 0, 1}); }
  OPS.push_back({BAD_STR_LONG, 3, 128, 0}); OPS.push_back({BAD_STR_LONG, 3, 500, 1});
  for (int i = 0; i < 11; i++) for (int k = 0; k < 5; k++) if (k != KIND[i]) OPS.push_back({WRONG_SETTER, i, k, 0});
  for (int i = 0; i < 11; i++) for (int k = 0; k < 5; k++) if (k != KIND[i]) OPS.push_back({WRONG_GETTER, i, k, 0});
  OPS.push_back({UNKNOWN_ATTR, 11, 0, 0}); OPS.push_back({UNKNOWN_ATTR, 1000, 0, 0});
  OPS.push_back({NULLV, 0, 0, 0});
}
static const char *ON[] = {"set", "clear", "set bad enum", "set bad array", "set NULL string", "set long string", "wrong-kind set", "wrong-kind get", "unknown attribute", "NULL voucher", "set NULL time"};

static void apply(Ctx &c, struct Voucher *v, V &m, const Op &o) {
  int r = 0, want = 0; struct tm t = tm6(T6{2001, 1, 1, 1, 1, 1}); uint8_t by[2] = {9, 9};
  if (o.kind == SET) {
    Val x; if (o.attr == 6) { x.set = true; x.b = o.val; } else x = dom(o.attr, o.val);
    r = vm::set(v, o.attr, x, o.via); m.a[o.attr] = x;
  } else if (o.kind == CLEAR) { r = clear_attr_voucher(v, ATTR[o.attr]); m.a[o.attr] = Val(); }
  else if (o.kind == BAD_ENUM) { want = -1; r = o.via ? set_attr_voucher(v, ATTR_ASSERTION, o.val) : set_attr_enum_voucher(v, ATTR_ASSERTION, o.val); }
  else if (o.kind == BAD_ARR) { want = -1; struct BinaryArray b = {NULL, o.val == 1 ? (size_t)10 : 0}; struct BinaryArray *p = o.val == 2 ? NULL : &b; r = o.via ? set_attr_voucher(v, ATTR[o.attr], p) : set_attr_array_voucher(v, ATTR[o.attr], p); }
  else if (o.kind == BAD_TIME_NULL) { want = -1; r = o.via ? set_attr_voucher(v, ATTR[o.attr], (struct tm *)NULL) : set_attr_time_voucher(v, ATTR[o.attr], NULL); }
  else if (o.kind == BAD_STR_NULL) { want = -1; r = o.via ? set_attr_voucher(v, ATTR_SERIAL_NUMBER, (char *)NULL) : set_attr_str_voucher(v, ATTR_SERIAL_NUMBER, NULL); }
  else if (o.kind == BAD_STR_LONG) { want = -1; std::string s(o.val, 'q'); r = o.via ? set_attr_voucher(v, ATTR_SERIAL_NUMBER, s.c_str()) : set_attr_str_voucher(v, ATTR_SERIAL_NUMBER, s.c_str()); }
  else if (o.kind == WRONG_SETTER) {
    want = -1; enum VoucherAttributes a = ATTR[o.attr]; struct BinaryArray b = {by, 2};
    switch (o.val) { case TIME: r = set_attr_time_voucher(v, a, &t); break; case ENUM: r = set_attr_enum_voucher(v, a, 1); break; case STR: r = set_attr_str_voucher(v, a, "w"); break; case ARR: r = set_attr_array_voucher(v, a, &b); break; case BOOL: r = set_attr_bool_voucher(v, a, true); }
  } else if (o.kind == WRONG_GETTER) {
    const void *p = NULL; enum VoucherAttributes a = ATTR[o.attr];
    switch (o.val) { case TIME: p = get_attr_time_voucher(v, a); break; case ENUM: p = get_attr_enum_voucher(v, a); break; case STR: p = get_attr_str_voucher(v, a); break; case ARR: p = get_attr_array_voucher(v, a); break; case BOOL: p = get_attr_bool_voucher(v, a); }
    if (p) c.fail("wrong-kind-getter", "getter of kind %d for %s returned a value", o.val, NAMES[o.attr]);
  } else if (o.kind == UNKNOWN_ATTR) { want = -1; r = set_attr_voucher(v, (enum VoucherAttributes)o.attr, 1); if (is_attr_voucher_nonempty(v, (enum VoucherAttributes)o.attr)) c.fail("unknown-attr-nonempty", "unknown attribute %d reported set", o.attr); }
  else { struct BinaryArray b = {by, 2}; want = -1; r = (set_attr_time_voucher(NULL, ATTR_CREATED_ON, &t) & set_attr_enum_voucher(NULL, ATTR_ASSERTION, 1) & set_attr_str_voucher(NULL, ATTR_SERIAL_NUMBER, "x") & set_attr_array_voucher(NULL, ATTR_NONCE, &b) & set_attr_bool_voucher(NULL, ATTR_DOMAIN_CERT_REVOCATION_CHECKS, true) & clear_attr_voucher(NULL, ATTR_NONCE));
    if (get_attr_str_voucher(NULL, ATTR_SERIAL_NUMBER) || serialize_voucher(NULL)) c.fail("null-voucher", "NULL voucher yielded a value"); }
  c.transition();
  if (r != want) c.fail("return-code", "%s on %s (value %d) returned %d, model says %d", ON[o.kind], o.attr < 11 ? NAMES[o.attr] : "?", o.val, r, want);
}
static void observe(Ctx &c, struct Voucher *v, const V &m, const char *after, const char *what) {
  V g; std::string e = vm::get(v, g); V mm = m; mm.a[6].set = g.a[6].set = true; c.eval();
  if (!e.empty()) c.fail("observer", "%s after %s %s", e.c_str(), after, what);
  std::string d = g.diff(mm);
  if (!d.empty()) c.fail("state-differs", "after %s on %s: attribute %s is not what the model holds", after, what, d.c_str());
}
static void wire(Ctx &c, struct Voucher *v, const V &m) {
  char *js = serialize_voucher(v); if (!js) c.fail("serialize", "serialize_voucher failed for {%s}", show(m).c_str());
  std::string s(js); free(js); V p; std::string e = parse_strict(s, p); V mm = m; mm.a[6].set = p.a[6].set = true;
  if (!e.empty() || !p.diff(mm).empty()) c.fail("serialize", "serialised form %s does not match the model {%s} (%s %s)", s.c_str(), show(m).c_str(), e.c_str(), p.diff(mm).c_str());
  c.validated();
}
struct Guard { struct Voucher *v; ~Guard() { free_voucher(v); } };

/* a missing voucher, result or value: refused, and the others unchanged */
static void nothing(Ctx &c) {
  int k = c.choose(12); if (!c.mine()) return; c.note("missing argument %d", k); c.eval(); c.transition(); c.validated(); c.state(mc::comb(991, k)); bool ok = true; struct tm t; memset(&t, 0, sizeof t); t.tm_mday = 1; t.tm_year = 100; struct BinaryArray a; memset(&a, 0, sizeof a); uint8_t b[3] = {1, 2, 3}; a.array = b; a.length = 3;
  switch (k) {
  case 0: for (int i = -1; i < 13; i++) ok &= !get_attr_bool_voucher(nullptr, (enum VoucherAttributes)i); break;
  case 1: for (int i = -1; i < 13; i++) ok &= !get_attr_time_voucher(nullptr, (enum VoucherAttributes)i); break;
  case 2: for (int i = -1; i < 13; i++) ok &= !get_attr_enum_voucher(nullptr, (enum VoucherAttributes)i); break;
  case 3: for (int i = -1; i < 13; i++) ok &= !get_attr_str_voucher(nullptr, (enum VoucherAttributes)i); break;
  case 4: for (int i = -1; i < 13; i++) ok &= !get_attr_array_voucher(nullptr, (enum VoucherAttributes)i); break;
  case 5: break;
  case 6: for (int i = -1; i < 13; i++) ok &= clear_attr_voucher(nullptr, (enum VoucherAttributes)i) < 0; break;
  case 7: for (int i = -1; i < 13; i++) ok &= set_attr_bool_voucher(nullptr, (enum VoucherAttributes)i, true) < 0 && set_attr_enum_voucher(nullptr, (enum VoucherAttributes)i, 1) < 0; break;
  case 8: for (int i = -1; i < 13; i++) ok &= set_attr_time_voucher(nullptr, (enum VoucherAttributes)i, &t) < 0; break;
  case 9: for (int i = -1; i < 13; i++) ok &= set_attr_str_voucher(nullptr, (enum VoucherAttributes)i, "a") < 0; break;
  case 10: for (int i = -1; i < 13; i++) ok &= set_attr_array_voucher(nullptr, (enum VoucherAttributes)i, &a) < 0; break;
  default: { char *s = serialize_voucher(nullptr); ok &= !s; free(s); free_voucher(nullptr); }
  }
  if (!ok) c.fail("null-voucher", "missing argument %d: not refused", k);
}
static void body(Ctx &c) {
  if (c.choose(2)) { nothing(c); return; }
  int part = c.choose(3);
  if (part == 0) { /* every state of the full product domain; every operation from it */
    V m; int code = 0; int dense = 0;
    static const int FIRST[] = {2, 3, 0, 4};
    for (int i : FIRST) { int k = c.choose(ndom(i) + 1); code = code * 4 + k; if (k) m.a[i] = dom(i, k); }
    if (!c.mine()) return;
    static const int REST[] = {1, 5, 7, 8, 9, 10, 6};
    int d[7] = {0}; (void)dense;
    for (;;) {
      bool skip = false; V s = m; uint64_t h = code;
      int set = 0; for (int q = 0; q < 7; q++) { if (d[q]) { s.a[REST[q]] = dom(REST[q], d[q]); set++; } h = h * 4 + d[q]; }
      if (!c.thorough) for (int q = 0; q < 7; q++) if (d[q] == 2 && (h * 2654435761u >> 7 & 3)) skip = true; /* quick: second value of the low-order attributes only in a quarter of the states */
      if (!skip && c.state(mix(h + 77))) {
        c.note("state {%s}", show(s).c_str());
        Guard g{init_voucher()};
        for (int i = 0; i < 11; i++) if (s.a[i].set) { int r = vm::set(g.v, i, s.a[i], (h >> i) & 1); if (r) c.fail("return-code", "set %s refused", NAMES[i]); }
        observe(c, g.v, s, "build", "state");
        wire(c, g.v, s);
        /* chain all operations of one residue class on the same object: starts from many non-initial states */
        size_t stride = c.thorough ? 1 : 5; V cur = s;
        for (size_t k = h % stride; k < OPS.size(); k += stride) {
          const Op &o = OPS[k];
          c.note("state {%s} then %s %s val %d", show(cur).c_str(), ON[o.kind], o.attr < 11 ? NAMES[o.attr] : "?", o.val);
          apply(c, g.v, cur, o); observe(c, g.v, cur, ON[o.kind], o.attr < 11 ? NAMES[o.attr] : "?");
        }
        wire(c, g.v, cur);
        if (h % 5000 == 17) c.sample("from {%s}: %zu operations applied and compared", show(s).c_str(), OPS.size() / stride);
      }
      int q = 0; while (q < 7 && ++d[q] > ndom(REST[q])) d[q++] = 0;
      if (q == 7) break;
    }
  } else if (part == 2) { /* times: every combination of lowest and other field values, in every time attribute, next to another time */
    int f = c.choose(64), w = c.choose(3); if (!c.mine()) return; static const int A[] = {0, 1, 8};
    for (int o = 0; o < 4; o++) {
      T6 t{f & 1 ? 2024 : 1900, f & 2 ? 12 : 1, f & 4 ? 31 : 1, f & 8 ? 23 : 0, f & 16 ? 59 : 0, f & 32 ? 59 : 0}; V m; Guard g{init_voucher()}; int i = A[w], j = A[(w + 1) % 3]; if (o & 1) m.a[j] = dom(j, 1); if (o & 2) m.a[3] = dom(3, 1);
      m.a[i].set = true; m.a[i].t = t; c.note("time %04d-%02d-%02dT%02d:%02d:%02d in %s", t.Y, t.M, t.D, t.h, t.m, t.s, NAMES[i]); for (int q : {j, 3, i}) if (m.a[q].set && vm::set(g.v, q, m.a[q], o & 1)) c.fail("return-code", "set %s refused", NAMES[q]);
      c.state(comb(comb(777, f * 3 + w), o)); c.transition(); observe(c, g.v, m, "set", NAMES[i]); wire(c, g.v, m);
      if (clear_attr_voucher(g.v, ATTR[i])) c.fail("return-code", "clear refused"); m.a[i] = Val(); c.transition(); observe(c, g.v, m, "clear", NAMES[i]); wire(c, g.v, m);
    }
  } else { /* every operation sequence of length 3 (4 over a third of the alphabet) from the initial state */
    size_t n = OPS.size(); size_t a = c.choose((int)n), b = c.choose((int)n); if (!c.mine()) return;
    for (size_t x = 0; x < n; x++) {
      const Op s[3] = {OPS[a], OPS[b], OPS[x]};
      if (!c.thorough && s[0].kind >= WRONG_SETTER) continue;
      Guard g{init_voucher()}; V m;
      for (int k = 0; k < 3; k++) { c.note("sequence %zu %zu %zu, step %d: %s %s", a, b, x, k, ON[s[k].kind], s[k].attr < 11 ? NAMES[s[k].attr] : "?"); apply(c, g.v, m, s[k]); }
      observe(c, g.v, m, "sequence", ON[s[2].kind]);
    }
    if (a == 0 && b < 2) c.sample("sequences [%s %s; %s %s; *]", ON[OPS[a].kind], NAMES[OPS[a].attr], ON[OPS[b].kind], NAMES[OPS[b].attr % 11]);
  }
}
int main(int argc, char **argv) { mkops(); Opts o; o.worker_init = quiet_logs; return run(argc, argv, body, o); }
