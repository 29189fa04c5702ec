/* C18: all operation sequences over arrays, array lists and key-value lists against vector models */
#include "mc.hpp"
#include "sizes.hpp"
#include "ref.hpp"
#include "repo.hpp"
using namespace mc;
typedef std::string S;
static S val(int k) { switch (k) { case 0: return "a"; case 1: return S("\0", 1); case 2: return S("a\0b", 3); case 3: { S s; for (int i = 0; i < 300; i++) s += (char)(i * 7); return s; } case 4: return "ab"; default: return S(5000, 'q'); } }

struct E { S v; int f; bool operator==(const E &o) const { return v == o.v && f == o.f; } };
static void check_list(Ctx &c, struct BinaryArrayList *l, const std::vector<E> &m, const char *h) {
  std::vector<E> g; struct BinaryArrayList *el; size_t n = 0;
  dl_list_for_each(el, &l->list, struct BinaryArrayList, list) { if (++n > 100) c.fail("list-cycle", "after %s", h); g.push_back(E{S((char *)el->arr, el->length), el->flags}); }
  c.eval();
  if (!(g == m)) c.fail("list-content", "list of arrays has %zu elements, expected %zu, or other content, after %s", g.size(), m.size(), h);
  if (dl_list_len(&l->list) != m.size()) c.fail("list-length", "after %s", h);
  el = dl_list_first(&l->list, struct BinaryArrayList, list); if ((el == nullptr) != m.empty() || (el && S((char *)el->arr, el->length) != m[0].v)) c.fail("list-first", "after %s", h);
  el = dl_list_last(&l->list, struct BinaryArrayList, list); if ((el == nullptr) != m.empty() || (el && S((char *)el->arr, el->length) != m.back().v)) c.fail("list-last", "after %s", h);
  /* backwards */
  std::vector<E> r; struct dl_list *p = l->list.prev; while (p != &l->list && r.size() < 100) { el = (struct BinaryArrayList *)p->el; r.insert(r.begin(), E{S((char *)el->arr, el->length), el->flags}); p = p->prev; }
  if (!(r == m)) c.fail("list-backwards", "after %s", h);
}
static void body(Ctx &c) {
  int part = c.choose(6), D = c.thorough ? 6 : 5;
  if (part == 0) { /* list of arrays: push x 6 values, missing array, missing list, caller changes its buffer */
    const int OPS = 9; int first = c.choose(OPS), second = c.choose(OPS); if (!c.mine()) return;
    long tot = 1; for (int i = 2; i < D; i++) tot *= OPS;
    for (long x = 0; x < tot; x++) {
      struct BinaryArrayList *l = init_array_list(); if (!l) c.fail("init", "no list"); std::vector<E> m; S h; long y = x;
      for (int s = 0; s < D; s++) {
        int op = s == 0 ? first : s == 1 ? second : y % OPS; if (s > 1) y /= OPS; h += "push:" + std::to_string(op) + " "; c.transition(); c.note("list: %s", h.c_str());
        if (op < 6) { S v = val(op); Heap b(v); int fl = op * 1000 - 1; int r = push_array_list(l, b.p, b.n, fl); if (r != 0) c.fail("push-refused", "%s", h.c_str()); memset(b.p, 0xee, b.n); m.push_back(E{v, fl}); }
        else if (op == 6) { if (push_array_list(l, nullptr, 4, 0) >= 0) c.fail("push-null", "%s", h.c_str()); }
        else if (op == 7) { uint8_t b[1] = {1}; if (push_array_list(nullptr, b, 1, 0) >= 0) c.fail("push-nolist", "%s", h.c_str()); }
        else { /* release and start again */ free_array_list(l); l = init_array_list(); m.clear(); if (!l) c.fail("init", "no list"); }
        uint64_t st = 5; for (auto &e : m) st = comb(st, fnvs(e.v)); c.state(st);
        check_list(c, l, m, h.c_str()); c.validated();
      }
      free_array_list(l);
    }
    free_array_list(nullptr);
    if (first == 3 && second == 8) c.sample("push(300 bytes), release, ... all %ld continuations of length %d", tot, D - 2);
  } else if (part == 1) { /* key-value list and its JSON form */
    static const char *K[] = {"\"k\"", "", "CN", "a:b,c"}, *V[] = {"\"v\"", "", "x", "{}"}; const int OPS = 19; int first = c.choose(OPS); if (!c.mine()) return;
    int d = c.thorough ? 5 : 4; long tot = 1; for (int i = 1; i < d; i++) tot *= OPS;
    for (long x = 0; x < tot; x++) {
      struct keyvalue_list *l = init_keyvalue_list(); if (!l) c.fail("init", "no list"); std::vector<std::pair<S, S>> m; S h; long y = x;
      for (int s = 0; s < d; s++) {
        int op = s ? y % OPS : first; if (s) y /= OPS; h += std::to_string(op) + " "; c.transition(); c.note("key-values: %s", h.c_str());
        if (op < 16) { Heap k(S(K[op / 4]) + '\0'), v(S(V[op % 4]) + '\0'); if (push_keyvalue_list(l, (char *)k.p, (char *)v.p) != 0) c.fail("kv-refused", "%s", h.c_str()); memset(k.p, 'X', k.n); memset(v.p, 'X', v.n); m.push_back({K[op / 4], V[op % 4]}); }
        else if (op == 16) { if (push_keyvalue_list(l, nullptr, (char *)"v") >= 0) c.fail("kv-null", "%s", h.c_str()); }
        else if (op == 17) { if (push_keyvalue_list(l, (char *)"k", nullptr) >= 0) c.fail("kv-null", "%s", h.c_str()); }
        else if (push_keyvalue_list(nullptr, (char *)"k", (char *)"v") >= 0) c.fail("kv-nolist", "%s", h.c_str());
      }
      uint64_t st = 6; for (auto &e : m) st = comb(comb(st, fnvs(e.first)), fnvs(e.second)); c.state(st);
      std::vector<std::pair<S, S>> g; struct keyvalue_list *el; size_t n = 0; S j = "{";
      dl_list_for_each(el, &l->list, struct keyvalue_list, list) { if (++n > 100) c.fail("kv-cycle", "%s", h.c_str()); g.push_back({el->key, el->value}); }
      c.eval(); if (g != m) c.fail("kv-content", "%zu pairs instead of %zu after %s", g.size(), m.size(), h.c_str());
      for (size_t i = 0; i < m.size(); i++) j += (i ? "," : "") + m[i].first + ":" + m[i].second; j += "}";
      char *t = serialize_keyvalue2json(l); S got = t ? t : "(null)"; free(t); free_keyvalue_list(l); c.validated();
      if (m.empty() ? got != "(null)" && got != "{}" : got != j) c.fail("kv-json", "'%s' instead of '%s'", got.c_str(), j.c_str());
    }
    free_keyvalue_list(nullptr);
  } else if (part == 2) { /* copies of arrays */
    const int OPS = 12; int first = c.choose(OPS), second = c.choose(OPS); if (!c.mine()) return; long tot = 1; for (int i = 2; i < D; i++) tot *= OPS;
    for (long x = 0; x < tot; x++) {
      struct BinaryArray *a[2] = {init_binary_array(), init_binary_array()}; S m[2]; S h; long y = x; if (!a[0] || !a[1]) c.fail("init", "no array");
      if (a[0]->array || a[0]->length) c.fail("init-not-empty", "a new array is not empty");
      for (int s = 0; s < D; s++) {
        int op = s == 0 ? first : s == 1 ? second : y % OPS; if (s > 1) y /= OPS; h += std::to_string(op) + " "; c.transition(); c.note("arrays: %s", h.c_str());
        int w = op & 1;
        if (op < 8) { S v = val(op / 2); Heap b(v); struct BinaryArray src = {b.p, b.n}; free_binary_array_content(a[w]); if (copy_binary_array(a[w], &src) != 0) c.fail("copy-refused", "%s", h.c_str()); if (a[w]->array == b.p) c.fail("copy-alias", "%s", h.c_str()); memset(b.p, 0xee, b.n); m[w] = v; }
        else if (op < 10) { if (m[!w].empty()) continue; free_binary_array_content(a[w]); if (copy_binary_array(a[w], a[!w]) != 0) c.fail("copy-refused", "%s", h.c_str()); m[w] = m[!w]; }
        else { free_binary_array_content(a[w]); m[w].clear(); if (a[w]->array || a[w]->length) c.fail("release-not-empty", "%s", h.c_str()); }
        for (int k = 0; k < 2; k++) if (S((char *)(a[k]->array ? a[k]->array : (uint8_t *)""), a[k]->length) != m[k]) c.fail("array-content", "array %d after %s", k, h.c_str());
        int r = compare_binary_array(a[0], a[1]); c.eval(); if ((r >= 1) != (m[0] == m[1])) c.fail("compare", "comparison gave %d after %s", r, h.c_str());
        c.state(comb(comb(7, fnvs(m[0])), fnvs(m[1]))); c.validated();
      }
      free_binary_array(a[0]); free_binary_array(a[1]);
    }
  } else if (part == 3) { /* comparison: all pairs of short strings */
    int a = c.choose(121); if (!c.mine()) return; auto str = [](int k) { S s; static const char A[] = {'\0', 'a', '\xff'}; if (k == 0) return s; k--; int n = 1, p = 3; while (k >= p) { k -= p; p *= 3; n++; } for (int i = 0; i < n; i++) { s += A[k % 3]; k /= 3; } return s; };
    for (int b = 0; b < 121; b++) { Heap x(str(a)), y(str(b)); struct BinaryArray p = {x.p, x.n}, q = {y.p, y.n}; int r = compare_binary_array(&p, &q); c.eval(); c.transition(); c.state(comb(comb(8, a), b)); c.note("compare %d %d", a, b); if ((r >= 1) != (a == b)) c.fail("compare", "comparison of %s with %s gave %d", ref::hex(str(a)).c_str(), ref::hex(str(b)).c_str(), r); c.validated(); }
    Heap x(str(a)); struct BinaryArray p = {x.p, x.n}, z = {nullptr, 0}; if (compare_binary_array(nullptr, &p) >= 1 || compare_binary_array(&p, nullptr) >= 1) c.fail("compare-null", "a missing array compares equal");
    struct BinaryArray d = {nullptr, 0}; if (copy_binary_array(nullptr, &p) >= 0 || copy_binary_array(&d, nullptr) >= 0) c.fail("copy-null", "copy from or to nothing succeeded"); (void)z; free_binary_array_content(nullptr); free_binary_array(nullptr);
  } else if (part == 4) { /* many and large */
    auto &Z = mc::sizes(c.thorough); size_t n = Z[c.choose((int)Z.size())]; int k = c.choose(4); if (!c.mine()) return; c.note("%zu, kind %d", n, k); c.eval(); c.transition(); c.validated(); c.state(comb(comb(10, n), k)); auto el = [](size_t i) { S s(1 + i % 5, (char)(i * 7)); s += (char)(i >> 8); return s; };
    if (k == 0) { if (n > 20000 && !c.thorough) return; struct BinaryArrayList *l = init_array_list(), *e; for (size_t i = 0; i < n; i++) { Heap b(el(i)); if (push_array_list(l, b.p, b.n, (int)i)) c.fail("push-refused", "element %zu", i); } size_t i = 0; dl_list_for_each(e, &l->list, struct BinaryArrayList, list) { if (S((char *)e->arr, e->length) != el(i) || e->flags != (int)i) c.fail("list-content", "element %zu of %zu", i, n); i++; } if (i != n || dl_list_len(&l->list) != n) c.fail("list-length", "%zu of %zu", i, n); free_array_list(l); }
    else if (k == 1) { if (n > 20000 && !c.thorough) return; struct keyvalue_list *l = init_keyvalue_list(), *e; S j = "{"; for (size_t i = 0; i < n; i++) { S a = "\"k" + std::to_string(i) + "\"", b = "\"" + std::to_string(i * 3) + "\""; if (push_keyvalue_list(l, (char *)a.c_str(), (char *)b.c_str())) c.fail("kv-refused", "pair %zu", i); j += (i ? "," : "") + a + ":" + b; } j += "}"; size_t i = 0; dl_list_for_each(e, &l->list, struct keyvalue_list, list) { if (e->key != "\"k" + std::to_string(i) + "\"" || e->value != "\"" + std::to_string(i * 3) + "\"") c.fail("kv-content", "pair %zu of %zu", i, n); i++; } char *t = serialize_keyvalue2json(l); bool ok = t && j == t; free(t); free_keyvalue_list(l); if (i != n || !ok) c.fail("kv-json", "%zu of %zu pairs, or their text", i, n); }
    else if (k == 2) { S s; for (size_t i = 0; i < n; i++) s += (char)(i * 11 + i / 256); Heap h(s); struct BinaryArray a = {h.p, h.n}, b = {nullptr, 0}; if (copy_binary_array(&b, &a) || b.length != n || b.array == a.array || memcmp(b.array, s.data(), n) || compare_binary_array(&a, &b) < 1) c.fail("array-content", "a copy of %zu bytes", n); for (size_t p : {(size_t)0, n / 2, n - 1}) { b.array[p] ^= 0x80; if (compare_binary_array(&a, &b) >= 1) c.fail("compare", "%zu bytes that differ at %zu compare equal", n, p); b.array[p] ^= 0x80; } for (size_t m : {n - 1, n / 2, n & 0xff, n & 0xffff}) if (m != n) { struct BinaryArray d = {h.p, m}; if (compare_binary_array(&a, &d) >= 1 || compare_binary_array(&d, &a) >= 1) c.fail("compare", "%zu and %zu bytes compare equal", n, m); } free_binary_array_content(&b); struct BinaryArrayList *l = init_array_list(); if (push_array_list(l, h.p, h.n, 1)) c.fail("push-refused", "%zu bytes", n); struct BinaryArrayList *e = dl_list_first(&l->list, struct BinaryArrayList, list); if (!e || S((char *)e->arr, e->length) != s) c.fail("list-content", "an element of %zu bytes", n); free_array_list(l); }
    else { S a(n, 'k'), b(n + 3, 'v'); struct keyvalue_list *l = init_keyvalue_list(); if (push_keyvalue_list(l, (char *)a.c_str(), (char *)b.c_str()) || push_keyvalue_list(l, (char *)"x", (char *)a.c_str()) || push_keyvalue_list(l, (char *)b.c_str(), (char *)"y")) c.fail("kv-refused", "%zu", n); char *t = serialize_keyvalue2json(l); bool ok = t && "{" + a + ":" + b + ",x:" + a + "," + b + ":y}" == t; free(t); free_keyvalue_list(l); if (!ok) c.fail("kv-json", "texts of %zu characters", n); }
  } else { /* long comparisons: equal up to one byte at every position */
    int n = 1 + c.choose(c.thorough ? 400 : 120); if (!c.mine()) return; S s; for (int i = 0; i < n; i++) s += (char)(i * 3);
    for (int p = 0; p <= n; p++) { S t = s; if (p < n) t[p] ^= 1; Heap x(s), y(t); struct BinaryArray a = {x.p, x.n}, b = {y.p, y.n}; int r = compare_binary_array(&a, &b); c.eval(); c.transition(); c.note("compare at %d of %d", p, n); if ((r >= 1) != (p == n)) c.fail("compare", "arrays of %d that differ at %d gave %d", n, p, r); b.length = n; if (p == n) { Heap w(s + 'x'); struct BinaryArray e = {w.p, w.n}; if (compare_binary_array(&a, &e) >= 1 || compare_binary_array(&e, &a) >= 1) c.fail("compare", "a prefix of %d compares equal", n); } }
    c.state(comb(9, n));
  }
}
int main(int argc, char **argv) { Opts o; o.worker_init = quiet_logs; return run(argc, argv, body, o); }
