/* sched.hpp - controlled scheduling of real threads through the code under test.
 *
 * The repository's sources are compiled with -fsanitize=thread but linked against this file instead of the thread
 * sanitizer: every memory access, atomic operation and function entry of theirs calls in here.  One thread runs at a
 * time (baton); a preemption plan {(point, thread)...} says where to switch.  Points are
 *   - the accesses to conflicting memory (written by one thread, accessed by another, found in discovery runs and
 *     kept up to date), lock operations and file or clock operations ("coarse"), and
 *   - in fine mode also every function entry and (unless ENTRY is set) exit.
 * Every execution runs in a forked child, so that all start from the same memory.  The address sanitizer's allocator and
 * shadow memory are in use: each access is checked against it. */
#pragma once
#include <pthread.h>
#include <semaphore.h>
#include <cerrno>
#include <cstdarg>
#include <cstddef>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <functional>
#include <string>
#include <vector>
#include <fcntl.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>
extern "C" {
int __asan_address_is_poisoned(void const volatile *);
const char *__asan_locate_address(void *, char *, size_t, void **, size_t *);
int __sanitizer_install_malloc_and_free_hooks(void (*)(const volatile void *, size_t), void (*)(const volatile void *));
void __asan_set_error_report_callback(void (*)(const char *));
}
namespace sched {
enum { MAXT = 3, MAXK = 4096, RES = 20000 };
struct Plan { int n = 0; struct { int at, to; } p[4]; int order[MAXT] = {0, 1, 2}; bool fine = false, discover = false, entry = false; /* fine: also function entries (entry) and exits */ };
struct Shm { int points, used, deadlock, poisoned, finished, newkeys; char what[1500]; int rn[MAXT]; char res[MAXT][RES]; int en; char extra[RES]; };
struct Keys { volatile int n; uint64_t k[MAXK]; }; /* conflicting memory known so far */
struct Scenario { std::string name; std::vector<std::function<std::string()>> threads; std::function<void()> prepare; std::function<std::string()> finish; };
static Shm *S; static Keys *K; static int TAG; static bool KHEAP, ENTRY; static Plan P; static int NT, CUR, COUNT, NEXTP; static sem_t SEM[MAXT], ALL; static bool DONE[MAXT]; static void *BLOCKED[MAXT]; static char *LO[MAXT], *HI[MAXT];
static __thread int TID = -1, BUSY = 0; static time_t VT[MAXT];
static uint64_t *KH; static uint64_t KHM; /* hash of the keys in effect */
struct Rec { uint64_t key; uint32_t r, w; }; static Rec *REC; static const uint64_t RECN = 1 << 21; static uint32_t *USED; static uint32_t NUSED;
struct Blk { uintptr_t p; uint64_t id; }; static Blk *BLK; static const uint64_t BLKN = 1 << 18;
static __thread uintptr_t STK[512]; static __thread int SP; struct Pc { uintptr_t pc; uint32_t n; }; static Pc *PCS[MAXT];
inline uint64_t mx(uint64_t x) { x ^= x >> 33; x *= 0xff51afd7ed558ccdull; x ^= x >> 33; x *= 0xc4ceb9fe1a85ec53ull; x ^= x >> 33; return x; }
inline void *zero(size_t n) { void *p = mmap(nullptr, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); return p == MAP_FAILED ? nullptr : p; }
[[noreturn]] inline void die(int code, const char *w) { if (S) snprintf(S->what, sizeof S->what, "%s", w); _exit(code); }
inline bool enabled(int t) { return t < NT && !DONE[t] && !BLOCKED[t]; }
inline int next() { for (int i = 0; i < NT; i++) if (enabled(P.order[i])) return P.order[i]; return -1; }
inline void to(int t, bool stay) { int me = TID; CUR = t; sem_post(&SEM[t]); if (stay) while (sem_wait(&SEM[me])) {} }
inline void point(bool fine = false) {
  if (TID < 0 || BUSY || (fine && !P.fine)) return; int i = COUNT++;
  while (NEXTP < P.n && P.p[NEXTP].at == i) { int t = P.p[NEXTP++].to; if (t < 0) t = (TID - t) % NT; /* -1: the next thread, -2: the one after it */ if (t != TID && enabled(t)) { S->used++; to(t, true); break; } }
}
inline void block(void *m) { BLOCKED[TID] = m; int t = next(); if (t < 0) { S->deadlock = 1; die(55, "every thread waits for another"); } to(t, true); }
inline void wake(void *m) { for (int i = 0; i < NT; i++) if (BLOCKED[i] == m) BLOCKED[i] = nullptr; }
static struct { uintptr_t b; size_t n; uint64_t id; } CACHE[8]; static unsigned NCACHE; static uintptr_t HEAP; /* blocks looked up last; where the allocator's memory lies */
inline uint64_t key(uintptr_t a) {
  for (int i = 0; i < NT; i++) if (a >= (uintptr_t)LO[i] && a < (uintptr_t)HI[i]) return i == TID ? 0 : (1ull << 62 | (uint64_t)i << 50 | ((uintptr_t)HI[i] - a) >> 3);
  if (a - HEAP < 0x40000000000ull && (P.discover || KHEAP)) {
    for (auto &c : CACHE) if (a - c.b < c.n) return (c.id + ((a - c.b) >> 3)) | 1ull << 63;
    void *b = nullptr; size_t n = 0; char nm[8]; const char *t = __asan_locate_address((void *)a, nm, sizeof nm, &b, &n); if (t && b && !strncmp(t, "heap", 4)) for (uint64_t h = mx((uintptr_t)b) & (BLKN - 1);; h = (h + 1) & (BLKN - 1)) { if (!BLK[h].p) break; if (BLK[h].p == (uintptr_t)b) { CACHE[NCACHE++ & 7] = {(uintptr_t)b, n, BLK[h].id}; return (BLK[h].id + ((a - (uintptr_t)b) >> 3)) | 1ull << 63; } } }
  return a >> 3 | 1;
}
inline void access(const volatile void *p, size_t n, bool w) {
  if (TID < 0 || BUSY || !n) return; BUSY = 1; uintptr_t a = (uintptr_t)p;
  if (__asan_address_is_poisoned(p) || __asan_address_is_poisoned((const volatile char *)p + n - 1)) { S->poisoned = 1; char t[200]; snprintf(t, sizeof t, "thread %d %s freed or foreign memory", TID, w ? "writes" : "reads"); die(56, t); }
  if (a >= (uintptr_t)LO[TID] && a < (uintptr_t)HI[TID]) { BUSY = 0; return; }
  bool hit = false; if (P.discover || KHM) for (uintptr_t x = a & ~7ull; x < a + n; x += 8) { uint64_t k = key(x); if (!k) continue; if (P.discover) { uint64_t h = mx(k) & (RECN - 1); while (REC[h].key && REC[h].key != k) h = (h + 1) & (RECN - 1); if (!REC[h].key) { if (NUSED >= RECN / 2) die(57, "too many addresses"); REC[h].key = k; USED[NUSED++] = (uint32_t)h; } (w ? REC[h].w : REC[h].r) |= 1u << TID; } if (KHM) for (uint64_t h = mx(k) & KHM; KH[h]; h = (h + 1) & KHM) if (KH[h] == k) { hit = true; break; } if (x - a > 4096) break; }
  BUSY = 0; if (hit) point();
}
inline void io(const void *) { point(); }
inline void on_malloc(const volatile void *p, size_t) { if (TID < 0 || BUSY || !p) return; BUSY = 1; uintptr_t pc = SP > 0 && SP <= 512 ? STK[SP - 1] : 0; Pc *t = PCS[TID]; uint64_t h = mx(pc) & 8191; while (t[h].pc && t[h].pc != pc + 1) h = (h + 1) & 8191; t[h].pc = pc + 1; uint32_t n = t[h].n++; uint64_t id = mx(mx(pc * 4 + TID) + n) << 20; for (h = mx((uintptr_t)p) & (BLKN - 1); BLK[h].p && BLK[h].p != (uintptr_t)p;) h = (h + 1) & (BLKN - 1); BLK[h].p = (uintptr_t)p; BLK[h].id = id; for (auto &c : CACHE) c.n = 0; BUSY = 0; }
inline void on_free(const volatile void *) { for (auto &c : CACHE) c.n = 0; }
inline void report(const char *t) { if (S) { const char *e = strstr(t, "ERROR: "); snprintf(S->what, sizeof S->what, "%s", e ? e : t); } }
struct Arg { const std::function<std::string()> *f; int t; };
inline void *thread(void *q) {
  Arg *a = (Arg *)q; pthread_attr_t at; void *lo; size_t n; pthread_getattr_np(pthread_self(), &at); pthread_attr_getstack(&at, &lo, &n); pthread_attr_destroy(&at); LO[a->t] = (char *)lo; HI[a->t] = (char *)lo + n; SP = 0;
  sem_post(&ALL); while (sem_wait(&SEM[a->t])) {} TID = a->t; std::string r; try { r = (*a->f)(); } catch (std::exception &e) { r = std::string("exception ") + e.what(); } catch (...) { r = "exception"; }
  BUSY = 1; S->rn[a->t] = (int)(r.size() < RES ? r.size() : RES); memcpy(S->res[a->t], r.data(), S->rn[a->t]); DONE[a->t] = true; BUSY = 0; int nx = next(); if (nx < 0) { for (int i = 0; i < NT; i++) if (!DONE[i]) { S->deadlock = 1; die(55, "the remaining threads wait for each other"); } TID = -1; sem_post(&ALL); } else { int me = TID; (void)me; to(nx, false); TID = -1; }
  return nullptr;
}
/* in the child: runs the threads under the plan */
inline void run(const Scenario &s, const Plan &p, int only) {
  P = p; NT = only >= 0 ? 1 : (int)s.threads.size(); sem_init(&ALL, 0, 0); pthread_t th[MAXT]; Arg a[MAXT]; BLK = (Blk *)zero(sizeof(Blk) * BLKN); if (p.discover) { REC = (Rec *)zero(sizeof(Rec) * RECN); USED = (uint32_t *)zero(4 * RECN); } for (int i = 0; i < NT; i++) PCS[i] = (Pc *)zero(sizeof(Pc) * 8192);
  int kn = K ? K->n : 0; if (kn) { KHM = 1; while (KHM < 4u * kn) KHM *= 2; KH = (uint64_t *)zero(8 * KHM); KHM--; for (int i = 0; i < kn; i++) { KHEAP |= K->k[i] >> 63; uint64_t h = mx(K->k[i]) & KHM; while (KH[h]) h = (h + 1) & KHM; KH[h] = K->k[i]; } }
  __sanitizer_install_malloc_and_free_hooks(on_malloc, on_free); __asan_set_error_report_callback(report); if (s.prepare) s.prepare(); if (only >= 0) VT[0] = VT[only];
  for (int i = 0; i < NT; i++) { sem_init(&SEM[i], 0, 0); a[i].f = &s.threads[only >= 0 ? only : i]; a[i].t = i; DONE[i] = false; if (pthread_create(&th[i], nullptr, thread, &a[i])) die(58, "pthread_create"); } for (int i = 0; i < NT; i++) while (sem_wait(&ALL)) {}
  CUR = P.order[0]; if (only >= 0) CUR = 0; sem_post(&SEM[CUR]); while (sem_wait(&ALL)) {} for (int i = 0; i < NT; i++) pthread_join(th[i], nullptr);
  S->points = COUNT; if (p.discover && K) for (uint32_t i = 0; i < NUSED; i++) { Rec &r = REC[USED[i]]; if (!r.w) continue; uint32_t all = r.r | r.w; if (!(all & (all - 1))) continue; bool have = false; for (int j = 0; j < K->n && !have; j++) have = K->k[j] == r.key; if (!have) { S->newkeys++; if (getenv("SCHED_SHOW")) { char t[80]; int l = snprintf(t, sizeof t, "key %lx r%x w%x io@%p\n", r.key >> 62 ? r.key : r.key << 3, r.r, r.w, (void *)&COUNT); if (::write(1, t, l)) {} } if (K->n < MAXK) { K->k[K->n] = r.key; K->n++; } else die(57, "too much conflicting memory"); } }
  if (s.finish) { std::string e = s.finish(); S->en = (int)(e.size() < RES ? e.size() : RES); memcpy(S->extra, e.data(), S->en); } S->finished = 1;
}
struct Out { bool ok = false; std::string what; std::vector<std::string> res; std::string extra; int points = 0, used = 0, newkeys = 0; };
/* runs the scenario (only: one thread of it alone) in a child */
inline Out execute(const Scenario &s, const Plan &p, int only = -1, double timeout = 30) {
  static Shm *shm = nullptr; static pid_t owner = 0; if (owner != getpid()) { shm = (Shm *)mmap(nullptr, sizeof(Shm), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); owner = getpid(); } memset(shm, 0, offsetof(Shm, res)); shm->en = 0; S = shm; fflush(stdout); fflush(stderr);
  Plan q = p; if (only >= 0) q.order[0] = 0; pid_t c = fork(); if (!c) { prctl(PR_SET_PDEATHSIG, SIGKILL); alarm((unsigned)timeout); run(s, q, only); _exit(0); }
  int st = 0; while (waitpid(c, &st, 0) < 0 && errno == EINTR) {} Out o; o.points = shm->points; o.used = shm->used; o.newkeys = shm->newkeys; o.ok = WIFEXITED(st) && WEXITSTATUS(st) == 0 && shm->finished; shm->what[sizeof shm->what - 1] = 0;
  if (!o.ok) { o.what = shm->what; if (o.what.empty()) { char t[100]; snprintf(t, sizeof t, WIFSIGNALED(st) && WTERMSIG(st) == SIGALRM ? "no progress" : WIFSIGNALED(st) ? "killed by signal %d" : "exit status %d", WIFSIGNALED(st) ? WTERMSIG(st) : WEXITSTATUS(st)); o.what = t; } return o; }
  for (int i = 0; i < (only >= 0 ? 1 : (int)s.threads.size()); i++) o.res.push_back(std::string(shm->res[i], shm->rn[i])); o.extra.assign(shm->extra, shm->en); return o;
}
inline Keys *newkeys() { return (Keys *)mmap(nullptr, sizeof(Keys), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); }
inline void init() { void *h = malloc(16); HEAP = (uintptr_t)h & ~0x3ffffffffffull; free(h); }
/* conflicting memory of the scenario, to a fixpoint over the runs without and about 40 with one coarse preemption; returns (coarse, fine) numbers of points */
inline std::pair<int, int> discover(const Scenario &s, std::string &err) {
  int n = (int)s.threads.size(); for (int round = 0; round < 6; round++) { int before = K->n, maxp = 0; Plan p; p.discover = true;
    for (int f = 0; f < n; f++) { for (int i = 0; i < n; i++) p.order[i] = (f + i) % n; p.n = 0; Out o = execute(s, p); if (!o.ok) { err = o.what; return {0, 0}; } if (o.points > maxp) maxp = o.points; int np = o.points, step = np / 40 + 1; for (int at = 0; at < np; at += step) for (int t = 0; t < n; t++) { if (t == p.order[0]) continue; p.n = 1; p.p[0] = {at, t}; o = execute(s, p); if (!o.ok) { err = o.what; return {0, 0}; } if (o.points > maxp) maxp = o.points; } }
    if (K->n == before) { Plan f; f.fine = true; f.entry = ENTRY; int mf = 0; for (int i0 = 0; i0 < n; i0++) { for (int i = 0; i < n; i++) f.order[i] = (i0 + i) % n; Out o = execute(s, f); if (!o.ok) { err = o.what; return {0, 0}; } if (o.points > mf) mf = o.points; } return {maxp, mf}; } }
  err = "the conflicting memory does not settle"; return {0, 0};
}
/* the schedules of one scenario, chosen through the explorer: every start order; one preemption at every point (fine), or up to k at every coarse point */
struct Space { Scenario s; std::pair<int, int> pts; std::vector<std::string> alone, alone_extra; std::string err;
  Keys *keys = nullptr;
  void measure() { K = keys; pts = discover(s, err); for (size_t i = 0; i < s.threads.size() && err.empty(); i++) { Out o = execute(s, Plan(), (int)i); if (!o.ok) err = "alone: " + o.what; else { alone.push_back(o.res[0]); alone_extra.push_back(o.extra); } } }
  Out run(const Plan &p) const { K = keys; return execute(s, p); }
  /* every scenario in a process of its own */
  static void measure_all(std::vector<Space> &v) {
    struct M { int a, b; char err[600]; int n, rn[MAXT], en[MAXT]; char r[MAXT][RES], e[MAXT][RES]; }; size_t sz = sizeof(M) * v.size(); M *m = (M *)mmap(nullptr, sz, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); std::vector<pid_t> ps; for (auto &x : v) x.keys = newkeys(); fflush(stdout); fflush(stderr);
    for (size_t i = 0; i < v.size(); i++) { pid_t p = fork(); if (!p) { prctl(PR_SET_PDEATHSIG, SIGKILL); TAG = (int)i; Space &x = v[i]; x.measure(); m[i].a = x.pts.first; m[i].b = x.pts.second; snprintf(m[i].err, sizeof m[i].err, "%s", x.err.c_str()); m[i].n = (int)x.alone.size(); for (int k = 0; k < m[i].n; k++) { m[i].rn[k] = (int)x.alone[k].size(); memcpy(m[i].r[k], x.alone[k].data(), x.alone[k].size()); m[i].en[k] = (int)x.alone_extra[k].size(); memcpy(m[i].e[k], x.alone_extra[k].data(), x.alone_extra[k].size()); } _exit(0); } ps.push_back(p); }
    for (size_t i = 0; i < v.size(); i++) { int st = 0; while (waitpid(ps[i], &st, 0) < 0 && errno == EINTR) {} Space &x = v[i]; x.pts = {m[i].a, m[i].b}; x.err = m[i].err; if (x.err.empty() && (st || m[i].n != (int)x.s.threads.size())) x.err = "the measurement died"; for (int k = 0; k < m[i].n; k++) { x.alone.push_back(std::string(m[i].r[k], m[i].rn[k])); x.alone_extra.push_back(std::string(m[i].e[k], m[i].en[k])); } if (getenv("SCHED_SHOW")) { char t[400]; int l = snprintf(t, sizeof t, "%s: %d coarse, %d fine points, %d keys; %s %.60s\n", x.s.name.c_str(), x.pts.first, x.pts.second, x.keys->n, x.err.c_str(), x.alone.size() ? x.alone[0].c_str() : ""); if (::write(1, t, l)) {} } } munmap(m, sz); }
  int bound(const Plan &p) const { int n = p.fine ? pts.second : pts.first; return n + n / 20 + 4; }
  template <class C> void pick(C &c, int k, Plan &p) const {
    int n = (int)s.threads.size(); static const int O3[6][3] = {{0, 1, 2}, {1, 2, 0}, {2, 0, 1}, {0, 2, 1}, {1, 0, 2}, {2, 1, 0}}, O2[2][3] = {{0, 1, 2}, {1, 0, 2}}; int o = c.choose(n == 3 ? ENTRY ? 3 : 6 : 2); p.entry = ENTRY; for (int i = 0; i < MAXT; i++) p.order[i] = n == 3 ? O3[o][i] : O2[o][i];
    p.fine = c.choose(2) == 0; p.n = 0; if (p.fine) { one(c, p, 0, bound(p), n); return; } int at = -1, lim = bound(p); for (int i = 0; i < k; i++) { int a = c.choose(lim - at); if (a == 0) break; at += a; p.p[p.n].at = at; p.p[p.n].to = n == 2 ? -1 : -1 - c.choose(n - 1); p.n++; if (at + 1 >= lim) break; }
  }
  template <class C> static void one(C &c, Plan &p, int from, int lim, int n) { p.p[0].at = from + c.choose(lim); p.p[0].to = n == 2 ? -1 : -1 - c.choose(n - 1); p.n = 1; }
  static std::string show(const Plan &p, int n) { char t[200]; int l = snprintf(t, sizeof t, "order %d%d", p.order[0], p.order[1]); if (n > 2) l += snprintf(t + l, sizeof t - l, "%d", p.order[2]); l += snprintf(t + l, sizeof t - l, p.fine ? ", fine" : ""); for (int i = 0; i < p.n; i++) l += snprintf(t + l, sizeof t - l, ", at %d to %d", p.p[i].at, p.p[i].to); return t; }
};
} // namespace sched
/* --- runtime called by the instrumented code --- */
extern "C" {
void __tsan_init() {}
void __tsan_func_entry(void *pc) { if (sched::TID >= 0 && !sched::BUSY) { if (sched::SP < 512) sched::STK[sched::SP] = (uintptr_t)pc; sched::SP++; sched::point(true); } }
void __tsan_func_exit() { if (sched::TID >= 0 && !sched::BUSY) { if (!sched::P.entry) sched::point(true); if (sched::SP > 0) sched::SP--; } }
#define SCHED_RW(n) void __tsan_read##n(void *a) { sched::access(a, n, false); } void __tsan_write##n(void *a) { sched::access(a, n, true); } void __tsan_unaligned_read##n(void *a) { sched::access(a, n, false); } void __tsan_unaligned_write##n(void *a) { sched::access(a, n, true); } void __tsan_volatile_read##n(void *a) { sched::access(a, n, false); } void __tsan_volatile_write##n(void *a) { sched::access(a, n, true); } void __tsan_unaligned_volatile_read##n(void *a) { sched::access(a, n, false); } void __tsan_unaligned_volatile_write##n(void *a) { sched::access(a, n, true); }
SCHED_RW(1) SCHED_RW(2) SCHED_RW(4) SCHED_RW(8) SCHED_RW(16)
void __tsan_read_range(void *a, size_t n) { sched::access(a, n, false); }
void __tsan_write_range(void *a, size_t n) { sched::access(a, n, true); }
void __tsan_vptr_update(void **a, void *) { sched::access(a, 8, true); }
void __tsan_vptr_read(void **a) { sched::access(a, 8, false); }
#define SCHED_AT(b, T) \
  T __tsan_atomic##b##_load(const volatile T *a, int) { sched::access(a, sizeof(T), false); return __atomic_load_n(a, 5); } \
  void __tsan_atomic##b##_store(volatile T *a, T v, int) { sched::access(a, sizeof(T), true); __atomic_store_n(a, v, 5); } \
  T __tsan_atomic##b##_exchange(volatile T *a, T v, int) { sched::access(a, sizeof(T), true); return __atomic_exchange_n(a, v, 5); } \
  T __tsan_atomic##b##_fetch_add(volatile T *a, T v, int) { sched::access(a, sizeof(T), true); return __atomic_fetch_add(a, v, 5); } \
  T __tsan_atomic##b##_fetch_sub(volatile T *a, T v, int) { sched::access(a, sizeof(T), true); return __atomic_fetch_sub(a, v, 5); } \
  T __tsan_atomic##b##_fetch_and(volatile T *a, T v, int) { sched::access(a, sizeof(T), true); return __atomic_fetch_and(a, v, 5); } \
  T __tsan_atomic##b##_fetch_or(volatile T *a, T v, int) { sched::access(a, sizeof(T), true); return __atomic_fetch_or(a, v, 5); } \
  T __tsan_atomic##b##_fetch_xor(volatile T *a, T v, int) { sched::access(a, sizeof(T), true); return __atomic_fetch_xor(a, v, 5); } \
  int __tsan_atomic##b##_compare_exchange_strong(volatile T *a, T *c, T v, int, int) { sched::access(a, sizeof(T), true); return __atomic_compare_exchange_n(a, c, v, 0, 5, 5); } \
  int __tsan_atomic##b##_compare_exchange_weak(volatile T *a, T *c, T v, int, int) { sched::access(a, sizeof(T), true); return __atomic_compare_exchange_n(a, c, v, 0, 5, 5); } \
  T __tsan_atomic##b##_compare_exchange_val(volatile T *a, T c, T v, int, int) { sched::access(a, sizeof(T), true); __atomic_compare_exchange_n(a, &c, v, 0, 5, 5); return c; }
SCHED_AT(8, uint8_t) SCHED_AT(16, uint16_t) SCHED_AT(32, uint32_t) SCHED_AT(64, uint64_t)
void __tsan_atomic_thread_fence(int) {}
void __tsan_atomic_signal_fence(int) {}
/* --- wrapped library functions: shared state of the C library, files, clocks, locks --- */
#define W(r, f, ...) r __real_##f(__VA_ARGS__); r __wrap_##f(__VA_ARGS__)
W(struct tm *, localtime, const time_t *t) { sched::access(t, sizeof *t, false); struct tm *r = __real_localtime(t); if (r) sched::access(r, sizeof *r, true); return r; }
W(struct tm *, gmtime, const time_t *t) { sched::access(t, sizeof *t, false); struct tm *r = __real_gmtime(t); if (r) sched::access(r, sizeof *r, true); return r; }
W(char *, asctime, const struct tm *t) { char *r = __real_asctime(t); if (r) sched::access(r, 26, true); return r; }
W(char *, ctime, const time_t *t) { char *r = __real_ctime(t); if (r) sched::access(r, 26, true); return r; }
W(char *, strtok, char *s, const char *d) { static long st; sched::access(&st, 8, true); return __real_strtok(s, d); }
W(int, rand, void) { static long st; sched::access(&st, 8, true); return __real_rand(); }
W(void, srand, unsigned s) { static long st; sched::access(&st, 8, true); __real_srand(s); }
W(char *, setlocale, int c, const char *l) { static long st; sched::access(&st, 8, l != nullptr); return __real_setlocale(c, l); }
W(time_t, time, time_t *p) { if (sched::TID < 0) return __real_time(p); sched::io(nullptr); time_t t = sched::VT[sched::TID]; if (p) *p = t; return t; }
W(int, gettimeofday, struct timeval *tv, void *z) { if (sched::TID < 0) return __real_gettimeofday(tv, z); sched::io(nullptr); tv->tv_sec = sched::VT[sched::TID]; tv->tv_usec = 123456; return 0; }
W(int, clock_gettime, clockid_t c, struct timespec *ts) { if (sched::TID < 0 || c != CLOCK_REALTIME) return __real_clock_gettime(c, ts); sched::io(nullptr); ts->tv_sec = sched::VT[sched::TID]; ts->tv_nsec = 123456789; return 0; }
W(FILE *, fopen, const char *p, const char *m) { sched::io(p); FILE *f = __real_fopen(p, m); sched::io(p); return f; }
W(int, fclose, FILE *f) { sched::io(f); int r = __real_fclose(f); sched::io(nullptr); return r; }
W(int, fflush, FILE *f) { sched::io(f); return __real_fflush(f); }
W(size_t, fwrite, const void *p, size_t s, size_t n, FILE *f) { sched::access(p, s * n, false); sched::io(f); size_t r = __real_fwrite(p, s, n, f); sched::io(f); return r; }
W(int, fputs, const char *s, FILE *f) { sched::io(f); int r = __real_fputs(s, f); sched::io(f); return r; }
W(int, fputc, int ch, FILE *f) { sched::io(f); int r = __real_fputc(ch, f); sched::io(f); return r; }
W(int, putc, int ch, FILE *f) { sched::io(f); int r = __real_putc(ch, f); sched::io(f); return r; }
W(int, vfprintf, FILE *f, const char *m, va_list a) { sched::io(f); int r = __real_vfprintf(f, m, a); sched::io(f); return r; }
int __wrap_fprintf(FILE *f, const char *m, ...) { va_list a; va_start(a, m); sched::io(f); int r = __real_vfprintf(f, m, a); va_end(a); sched::io(f); return r; }
W(int, vdprintf, int f, const char *m, va_list a) { sched::io(nullptr); int r = __real_vdprintf(f, m, a); sched::io(nullptr); return r; }
int __wrap_dprintf(int f, const char *m, ...) { va_list a; va_start(a, m); sched::io(nullptr); int r = __real_vdprintf(f, m, a); va_end(a); sched::io(nullptr); return r; }
W(ssize_t, write, int f, const void *p, size_t n) { sched::io(nullptr); ssize_t r = __real_write(f, p, n); sched::io(nullptr); return r; }
W(int, rename, const char *a, const char *b) { sched::io(a); int r = __real_rename(a, b); sched::io(b); return r; }
W(int, unlink, const char *a) { sched::io(a); int r = __real_unlink(a); sched::io(a); return r; }
W(int, vsnprintf, char *b, size_t n, const char *m, va_list a) { int r = __real_vsnprintf(b, n, m, a); if (r >= 0 && n) sched::access(b, (size_t)r < n ? r + 1 : n, true); return r; }
int __wrap_snprintf(char *b, size_t n, const char *m, ...) { va_list a; va_start(a, m); int r = __real_vsnprintf(b, n, m, a); va_end(a); if (r >= 0 && n) sched::access(b, (size_t)r < n ? r + 1 : n, true); return r; }
W(int, vsprintf, char *b, const char *m, va_list a) { int r = __real_vsprintf(b, m, a); if (r >= 0) sched::access(b, r + 1, true); return r; }
int __wrap_sprintf(char *b, const char *m, ...) { va_list a; va_start(a, m); int r = __real_vsprintf(b, m, a); va_end(a); if (r >= 0) sched::access(b, r + 1, true); return r; }
W(size_t, strftime, char *b, size_t n, const char *m, const struct tm *t) { sched::access(t, sizeof *t, false); size_t r = __real_strftime(b, n, m, t); if (r) sched::access(b, r + 1, true); return r; }
W(void *, memcpy, void *d, const void *s, size_t n) { sched::access(s, n, false); sched::access(d, n, true); return __real_memcpy(d, s, n); }
W(void *, memmove, void *d, const void *s, size_t n) { sched::access(s, n, false); sched::access(d, n, true); return __real_memmove(d, s, n); }
W(void *, memset, void *d, int v, size_t n) { sched::access(d, n, true); return __real_memset(d, v, n); }
W(int, memcmp, const void *a, const void *b, size_t n) { sched::access(a, n, false); sched::access(b, n, false); return __real_memcmp(a, b, n); }
W(char *, strcpy, char *d, const char *s) { size_t n = strlen(s) + 1; sched::access(s, n, false); sched::access(d, n, true); return __real_strcpy(d, s); }
W(char *, strncpy, char *d, const char *s, size_t n) { sched::access(s, strnlen(s, n), false); sched::access(d, n, true); return __real_strncpy(d, s, n); }
W(char *, strcat, char *d, const char *s) { sched::access(s, strlen(s) + 1, false); sched::access(d + strlen(d), strlen(s) + 1, true); return __real_strcat(d, s); }
W(size_t, strlen, const char *s) { size_t n = __real_strlen(s); sched::access(s, n + 1, false); return n; }
W(int, strcmp, const char *a, const char *b) { sched::access(a, 1, false); sched::access(b, 1, false); return __real_strcmp(a, b); }
W(char *, strdup, const char *s) { sched::access(s, __real_strlen(s) + 1, false); return __real_strdup(s); }
W(int, pthread_mutex_trylock, pthread_mutex_t *m) { sched::point(); return __real_pthread_mutex_trylock(m); }
W(int, pthread_mutex_lock, pthread_mutex_t *m) { if (sched::TID < 0 || sched::BUSY) return __real_pthread_mutex_lock(m); sched::point(); for (;;) { int r = __real_pthread_mutex_trylock(m); if (r != EBUSY) return r; sched::block(m); } }
W(int, pthread_mutex_unlock, pthread_mutex_t *m) { int r = __real_pthread_mutex_unlock(m); if (sched::TID >= 0 && !sched::BUSY) { sched::wake(m); sched::point(); } return r; }
int __real_pthread_rwlock_tryrdlock(pthread_rwlock_t *); int __real_pthread_rwlock_trywrlock(pthread_rwlock_t *);
int __wrap_pthread_rwlock_tryrdlock(pthread_rwlock_t *m) { sched::point(); return __real_pthread_rwlock_tryrdlock(m); }
int __wrap_pthread_rwlock_trywrlock(pthread_rwlock_t *m) { sched::point(); return __real_pthread_rwlock_trywrlock(m); }
W(int, pthread_rwlock_rdlock, pthread_rwlock_t *m) { if (sched::TID < 0 || sched::BUSY) return __real_pthread_rwlock_rdlock(m); sched::point(); for (;;) { int r = __real_pthread_rwlock_tryrdlock(m); if (r != EBUSY) return r; sched::block(m); } }
W(int, pthread_rwlock_wrlock, pthread_rwlock_t *m) { if (sched::TID < 0 || sched::BUSY) return __real_pthread_rwlock_wrlock(m); sched::point(); for (;;) { int r = __real_pthread_rwlock_trywrlock(m); if (r != EBUSY) return r; sched::block(m); } }
W(int, pthread_rwlock_unlock, pthread_rwlock_t *m) { int r = __real_pthread_rwlock_unlock(m); if (sched::TID >= 0 && !sched::BUSY) { sched::wake(m); sched::point(); } return r; }
int __real_pthread_once(pthread_once_t *, void (*)(void)); static pthread_once_t *sched_once[64]; static int sched_nonce; static void sched_nop() {}
int __wrap_pthread_once(pthread_once_t *o, void (*f)(void)) {
  if (sched::TID < 0 || sched::BUSY) return __real_pthread_once(o, f); sched::point(); static pthread_once_t *run[sched::MAXT]; for (;;) { bool done = false, busy = false; for (int i = 0; i < sched_nonce; i++) done |= sched_once[i] == o; for (auto r : run) busy |= r == o; if (done) return 0; if (!busy) break; sched::block(o); }
  int t = sched::TID; if (*o == 2) return 0; run[t] = o; f(); run[t] = nullptr; if (sched_nonce < 64) sched_once[sched_nonce++] = o; __real_pthread_once(o, sched_nop); sched::wake(o); return 0; }
int __real___cxa_guard_acquire(uint64_t *); void __real___cxa_guard_release(uint64_t *); void __real___cxa_guard_abort(uint64_t *); static uint64_t *sched_guard[sched::MAXT];
int __wrap___cxa_guard_acquire(uint64_t *g) { if (sched::TID < 0 || sched::BUSY) return __real___cxa_guard_acquire(g); sched::point(); for (;;) { if (*(volatile char *)g) return 0; bool busy = false; for (auto r : sched_guard) busy |= r == g; if (!busy) break; sched::block(g); } sched_guard[sched::TID] = g; return __real___cxa_guard_acquire(g); }
void __wrap___cxa_guard_release(uint64_t *g) { __real___cxa_guard_release(g); if (sched::TID >= 0) { sched_guard[sched::TID] = nullptr; sched::wake(g); sched::point(); } }
void __wrap___cxa_guard_abort(uint64_t *g) { __real___cxa_guard_abort(g); if (sched::TID >= 0) { sched_guard[sched::TID] = nullptr; sched::wake(g); sched::point(); } }
#undef W
}
