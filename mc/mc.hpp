/* mc.hpp - small stateless model-checking core.
 *
 * A check is a deterministic function body(Ctx&) that asks the explorer for
 * every nondeterministic choice (operation, argument, fault position, schedule
 * step ...) through Ctx::choose(n).  The explorer enumerates ALL choice
 * sequences depth first.  Leaves are sharded over forked workers (mine()), so
 * that a crash, sanitizer report, hang or exit() of the code under test only
 * ends the worker; the parent then re-runs the single choice sequence alone
 * before it reports it.  Allocation growth that repeats on every execution of
 * the same choice sequence is reported as a leak.
 */
#pragma once
#include <algorithm>
#include <atomic>
#include <cerrno>
#include <csignal>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <exception>
#include <functional>
#include <new>
#include <set>
#include <string>
#include <vector>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>

#if defined(__SANITIZE_ADDRESS__)
extern "C" size_t __sanitizer_get_current_allocated_bytes();
#define MC_HAVE_ASAN 1
#endif

namespace mc {

static const int MAXVEC = 4096;
static const int MAXW = 16;
static const int MAXVIOL = 12;
static const int MAXSAMP = 4;
static const uint64_t HCELLS = 1 << 15;

struct Fail {};
struct Diverged {};

inline uint64_t fnv(const void *p, size_t n, uint64_t h = 1469598103934665603ull) {
  const unsigned char *c = (const unsigned char *)p;
  for (size_t i = 0; i < n; i++) { h ^= c[i]; h *= 1099511628211ull; }
  return h;
}
inline uint64_t fnvs(const std::string &s, uint64_t h = 1469598103934665603ull) { return fnv(s.data(), s.size(), h); }
inline uint64_t mix(uint64_t x) {
  x ^= x >> 33; x *= 0xff51afd7ed558ccdull; x ^= x >> 33; x *= 0xc4ceb9fe1a85ec53ull; x ^= x >> 33; return x;
}
inline uint64_t comb(uint64_t a, uint64_t b) { return mix(a * 0x9E3779B97F4A7C15ull + b + 0x1234567); }
inline double now() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }

struct Cell { int16_t c, n; };

struct Viol {
  char sig[256];
  char detail[2000];
  int len;
  Cell vec[MAXVEC];
  int kind; /* 0 fail, 1 crash, 2 hang, 3 leak */
  uint64_t hlen; Cell hist[HCELLS]; /* the cases before it */
};

struct WShm {
  std::atomic<uint64_t> beat;
  std::atomic<int> done;
  int len;
  Cell vec[MAXVEC];
  uint64_t leaf;
  char note[3000];
  uint64_t evals, trans, valid, leaves;
  uint64_t user[16];
  int nsamp;
  char samp[MAXSAMP][900];
  int nviol;
  Viol viol[MAXVIOL];
  char err[400];
  int cap_hit;
  /* the cases this worker process has run, oldest first, for failures that need what earlier cases left behind */
  uint64_t hput; Cell hist[HCELLS];
};

struct Shared {
  WShm w[MAXW];
  std::atomic<uint64_t> nstates, ndistinct, nsigs;
  std::atomic<int> stop;
};

static const size_t HBITS = 25;
struct HSet {
  std::atomic<uint64_t> *t = nullptr;
  void init() {
    t = (std::atomic<uint64_t> *)mmap(nullptr, sizeof(uint64_t) << HBITS, PROT_READ | PROT_WRITE,
                                      MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (t == MAP_FAILED) { perror("mmap"); _exit(3); }
  }
  bool insert(uint64_t h) { /* true if new */
    if (!h) h = 1;
    size_t m = ((size_t)1 << HBITS) - 1, i = mix(h) & m;
    for (size_t k = 0; k <= m; k++, i = (i + 1) & m) {
      uint64_t v = t[i].load(std::memory_order_relaxed);
      if (v == h) return false;
      if (v == 0) {
        uint64_t e = 0;
        if (t[i].compare_exchange_strong(e, h)) return true;
        if (e == h) return false;
      }
    }
    return false;
  }
};

struct Opts {
  int workers = 8;
  double case_timeout = 60;   /* seconds without progress before a case is re-run alone as a hang suspect */
  double total_cap = 780;     /* wall seconds; reaching it is reported as a cap, never as exhaustive */
  bool leakcheck = true;
  std::function<void()> worker_init; /* run in every worker (and replay child) before the first case */
  int max_viol = 4;
  double history_cap = 120; /* wall seconds spent on failures that do not repeat alone */
  std::function<void()> settle; /* releases library caches before memory is compared */
};

struct Ctx {
  Shared *sh; WShm *w; HSet *hs, *hd;
  std::vector<Cell> vec; size_t pos = 0;
  uint64_t leaf = 0; int wi = 0, nw = 1;
  bool replaying = false, quiet = false, thorough = false;
  bool owned = false, asked = false;
  bool noleak_case = false;
  std::string scratch;

  int choose(int n, const char * = "") {
    if (n <= 0 || n > 32000) { snprintf(w->err, sizeof w->err, "choose(%d)", n); throw Diverged(); }
    if (pos < vec.size()) {
      if (vec[pos].n != n) {
        snprintf(w->err, sizeof w->err, "replay divergence at %zu: had %d alternatives, now %d", pos, vec[pos].n, n);
        throw Diverged();
      }
    } else {
      if (vec.size() >= MAXVEC) { snprintf(w->err, sizeof w->err, "choice vector too long"); throw Diverged(); }
      vec.push_back(Cell{0, (int16_t)n});
    }
    w->vec[pos] = vec[pos]; w->len = (int)pos + 1;
    return vec[pos++].c;
  }
  /* leaf sharding: cheap choices before, expensive work (and more choices) after */
  bool mine() {
    asked = true;
    if (replaying) return owned = true;
    /* all leaves that share the prefix up to here belong to one worker */
    uint64_t h = 7;
    for (size_t i = 0; i < pos; i++) h = comb(h, vec[i].c);
    owned = (int)(mix(h) % nw) == wi;
    return owned;
  }
  void eval(uint64_t n = 1) { if (!quiet) w->evals += n; }
  void transition(uint64_t n = 1) { if (!quiet) w->trans += n; }
  void validated(uint64_t n = 1) { if (!quiet) w->valid += n; }
  void user(int i, uint64_t n = 1) { if (!quiet) w->user[i] += n; }
  bool state(uint64_t h) { bool r = hs->insert(h); if (r) sh->nstates++; return r; }
  bool distinct(uint64_t h) { bool r = hd->insert(h); if (r) sh->ndistinct++; return r; }
  __attribute__((format(printf, 2, 3))) void note(const char *f, ...) {
    va_list a; va_start(a, f); vsnprintf(w->note, sizeof w->note, f, a); va_end(a);
  }
  __attribute__((format(printf, 2, 3))) void sample(const char *f, ...) {
    if (quiet || w->nsamp >= MAXSAMP) return;
    va_list a; va_start(a, f); vsnprintf(w->samp[w->nsamp++], sizeof w->samp[0], f, a); va_end(a);
  }
  void add_viol(int kind, const char *sig, const char *detail) {
    if (w->nviol >= MAXVIOL) return;
    for (int i = 0; i < w->nviol; i++) if (!strcmp(w->viol[i].sig, sig)) return;
    Viol &v = w->viol[w->nviol];
    snprintf(v.sig, sizeof v.sig, "%s", sig);
    snprintf(v.detail, sizeof v.detail, "%s", detail);
    v.len = (int)pos; for (int i = 0; i < v.len; i++) v.vec[i] = vec[i];
    v.kind = kind;
    v.hlen = w->hput < HCELLS ? w->hput : HCELLS;
    for (uint64_t i = 0; i < v.hlen; i++) v.hist[i] = w->hist[(w->hput - v.hlen + i) % HCELLS];
    w->nviol++;
  }
  /* a case that ran is remembered as its cells and their number */
  void remember() { for (size_t i = 0; i < pos; i++) w->hist[w->hput++ % HCELLS] = vec[i]; w->hist[w->hput++ % HCELLS] = Cell{-1, (int16_t)pos}; }
  /* sig identifies WHAT fails (stable, used for known findings); detail is free text */
  [[noreturn]] __attribute__((format(printf, 3, 4))) void fail(const char *sig, const char *f, ...) {
    char d[2000]; va_list a; va_start(a, f); vsnprintf(d, sizeof d, f, a); va_end(a);
    add_viol(0, sig, d);
    throw Fail();
  }
};

#define MC_CHECK(c, cond, sig, ...) do { if (!(cond)) (c).fail(sig, __VA_ARGS__); } while (0)

typedef void (*Body)(Ctx &);

inline size_t allocated() {
#ifdef MC_HAVE_ASAN
  return __sanitizer_get_current_allocated_bytes();
#else
  return 0;
#endif
}

/* runs one case; returns false if it failed (already recorded) */
inline bool run_one(Ctx &c, Body body) {
  c.pos = 0; c.asked = false; c.owned = false; c.noleak_case = false;
  try { body(c); }
  catch (Fail &) { return false; }
  return true;
}

inline bool run_case(Ctx &c, Body body, const Opts &o) {
  size_t before = allocated();
  bool ok = run_one(c, body);
  if (!ok) return false;
  size_t after = allocated();
  bool ran = c.owned || !c.asked;
  if (o.leakcheck && ran && !c.noleak_case && after > before) {
    size_t g[4];
    for (int k = 0; k < 4; k++) {
      c.quiet = true;
      if (o.settle) o.settle();
      size_t b = allocated();
      bool r = run_one(c, body);
      if (o.settle) o.settle();
      size_t a = allocated();
      c.quiet = false;
      if (!r) return false;
      if (a <= b) return true;
      g[k] = a - b;
    }
    char d[2200];
    snprintf(d, sizeof d, "memory leaked on every execution (%zu, %zu, %zu, %zu bytes): %s", g[0], g[1], g[2], g[3], c.w->note);
    c.add_viol(3, "leak", d);
    return false;
  }
  return true;
}

inline bool advance(std::vector<Cell> &v, size_t used) {
  v.resize(used);
  while (!v.empty()) {
    if (v.back().c + 1 < v.back().n) { v.back().c++; return true; }
    v.pop_back();
  }
  return false;
}

struct Run {
  Opts o; Body body; Shared *sh; HSet hs, hd; const char *scratch; bool thorough; std::string logdir;

  void silence(int i) {
    char p[600]; snprintf(p, sizeof p, "%s/worker%d.log", logdir.c_str(), i);
    int fd = open(p, O_CREAT | O_WRONLY | O_TRUNC, 0600);
    if (fd >= 0) { dup2(fd, 2); close(fd); }
  }
  void initctx(Ctx &c, int wi) {
    c.sh = sh; c.w = &sh->w[wi]; c.hs = &hs; c.hd = &hd; c.thorough = thorough;
    c.vec.reserve(MAXVEC + 1); c.wi = wi; c.nw = o.workers;
    char b[600]; snprintf(b, sizeof b, "%s/w%d", scratch, wi); mkdir(b, 0700); c.scratch = b;
  }
  [[noreturn]] void worker(int wi, bool resume) {
    prctl(PR_SET_PDEATHSIG, SIGKILL);
    silence(wi);
    Ctx c; initctx(c, wi);
    if (o.worker_init) o.worker_init();
    bool more = true;
    if (resume) {
      c.vec.assign(c.w->vec, c.w->vec + c.w->len);
      more = advance(c.vec, c.vec.size());
    }
    c.w->beat++; c.w->hput = 0;
    double t0 = now();
    try {
      while (more) {
        run_case(c, body, o);
        if (c.owned || !c.asked) { c.w->leaves++; c.w->beat++; c.remember(); }
        else if ((c.leaf++ & 0x3ff) == 0) c.w->beat++;
        if (c.w->nviol >= o.max_viol || sh->stop.load()) break;
        if (now() - t0 > o.total_cap) { c.w->cap_hit = 1; break; }
        more = advance(c.vec, c.pos);
      }
    } catch (Diverged &) { c.w->done = 3; _exit(4); }
    c.w->done = 1;
    _exit(0);
  }
  typedef std::vector<std::vector<Cell>> Hist;
  /* the last n of the cases in h */
  static Hist last(const Cell *h, uint64_t len, size_t n) {
    Hist r; uint64_t e = len;
    while (r.size() < n && e > 0) {
      uint64_t k = h[e - 1].n;
      if (k + 1 > e) break;
      r.insert(r.begin(), std::vector<Cell>(h + (e - 1 - k), h + (e - 1)));
      e -= k + 1;
    }
    return r;
  }
  /* re-run one vector alone, or after the cases of before: 0 ok, 1 fail, 2 crash, 3 hang, 4 diverged */
  int alone(const Cell *vec, int len, std::string &sig, std::string &detail, double tmo, const Hist *before = nullptr) {
    int slot = MAXW - 1;
    WShm &w = sh->w[slot];
    w.nviol = 0; w.done = 0; w.note[0] = 0; w.err[0] = 0; w.hput = 0;
    pid_t p = fork();
    if (!p) {
      prctl(PR_SET_PDEATHSIG, SIGKILL);
      silence(slot);
      Ctx c; initctx(c, slot); c.replaying = true; c.quiet = false;
      if (o.worker_init) o.worker_init();
      try {
        if (before) for (auto &h : *before) { c.vec = h; run_case(c, body, o); if (w.nviol) break; }
        if (!w.nviol) { c.vec.assign(vec, vec + len); run_case(c, body, o); }
      } catch (Diverged &) { _exit(4); }
      w.done = 1;
      _exit(w.nviol ? 1 : 0);
    }
    double t0 = now(); int st = 0;
    for (;;) {
      pid_t r = waitpid(p, &st, WNOHANG);
      if (r == p) break;
      if (now() - t0 > tmo) { kill(p, SIGKILL); waitpid(p, &st, 0); sig = "hang"; detail = std::string("no progress: ") + w.note; return 3; }
      usleep(5000);
    }
    if (WIFEXITED(st) && WEXITSTATUS(st) == 4) { detail = w.err; return 4; }
    if (w.nviol) { sig = w.viol[0].sig; detail = w.viol[0].detail; return 1; }
    if (w.done == 1 && WIFEXITED(st) && WEXITSTATUS(st) == 0) return 0;
    char b[64];
    if (WIFSIGNALED(st)) snprintf(b, sizeof b, "signal %d", WTERMSIG(st));
    else snprintf(b, sizeof b, "exit %d", WEXITSTATUS(st));
    std::string rep = crashlog(slot);
    sig = "crash:" + kind(rep, b);
    detail = std::string("process died (") + b + ") while: " + w.note + " | " + rep;
    return 2;
  }
  std::string crashlog(int slot) {
    char p[600]; snprintf(p, sizeof p, "%s/worker%d.log", logdir.c_str(), slot);
    FILE *f = fopen(p, "r"); std::string out; if (!f) return out;
    char line[1000]; int frames = 0;
    while (fgets(line, sizeof line, f)) {
      if (strstr(line, "ERROR: ") || strstr(line, "runtime error") || strstr(line, "SUMMARY") || strstr(line, "terminate called") || strstr(line, "what():")) {
        line[strcspn(line, "\n")] = 0; out += line; out += " ; ";
      } else if (strstr(line, " #") && strstr(line, " in ") && frames < 8) {
        line[strcspn(line, "\n")] = 0; char *q = strstr(line, " in "); out += q; out += " ; "; frames++;
      }
      if (out.size() > 1500) break;
    }
    fclose(f); return out;
  }
  std::string kind(const std::string &rep, const char *b) {
    size_t p = rep.find("AddressSanitizer: ");
    if (p != std::string::npos) { size_t e = rep.find_first_of(" \n", p + 18); return rep.substr(p + 18, e - p - 18); }
    p = rep.find("runtime error: ");
    if (p != std::string::npos) return rep.substr(p, 60);
    if (rep.find("terminate called") != std::string::npos) return "uncaught-exception";
    return b;
  }
};

inline std::string jesc(const std::string &s) {
  std::string o; char b[8];
  for (unsigned char ch : s) {
    if (ch == '"' || ch == '\\') { o += '\\'; o += ch; }
    else if (ch < 0x20 || ch >= 0x7f) { snprintf(b, sizeof b, "\\u%04x", ch); o += b; }
    else o += ch;
  }
  return o;
}

/* argv: --scratch D --out J [--tier T] [--replay "c/n,c/n,..."] */
inline int run(int argc, char **argv, Body body, Opts o = Opts()) {
  Run R; R.o = o; R.body = body;
  const char *scratch = "/tmp", *out = nullptr, *replay = nullptr; R.thorough = false;
  for (int i = 1; i + 1 < argc; i += 2) {
    std::string a = argv[i];
    if (a == "--scratch") scratch = argv[i + 1];
    else if (a == "--out") out = argv[i + 1];
    else if (a == "--tier") R.thorough = !strcmp(argv[i + 1], "thorough");
    else if (a == "--replay") replay = argv[i + 1];
    else if (a == "--cap") R.o.total_cap = atof(argv[i + 1]);
    else if (a == "--workers") R.o.workers = atoi(argv[i + 1]);
  }
  if (R.o.workers > MAXW - 1) R.o.workers = MAXW - 1;
  if (!R.thorough) R.o.case_timeout = std::min(R.o.case_timeout, 100.0);
  R.scratch = scratch; R.logdir = scratch;
  R.sh = (Shared *)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  if (R.sh == MAP_FAILED) { perror("mmap"); return 3; }
  R.hs.init(); R.hd.init();
  signal(SIGPIPE, SIG_IGN);
  double t0 = now();

  if (replay) {
    std::string text = replay; if (*replay == '@') { text.clear(); FILE *f = fopen(replay + 1, "r"); int ch; if (!f) { perror(replay); return 3; } while ((ch = getc(f)) != EOF) text += (char)ch; fclose(f); }
    Run::Hist h(1); const char *p = text.c_str(); /* cases separated by ';', the failing one last */
    while (*p) { if (*p == ';') { h.emplace_back(); p++; continue; } int c, n, k; if (sscanf(p, "%d/%d%n", &c, &n, &k) != 2) break; h.back().push_back(Cell{(int16_t)c, (int16_t)n}); p += k; if (*p == ',') p++; }
    std::vector<Cell> v = h.back(); h.pop_back();
    std::string s, d;
    int r = R.alone(v.data(), (int)v.size(), s, d, R.o.case_timeout * 3 + 600.0 * !h.empty(), &h);
    printf("replay result=%d sig=%s\n%s\n", r, s.c_str(), d.c_str());
    return r == 0 ? 0 : r == 4 ? 3 : 1;
  }

  int nw = R.o.workers; std::vector<pid_t> pid(nw, 0); std::vector<uint64_t> lb(nw, 0); std::vector<double> lt(nw, now());
  std::vector<int> restarts(nw, 0);
  struct Found { std::string sig, detail; std::vector<Cell> v; int kind; std::vector<Cell> h; Run::Hist before; int sure = 0; };
  std::vector<Found> found; bool error = false; std::string errtxt; bool truncated = false;
  auto spawn = [&](int i, bool resume) { fflush(stdout); pid_t p = fork(); if (!p) R.worker(i, resume); pid[i] = p; lb[i] = R.sh->w[i].beat; lt[i] = now(); };
  for (int i = 0; i < nw; i++) spawn(i, false);
  int live = nw;
  auto died = [&](int i, int kind, const char *what) {
    WShm &w = R.sh->w[i]; Found f; f.kind = kind; f.sig = what;
    f.detail = w.note; f.v.assign(w.vec, w.vec + w.len);
    uint64_t n = std::min(w.hput, HCELLS); for (uint64_t k = 0; k < n; k++) f.h.push_back(w.hist[(w.hput - n + k) % HCELLS]);
    if (kind == 2) { /* confirmed at once: the other workers would run into it one by one, and wait each time */
      f.sure = R.alone(f.v.data(), (int)f.v.size(), f.sig, f.detail, R.o.case_timeout * 2); if (!f.sure || f.sure == 4) { f.sure = 0; f.sig = what; f.detail = w.note; } else R.sh->stop = 1;
      for (auto &t : lt) t = now();
    }
    found.push_back(f);
    if (R.sh->stop) { truncated = true; live--; pid[i] = 0; return; }
    if (++restarts[i] < 3 && (int)found.size() < 8) spawn(i, true); else { live--; pid[i] = 0; truncated = true; }
  };
  while (live > 0) {
    int st; pid_t p = waitpid(-1, &st, WNOHANG);
    if (p > 0) {
      for (int i = 0; i < nw; i++) if (pid[i] == p) {
        int d = R.sh->w[i].done;
        if (d == 1) { pid[i] = 0; live--; }
        else if (d == 3) { error = true; errtxt = R.sh->w[i].err; pid[i] = 0; live--; R.sh->stop = 1; }
        else died(i, 1, "crash");
      }
      continue;
    }
    for (int i = 0; i < nw; i++) if (pid[i]) {
      uint64_t b = R.sh->w[i].beat;
      if (b != lb[i]) { lb[i] = b; lt[i] = now(); }
      else if (R.sh->stop && now() - lt[i] > 5) { kill(pid[i], SIGKILL); waitpid(pid[i], &st, 0); pid[i] = 0; live--; truncated = true; }
      else if (now() - lt[i] > R.o.case_timeout) { kill(pid[i], SIGKILL); waitpid(pid[i], &st, 0); died(i, 2, "hang"); }
    }
    usleep(2000);
  }
  for (int i = 0; i < nw; i++) for (int k = 0; k < R.sh->w[i].nviol; k++) {
    Viol &v = R.sh->w[i].viol[k]; Found f; f.kind = v.kind; f.sig = v.sig; f.detail = v.detail; f.v.assign(v.vec, v.vec + v.len); f.h.assign(v.hist, v.hist + v.hlen); found.push_back(f);
    truncated = truncated || R.sh->w[i].nviol >= R.o.max_viol;
  }
  /* confirm each suspect alone */
  std::vector<Found> conf; std::set<std::string> seen; std::vector<Found *> later; int unrep = 0;
  for (auto &f : found) {
    std::string s, d; int r = f.sure; if (r) { s = f.sig; d = f.detail; }
    for (int t = 0; t < 3 && !f.sure; t++) { r = R.alone(f.v.data(), (int)f.v.size(), s, d, R.o.case_timeout * 3); if (r) break; }
    if (r == 0) { later.push_back(&f); continue; }
    if (r == 4) { unrep++; errtxt += "unreproduced: " + f.sig + " " + f.detail + " ; "; continue; }
    if (!seen.insert(s).second) continue;
    f.sig = s; f.detail = d; conf.push_back(f);
  }
  /* what does not fail alone may need what the cases before it left behind: longer and longer ends of the worker's own history */
  double th = now();
  for (auto *fp : later) {
    Found &f = *fp; std::string s, d; int r = 0;
    if (seen.count(f.sig)) continue;
    for (size_t n : {2, 16, 128, 1024, 8192}) {
      if (now() - th > R.o.history_cap) break;
      auto h = Run::last(f.h.data(), f.h.size(), n);
      r = R.alone(f.v.data(), (int)f.v.size(), s, d, R.o.case_timeout * 3 + R.o.history_cap, &h);
      if (r == 1 || r == 2 || (r == 3 && f.kind == 2)) { f.before = h; d += " (after " + std::to_string(h.size()) + " other cases in the same process)"; break; }
      if (r || h.size() < n) break;
    }
    if (f.before.empty()) { unrep++; errtxt += "unreproduced: " + f.sig + " " + f.detail + " ; "; continue; }
    if (!seen.insert(s).second) continue;
    f.sig = s; f.detail = d; conf.push_back(f);
  }
  uint64_t ev = 0, tr = 0, va = 0, lv = 0, us[16] = {0}; bool cap = false;
  for (int i = 0; i < nw; i++) { WShm &w = R.sh->w[i]; ev += w.evals; tr += w.trans; va += w.valid; lv += w.leaves; cap |= w.cap_hit; for (int k = 0; k < 16; k++) us[k] += w.user[k]; }
  FILE *f = out ? fopen(out, "w") : stdout;
  fprintf(f, "{\"evaluations\":%lu,\"transitions\":%lu,\"validated\":%lu,\"executions\":%lu,\"states\":%lu,\"distinct\":%lu,\"cap_hit\":%s,\"truncated\":%s,\"wall\":%.2f,\"unreproduced\":%d,\"error\":\"%s\",\"user\":[",
          ev, tr, va, lv, (unsigned long)R.sh->nstates, (unsigned long)R.sh->ndistinct, cap ? "true" : "false", truncated ? "true" : "false", now() - t0, unrep, jesc(errtxt).c_str());
  for (int k = 0; k < 16; k++) fprintf(f, "%s%lu", k ? "," : "", us[k]);
  fprintf(f, "],\"samples\":[");
  bool first = true; int ns = 0;
  for (int k = 0; k < MAXSAMP; k++) for (int i = 0; i < nw && ns < 10; i++) if (k < R.sh->w[i].nsamp) { fprintf(f, "%s\"%s\"", first ? "" : ",", jesc(R.sh->w[i].samp[k]).c_str()); first = false; ns++; }
  fprintf(f, "],\"violations\":[");
  first = true;
  for (auto &v : conf) {
    fprintf(f, "%s{\"sig\":\"%s\",\"detail\":\"%s\",\"vector\":\"", first ? "" : ",", jesc(v.sig).c_str(), jesc(v.detail).c_str());
    for (auto &h : v.before) { for (size_t k = 0; k < h.size(); k++) fprintf(f, "%s%d/%d", k ? "," : "", h[k].c, h[k].n); fprintf(f, ";"); }
    for (size_t k = 0; k < v.v.size(); k++) fprintf(f, "%s%d/%d", k ? "," : "", v.v[k].c, v.v[k].n);
    fprintf(f, "\"}"); first = false;
  }
  fprintf(f, "]}\n");
  if (out) fclose(f);
  if (error) return 3;
  if (!conf.empty()) return 1;
  return unrep ? 3 : 0;
}
} // namespace mc
