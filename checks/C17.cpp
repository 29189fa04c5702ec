/* C17: (a) every log call in every state of the settings and after every history of settings, against a model; (b) -DSCHED: every interleaving of logging threads */
#ifdef SCHED
#include "sched.hpp"
#endif
#include "mc.hpp"
#include "sizes.hpp"
#include <algorithm>
#include <sys/time.h>
extern "C" {
#include "utils/log.h"
}
using namespace mc;
static const char *LV[] = {"TRACE", "DEBUG", "INFO", "WARN", "ERROR"};
static std::string slurp(int fd) { std::string s; char b[4096]; ssize_t n; off_t o = 0; while ((n = pread(fd, b, sizeof b, o)) > 0) { s.append(b, n); o += n; } return s; }
static std::string file(const std::string &p) { int fd = open(p.c_str(), O_RDONLY); if (fd < 0) return ""; std::string s = slurp(fd); close(fd); return s; }
static std::string strip(const std::string &s, bool &esc) { std::string o; esc = false; for (size_t i = 0; i < s.size(); i++) { if (s[i] == 27 && i + 1 < s.size() && s[i + 1] == '[') { esc = true; for (i += 2; i < s.size() && !isalpha((unsigned char)s[i]); i++) {} continue; } o += s[i]; } return o; }
/* one whole line: time, level, [error], position, [error], text.  msec: when >= 0 the time must lie in [t0,t1] (ms) */
static const char *line(std::string l, bool meta, int level, const char *f, int ln, int err, const std::string &msg, long long t0, long long t1) {
  if (l.empty() || l.back() != '\n') return "does not end with a line break"; l.pop_back(); if (l.size() < msg.size() || l.compare(l.size() - msg.size(), msg.size(), msg)) return "does not end with the text"; std::string h = l.substr(0, l.size() - msg.size());
  if (err > 0) { if (h.find(strerror(err)) == std::string::npos) return "lacks the error string"; } else if (h.find('[') != std::string::npos) return "holds an error string";
  if (!meta) { if (err <= 0 && h.size()) return "holds more than the text"; return nullptr; }
  int y, mo, d, hh, mi, s, ms, n = 0; if (sscanf(h.c_str(), "%4d-%2d-%2d %2d:%2d:%2d.%3d %n", &y, &mo, &d, &hh, &mi, &s, &ms, &n) != 7 || !n) return "lacks the time"; struct tm t = {}; t.tm_year = y - 1900; t.tm_mon = mo - 1; t.tm_mday = d; t.tm_hour = hh; t.tm_min = mi; t.tm_sec = s; long long w = timegm(&t) * 1000ll + ms; if (w < t0 || w > t1) return "has a wrong time";
  h = h.substr(n); size_t i = h.find_first_not_of(' '); size_t q = strlen(LV[level]); if (i == std::string::npos || h.compare(i, q, LV[level]) || (i + q < h.size() && isalpha((unsigned char)h[i + q]))) return "has a wrong level"; char pos[200]; snprintf(pos, sizeof pos, "%s:%d:", f, ln); size_t k = h.find(pos); if (k == std::string::npos || (k && h[k - 1] != ' ')) return "lacks the source position"; return nullptr;
}
static long long nowms() { struct timeval tv; gettimeofday(&tv, nullptr); return tv.tv_sec * 1000ll + tv.tv_usec / 1000; }
struct Msg { const char *fmt; const char *a; int kind; }; /* kind: 0 plain 1 %s 2 %s of 5000 3 %d */
#ifndef SCHED
static int ERRFD = -1; static std::vector<std::pair<bool, size_t>> LOCKS; static std::string PA, PB; static size_t total() { struct stat s; size_t n = 0; fstat(ERRFD, &s); n += s.st_size; if (!stat(PA.c_str(), &s)) n += s.st_size; if (!stat(PB.c_str(), &s)) n += s.st_size; return n; }
static void lockfn(bool l) { LOCKS.push_back({l, total()}); }
struct M { int level = 0; bool quiet = false, meta = true, color = true, lock = false; int fp = 0; }; /* fp 0 none 1 A 2 B 3 unknown (opening failed) */
struct Op { int k, v; }; /* 0 level 1 quiet 2 meta 3 color 4 lock 5 file */
static const Op OPS[] = {{0, 0}, {0, 1}, {0, 2}, {0, 3}, {0, 4}, {0, 5}, {1, 0}, {1, 1}, {2, 0}, {2, 1}, {3, 0}, {3, 1}, {4, 0}, {4, 1}, {5, 0}, {5, 1}, {5, 2}, {5, 3}}; static const int NOPS = sizeof OPS / sizeof *OPS; static std::string BAD;
static void apply(Ctx &c, M &m, const Op &o) {
  switch (o.k) { case 0: log_set_level(o.v); m.level = o.v; break; case 1: log_set_quiet(o.v); m.quiet = o.v; break; case 2: log_set_meta(o.v); m.meta = o.v; break; case 3: log_set_color(o.v); m.color = o.v; break; case 4: log_set_lock(o.v ? lockfn : nullptr); m.lock = o.v; break;
    default: if (o.v == 0) { log_close_file(); m.fp = 0; break; } std::string p = o.v == 1 ? PA : o.v == 2 ? PB : BAD; int r = log_open_file((char *)p.c_str()); if ((r == 0) != (o.v != 3)) c.fail("open-file", "%s: log_open_file of %s file returned %d", c.w->note, o.v == 3 ? "an unusable" : "a usable", r); m.color = false; m.fp = o.v == 3 ? (m.fp == 0 ? 0 : 3) : o.v; }
}
static void reset() { log_close_file(); log_set_level(0); log_set_quiet(false); log_set_meta(true); log_set_color(true); log_set_lock(nullptr); }
static std::string LONG(5000, 'x');
static const int ERRS[] = {-1, 0, ENOENT, EINVAL, ENOTEMPTY, EXDEV, ELIBEXEC, 9999}; /* -1: log_levels */
static void emit(int lv, int e, int k, const char *f, int ln) {
  errno = e < 0 ? 0 : e; const char *arg = k == 2 ? LONG.c_str() : "arg"; 
  if (e < 0) { if (k == 0) log_levels(lv, f, ln, "plain text"); else if (k == 3) log_levels(lv, f, ln, "%d %c %5.2f %%", -7, 'c', 1.5); else if (k == 4) log_levels(lv, f, ln, "%s", ""); else log_levels(lv, f, ln, "text %s end", arg); }
  else { if (k == 0) log_errno_error(lv, f, ln, "plain text"); else if (k == 3) log_errno_error(lv, f, ln, "%d %c %5.2f %%", -7, 'c', 1.5); else if (k == 4) log_errno_error(lv, f, ln, "%s", ""); else log_errno_error(lv, f, ln, "text %s end", arg); } }
static std::string text(int k) { return k == 0 ? "plain text" : k == 3 ? "-7 c  1.50 %" : k == 4 ? "" : std::string("text ") + (k == 2 ? LONG : "arg") + " end"; }
static void call(Ctx &c, const M &m, int lv, int e, int k) {
  std::string e0 = slurp(ERRFD), a0 = file(PA), b0 = file(PB); LOCKS.clear(); size_t n0 = total(); long long t0 = nowms(); emit(lv, e, k, "dir_file.c", 4321); int after = errno; long long t1 = nowms(); c.transition(); const char *why = c.w->note;
  std::string e1 = slurp(ERRFD), a1 = file(PA), b1 = file(PB); if (e1.compare(0, e0.size(), e0) || a1.compare(0, a0.size(), a0) || b1.compare(0, b0.size(), b0)) c.fail("lost", "%s: earlier output was lost", why); e1 = e1.substr(e0.size()); a1 = a1.substr(a0.size()); b1 = b1.substr(b0.size());
  if (e >= 0 && after != e) c.fail("errno", "%s: errno is %d after logging with %d", why, after, e);
  bool out = lv >= m.level && !m.quiet; int bal = 0; size_t nl = 0; for (auto &l : LOCKS) { bal += l.first ? 1 : -1; nl += l.first; if (bal < 0 || bal > 1) c.fail("lock", "%s: the lock is not taken and released in turn", why); } if (bal) c.fail("lock", "%s: the lock is not released", why); if (!m.lock && LOCKS.size()) c.fail("lock", "%s: a removed lock is used", why);
  if (!out) { if (e1.size() + a1.size() + b1.size()) c.fail("disabled", "%s: a disabled message was written: %s", why, (e1 + a1 + b1).c_str()); return; }
  int where = (e1.size() > 0) + 2 * (a1.size() > 0) + 4 * (b1.size() > 0); bool okw = m.fp == 0 ? where == 1 : m.fp == 1 ? where == 2 : m.fp == 2 ? where == 4 : where == 1 || where == 2 || where == 4; if (!okw) c.fail("destination", "%s: log file %d, but written to %s%s%s%s", why, m.fp, where & 1 ? "stderr " : "", where & 2 ? "A " : "", where & 4 ? "B" : "", where ? "" : "nothing");
  std::string got = e1 + a1 + b1; bool esc; std::string s = strip(got, esc); if (esc && !m.color) c.fail("color", "%s: colours although they are off: %s", why, got.c_str()); if (!esc && m.color && m.meta) c.fail("color", "%s: no colours although they are on: %s", why, got.c_str()); std::string t = text(k); if (std::count(s.begin(), s.end(), '\n') != 1) c.fail("line", "%s: not one line: %s", why, s.c_str()); const char *bad = line(s, m.meta, lv, "dir_file.c", 4321, e, t, t0, t1); if (bad) c.fail("line", "%s: %s: %s", why, bad, s.c_str());
  if (m.lock) { if (LOCKS.size() != 2) c.fail("lock", "%s: the lock was taken %zu times for one line", why, nl); if (LOCKS[0].second != n0 || LOCKS[1].second != total()) c.fail("lock", "%s: written outside the lock", why); } c.validated();
}
static std::string show(const M &m) { char t[200]; snprintf(t, sizeof t, "level %d%s%s%s%s, file %d", m.level, m.quiet ? " quiet" : "", m.meta ? "" : " no meta", m.color ? " color" : "", m.lock ? " lock" : "", m.fp); return t; }
static uint64_t key(const M &m) { return m.level | m.quiet << 4 | m.meta << 5 | m.color << 6 | m.lock << 7 | (uint64_t)m.fp << 8; }
static void trunc() { if (ftruncate(ERRFD, 0)) {} truncate(PA.c_str(), 0); truncate(PB.c_str(), 0); }
static void body(Ctx &c) {
  if (ERRFD < 0) { ERRFD = open((c.scratch + "/stderr").c_str(), O_RDWR | O_CREAT | O_APPEND, 0600); dup2(ERRFD, 2); PA = c.scratch + "/A"; PB = c.scratch + "/B"; BAD = c.scratch + "/none/x"; } int part = c.choose(4);
  if (part == 3) { /* every length class of the text, of the file name and of the line number */
    auto &sz = mc::sizes(c.thorough); size_t n = sz[c.choose((int)sz.size())]; int k = c.choose(8); if (!c.mine()) return; reset(); trunc(); M m; apply(c, m, {2, k & 1}); apply(c, m, {3, 0}); apply(c, m, {5, k >> 1 & 1}); std::string big(n, 0); for (size_t i = 0; i < n; i++) big[i] = (char)('a' + (i + (i >> 7)) % 26); int e = k & 4 ? ENOENT : -1; c.note("text of %zu characters, meta %d, file %d, errno %d", n, k & 1, k >> 1 & 1, e); c.eval(); c.distinct(comb(comb(0x517e, n), k));
    long long t0 = nowms(); errno = e < 0 ? 0 : e; if (e < 0) log_levels(2, "f.c", 1000000 + (int)n % 1000, "%s|%s", big.c_str(), "end"); else log_errno_error(2, "f.c", 1000000 + (int)n % 1000, "%s|%s", big.c_str(), "end"); long long t1 = nowms(); std::string s = slurp(ERRFD) + file(PA); const char *bad = line(s, k & 1, 2, "f.c", 1000000 + (int)n % 1000, e, big + "|end", t0, t1); if (bad) c.fail("line", "%s: the line %s", c.w->note, bad); c.transition(); c.validated(); trunc(); reset(); return;
  }
  if (part == 0) { /* every state, every operation, every call */
    M m; int lv = c.choose(6), q = c.choose(2), me = c.choose(2), co = c.choose(2), lo = c.choose(2), fp = c.choose(4), op = c.choose(NOPS + 1); if (!c.mine()) return; reset(); trunc(); c.note("settings"); apply(c, m, {0, lv}); apply(c, m, {1, q}); apply(c, m, {2, me}); if (fp == 3) apply(c, m, {5, 1}); if (fp) apply(c, m, {5, fp}); apply(c, m, {3, co}); apply(c, m, {4, lo}); c.state(key(m)); M m0 = m; if (op < NOPS) apply(c, m, OPS[op]); c.state(key(m)); std::string why = show(m0) + (op < NOPS ? " then operation " + std::to_string(op) : "");
    for (int l = 0; l < 5; l++) for (int e : ERRS) for (int k = 0; k < 5; k++) { if (op < NOPS && (e > ENOENT || k > 1)) continue; c.note("%s; level %d, %s %d, text %d", why.c_str(), l, e < 0 ? "no errno" : "errno", e, k); call(c, m, l, e, k); if (k == 4) trunc(); } trunc(); if (op == NOPS && key(m0) % 37 == 0) c.sample("%s", why.c_str()); reset();
  } else if (part == 1) { /* histories */
    int n = c.thorough ? 4 : 3, o[4]; for (int i = 0; i < n; i++) o[i] = c.choose(NOPS); if (!c.mine()) return; reset(); trunc(); M m; std::string why = "history"; for (int i = 0; i < n; i++) { why += " " + std::to_string(o[i]); c.note("%s", why.c_str()); apply(c, m, OPS[o[i]]); c.state(key(m)); call(c, m, 2, i & 1 ? ENOENT : -1, 1); call(c, m, 4, -1, 0); } reset();
  } else { /* terminating calls, existing file contents and mode, existing macros */
    int k = c.choose(4), lo = c.choose(2), fp = c.choose(2); if (!c.mine()) return; reset(); trunc(); M m; c.note("terminating call %d, lock %d, file %d", k, lo, fp); c.noleak_case = true; if (fp) { unlink(PA.c_str()); apply(c, m, {5, 1}); struct stat s; if (stat(PA.c_str(), &s) || (s.st_mode & 077)) c.fail("file-mode", "the log file is readable by others (%o)", s.st_mode & 0777); } apply(c, m, {4, lo});
    std::string e0 = slurp(ERRFD), a0 = file(PA); if (k < 2) { fflush(nullptr); pid_t p = fork(); if (!p) { errno = EINVAL; if (k) log_error_exit_proc(4, "f.c", 9, "bye %d", 1); else log_error_exit(4, "f.c", 9, "bye %d", 1); _exit(99); } int st; waitpid(p, &st, 0); if (!WIFEXITED(st) || WEXITSTATUS(st) != EXIT_FAILURE) c.fail("exit", "the process ended with status %x", st); std::string s = fp ? file(PA).substr(a0.size()) : slurp(ERRFD).substr(e0.size()); bool esc; s = strip(s, esc); const char *bad = line(s, true, 4, "f.c", 9, EINVAL, "bye 1", 0, nowms()); if (bad) c.fail("line", "terminating call %d: %s: %s", k, bad, s.c_str()); c.validated(); }
    else { errno = ENOENT; int l0 = __LINE__; if (k == 2) log_errno("m %s", "x"); else log_warn("m %s", "x"); std::string s = fp ? file(PA).substr(a0.size()) : slurp(ERRFD).substr(e0.size()); bool esc; s = strip(s, esc); const char *bad = line(s, true, k == 2 ? 4 : 3, "C17.cpp", l0, k == 2 ? ENOENT : 0, "m x", 0, nowms()); if (bad) c.fail("line", "macro %d: %s: %s", k, bad, s.c_str()); c.validated(); } c.transition(); reset(); }
}
int main(int argc, char **argv) { setenv("TZ", "UTC", 1); tzset(); Opts o; return run(argc, argv, body, o); }
#else
static pthread_mutex_t MX = PTHREAD_MUTEX_INITIALIZER; static void lockfn(bool l) { if (l) pthread_mutex_lock(&MX); else pthread_mutex_unlock(&MX); }
struct Kind { const char *name; bool meta, color, tofile; int nt; int e[3][2]; }; /* e: -1 log_levels, else errno of a system error; two messages per thread */
static const Kind KINDS[] = {{"file", true, false, true, 2, {{-1, -1}, {-1, -1}}}, {"errors to standard error", true, true, false, 2, {{ENOENT, -1}, {EINVAL, ENOTEMPTY}}}, {"text only", false, false, false, 2, {{-1, ENOENT}, {-1, EXDEV}}}, {"three threads", true, false, true, 3, {{-1, -2}, {ENOENT, -2}, {EINVAL, -2}}}};
static const int NK = sizeof KINDS / sizeof *KINDS; static std::vector<sched::Space> SP_(NK); static std::string PATH;
static std::string msg(int t, int i) { return "message " + std::to_string(i) + " of thread " + std::to_string(t); }
static std::string LP() { return PATH + std::to_string(sched::TAG); }
static sched::Scenario scen(const Kind &k) {
  sched::Scenario s; s.name = k.name; s.prepare = [&k] { unlink(LP().c_str()); int fd = open((LP() + ".err").c_str(), O_RDWR | O_CREAT | O_TRUNC | O_APPEND, 0600); dup2(fd, 2); close(fd); log_set_level(0); log_set_quiet(false); if (k.tofile) log_open_file((char *)LP().c_str()); log_set_meta(k.meta); log_set_color(k.color); log_set_lock(lockfn); for (int i = 0; i < 3; i++) sched::VT[i] = 1700000000 + 100000 * i; };
  for (int t = 0; t < k.nt; t++) s.threads.push_back([&k, t] { std::string r; for (int i = 0; i < 2; i++) { int e = k.e[t][i]; if (e == -2) break; errno = e < 0 ? 0 : e; std::string m = msg(t, i); if (e < 0) log_levels(1 + t, "file.c", 10 + i, "%s", m.c_str()); else { log_errno_error(1 + t, "file.c", 10 + i, "%s", m.c_str()); if (errno != e) r += "errno " + std::to_string(errno) + " instead of " + std::to_string(e) + " "; } } return r + "done"; });
  s.finish = [&k] { log_close_file(); return file(LP()) + file(LP() + ".err"); }; return s; }
static void body(Ctx &c) {
  int k = c.choose(NK); const sched::Space &sp = SP_[k]; const Kind &K = KINDS[k]; sched::Plan p; if (sp.err.size()) { if (!c.mine()) return; c.fail("crash", "%s: %s", K.name, sp.err.c_str()); } sp.pick(c, c.thorough ? 3 : 2, p); if (!c.mine()) return; c.noleak_case = true; PATH = c.scratch + "/log"; std::string why = std::string(K.name) + "; " + sched::Space::show(p, K.nt); c.note("%s", why.c_str());
  sched::Out o = sp.run(p); c.transition(o.points); c.eval(); c.user(0); if (o.points > sp.bound(p)) c.user(1); if (o.used) c.user(2); if (!o.ok) c.fail("crash", "%s: %s", why.c_str(), o.what.c_str());
  for (int t = 0; t < K.nt; t++) if (o.res[t] != "done") c.fail("errno", "%s: thread %d: %s", why.c_str(), t, o.res[t].c_str()); bool esc; std::string s = strip(o.extra, esc); std::vector<std::string> got; size_t i = 0; while (i < s.size()) { size_t e = s.find('\n', i); if (e == std::string::npos) e = s.size() - 1; got.push_back(s.substr(i, e - i + 1)); i = e + 1; }
  uint64_t h = k; int nxt[3] = {0, 0, 0}; size_t want = 0; for (int t = 0; t < K.nt; t++) for (int j = 0; j < 2; j++) want += K.e[t][j] != -2; for (auto &l : got) { bool hit = false; const char *bad = "is no message"; for (int t = 0; t < K.nt && !hit; t++) if (nxt[t] < 2 && K.e[t][nxt[t]] != -2) { std::string m = msg(t, nxt[t]); if (l.find(m) == std::string::npos) continue; bad = line(l, K.meta, 1 + t, "file.c", 10 + nxt[t], K.e[t][nxt[t]], m, (1700000000ll + 100000 * t) * 1000, (1700000001ll + 100000 * t) * 1000); if (!bad) { hit = true; nxt[t]++; h = comb(h, t); } } if (!hit) c.fail("mixed", "%s: the line \"%s\" %s", why.c_str(), l.c_str(), bad); } if (got.size() != want) c.fail("lost", "%s: %zu lines instead of %zu", why.c_str(), got.size(), want); c.state(h); c.validated();
}
int main(int argc, char **argv) { setenv("TZ", "UTC", 1); tzset(); sched::init(); for (int i = 1; i + 1 < argc; i++) if (!strcmp(argv[i], "--scratch")) PATH = std::string(argv[i + 1]) + "/log"; for (int i = 0; i < NK; i++) SP_[i].s = scen(KINDS[i]); sched::Space::measure_all(SP_); Opts o; o.leakcheck = false; return run(argc, argv, body, o); }
#endif
