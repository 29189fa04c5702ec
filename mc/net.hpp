/* net.hpp - a server of the repository in a child process of its own, a raw TLS/HTTP client for it, and a scripted TLS server for the
 * repository's client; everything on 127.0.0.1 */
#pragma once
#include <functional>
#include <map>
#include <string>
#include <vector>
#include <thread>
#include <arpa/inet.h>
#include <fcntl.h>
#include <netinet/in.h>
#include <netinet/tcp.h>
#include <poll.h>
#include <signal.h>
#include <sys/prctl.h>
#include <sys/socket.h>
#include <sys/wait.h>
#include <unistd.h>
#include <openssl/err.h>
#include <openssl/ssl.h>
#include "pki.hpp"
#if defined(__SANITIZE_ADDRESS__)
extern "C" size_t __sanitizer_get_current_allocated_bytes();
#endif
namespace net {
inline double now() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }
inline void nap(double s) { usleep((useconds_t)(s * 1e6)); }
inline size_t heap() {
#if defined(__SANITIZE_ADDRESS__)
  return __sanitizer_get_current_allocated_bytes();
#else
  return 0;
#endif
}
/* a port that nobody else is given while this lives: bound, never listening; the servers bind it with SO_REUSEPORT */
struct Port { int fd = -1, n = 0;
  bool open(bool shared = true, bool listening = false) { close(); fd = socket(AF_INET, SOCK_STREAM | SOCK_CLOEXEC, 0); int one = 1; if (shared) setsockopt(fd, SOL_SOCKET, SO_REUSEPORT, &one, sizeof one); sockaddr_in a = {}; a.sin_family = AF_INET; a.sin_addr.s_addr = htonl(INADDR_LOOPBACK); socklen_t l = sizeof a;
    if (bind(fd, (sockaddr *)&a, sizeof a) || getsockname(fd, (sockaddr *)&a, &l)) return false; n = ntohs(a.sin_port); if (listening && listen(fd, 16)) return false; return true; }
  void close() { if (fd >= 0) ::close(fd); fd = -1; } ~Port() { close(); }
};
inline int dial(int port) { int s = socket(AF_INET, SOCK_STREAM | SOCK_CLOEXEC, 0); int one = 1; setsockopt(s, IPPROTO_TCP, TCP_NODELAY, &one, sizeof one); sockaddr_in a = {}; a.sin_family = AF_INET; a.sin_port = htons(port); a.sin_addr.s_addr = htonl(INADDR_LOOPBACK); if (connect(s, (sockaddr *)&a, sizeof a)) { ::close(s); return -1; } return s; }
/* child process running start(); commands over a pipe: 'm' asks for the size of its heap */
struct Srv { pid_t pid = -1; int cmd = -1, ans = -1, st = 0, result = 0; bool returned = false, dead = false; std::string log;
  void run(const std::string &logfile, const std::function<int()> &start) {
    log = logfile; int a[2], b[2]; if (pipe2(a, O_CLOEXEC) || pipe2(b, O_CLOEXEC)) pki::die("pipe"); fflush(stdout); fflush(stderr); pid = fork();
    if (!pid) { prctl(PR_SET_PDEATHSIG, SIGKILL); int fd = ::open(log.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600); dup2(fd, 2); dup2(fd, 1); ::close(fd); ::close(a[1]); ::close(b[0]); signal(SIGALRM, SIG_DFL);
      static int rd, wr; rd = a[0]; wr = b[1]; std::thread([] { char c; while (read(rd, &c, 1) == 1) { char t = 'm'; uint64_t n = heap(); char m[9]; m[0] = t; memcpy(m + 1, &n, 8); if (write(wr, m, 9) != 9) break; } _exit(0); }).detach();
      int r = start(); char m[9]; m[0] = 'r'; int64_t v = r; memcpy(m + 1, &v, 8); if (write(wr, m, 9) != 9) _exit(9); for (;;) pause(); }
    ::close(a[0]); ::close(b[1]); cmd = a[1]; ans = b[0]; st = result = 0; returned = dead = false;
  }
  bool take(double tmo, char *m) { size_t n = 0; double end = now() + tmo; while (n < 9) { struct pollfd p = {ans, POLLIN, 0}; int w = (int)((end - now()) * 1000); if (w < 0) w = 0; int r = poll(&p, 1, w); if (r <= 0) return false; ssize_t k = read(ans, m + n, 9 - n); if (k <= 0) { dead = true; waitpid(pid, &st, 0); pid = -1; return false; } n += k; } return true; }
  /* has start() come back (or the process died) within tmo */
  bool back(double tmo) { if (returned || dead) return true; char m[9]; if (!take(tmo, m)) return dead; if (m[0] == 'r') { int64_t v; memcpy(&v, m + 1, 8); result = (int)v; returned = true; return true; } return false; }
  bool up(int port, double tmo = 20) { double end = now() + tmo; while (now() < end) { if (back(0)) return false; int s = dial(port); if (s >= 0) { ::close(s); return true; } nap(0.001); } return false; }
  bool alive() { if (pid < 0) return false; if (back(0) && dead) return false; return true; }
  long mem() { if (write(cmd, "m", 1) != 1) return -1; char m[9]; while (take(10, m)) { if (m[0] == 'm') { uint64_t v; memcpy(&v, m + 1, 8); return (long)v; } int64_t v; memcpy(&v, m + 1, 8); result = (int)v; returned = true; } return -1; }
  long settled() { long a = mem(); int same = 0; for (int i = 0; i < 4000 && same < 20; i++) { nap(0.001); long b = mem(); if (b == a) same++; else same = 0, a = b; } return a; }
  void stop() { if (pid > 0) { kill(pid, SIGKILL); waitpid(pid, &st, 0); pid = -1; } if (cmd >= 0) ::close(cmd); if (ans >= 0) ::close(ans); cmd = ans = -1; }
  std::string tail() { std::string t; FILE *f = fopen(log.c_str(), "r"); if (!f) return ""; char b[4096]; size_t n; while ((n = fread(b, 1, sizeof b, f)) > 0) t.append(b, n); fclose(f); size_t i = t.find("ERROR: "); if (i == std::string::npos) i = t.find("runtime error"); if (i == std::string::npos) i = t.size() > 600 ? t.size() - 600 : 0; return t.substr(i, 900); }
  ~Srv() { stop(); }
};
/* client side contexts, one per certificate */
struct Who { SSL_CTX *c = nullptr; ~Who() { if (c) SSL_CTX_free(c); } };
inline SSL_CTX *client(const pki::Cert *cert, const pki::Key *key, std::vector<const pki::Cert *> chain = {}, int maxver = 0) { SSL_CTX *c = SSL_CTX_new(TLS_client_method()); SSL_CTX_set_verify(c, SSL_VERIFY_NONE, nullptr); if (maxver) SSL_CTX_set_max_proto_version(c, maxver); SSL_CTX_set_session_cache_mode(c, SSL_SESS_CACHE_OFF);
  if (cert && (SSL_CTX_use_certificate(c, cert->x) != 1 || SSL_CTX_use_PrivateKey(c, key->k) != 1)) pki::die("client"); for (auto *x : chain) SSL_CTX_add1_chain_cert(c, x->x); return c; }
struct Resp { bool any = false, ok = false, closed = false; int status = 0; std::string version, reason, body, raw; std::multimap<std::string, std::string> head; std::string why;
  std::vector<std::string> all(std::string n) const { std::vector<std::string> r; auto g = head.equal_range(n); for (auto i = g.first; i != g.second; ++i) r.push_back(i->second); return r; } };
inline std::string lower(std::string s) { for (char &c : s) if (c >= 'A' && c <= 'Z') c += 32; return s; }
struct Conn { int s = -1; SSL *ssl = nullptr; std::string in; bool eof = false; double tmo = 20;
  bool dialled(int port) { s = dial(port); if (s >= 0) fcntl(s, F_SETFL, O_NONBLOCK); return s >= 0; }
  bool wait(int err, double end) { struct pollfd p = {s, (short)(err == SSL_ERROR_WANT_WRITE ? POLLOUT : POLLIN), 0}; int w = (int)((end - now()) * 1000); return w > 0 && poll(&p, 1, w) > 0; }
  bool shake(SSL_CTX *c) { ssl = SSL_new(c); SSL_set_fd(ssl, s); double end = now() + tmo; for (;;) { ERR_clear_error(); int r = SSL_connect(ssl); if (r == 1) return true; int e = SSL_get_error(ssl, r); if ((e != SSL_ERROR_WANT_READ && e != SSL_ERROR_WANT_WRITE) || !wait(e, end)) return false; } }
  bool open(int port, SSL_CTX *c) { return dialled(port) && shake(c); }
  bool send(const std::string &d) { size_t n = 0; double end = now() + tmo; while (n < d.size()) { ERR_clear_error(); int r = SSL_write(ssl, d.data() + n, (int)std::min<size_t>(d.size() - n, 16384)); if (r > 0) { n += r; continue; } int e = SSL_get_error(ssl, r); if (e == SSL_ERROR_WANT_READ || e == SSL_ERROR_WANT_WRITE) { if (!wait(e, end)) return false; } else return false; } return true; }
  /* more bytes; false at the end of the stream, an error or the time limit */
  bool more(double end) { char b[16384]; for (;;) { int one = 1; setsockopt(s, IPPROTO_TCP, TCP_QUICKACK, &one, sizeof one); ERR_clear_error(); int r = SSL_read(ssl, b, sizeof b); if (r > 0) { in.append(b, r); return true; } int e = SSL_get_error(ssl, r); if (e == SSL_ERROR_WANT_READ || e == SSL_ERROR_WANT_WRITE) { if (!wait(e, end)) return false; } else { eof = true; return false; } } }
  Resp get(bool headreq = false) { double t0 = now(); Resp r = get_(headreq); if (const char *sl = getenv("NET_SLOW")) if (now() - t0 > 0.03) { FILE *f = fopen(sl, "a"); fprintf(f, "SLOW %.1f %s %s\n", now() - t0, r.raw.c_str(), r.why.c_str()); fclose(f); } return r; }
  Resp get_(bool headreq) { Resp r; double end = now() + tmo; size_t h; while ((h = in.find("\r\n\r\n")) == std::string::npos) if (!more(end)) { r.raw = in; r.any = in.size(); r.closed = eof; r.why = eof ? "the connection was closed" : "nothing came in time"; return r; }
    r.any = true; std::string t = in.substr(0, h + 2); r.raw = t; in.erase(0, h + 4); size_t l = t.find("\r\n"); std::string sl = t.substr(0, l); int st = 0; if (sl.size() < 12 || sl.compare(0, 5, "HTTP/") || sl[8] != ' ' || sscanf(sl.c_str() + 9, "%3d", &st) != 1) { r.why = "bad status line"; return r; } r.status = st; r.version = sl.substr(0, 8); r.reason = sl.size() > 13 ? sl.substr(13) : "";
    for (size_t i = l + 2; i < t.size();) { size_t e = t.find("\r\n", i); std::string x = t.substr(i, e - i); i = e + 2; size_t k = x.find(':'); if (k == std::string::npos) { r.why = "bad header line " + x; return r; } size_t v = k + 1; while (v < x.size() && x[v] == ' ') v++; r.head.emplace(lower(x.substr(0, k)), x.substr(v)); }
    auto cl = r.all("content-length"); if (cl.size() > 1) { r.why = "two content lengths"; return r; } if (headreq || st == 204 || st == 304 || st / 100 == 1) { r.ok = true; return r; }
    if (cl.empty()) { if (r.all("transfer-encoding").size()) { r.why = "transfer encoding"; return r; } while (more(end)) ; r.body = in; in.clear(); r.closed = true; r.ok = eof; return r; }
    size_t n = strtoul(cl[0].c_str(), nullptr, 10); while (in.size() < n) if (!more(end)) { r.why = "the body is cut short"; return r; } r.body = in.substr(0, n); in.erase(0, n); r.ok = true; return r; }
  void reset() { if (s >= 0) { struct linger l = {1, 0}; setsockopt(s, SOL_SOCKET, SO_LINGER, &l, sizeof l); } close(false); }
  void close(bool bye = true) { if (ssl) { if (bye) { ERR_clear_error(); SSL_shutdown(ssl); } SSL_free(ssl); ssl = nullptr; } if (s >= 0) ::close(s); s = -1; in.clear(); eof = false; ERR_clear_error(); }
  Conn() {} Conn(const Conn &) = delete; ~Conn() { close(); }
};
} // namespace net
