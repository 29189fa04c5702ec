/* conc.hpp - concurrent requests to the handlers under the controlled scheduler: scenarios, deterministic randomness per thread, one body */
#pragma once
#define OPENSSL_SUPPRESS_DEPRECATED
#include "sched.hpp"
#include "mc.hpp"
#include <functional>
#include <algorithm>
#include <openssl/rand.h>
#ifdef CONC_STUB
#define SRV_NO_STUB
#endif
#include "servers.hpp"
extern "C" {
#include "utils/log.h"
}
extern "C" { void *__libc_malloc(size_t); void *__libc_realloc(void *, size_t); void __libc_free(void *); int __sanitizer_get_ownership(const volatile void *); void __real_free(void *); void *__real_realloc(void *, size_t);
void __wrap_free(void *p) { if (!p || __sanitizer_get_ownership(p)) __real_free(p); else __libc_free(p); }
void *__wrap_realloc(void *p, size_t n) { return !p || __sanitizer_get_ownership(p) ? __real_realloc(p, n) : __libc_realloc(p, n); } }
namespace conc {
/* the crypto library's own memory bypasses the address sanitizer (called before the library allocates anything) */
inline void *cm(size_t n, const char *, int) { return __libc_malloc(n); } inline void *cr(void *p, size_t n, const char *, int) { return __libc_realloc(p, n); } inline void cf(void *p, const char *, int) { __libc_free(p); }
inline bool plain() { return CRYPTO_set_mem_functions(cm, cr, cf) == 1; }
using namespace srv;
static uint64_t RC[sched::MAXT + 1];
inline int rnd(unsigned char *b, int n) { int t = sched::TID; uint64_t *c = &RC[t < 0 ? sched::MAXT : t]; for (int i = 0; i < n; i++) b[i] = (unsigned char)(sched::mx(++*c * 31 + (t < 0 ? 77 : 5)) >> 24); return 1; }
inline int rok() { return 1; }
inline void det() { static RAND_METHOD M; M.bytes = rnd; M.pseudorand = rnd; M.status = rok; RAND_set_rand_method(&M); memset(RC, 0, sizeof RC); }
struct Req { Handler h; void *ctx; std::string body; const Cert *peer; };
inline std::string text(const Got &g) { std::string r = std::to_string(g.status) + "|" + g.type() + "|" + g.body; return r; }
static pthread_mutex_t LMX = PTHREAD_MUTEX_INITIALIZER; inline void lockfn(bool l) { if (l) pthread_mutex_lock(&LMX); else pthread_mutex_unlock(&LMX); }
inline void logs(bool on, const std::string &path) { if (!on) { log_set_quiet(true); return; } int fd = open(path.c_str(), O_RDWR | O_CREAT | O_TRUNC | O_APPEND, 0600); dup2(fd, 2); close(fd); log_set_quiet(false); log_set_level(0); log_set_lock(lockfn); }
} // namespace conc
