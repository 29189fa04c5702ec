/* records which basic blocks of the repository's objects ran (tools/cov.py); one byte per code address in a shared file */
#include <fcntl.h>
#include <stdlib.h>
#include <sys/mman.h>
#include <unistd.h>
extern char __executable_start;
static unsigned char *map; static int state;
enum { SIZE = 64 << 20 };
__attribute__((no_sanitize_coverage)) static void init(void) {
  state = 1; const char *f = getenv("MC_COV"); if (!f) return;
  int fd = open(f, O_RDWR); if (fd < 0) return;
  void *p = mmap(0, SIZE, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0); close(fd); if (p != MAP_FAILED) map = p;
}
__attribute__((no_sanitize_coverage)) void __sanitizer_cov_trace_pc(void) {
  if (!state) init();
  if (!map) return;
  unsigned long o = (char *)__builtin_return_address(0) - &__executable_start;
  if (o < SIZE) map[o] = 1;
}
