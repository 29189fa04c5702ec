/* C25: bounded string and memory helpers; every buffer ends exactly at its bound (red zones on both sides) */
#include "mc.hpp"
#include "sizes.hpp"
#include "ref.hpp"
#include "repo.hpp"
using namespace mc;

struct Buf { uint8_t *p; size_t n; Buf(size_t k, int fill = 0xa5) : p((uint8_t *)malloc(k ? k : 1)), n(k) { memset(p, fill, k); } Buf(const std::string &s) : p((uint8_t *)malloc(s.size() ? s.size() : 1)), n(s.size()) { memcpy(p, s.data(), s.size()); } ~Buf() { free(p); } };
static std::string pat(int n, int k) { static const char *A[] = {"abcdefghij", "%s%n%x", "\x80\xff\x01\x7f", "  \t\n"}; std::string s; size_t l = strlen(A[k]); for (int i = 0; i < n; i++) s += A[k][i % l]; return s; }
static void body(Ctx &c) {
  int part = c.choose(7);
  if (part == 6) { /* large */
    auto &Z = mc::sizes(c.thorough); size_t n = Z[c.choose((int)Z.size())]; int k = c.choose(4); if (!c.mine()) return; std::string s = pat((int)n, k); c.distinct(comb(comb(7, n), k)); c.note("%zu characters", n);
    for (size_t z : {(size_t)0, (size_t)1, n / 2, n - 1, n, n + 1, n + 2, 2 * n}) { c.eval(); Buf src(s + '\0'); uint8_t *d = (uint8_t *)malloc(z ? z : 1); if (z) memset(d, 0x77, z); size_t r = sys_strlcpy((char *)d, (char *)src.p, z); std::string got = z && memchr(d, 0, z) ? std::string((char *)d) : ""; bool term = z == 0 || memchr(d, 0, z); free(d); if (r != n) c.fail("strlcpy-result", "source of %zu into %zu returned %zu", n, z, r); if (!term || (z && got != s.substr(0, std::min(n, z - 1)))) c.fail("strlcpy-content", "source of %zu into %zu", n, z);
      if (z <= n) { Buf b(s.substr(0, z)); char *e = sys_strndup((char *)b.p, z); if (!e || s.substr(0, z) != e) c.fail("strndup", "bounded copy %zu of unterminated %zu is wrong", z, z); free(e); if (z && sys_strnlen_s((char *)b.p, z) != z) c.fail("strnlen-result", "no terminator in %zu", z); } Buf b(s + '\0'); char *e = sys_strndup((char *)b.p, z); if (!e || s.substr(0, z) != e) c.fail("strndup", "copy of %zu bounded by %zu is wrong", n, z); free(e); if (sys_strnlen_s((char *)b.p, z) != std::min(n, z)) c.fail("strnlen-result", "terminator at %zu, bound %zu", n, z);
      std::string h; if (n < 20000) { Buf in(s); std::vector<char> o(2 * z + 1, 0x77); size_t q = printf_hex(o.data(), o.size(), in.p, n, k & 1); std::string w; char t[4]; for (size_t i = 0; i < std::min(n, z); i++) { snprintf(t, 4, k & 1 ? "%02X" : "%02x", (unsigned char)s[i]); w += t; } if (z && (q != w.size() || w != o.data())) c.fail("hex-content", "hex of %zu bytes into %zu", n, 2 * z + 1); } }
    { Buf b(s + '\0'); char *d = sys_strdup((char *)b.p); if (!d || s != d) c.fail("strdup", "copy of %zu characters is wrong", n); free(d); Buf e(s); uint8_t *m = (uint8_t *)sys_memdup(e.p, n); if (!m || memcmp(m, s.data(), n)) c.fail("memdup", "copy of %zu bytes is wrong", n); free(m); } return;
  }
  int N = c.thorough ? 300 : 80;
  if (part == 0) { /* bounded copy: source length x size */
    int n = c.choose(N), k = c.choose(4); if (!c.mine()) return; std::string s = pat(n, k);
    for (int z = 0; z < N + 5; z++) {
      c.eval(); c.distinct(comb(comb(0, n), z)); c.note("strlcpy source %d size %d", n, z);
      Buf src(s + '\0'); std::string before; uint8_t *d = (uint8_t *)malloc(z ? z : 1); if (z) memset(d, 0x77, z);
      size_t r = sys_strlcpy((char *)d, (char *)src.p, z);
      std::string got = z ? std::string((char *)d, strnlen((char *)d, z)) : ""; bool term = z == 0 || memchr(d, 0, z);
      free(d);
      if (r != (size_t)n) c.fail("strlcpy-result", "source of %d into %d returned %zu", n, z, r);
      if (!term) c.fail("strlcpy-unterminated", "source of %d into %d", n, z);
      if (z && got != s.substr(0, n < z - 1 ? n : z - 1)) c.fail("strlcpy-content", "source of %d into %d gave '%s'", n, z, got.c_str());
    }
    if (n == 7 && !k) c.sample("copy of 'abcdefg' into destinations of 0..%d bytes", N + 4);
  } else if (part == 1) { /* bounded length: terminator position x bound x readable size */
    int L = c.choose(N), t = c.choose(N + 1); if (t > L) return; if (!c.mine()) return;
    std::string s = pat(L, 0); if (t < L) s[t] = 0;
    for (int m = 0; m <= N + 3; m++) {
      if (t == L && m > L) break; /* not terminated: the bound is the caller's promise */
      c.eval(); c.note("strnlen: %d readable, terminator at %d, bound %d", L, t, m); Buf b(s); size_t r = sys_strnlen_s((char *)b.p, m);
      size_t w = t < m ? t : m; if (r != w) c.fail("strnlen-result", "%d readable, terminator at %d, bound %d gave %zu", L, t, m, r);
    }
    c.distinct(comb(comb(1, L), t));
  } else if (part == 2) { /* duplicates */
    int n = c.choose(N), k = c.choose(4); if (!c.mine()) return; std::string s = pat(n, k);
    c.note("duplicate of %d characters", n); c.distinct(comb(2, n));
    { Buf b(s + '\0'); char *d = sys_strdup((char *)b.p); c.eval(); if (!d || s != d || d == (char *)b.p) c.fail("strdup", "copy of %d characters is wrong", n); free(d); }
    for (int m = 0; m <= N + 3; m++) {
      c.eval(); c.note("strndup of %d bounded by %d", n, m);
      if (m <= n) { Buf b(s.substr(0, m)); char *d = sys_strndup((char *)b.p, m); if (!d || s.substr(0, m) != d) c.fail("strndup", "bounded copy %d of unterminated %d is wrong", m, m); free(d); }
      Buf b(s + '\0'); char *d = sys_strndup((char *)b.p, m); if (!d || s.substr(0, m) != d) c.fail("strndup", "copy of %d bounded by %d is wrong", n, m);
      free(d);
    }
    if (n) { Buf b(s); uint8_t *d = (uint8_t *)sys_memdup(b.p, n); c.eval(); if (!d || d == b.p || memcmp(d, s.data(), n)) c.fail("memdup", "copy of %d bytes is wrong", n); free(d); std::string z = s; z[n / 2] = 0; Buf e(z); d = (uint8_t *)sys_memdup(e.p, n); if (!d || memcmp(d, z.data(), n)) c.fail("memdup", "copy of %d bytes with a zero is wrong", n); free(d); }
    if (sys_memdup(nullptr, n)) c.fail("memdup-null", "copy of nothing");
    if (char *q = sys_strndup(nullptr, n)) { free(q); c.fail("strndup-null", "copy of nothing"); }
    uint8_t *q = (uint8_t *)sys_zalloc(n + 1); c.eval(); if (!q) c.fail("zalloc", "no memory"); for (int i = 0; i <= n; i++) if (q[i]) c.fail("zalloc", "not zeroed"); free(q);
  } else if (part == 3) { /* hexadecimal */
    int n = c.choose(c.thorough ? 140 : 40), up = c.choose(2), f = c.choose(3); if (!c.mine()) return;
    std::string d; for (int i = 0; i < n; i++) d += (char)(f == 0 ? i * 17 + n : f == 1 ? 0xff - i : i & 1 ? 0x0a : 0xb0);
    std::string h; char t[4]; for (unsigned char x : d) { snprintf(t, 4, up ? "%02X" : "%02x", x); h += t; }
    for (int z = 0; z <= 2 * n + 6; z++) {
      c.eval(); c.distinct(comb(comb(3, n), z)); c.note("hex of %d bytes into %d", n, z);
      Buf in(d); uint8_t *o = (uint8_t *)malloc(z ? z : 1); if (z) memset(o, 0x77, z);
      size_t r = printf_hex((char *)o, z, in.p, n, up);
      bool term = z == 0 || memchr(o, 0, z); std::string got = z && term ? std::string((char *)o) : ""; free(o);
      if (!term) c.fail("hex-unterminated", "hex of %d bytes into %d", n, z);
      size_t fit = z ? 2 * ((size_t)(z - 1) / 2) : 0; size_t w = fit < h.size() ? fit : h.size();
      if (n == 0) { if (r) c.fail("hex-result", "hex of nothing returned %zu", r); continue; }
      if (r != w) c.fail("hex-result", "hex of %d bytes into %d returned %zu, not %zu", n, z, r, w);
      if (z > (int)h.size() ? got != h : got.compare(0, w, h, 0, w) != 0) c.fail("hex-content", "hex of %d bytes into %d gave '%s', not '%s'", n, z, got.c_str(), h.c_str());
    }
    if (n == 8 && !up && !f) c.sample("hex of 8 bytes into 0..22: %s", h.c_str());
  } else if (part == 4) { /* bytes: every value in hex */
    int v = c.choose(256); if (!c.mine()) return;
    for (int w = 0; w < 256; w++) { uint8_t d[2] = {(uint8_t)v, (uint8_t)w}; char o[5], e[5]; c.eval(); size_t r = printf_hex(o, 5, d, 2, w & 1); snprintf(e, 5, w & 1 ? "%02X%02X" : "%02x%02x", v, w); if (r != 4 || strcmp(o, e)) c.fail("hex-content", "%02x%02x printed as %s", v, w, o); }
    c.distinct(comb(4, v));
  } else { /* array reallocation, incl. overflow of the product */
    static const size_t S[] = {0, 1, 2, 3, 7, 8, 16, 255, 256, 4096, (size_t)1 << 31, (size_t)1 << 32, ((size_t)1 << 32) + 1, (size_t)1 << 33, (size_t)1 << 62, (size_t)1 << 63, ((size_t)1 << 63) + 1, (size_t)-1, (size_t)-2, (size_t)-1 / 2, (size_t)-1 / 2 + 1, (size_t)-1 / 3, (size_t)-1 / 3 + 1};
    int n = sizeof S / sizeof *S, a = c.choose(n); if (!c.mine()) return;
    for (int b = 0; b < n; b++) {
      unsigned __int128 p = (unsigned __int128)S[a] * S[b]; c.eval(); c.distinct(comb(comb(5, a), b)); c.note("realloc_array %zu x %zu", S[a], S[b]);
      if (p == 0) continue; /* releases or not: not specified */
      if (p > 64 << 20) {
        uint8_t *q = (uint8_t *)malloc(16); memset(q, 0x31, 16); void *r = p >> 64 || p > ((unsigned __int128)1 << 62) ? sys_realloc_array(q, S[a], S[b]) : nullptr;
        if (r) c.fail("realloc-overflow", "%zu x %zu elements succeeded", S[a], S[b]);
        for (int i = 0; i < 16; i++) if (q[i] != 0x31) c.fail("realloc-overflow", "a refused reallocation changed the array");
        free(q); continue;
      }
      uint8_t *q = (uint8_t *)malloc(16); memset(q, 0x31, 16); uint8_t *r = (uint8_t *)sys_realloc_array(q, S[a], S[b]);
      if (!r) c.fail("realloc", "%zu x %zu failed", S[a], S[b]);
      for (size_t i = 0; i < 16 && i < (size_t)p; i++) if (r[i] != 0x31) c.fail("realloc", "content lost"); r[(size_t)p - 1] = 1; free(r);
    }
  }
}
int main(int argc, char **argv) { Opts o; o.worker_init = quiet_logs; return run(argc, argv, body, o); }
