/* C03: base64 codec.  Exhaustive enumeration of byte strings / texts against an
 * independent RFC 4648 codec. */
#include "mc.hpp"
#include "sizes.hpp"
#include "ref.hpp"
#include "repo.hpp"
using namespace mc; using ref::bytes;

static void roundtrip(Ctx &c, const bytes &in) {
  c.note("encode/decode of %s", ref::hex(in).c_str());
  c.eval();
  Heap h(in); uint8_t *out = nullptr;
  ssize_t n = serialize_array2base64str(h.p, h.n, &out);
  if (n < 0 || !out) { free(out); c.fail("encode-fails", "encoding %s failed", ref::hex(in).c_str()); }
  std::string e = ref::b64enc(in), got((char *)out);
  bool ok = (size_t)n == e.size() && got == e;
  if (!ok) { free(out); c.fail("encode-wrong", "encoding of %s is '%s' (len %zd), RFC 4648 says '%s'", ref::hex(in).c_str(), got.c_str(), n, e.c_str()); }
  if (in.empty()) { free(out); return; }
  Heap t(got); uint8_t *back = nullptr;
  free(out);
  ssize_t m = serialize_base64str2array(t.p, t.n, &back);
  bytes b = m >= 0 && back ? bytes((char *)back, m) : bytes();
  free(back);
  if (m < 0 || b != in) c.fail("roundtrip", "decode(encode(%s)) = %zd %s", ref::hex(in).c_str(), m, ref::hex(b).c_str());
}

static void decode(Ctx &c, const std::string &t) {
  c.note("decode of text 0x%s", ref::hex(t).c_str());
  c.eval();
  Heap h(t); uint8_t *out = (uint8_t *)1; bytes want;
  ssize_t n = serialize_base64str2array(h.p, h.n, &out);
  int spec = ref::b64dec(t, want);
  if (n < 0) {
    if (out != nullptr) c.fail("dangling-out", "decode of 0x%s failed but left the output pointer at freed or foreign memory", ref::hex(t).c_str());
    if (spec == 1) c.fail("decode-refuses-valid", "decode of 0x%s failed, expected %s", ref::hex(t).c_str(), ref::hex(want).c_str());
    return;
  }
  volatile uint8_t x = 0; for (ssize_t i = 0; i < n; i++) x ^= out[i]; /* every claimed byte is readable */
  bytes got((char *)out, n); free(out);
  if (spec == 0) c.fail("decode-accepts-invalid", "decode of 0x%s accepted as %zd bytes", ref::hex(t).c_str(), n);
  if (spec == 1 && got != want) c.fail("decode-wrong", "decode of 0x%s = %s, expected %s", ref::hex(t).c_str(), ref::hex(got).c_str(), ref::hex(want).c_str());
}

static void body(Ctx &c) {
  int part = c.choose(7, "part");
  if (part == 6) { /* large */
    auto &S = mc::sizes(c.thorough); size_t n = S[c.choose((int)S.size())]; int f = c.choose(3); if (!c.mine()) return; bytes s; for (size_t i = 0; i < n; i++) s += (char)(f == 0 ? i * 7 + i / 251 : f == 1 ? 0 : 0xff); c.distinct(comb(comb(66, n), f)); roundtrip(c, s);
    std::string e = ref::b64enc(s); for (size_t w : {60u, 64u, 72u, 76u, 77u}) for (int nl = 0; nl < 2; nl++) { std::string t; for (size_t i = 0; i < e.size(); i += w) { t += e.substr(i, w); t += nl ? "\r\n" : "\n"; } decode(c, t); } std::string t = e; while (t.size() && t.back() == '=') t.pop_back(); decode(c, t); decode(c, e.substr(0, e.size() - 3)); t = e; t[t.size() / 2] = '='; decode(c, t); return;
  }
  if (part == 0) { /* every byte string of length 0..2 */
    int b0 = c.choose(256); if (!c.mine()) return;
    if (b0 == 0) roundtrip(c, "");
    roundtrip(c, bytes(1, (char)b0));
    for (int b1 = 0; b1 < 256; b1++) { bytes s; s += (char)b0; s += (char)b1; c.distinct(fnvs(s)); roundtrip(c, s); }
  } else if (part == 1) { /* 3 bytes: every value of each sextet pair */
    int b0 = c.choose(256); int step = c.thorough ? 1 : 3; int b1 = c.choose(256 / step); if (!c.mine()) return;
    for (int b2 = 0; b2 < 256; b2 += c.thorough ? 1 : 5) { bytes s; s += (char)b0; s += (char)(b1 * step); s += (char)b2; roundtrip(c, s); }
    c.distinct(comb(1, b0 * 256 + b1));
  } else if (part == 2) { /* every length 0..600 (all block/pad phases), 4 fills */
    int len = c.choose(c.thorough ? 5000 : 1200), fill = c.choose(4); if (!c.mine()) return;
    bytes s; uint32_t x = 12345 + len;
    for (int i = 0; i < len; i++) { x = x * 1103515245 + 12345; s += fill == 0 ? (char)0 : fill == 1 ? (char)0xff : fill == 2 ? (char)i : (char)(x >> 16); }
    c.distinct(fnvs(s)); roundtrip(c, s);
    if (len) { /* the same text with a line break inserted at every position */
      std::string e = ref::b64enc(s);
      for (size_t k = 0; k <= e.size(); k += (len > 60 ? 17 : 1)) { std::string t = e; t.insert(k, "\n"); decode(c, t); }
    }
  } else if (part == 3) { /* every text over a small adversarial alphabet */
    static const char A[] = {'A', 'Q', '/', '=', '\n', '-', '\0', (char)0xff};
    int len = c.choose(c.thorough ? 9 : 8); int a = 0; std::string p;
    for (int i = 0; i < len && i < 3; i++) { a = c.choose(8); p += A[a]; }
    if (!c.mine()) return;
    c.distinct(comb(3, comb(len, fnvs(p))));
    int rest = len - (int)p.size(); std::vector<int> d(rest > 0 ? rest : 0, 0);
    for (;;) {
      std::string t = p; for (int k : d) t += A[k];
      decode(c, t);
      int i = 0; while (i < rest && ++d[i] == 8) d[i++] = 0;
      if (i >= rest) break;
    }
    if (len == 4) c.sample("all 8-symbol texts of length 4 starting 0x%s", ref::hex(p).c_str());
  } else if (part == 4) { /* every single byte in every position of a 4..8 character text */
    int b = c.choose(256); if (!c.mine()) return;
    const char *base[] = {"QUJD", "QUI=", "QQ==", "QUJDQUJD", "QUJDQUI=", "QUJDQQ=="};
    for (const char *s : base) for (size_t k = 0; k < strlen(s); k++) { std::string t = s; t[k] = (char)b; decode(c, t); t = s; t.insert(k, 1, (char)b); decode(c, t); }
    c.distinct(comb(4, b));
    if (b < 3) c.sample("byte 0x%02x substituted and inserted at every position of 6 texts", b);
  } else { /* every truncation of the encodings of lengths 1..24 */
    int len = 1 + c.choose(48); if (!c.mine()) return;
    bytes s; for (int i = 0; i < len; i++) s += (char)(i * 37 + 11);
    std::string e = ref::b64enc(s);
    for (size_t k = 0; k <= e.size(); k++) { decode(c, e.substr(0, k)); c.distinct(comb(5, comb(len, k))); }
  }
}
int main(int argc, char **argv) { Opts o; o.worker_init = quiet_logs; return run(argc, argv, body, o); }
