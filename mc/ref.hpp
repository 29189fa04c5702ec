/* ref.hpp - reference models written independently of the code under test */
#pragma once
#include <cstdint>
#include <cstring>
#include <map>
#include <string>
#include <utility>
#include <vector>

namespace ref {
typedef std::string bytes;

inline std::string hex(const std::string &s, size_t max = 48) {
  std::string o; char b[4];
  for (size_t i = 0; i < s.size() && i < max; i++) { snprintf(b, sizeof b, "%02x", (unsigned char)s[i]); o += b; }
  if (s.size() > max) o += "...(" + std::to_string(s.size()) + ")";
  return o;
}

/* ---- base64 (RFC 4648, padded) ---- */
inline int b64v(unsigned char c) {
  if (c >= 'A' && c <= 'Z') return c - 'A';
  if (c >= 'a' && c <= 'z') return c - 'a' + 26;
  if (c >= '0' && c <= '9') return c - '0' + 52;
  if (c == '+') return 62;
  if (c == '/') return 63;
  return -1;
}
inline std::string b64enc(const bytes &in) {
  static const char *T = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
  std::string o; uint32_t acc = 0; int nb = 0;
  for (unsigned char c : in) { acc = (acc << 8) | c; nb += 8; while (nb >= 6) { nb -= 6; o += T[(acc >> nb) & 63]; } }
  if (nb) o += T[(acc << (6 - nb)) & 63];
  while (o.size() % 4) o += '=';
  return o;
}
/* 1: text is base64 (with optional noise characters / omitted padding), out = value
   0: text must be refused; -1: not specified (misplaced or excess padding) */
inline int b64dec(const std::string &t, bytes &out) {
  std::string s; out.clear();
  for (unsigned char c : t) if (b64v(c) >= 0 || c == '=') s += (char)c;
  size_t e = s.find('=');
  std::string body = e == std::string::npos ? s : s.substr(0, e);
  std::string pad = e == std::string::npos ? "" : s.substr(e);
  if (pad.find_first_not_of('=') != std::string::npos) return -1;
  if (body.empty()) return 0;
  if (body.size() % 4 == 1) return 0;
  size_t want = (4 - body.size() % 4) % 4;
  if (pad.size() > want) return -1;
  uint32_t acc = 0; int nb = 0;
  for (unsigned char c : body) { acc = (acc << 6) | b64v(c); nb += 6; if (nb >= 8) { nb -= 8; out += (char)((acc >> nb) & 255); } }
  return 1;
}

/* ---- strict JSON (RFC 8259) ---- */
struct J {
  enum T { NUL, BOOL, NUM, STR, ARR, OBJ } t = NUL;
  bool b = false; std::string s; /* STR value or NUM/primitive text */
  std::vector<J> a; std::vector<std::pair<std::string, J>> o;
};
struct JP {
  const std::string &s; size_t p = 0; int depth = 0;
  JP(const std::string &x) : s(x) {}
  void ws() { while (p < s.size() && (s[p] == ' ' || s[p] == '\t' || s[p] == '\n' || s[p] == '\r')) p++; }
  bool lit(const char *l) { size_t n = strlen(l); if (s.compare(p, n, l) == 0) { p += n; return true; } return false; }
  static void utf8(std::string &o, uint32_t c) {
    if (c < 0x80) o += (char)c;
    else if (c < 0x800) { o += (char)(0xc0 | c >> 6); o += (char)(0x80 | (c & 63)); }
    else if (c < 0x10000) { o += (char)(0xe0 | c >> 12); o += (char)(0x80 | ((c >> 6) & 63)); o += (char)(0x80 | (c & 63)); }
    else { o += (char)(0xf0 | c >> 18); o += (char)(0x80 | ((c >> 12) & 63)); o += (char)(0x80 | ((c >> 6) & 63)); o += (char)(0x80 | (c & 63)); }
  }
  bool h4(uint32_t &v) {
    v = 0; if (p + 4 > s.size()) return false;
    for (int i = 0; i < 4; i++) { char c = s[p++]; int d = c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'f' ? c - 'a' + 10 : c >= 'A' && c <= 'F' ? c - 'A' + 10 : -1; if (d < 0) return false; v = v * 16 + d; }
    return true;
  }
  bool str(std::string &o) {
    if (p >= s.size() || s[p] != '"') return false; p++;
    while (p < s.size()) {
      unsigned char c = s[p++];
      if (c == '"') return true;
      if (c < 0x20) return false;
      if (c != '\\') { o += (char)c; continue; }
      if (p >= s.size()) return false;
      c = s[p++];
      switch (c) {
        case '"': case '\\': case '/': o += (char)c; break;
        case 'b': o += '\b'; break; case 'f': o += '\f'; break; case 'n': o += '\n'; break;
        case 'r': o += '\r'; break; case 't': o += '\t'; break;
        case 'u': {
          uint32_t v; if (!h4(v)) return false;
          if (v >= 0xd800 && v < 0xdc00 && s.compare(p, 2, "\\u") == 0) { p += 2; uint32_t w; if (!h4(w)) return false; if (w < 0xdc00 || w > 0xdfff) return false; v = 0x10000 + ((v - 0xd800) << 10) + (w - 0xdc00); }
          utf8(o, v); break; }
        default: return false;
      }
    }
    return false;
  }
  bool num(std::string &o) {
    size_t q = p; if (p < s.size() && s[p] == '-') p++;
    if (p < s.size() && s[p] == '0') p++; else { size_t d = p; while (p < s.size() && isdigit((unsigned char)s[p])) p++; if (p == d) return false; }
    if (p < s.size() && s[p] == '.') { p++; size_t d = p; while (p < s.size() && isdigit((unsigned char)s[p])) p++; if (p == d) return false; }
    if (p < s.size() && (s[p] == 'e' || s[p] == 'E')) { p++; if (p < s.size() && (s[p] == '+' || s[p] == '-')) p++; size_t d = p; while (p < s.size() && isdigit((unsigned char)s[p])) p++; if (p == d) return false; }
    o = s.substr(q, p - q); return true;
  }
  bool val(J &j) {
    if (++depth > 64) return false; ws(); bool r = false;
    if (p >= s.size()) r = false;
    else if (s[p] == '{') {
      j.t = J::OBJ; p++; ws();
      if (p < s.size() && s[p] == '}') { p++; r = true; }
      else for (;;) {
        ws(); std::string k; if (!str(k)) break; ws(); if (p >= s.size() || s[p++] != ':') break;
        J v; if (!val(v)) break; j.o.push_back({k, v}); ws();
        if (p >= s.size()) break; char c = s[p++]; if (c == '}') { r = true; break; } if (c != ',') break;
      }
    } else if (s[p] == '[') {
      j.t = J::ARR; p++; ws();
      if (p < s.size() && s[p] == ']') { p++; r = true; }
      else for (;;) { J v; if (!val(v)) break; j.a.push_back(v); ws(); if (p >= s.size()) break; char c = s[p++]; if (c == ']') { r = true; break; } if (c != ',') break; }
    } else if (s[p] == '"') { j.t = J::STR; r = str(j.s); }
    else if (lit("true")) { j.t = J::BOOL; j.b = true; j.s = "true"; r = true; }
    else if (lit("false")) { j.t = J::BOOL; j.b = false; j.s = "false"; r = true; }
    else if (lit("null")) { j.t = J::NUL; j.s = "null"; r = true; }
    else { j.t = J::NUM; r = num(j.s); }
    depth--; return r;
  }
};
inline bool json(const std::string &s, J &j) { JP p(s); if (!p.val(j)) return false; p.ws(); return p.p == s.size(); }

inline std::string jstr(const std::string &s) { /* one valid JSON encoding */
  std::string o = "\""; char b[8];
  for (unsigned char c : s) { if (c == '"' || c == '\\') { o += '\\'; o += (char)c; } else if (c < 0x20) { snprintf(b, sizeof b, "\\u%04x", c); o += b; } else o += (char)c; }
  return o + "\"";
}

/* ---- calendar ---- */
inline bool leap(int y) { return (y % 4 == 0 && y % 100 != 0) || y % 400 == 0; }
inline int mdays(int y, int m) { static const int d[] = {31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31}; return m == 2 && leap(y) ? 29 : d[m - 1]; }
struct T6 { int Y = 0, M = 0, D = 0, h = 0, m = 0, s = 0; bool operator==(const T6 &o) const { return Y == o.Y && M == o.M && D == o.D && h == o.h && m == o.m && s == o.s; } };
inline std::string iso(const T6 &t) { char b[64]; snprintf(b, sizeof b, "%04d-%02d-%02dT%02d:%02d:%02dZ", t.Y, t.M, t.D, t.h, t.m, t.s); return b; }
} // namespace ref
