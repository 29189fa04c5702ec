/* C19: certificate, key and signed-voucher files */
#include "mc.hpp"
#include <functional>
#include <dlfcn.h>
#include <dirent.h>
#define SRV_NO_STUB
#include "servers.hpp"
#include "sizes.hpp"
using namespace mc; using namespace srv;
/* stdio under our control: the n-th call of the code under test fails */
static int ARMED, COUNT, FAULT, SHORT; static int FIRED;
static bool hit() { if (!ARMED) return false; if (COUNT++ != FAULT) return false; FIRED = 1; errno = ENOSPC; return true; }
template <class F> static F real(F, const char *n) { return (F)dlsym(RTLD_NEXT, n); }
#define REAL(f) ({ static auto p = real(&f, #f); p; })
extern "C" {
size_t fwrite(const void *b, size_t s, size_t n, FILE *f) { if (hit()) { if (SHORT && n * s > 1) REAL(fwrite)(b, 1, n * s / 2, f); f->_flags |= 0x20; errno = ENOSPC; return 0; } return REAL(fwrite)(b, s, n, f); }
int fflush(FILE *f) { if (hit()) { f->_flags |= 0x20; return EOF; } return REAL(fflush)(f); }
int fclose(FILE *f) { if (hit()) { REAL(fclose)(f); errno = ENOSPC; return EOF; } return REAL(fclose)(f); }
FILE *fopen(const char *p, const char *m) { if (hit()) { errno = EMFILE; return nullptr; } return REAL(fopen)(p, m); }
FILE *fopen64(const char *p, const char *m) { if (hit()) { errno = EMFILE; return nullptr; } return REAL(fopen64)(p, m); }
size_t fread(void *b, size_t s, size_t n, FILE *f) { if (hit()) { f->_flags |= 0x20; errno = EIO; return 0; } return REAL(fread)(b, s, n, f); }
char *fgets(char *b, int n, FILE *f) { if (hit()) { f->_flags |= 0x20; errno = EIO; return nullptr; } return REAL(fgets)(b, n, f); }
}
struct Obj { std::string name; int kind; bytes der; /* 0 certificate 1 key 2 signed voucher */ }; static std::vector<Obj> OB; static const char *MARK[] = {"CERTIFICATE", "PRIVATE KEY"};
static Site W; static Key RSAK, EDK, P384; 
static void init() { W.make(); RSAK = rsa(2048); EDK = ed(); P384 = ec("p384", NID_secp384r1); Key X = fin(EVP_PKEY_Q_keygen(nullptr, nullptr, "ED448")), P521 = fin(EVP_PKEY_Q_keygen(nullptr, nullptr, "EC", "P-521")), R3 = rsa(3072);
  auto C = [](const char *n, const bytes &d) { OB.push_back({std::string("certificate: ") + n, 0, d}); }; auto K = [](const char *n, const bytes &d) { OB.push_back({std::string("key: ") + n, 1, d}); }; auto S = [](const char *n, const bytes &d) { OB.push_back({std::string("signed: ") + n, 2, d}); };
  C("P-256", W.pledge.cert.der); K("P-256", W.pledge.key.der); S("request", pvr(W.pledge, "12345", W.regtls.cert.der));
  Spec s; s.subject = cn("x"); s.key = &RSAK; C("RSA", cert(s).der); s.key = &EDK; C("Ed25519", cert(s).der); s.key = &P384; s.keyids = false; s.isca = -1; C("P-384, no extensions", cert(s).der); s.subject = Name{}; C("no name", cert(s).der); s.subject = cn(std::string(64, 'n')); for (int i = 0; i < 200; i++) s.subject.push_back({"OU", std::string(60, 'o')}); C("14 kB", cert(s).der);
  K("RSA 2048", RSAK.der); K("RSA 3072", R3.der); K("Ed25519", EDK.der); K("Ed448", X.der); K("P-384", P384.der); K("P-521", P521.der);
  S("nested", rvr(W.reg, "12345", pvr(W.pledge, "12345", W.regtls.cert.der))); for (int n : {0, 1, 2900, 3000, 3100, 20000}) S((std::to_string(n) + " bytes").c_str(), cms(bytes(n, 'v'), {{&W.reg.cert, &W.reg.key}})); S("two signers", cms("v", {{&W.reg.cert, &W.reg.key}, {&W.other.cert, &W.other.key}})); }
/* independent readers: PEM body or S/MIME body */
static bool body64(const bytes &t, size_t i, const std::string &stop, bytes &out) { std::string b; for (; i < t.size(); i++) { if (stop.size() && t.compare(i, stop.size(), stop) == 0) { return ref::b64dec(b, out) == 1; } if (!strchr("\r\n \t", t[i])) b += t[i]; } return stop.empty() && ref::b64dec(b, out) == 1; }
static bool unpem(const bytes &t, const std::string &label, bytes &out) { size_t i = t.find("-----BEGIN " + label + "-----"); if (i == t.npos) return false; return body64(t, t.find('\n', i), "-----END " + label + "-----", out); }
static bool holds(const Obj &o, const bytes &t) { bytes d; if (o.kind < 2) { if (!unpem(t, MARK[o.kind], d)) return false; if (o.kind == 0) return d == o.der; const unsigned char *p = (const unsigned char *)d.data(); EVP_PKEY *k = d2i_AutoPrivateKey(nullptr, &p, (long)d.size()); bytes x = k ? der(k) : ""; EVP_PKEY_free(k); ERR_clear_error(); return x == o.der; }
  size_t i = t.find("\n\n"), j = t.find("\r\n\r\n"); size_t h = i != t.npos ? i + 2 : j != t.npos ? j + 4 : t.npos; if (h == t.npos || t.find("application/") == t.npos || t.find("pkcs7-mime") > h || t.find("base64") > h || t.compare(0, 8, "MIME-Ver") != 0) return false; return body64(t, h, "", d) && d == o.der; }
static int wr(const Obj &o, const bytes &d, const std::string &f) { Arr a(d); return o.kind == 0 ? certbuf_to_file(a, f.c_str()) : o.kind == 1 ? keybuf_to_file(a, f.c_str()) : cmsbuf_to_file(a, f.c_str()); }
static struct BinaryArray *rd(int kind, const std::string &f) { return kind ? file_to_keybuf(f.c_str()) : file_to_x509buf(f.c_str()); }
static int fds() { int n = 0; DIR *d = opendir("/proc/self/fd"); if (!d) return -1; while (readdir(d)) n++; closedir(d); return n; }
static bytes canon(int kind, const bytes &d, bool &ok) { const unsigned char *p = (const unsigned char *)d.data(); bytes r; ok = false; if (kind == 0) { X509 *x = d2i_X509(nullptr, &p, (long)d.size()); if (x) { r = der(x); ok = true; } X509_free(x); } else { EVP_PKEY *k = d2i_AutoPrivateKey(nullptr, &p, (long)d.size()); if (k) { r = der(k); ok = true; } EVP_PKEY_free(k); } ERR_clear_error(); return r; }
static void limit(long n) { struct rlimit l; getrlimit(RLIMIT_FSIZE, &l); l.rlim_cur = n < 0 ? l.rlim_max : n; setrlimit(RLIMIT_FSIZE, &l); }
static std::string full(const Obj &o, const std::string &f) { if (wr(o, o.der, f) != 0) return ""; bytes t; read(f, t); return t; }
static void readback(Ctx &c, int kind, const bytes &text, const bytes *must, int want, const char *why, const bytes *alt = nullptr) { /* want 1 must be read, 0 must be refused, -1 either; whatever is read must be must or alt */
  std::string f = c.scratch + "/r.pem"; if (!write(f, text)) die("write"); c.eval(); c.transition(); struct BinaryArray *b = rd(kind, f); if (!b) { if (want == 1) c.fail("read-refused", "%s: a good file was refused", why); return; } bytes g = take(b); if (want == 0) c.fail("read-damaged", "%s: %zu bytes were returned", why, g.size()); if (!(must && g == *must) && !(alt && g == *alt)) c.fail("read-wrong", "%s: other content (%zu bytes) was returned", why, g.size()); }
/* nothing to write, or nowhere to write or read: refused, and an existing file stays as it was */
static void nothing(Ctx &c) {
  int k = c.choose(3), m = c.choose(4); if (!c.mine()) return; c.note("file function %d, missing argument %d", k, m); c.eval(); c.transition(); c.distinct(comb(comb(995, k), m)); std::string f = c.scratch + "/n.pem"; write(f, "as it was"); auto wr = [&](const struct BinaryArray *b, const char *p) { return k == 0 ? certbuf_to_file(b, p) : k == 1 ? keybuf_to_file(b, p) : cmsbuf_to_file(b, p); };
  bool ok = true; bytes d = k == 0 ? W.pledge.cert.der : k == 1 ? W.pledge.key.der : bytes("abc"); Heap h(d); struct BinaryArray b; memset(&b, 0, sizeof b); b.array = h.p; b.length = h.n;
  if (m == 0) ok = wr(nullptr, f.c_str()) < 0; else if (m == 1) ok = wr(&b, nullptr) < 0; else if (m == 2) { b.array = nullptr; b.length = 0; ok = wr(&b, f.c_str()) < 0; } else if (k < 2) { struct BinaryArray *r = k ? file_to_keybuf(nullptr) : file_to_x509buf(nullptr); ok = !r; if (r) free_binary_array(r); }
  if (!ok) c.fail("null-argument", "function %d, missing argument %d: not refused", k, m); bytes now; pki::read(f, now); if (now != "as it was") c.fail("null-emptied", "function %d, missing argument %d: the file was changed", k, m); unlink(f.c_str());
}
static void body(Ctx &c) {
  if (c.choose(2)) { nothing(c); return; }
  static bool made = false; if (!made) { W.files(c.scratch); made = true; signal(SIGXFSZ, SIG_IGN); } int part = c.choose(9); std::string f = c.scratch + "/o.pem"; 
  if (part == 8) { /* every length class */
    auto &sz = mc::sizes(c.thorough); size_t n = sz[c.choose((int)sz.size())]; int k = c.choose(2); if (!c.mine()) return; Obj o; o.kind = k ? 2 : 0; bytes t(n, 0); for (size_t i = 0; i < n; i++) t[i] = (char)('a' + (i + (i >> 7)) % 26);
    if (k) o.der = cms(t, {{&W.reg.cert, &W.reg.key}}); else { Spec s; s.subject = cn("x"); s.key = &W.other.key; s.ext = {{NID_netscape_comment, t}}; Cert x = cert(s); o.der = x.der; X509_free(x.x); } c.note("%s of about %zu bytes", k ? "signed" : "certificate", n); c.eval(); c.transition(); c.distinct(comb(comb(0x5e, n), k)); unlink(f.c_str());
    if (wr(o, o.der, f) != 0) c.fail("write-refused", "%s", c.w->note); bytes x; read(f, x); if (!holds(o, x)) c.fail("write-wrong", "%s: the file of %zu bytes holds something else", c.w->note, x.size()); if (!k) { struct BinaryArray *b = rd(0, f); if (!b) c.fail("read-refused", "%s: not read back", c.w->note); bytes g = take(b); if (g != o.der) c.fail("roundtrip", "%s: %zu other bytes read back", c.w->note, g.size()); } return;
  }
  if (part == 0) { /* every object into a new file, over a longer one, over an unrelated one; read back */
    int i = c.choose((int)OB.size()), e = c.choose(4); if (!c.mine()) return; const Obj &o = OB[i]; unlink(f.c_str()); if (e == 1) write(f, bytes(100000, 'x')); if (e == 2) write(f, W.mfr.cert.pem + W.mfr.key.pem + W.mfr.cert.pem); if (e == 3) { unlink((f + ".t").c_str()); write(f + ".t", "old"); if (symlink((f + ".t").c_str(), f.c_str())) die("symlink"); } c.note("%s, %s", o.name.c_str(), e == 0 ? "new file" : e == 3 ? "through a link" : "over another file"); c.eval(); c.distinct(comb(comb(1, i), e)); int fd = fds(); int r = wr(o, o.der, f); c.transition(); bytes t; bool has = read(f, t); if (r != 0) c.fail("write-refused", "%s: %d", c.w->note, r); if (!has || !holds(o, t)) c.fail("file-content", "%s: the file does not hold the object (%zu bytes)", c.w->note, t.size());
    if (o.kind < 2) { struct BinaryArray *b = rd(o.kind, f); if (!b) c.fail("read-refused", "%s: not read back", c.w->note); bytes g = take(b); if (g != o.der) c.fail("roundtrip", "%s: %zu other bytes read back", c.w->note, g.size()); } c.validated(); if (fds() != fd) c.fail("descriptor-leak", "%s", c.w->note); if (e == 0) c.sample("%s: %zu bytes of text", o.name.c_str(), t.size());
  } else if (part == 1) { /* the disk is full after any number of bytes */
    int i = c.choose(c.thorough ? (int)OB.size() : 7), ch = c.choose(64), e = c.choose(2); if (!c.mine()) return; static const int QI[] = {0, 1, 2, 3, 8, 10, 14}; if (!c.thorough) i = QI[i]; const Obj &o = OB[i]; std::string t = full(o, f); if (t.empty()) c.fail("write-refused", "%s", o.name.c_str()); int fd = fds(); long step = t.size() > 6000 && !c.thorough ? 13 : t.size() > 6000 ? 7 : 1; for (long n = ch * step; n <= (long)t.size(); n += (n + step <= (long)t.size() || n == (long)t.size()) ? 64 * step : (long)t.size() - n) { unlink(f.c_str()); if (e) write(f, bytes(100, 'x')); c.note("%s: the disk is full after %ld of %zu bytes", o.name.c_str(), n, t.size()); c.eval(); c.distinct(comb(comb(comb(2, i), n), e)); limit(n); int r = wr(o, o.der, f); limit(-1); c.transition(); bytes g; read(f, g); bool whole = holds(o, g); if (r == 0 && !whole) c.fail("write-unreported", "%s: reported as success, the file holds %zu bytes", c.w->note, g.size()); if (n == (long)t.size() && r != 0) c.fail("write-refused", "%s", c.w->note); } if (fds() != fd) c.fail("descriptor-leak", "%s", c.w->note);
  } else if (part == 2) { /* any single library call fails */
    int i = c.choose((int)OB.size()), m = c.choose(2), sh = c.choose(2); if (!c.mine()) return; const Obj &o = OB[i]; if (m && o.kind == 2) return; std::string t = full(o, f), g0 = f + ".r"; int fd = fds(); write(g0, t); for (int n = 0; n < 2000; n++) { unlink(f.c_str()); c.note("%s: file operation %d of %s fails%s", o.name.c_str(), n, m ? "reading" : "writing", sh ? " half way" : ""); c.eval(); c.distinct(comb(comb(comb(3, i), n), m * 2 + sh)); COUNT = 0; FAULT = n; SHORT = sh; FIRED = 0; ARMED = 1; int r = -1; struct BinaryArray *b = nullptr; if (m) b = rd(o.kind, g0); else r = wr(o, o.der, f); ARMED = 0; c.transition(); 
      if (m) { if (b) { bytes x = take(b); if (x != o.der) c.fail("read-wrong", "%s: %zu other bytes returned", c.w->note, x.size()); } else if (!FIRED) c.fail("read-refused", "%s", c.w->note); } else { bytes x; read(f, x); if (r == 0 && !holds(o, x)) c.fail("write-unreported", "%s: reported as success, the file holds %zu bytes", c.w->note, x.size()); if (r != 0 && !FIRED) c.fail("write-refused", "%s", c.w->note); } if (!FIRED) break; } if (fds() != fd) c.fail("descriptor-leak", "%s", c.w->note);
  } else if (part == 3) { /* places that cannot be written, objects that are none; an existing file survives an unusable object */
    int i = c.choose(3), k = c.choose(14); if (!c.mine()) return; const Obj &o = OB[i]; c.eval(); c.distinct(comb(comb(4, i), k)); if (k < 5) { std::string p = k == 0 ? W.p("nodir/x") : k == 1 ? W.p("dir") : k == 2 ? "" : k == 3 ? W.p("mfr.crt/x") : "/dev/full"; c.note("%s to %s", o.name.c_str(), p.c_str()); if (wr(o, o.der, p) == 0) c.fail("write-unreported", "%s: success", c.w->note); return; }
    bytes d = o.der; switch (k) { case 5: d = ""; break; case 6: d = "x"; break; case 7: d.resize(d.size() - 1); break; case 8: d.resize(d.size() / 2); break; case 9: d = OB[(i + 1) % 3].der; break; case 10: d = OB[(i + 2) % 3].der; break; case 11: d[1] ^= 0x40; break; case 12: d = bytes(1000, '\0'); break; default: d = bytes(1000, '0'); } c.note("%s: unusable object %d over an existing file", o.name.c_str(), k); write(f, "precious"); int r = wr(o, d, f); c.transition(); bytes g; read(f, g); if (r == 0) c.fail("unusable-written", "%s: reported as success", c.w->note); if (g != "precious") c.fail("file-destroyed", "%s: the existing file was destroyed", c.w->note);
  } else if (part == 4) { /* files cut at any byte */
    int i = c.choose((int)OB.size()), ch = c.choose(16); if (!c.mine()) return; const Obj &o = OB[i]; if (o.kind == 2) return; std::string t = full(o, f); size_t end = t.find("-----END"), step = t.size() > 9000 ? 5 : 1; std::string lab = std::string("-----END ") + MARK[o.kind] + "-----"; for (size_t n = ch * step; n <= t.size(); n += 16 * step) { c.note("%s: cut after %zu of %zu bytes", o.name.c_str(), n, t.size()); c.distinct(comb(comb(5, i), n)); readback(c, o.kind, t.substr(0, n), &o.der, n == t.size() ? 1 : n < end + lab.size() ? 0 : -1, c.w->note); }
  } else if (part == 5) { /* any byte changed */
    int i = c.choose((int)OB.size()), ch = c.choose(32); if (!c.mine()) return; const Obj &o = OB[i]; if (o.kind == 2) return; std::string t = full(o, f); if (t.size() > 9000 || (!c.thorough && i > 8 && i != 10 && i != 12)) return; size_t b0 = t.find('\n'), end = t.find("-----END"); for (size_t n = ch; n < t.size(); n += 32) { static const char S[] = {'A', '/', '=', '-', '\n', ' ', '\0', '!', (char)0xff, ':'}; for (int k = 0; k < (c.thorough ? 255 : (int)sizeof S); k++) { std::string x = t; x[n] = c.thorough ? (char)(t[n] ^ (k + 1)) : S[k]; if (x == t) continue; c.note("%s: byte %zu changed to %02x", o.name.c_str(), n, (unsigned char)x[n]); c.distinct(comb(comb(comb(6, i), n), k));
      bool inb = n > b0 && n < end; bytes d, cn_; bool ok = unpem(x, MARK[o.kind], d), can = false; if (ok) cn_ = canon(o.kind, d, can); int want = -1; if (n == end - 1) want = -1; else if (inb && strchr("!\xff:", x[n]) && x[n]) want = 0; else if (inb && ok && !can) want = 0; /* damaged base64, or base64 of no such object */
      readback(c, o.kind, x, &o.der, want, c.w->note, can ? &cn_ : nullptr); } }
  } else if (part == 6) { /* what surrounds the object, and other objects */
    int k = c.choose(20), kind = c.choose(2); if (!c.mine()) return; const Obj &o = OB[kind], &q = OB[1 - kind]; std::string t = full(o, f), u = full(q, f), x, cr; for (char ch : t) { if (ch == '\n') cr += '\r'; cr += ch; } int want = 1; bytes second = kind ? P384.der : W.mfr.cert.der; std::string t2 = kind ? P384.pem : W.mfr.cert.pem;
    switch (k) { case 0: x = t; break; case 1: x = "Certificate:\n  Data: x\n\n" + t; break; case 2: x = t + "trailing text\n"; break; case 3: x = cr; break; case 4: x = t + t2; break; case 5: x = u + t; break; case 6: x = t + u; break; case 7: x = "\n\n\n" + t; break; case 8: x = t.substr(0, t.size() - 1); break; case 9: x = u; want = 0; break; case 10: x = ""; want = 0; break; case 11: x = o.der; want = 0; break; case 12: x = crl(W.dom.cert, W.dom.key, {1}); want = 0; break; case 13: x = "-----BEGIN " + std::string(MARK[kind]) + "-----\n-----END " + MARK[kind] + "-----\n"; want = 0; break; case 14: x = bytes(100000, 'A'); want = 0; break; case 15: x = bytes(5000, '\0'); want = 0; break; case 16: x = ref::b64enc(o.der); want = 0; break; case 17: { BIO *b = BIO_new(BIO_s_mem()); EVP_PKEY *pk = X509_get_pubkey(W.pledge.cert.x); PEM_write_bio_PUBKEY(b, pk); EVP_PKEY_free(pk); x = bio(b); want = 0; break; } case 18: { bytes m = OB[2].der; x = "-----BEGIN " + std::string(MARK[kind]) + "-----\n" + ref::b64enc(m) + "\n-----END " + MARK[kind] + "-----\n"; want = 0; break; } default: { std::string b = ref::b64enc(o.der), y; for (size_t i = 0; i < b.size(); i += 64) y += b.substr(i, 64) + "\n"; x = "-----BEGIN " + std::string(kind ? "EC PRIVATE KEY" : "CERTIFICATE") + "-----\n" + y + "-----END " + (kind ? "EC PRIVATE KEY" : "CERTIFICATE") + "-----\n"; } }
    c.note("%s, surroundings %d", o.name.c_str(), k); c.distinct(comb(comb(7, k), kind)); (void)second; readback(c, kind, x, &o.der, want, c.w->note); for (const char *n : {"nofile", "dir", "mfr.crt/x"}) { struct BinaryArray *b = rd(kind, W.p(n)); if (b) { free_binary_array(b); c.fail("read-damaged", "%s: something was returned", n); } }
  } else { /* sequences of writes and reads of several objects to one file: the last successful write wins */
    int n = c.thorough ? 5 : 4, k[5]; for (int j = 0; j < n; j++) k[j] = c.choose(6); if (!c.mine()) return; unlink(f.c_str()); int cur = -1; bool torn = true; c.eval(); uint64_t h = 8; for (int j = 0; j < n; j++) { h = comb(h, k[j]); c.distinct(h); c.note("step %d of %d %d %d %d", j, k[0], k[1], k[2], k[3]); c.transition(); if (k[j] < 3) { if (wr(OB[k[j]], OB[k[j]].der, f) != 0) c.fail("write-refused", "%s", c.w->note); cur = k[j]; torn = false; } else if (k[j] == 3) { if (wr(OB[0], "junk", f) == 0) c.fail("unusable-written", "%s", c.w->note); } else if (k[j] == 4) { limit(20); if (wr(OB[1], OB[1].der, f) == 0) c.fail("write-unreported", "%s", c.w->note); limit(-1); torn = true; } else for (int m = 0; m < 2; m++) { struct BinaryArray *b = rd(m, f); bytes g = b ? take(b) : ""; if ((b != nullptr) != (!torn && cur == m)) c.fail("history", "%s: reading a %s %s", c.w->note, m ? "key" : "certificate", b ? "succeeded" : "failed"); if (b && g != OB[m].der) c.fail("history", "%s: other content", c.w->note); } }
  }
}
int main(int argc, char **argv) { quiet_logs(); init(); Opts o; o.worker_init = quiet_logs; o.settle = pki::settle; return run(argc, argv, body, o); }
