/* C14: enrolment: the certificate issued, and the enrolment log */
#include "mc.hpp"
#include <functional>
#include <algorithm>
#include "servers.hpp"
#include "sizes.hpp"
using namespace mc; using namespace srv;
static Site W; struct Cc { std::string name; bytes der; unsigned long long serial; std::string sn; }; static std::vector<Cc> CC; static std::vector<Id> CAS; static Key RSAK, RSACA, EDK, P384, P384CA;
struct Pr { const char *name; Cert c; unsigned long long serial; std::string sn; }; static std::vector<Pr> PR;
static void init() { W.make(); RSAK = rsa(2048); RSACA = rsa(2048); EDK = ed(); P384 = ec("p384", NID_secp384r1); P384CA = ec("p384ca", NID_secp384r1); static Key K = ec("subj");
  auto add = [](const std::string &n, Spec s, unsigned long long serial, const std::string &sn) { CC.push_back({n, cert(s).der, serial, sn}); };
  Spec b; b.key = &K; b.subject = Name{{"CN", "ldevid"}, {"serialNumber", "77"}}; b.isca = 0; b.keyids = false; b.serial = 77;
  Spec s = b; add("plain", s, 77, "77"); s = b; s.key = &RSAK; add("RSA", s, 77, "77"); s = b; s.key = &P384; add("P-384", s, 77, "77"); s = b; s.key = &EDK; s.by = &K; add("Ed25519 key", s, 77, "77"); s = b; s.key = &EDK; s.by = &EDK; add("self-signed Ed25519", s, 77, "77");
  s = b; s.subject = cn("no serial number"); add("no serialNumber", s, 77, "NULL"); s = b; s.subject = Name{}; s.subject.push_back({"serialNumber", "5"}); add("only serialNumber", s, 77, "5"); s = b; s.subject = Name{{"C", "IE"}, {"ST", "Dublin"}, {"L", "D"}, {"O", "\xc3\x89ire"}, {"OU", "u1"}, {"OU", "u2"}, {"CN", "a, b = \"c\""}, {"emailAddress", "a@b"}, {"serialNumber", "x y"}}; add("many name entries", s, 77, "x y");
  s = b; s.serial = 1; add("serial 1", s, 1, "77"); s = b; s.serial = 0x7fffffffffffffffL; add("serial 2^63-1", s, 0x7fffffffffffffffull, "77"); s = b; s.serial_bytes = std::string(8, '\xff'); add("serial 2^64-1", s, 0xffffffffffffffffull, "77"); s = b; s.serial_bytes = std::string("\x80", 1); add("serial 128", s, 128, "77"); s = b; s.serial_bytes = std::string(20, '\x11'); add("serial of 20 bytes", s, ~0ull - 1, "77");
  s = b; s.isca = 1; s.keyids = true; add("CA with key identifiers", s, 77, "77"); s = b; s.isca = -1; add("no extensions", s, 77, "77"); s = b; s.ext = {{NID_key_usage, "critical,digitalSignature"}, {NID_ext_key_usage, "clientAuth"}, {NID_subject_alt_name, "DNS:a.example,IP:1.2.3.4"}}; add("usage and names", s, 77, "77");
  s = b; s.from = -86400L * 4000; s.to = -86400L; add("expired", s, 77, "77"); s = b; s.from = 86400; s.to = 86400L * 36500; add("not yet valid, until 2126", s, 77, "77"); s = b; s.md = EVP_sha512(); add("SHA-512", s, 77, "77"); s = b; s.ca = &W.mfr.cert; s.by = &W.mfr.key; add("issued by another", s, 77, "77"); s = b; s.by = &W.other.key; add("bad signature", s, 77, "77"); s = b; s.subject = cn(std::string(64, 'n')); for (int i = 0; i < 20; i++) s.subject.push_back({"OU", std::string(60, 'o')}); add("long name", s, 77, "NULL");
  const char *ODD[] = {"1\"\n1700000000 0x1 \"forged\" 0x2 \"line", "a\nb", "q\"q", "back\\slash", "\\u000a", "\r\t\x01", "\xc3\xa9", "%s%n%d"};
  for (const char *o : ODD) { s = b; s.subject = Name{{"CN", "x"}, {"serialNumber", o}}; add(std::string("serialNumber ") + o, s, 77, o); }
  auto pr = [](const char *n, const Name &nm, long serial, const bytes &sb, unsigned long long us, const std::string &sn) { Spec s; s.subject = nm; s.key = &W.pledge.key; s.ca = &W.mfr.cert; s.by = &W.mfr.key; s.isca = 0; s.serial = serial; s.serial_bytes = sb; PR.push_back({n, cert(s), us, sn}); };
  pr("pledge", Name{{"CN", "p"}, {"serialNumber", "12345"}}, 5, "", 5, "12345"); pr("no serialNumber", cn("p"), 0x123456789abcdefL, "", 0x123456789abcdefull, "NULL"); pr("large serial", Name{{"serialNumber", "a-b"}, {"CN", "p"}}, 0, std::string(8, '\xfe'), 0xfefefefefefefefeull, "a-b"); pr("empty name", Name{}, 1, "", 1, "NULL"); pr("serialNumber with a line break", Name{{"CN", "p"}, {"serialNumber", "7\"\n\"8\\"}}, 3, "", 3, "7\"\n\"8\\");
  for (int i = 0; i < 4; i++) { Id d; static const Name N[] = {Name{{"CN", "ldevid ca"}}, Name{{"C", "IE"}, {"O", "\xc3\x89ire"}, {"CN", "ca"}}, Name{{"CN", "rsa ca"}}, Name{{"CN", "p384 ca"}}}; d.key = i == 2 ? RSACA : i == 3 ? P384CA : W.ldevid.key; Spec q; q.subject = N[i]; q.key = &d.key; q.isca = i != 1; q.serial = 2; d.cert = cert(q); CAS.push_back(d); }
  for (int i = 0; i < 2; i++) { Id d; d.key = i ? RSACA : P384CA; Spec q; q.subject = Name{{"O", "branch"}, {"CN", i ? "second intermediate" : "intermediate"}}; q.key = &d.key; q.ca = &CAS[i ? 1 : 0].cert; q.by = &CAS[0].key; q.serial = 3; d.cert = cert(q); CAS.push_back(d); } /* not self-signed */ }
static bytes ext(X509 *x) { bytes r; for (int i = 0; i < X509_get_ext_count(x); i++) { unsigned char *p = nullptr; int n = i2d_X509_EXTENSION(X509_get_ext(x, i), &p); r += std::to_string(n) + ":" + bytes((char *)p, n); OPENSSL_free(p); } return r; }
static bytes nm(const X509_NAME *n) { unsigned char *p = nullptr; int l = i2d_X509_NAME(n, &p); bytes r((char *)p, l); OPENSSL_free(p); return r; }
static bytes pub(X509 *x) { unsigned char *p = nullptr; int l = i2d_X509_PUBKEY(X509_get_X509_PUBKEY(x), &p); bytes r((char *)p, l); OPENSSL_free(p); return r; }
static bytes tim(const ASN1_TIME *t) { return std::to_string(ASN1_STRING_type(t)) + bytes((const char *)ASN1_STRING_get0_data(t), ASN1_STRING_length(t)); }
static bytes ser(X509 *x) { const ASN1_INTEGER *i = X509_get0_serialNumber(x); return std::to_string(ASN1_STRING_type(i)) + bytes((const char *)ASN1_STRING_get0_data(i), ASN1_STRING_length(i)); }
/* a quoted field: printable text, \\" \\\\ and \\uXXXX (the JSON string escapes); returns the position behind it or npos */
static size_t field(const std::string &l, size_t i, std::string &out) { out.clear(); if (i >= l.size() || l[i] != '"') return std::string::npos; for (i++; i < l.size(); i++) { if (l[i] == '"') return i + 1; if ((unsigned char)l[i] < 0x20) return std::string::npos; if (l[i] != '\\') { out += l[i]; continue; } if (++i >= l.size()) break; static const char *E = "nrtbf\"\\/", *D = "\n\r\t\b\f\"\\/"; if (l[i] == 'u') { out += (char)strtol(l.substr(i + 1, 4).c_str(), nullptr, 16); i += 4; } else if (const char *e = strchr(E, l[i])) out += D[e - E]; else break; } return std::string::npos; }
static std::string LOG; /* what the log must hold; times as %T */
static std::vector<std::pair<unsigned long, unsigned long>> TIMES; static bytes REALLOG;
/* cn: certificate index or -1 with a body of its own; expectation: 1 success 0 refuse -1 either */
static void one(Ctx &c, Conf &f, const std::string &text, int want, const Cc *q, const Pr *pr, const Id &ca) {
  bytes before, after; std::string lp = f.rc.log_path; bool had = read(lp, before); unsigned long t0 = time(nullptr); Got g = ask(registrar_est_simpleenroll, &f.rc, text, pr ? &pr->c : nullptr); unsigned long t1 = time(nullptr); bool has = read(lp, after); const char *why = c.w->note; c.transition();
  if (g.status != 200 && g.status != 400 && g.status != 500) c.fail("status", "%s: answered %d", why, g.status);
  if (g.status != 200) { if (want == 1) c.fail("refused", "%s: answered %d", why, g.status); if (has != had && after.size() || after != before && has) c.fail("log-on-failure", "%s: a refused enrolment changed the log", why); if (g.body.size() && unb64(g.body).size() > 200) c.fail("result-on-failure", "%s: a refused enrolment returned %zu bytes", why, g.body.size()); return; }
  if (want == 0) c.fail("accepted", "%s: answered 200", why); bool ok; bytes d = unb64(g.body, &ok); X509 *o = ok ? x509(d) : nullptr; ERR_clear_error(); if (!o || der(o) != d) { X509_free(o); c.fail("not-a-certificate", "%s: the answer is not base64 of one certificate", why); }
  if (q) { X509 *s = x509(q->der); const char *bad = nullptr; if (nm(X509_get_subject_name(o)) != nm(X509_get_subject_name(s))) bad = "subject"; else if (ser(o) != ser(s)) bad = "serial number"; else if (pub(o) != pub(s)) bad = "public key"; else if (tim(X509_get0_notBefore(o)) != tim(X509_get0_notBefore(s)) || tim(X509_get0_notAfter(o)) != tim(X509_get0_notAfter(s))) bad = "validity"; else if (ext(o) != ext(s)) bad = "extensions"; else if (X509_get_version(o) != X509_get_version(s)) bad = "version"; else if (nm(X509_get_issuer_name(o)) != nm(X509_get_subject_name(ca.cert.x))) bad = "issuer"; else if (X509_verify(o, ca.key.k) != 1) bad = "signature"; ERR_clear_error(); X509_free(s); if (bad) { X509_free(o); c.fail("certificate", "%s: the issued certificate has a wrong %s", why, bad); } c.validated(); }
  X509_free(o); if (!has || after.compare(0, before.size(), before) != 0) c.fail("log", "%s: the log lost its earlier content", why); std::string line = after.substr(before.size());
  if (!pr) return; if (line.empty()) c.fail("log", "%s: no line was appended", why); unsigned long long ps, cs; unsigned long t; int n = 0, m = 0; std::string a, b; size_t i = 0;
  bool ok2 = line.back() == '\n' && line.find('\n') == line.size() - 1 && sscanf(line.c_str(), "%lu 0x%llx %n", &t, &ps, &n) == 2 && n > 0 && (i = field(line, n, a)) != std::string::npos && sscanf(line.c_str() + i, " 0x%llx %n", &cs, &m) == 1 && m > 0 && (i = field(line, i + m, b)) == line.size() - 1; if (!ok2) c.fail("log", "%s: appended \"%s\"", why, line.c_str());
  if (t < t0 || t > t1 || ps != pr->serial || pr->sn != a || (q && q->serial != ~0ull - 1 && (cs != q->serial)) || (q && q->sn != b)) c.fail("log", "%s: the line is \"%s\"", why, line.c_str());
}
static void body(Ctx &c) {
  static bool made = false; if (!made) { W.files(c.scratch); made = true; for (size_t i = 0; i < CAS.size(); i++) { write(W.p("ca" + std::to_string(i) + ".crt"), CAS[i].cert.pem); write(W.p("ca" + std::to_string(i) + ".key"), CAS[i].key.pem); } write(W.p("two.crt"), CAS[0].cert.pem + CAS[2].cert.pem); }
  int part = c.choose(6); Conf f(W); unlink(f.rc.log_path); c.noleak_case = false;
  auto ca = [&](int i) { f.r.tls_ca_cert_path = f.str(W.p("ca" + std::to_string(i) + ".crt")); f.r.tls_ca_key_path = f.str(W.p("ca" + std::to_string(i) + ".key")); };
  if (part == 5) { /* every length class of the certificate; every length of the serial numbers that are logged */
    auto &sz = mc::sizes(c.thorough); int k = c.choose(3), ix = c.choose((int)sz.size()); if (!c.mine()) return; size_t n = k ? 1 + ix % 64 : sz[ix]; if (k && ix >= 64) return; static Key K = ec("subj"); ca(0); c.note("length class: %zu %s", n, k == 0 ? "bytes of comment" : k == 1 ? "characters of the certificate's serial number" : "characters of the client's serial number"); c.eval(); c.distinct(comb(comb(6000, k), n));
    std::string t; for (size_t i = 0; i < n; i++) t += (char)('a' + (i + (i >> 7)) % 26); Spec b; b.key = &K; b.subject = Name{{"CN", "ldevid"}, {"serialNumber", k == 1 ? t : std::string("77")}}; b.isca = 0; b.keyids = false; b.serial = 77; if (k == 0) b.ext = {{NID_netscape_comment, t}}; Cert x = cert(b); Cc q{"sized", x.der, 77, k == 1 ? t : std::string("77")};
    Pr pr = PR[0]; if (k == 2) { Spec s; s.subject = Name{{"CN", "p"}, {"serialNumber", t}}; s.key = &W.pledge.key; s.ca = &W.mfr.cert; s.by = &W.mfr.key; s.isca = 0; s.serial = 5; pr.c = cert(s); pr.sn = t; }
    one(c, f, b64(q.der), 1, &q, &pr, CAS[0]); X509_free(x.x); if (k == 2) X509_free(pr.c.x); return;
  }
  if (part == 0) { /* certificates x CAs x clients x line breaks */
    int q = c.choose((int)CC.size()), a = c.choose(6), p = c.choose((int)PR.size()), s = c.choose(4); if (!c.mine()) return; if (s == 3 && (a || p)) return; ca(a); std::string t = b64(CC[q].der), u; if (s == 1) { for (size_t i = 0; i < t.size(); i++) { u += t[i]; if (i % 64 == 63) u += "\n"; } t = u + "\n"; } if (s == 2) t += "\r\n\r\n"; if (s == 3) while (t.back() == '=') t.pop_back();
    c.note("certificate: %s; CA %d; client: %s; text form %d", CC[q].name.c_str(), a, PR[p].name, s); c.eval(); c.distinct(comb(comb(comb(q, a), p), s)); one(c, f, t, s == 3 ? -1 : 1, &CC[q], &PR[p], CAS[a]); if (p == 0 && s == 0 && a == 0) c.sample("enrolled: %s", CC[q].name.c_str());
  } else if (part == 1) { /* bodies that do not hold one certificate */
    int k = c.choose(16); if (!c.mine()) return; ca(0); bytes d = CC[0].der; std::string t; int want = 0; static const char *N[] = {"empty", "no base64", "garbage", "cut by one byte", "half", "a key", "raw DER", "PEM", "revocation list", "signed message", "certificate and a byte", "two certificates", "NUL first", "length too big", "length too small", "only padding"};
    switch (k) { case 0: t = ""; break; case 1: t = "?!"; break; case 2: t = b64("garbage"); break; case 3: t = b64(d.substr(0, d.size() - 1)); break; case 4: t = b64(d.substr(0, d.size() / 2)); break; case 5: t = b64(W.other.key.der); break; case 6: t = d; break; case 7: t = CAS[0].cert.pem; want = -1; break; case 8: t = b64(crl(W.dom.cert, W.dom.key, {1})); break; case 9: t = b64(cms("x", {{&W.reg.cert, &W.reg.key}})); break; case 10: t = b64(d + "x"); want = -1; break; case 11: t = b64(d + d); want = -1; break; case 12: t = std::string("\0", 1) + b64(d); break; case 13: d[3]++; t = b64(d); break; case 14: d[3]--; t = b64(d); break; default: t = "===="; }
    c.note("body: %s", N[k]); c.eval(); c.distinct(1000 + k); one(c, f, t, want, nullptr, &PR[0], CAS[0]);
  } else if (part == 2) { /* the registrar's CA files */
    int w = c.choose(3), k = c.choose(7), q = c.choose(3); if (!c.mine()) return; ca(0); const char *KN[] = {"nofile", "empty", "garbage", "dir", "wrong kind", "not configured", "half.crt"}; char *bad = k == 5 ? nullptr : f.str(k == 4 ? W.p(w == 1 ? "ca0.crt" : "ca0.key") : W.p(KN[k])); if (w != 1) f.r.tls_ca_cert_path = bad; if (w != 0) f.r.tls_ca_key_path = w == 2 && k == 4 ? f.str(W.p("ca0.crt")) : bad;
    c.note("CA %s: %s; body %d", w == 0 ? "certificate" : w == 1 ? "key" : "certificate and key", KN[k], q); c.eval(); c.distinct(comb(comb(2000 + w, k), q)); one(c, f, q == 2 ? "!" : b64(CC[q].der), 0, nullptr, &PR[0], CAS[0]);
  } else if (part == 3) { /* every byte of a certificate changed: if anything is returned it must be that certificate, properly issued */
    const bytes &d0 = CC[0].der; int i = c.choose((int)d0.size()); if (!c.mine()) return; ca(0); for (int b = 0; b < (c.thorough ? 255 : 6); b++) { static const int X[] = {1, 0x80, 0xff, 0x20, 0x02, 0x10}; bytes d = d0; d[i] ^= c.thorough ? b + 1 : X[b]; c.note("byte %d of the certificate changed (%d)", i, b); c.eval(); c.distinct(comb(3000 + i, b)); X509 *x = x509(d); ERR_clear_error(); bool canon = x && der(x) == d; X509_free(x);
      bytes before, after; read(f.rc.log_path, before); Got g = ask(registrar_est_simpleenroll, &f.rc, b64(d), &PR[0].c); read(f.rc.log_path, after); c.transition(); size_t lines = std::count(after.begin(), after.end(), '\n') - std::count(before.begin(), before.end(), '\n'); if ((g.status == 200) != (lines == 1)) c.fail("log", "byte %d of the certificate changed: answered %d and %zu log lines", i, g.status, lines);
      if (g.status == 200) { bool ok; bytes r = unb64(g.body, &ok); X509 *o = x509(r); ERR_clear_error(); bool good = ok && o && X509_verify(o, CAS[0].key.k) == 1; if (good && canon) { X509 *s = x509(d); good = ser(o) == ser(s) && nm(X509_get_subject_name(o)) == nm(X509_get_subject_name(s)) && pub(o) == pub(s) && ext(o) == ext(s) && tim(X509_get0_notAfter(o)) == tim(X509_get0_notAfter(s)); X509_free(s); } ERR_clear_error(); X509_free(o); if (!good) c.fail("certificate", "byte %d of the certificate changed (%d): the answer is not that certificate, properly issued", i, b); } }
  } else { /* sequences of enrolments over one log */
    int n = c.thorough ? 5 : 4; int k[5]; for (int i = 0; i < n; i++) k[i] = c.choose(5); if (!c.mine()) return; ca(0); c.eval(); uint64_t h = 4000; for (int i = 0; i < n; i++) { h = comb(h, k[i]); c.distinct(h); c.note("enrolment %d of the sequence %d %d %d %d", i, k[0], k[1], k[2], k[3]);
      switch (k[i]) { case 0: one(c, f, b64(CC[0].der), 1, &CC[0], &PR[0], CAS[0]); break; case 1: one(c, f, b64(CC[1].der), 1, &CC[1], &PR[2], CAS[0]); break; case 2: one(c, f, "garbage!", 0, nullptr, &PR[0], CAS[0]); break; case 3: { char *o = f.r.tls_ca_key_path; f.r.tls_ca_key_path = f.str(W.p("nofile")); one(c, f, b64(CC[0].der), 0, nullptr, &PR[0], CAS[0]); f.r.tls_ca_key_path = o; break; } default: one(c, f, b64(CC[7].der), 1, &CC[7], &PR[1], CAS[0]); } }
  }
}
int main(int argc, char **argv) { quiet_logs(); setenv("TZ", "UTC", 1); init(); Opts o; o.worker_init = quiet_logs; o.settle = pki::settle; return run(argc, argv, body, o); }
