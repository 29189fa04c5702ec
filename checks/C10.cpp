/* C10: answers of the registrar to voucher requests, and what it sends to the MASA */
#include "mc.hpp"
#include <functional>
#include "servers.hpp"
#include "sizes.hpp"
using namespace mc; using namespace srv;
static Site W; static std::map<std::string, bytes> MSG;
static void init() { W.make();
  MSG["good"] = pvr(W.pledge, "12345", W.regtls.cert.der); MSG["nonceless"] = pvr(W.pledge, "12345", W.regtls.cert.der, ""); MSG["other serial"] = pvr(W.pledge, "67890", W.regtls.cert.der); MSG["no assertion"] = pvr(W.pledge, "12345", W.regtls.cert.der, "nonce", 0); MSG["logged"] = pvr(W.pledge, "12345", W.regtls.cert.der, "nonce", 2); MSG["signing certificate as proximity"] = pvr(W.pledge, "12345", W.reg.cert.der);
  MSG["twin"] = pvr(W.twinpledge, "12345", W.regtls.cert.der); MSG["registrar request"] = rvr(W.reg, "12345", MSG["good"]); MSG["garbage"] = "no signed message"; bytes t = MSG["good"]; size_t p = t.find("12345"); t[p] = '2'; MSG["tampered"] = t; MSG["cut"] = MSG["good"].substr(0, MSG["good"].size() - 7);
}
/* request bodies: valid 1 must be accepted, 0 must be refused, -1 unspecified */
struct Req { std::string name, text; int valid; const char *msg; };
static std::vector<Req> bodies() { std::vector<Req> v; std::string g = b64(MSG["good"]), lf, crlf; for (size_t i = 0; i < g.size(); i++) { lf += g[i]; crlf += g[i]; if (i % 64 == 63) { lf += "\n"; crlf += "\r\n"; } }
  v.push_back({"good", g, 1, "good"}); v.push_back({"good with line breaks", lf + "\n", 1, "good"}); v.push_back({"good with CRLF", crlf, 1, "good"}); v.push_back({"nonceless", b64(MSG["nonceless"]), 1, "nonceless"});
  for (const char *n : {"other serial", "no assertion", "logged", "signing certificate as proximity", "twin", "registrar request", "garbage", "tampered", "cut"}) v.push_back({n, b64(MSG[n]), 0, n});
  v.push_back({"empty", "", 0, ""}); v.push_back({"not base64", "!!!! ???", 0, ""}); v.push_back({"raw signed message", MSG["good"], 0, ""}); v.push_back({"half", g.substr(0, g.size() / 2), 0, ""}); v.push_back({"one character", "A", 0, ""}); v.push_back({"padding only", "====", 0, ""}); v.push_back({"json", "{\"ietf-voucher:voucher\":{}}", 0, ""}); v.push_back({"NUL first", std::string("\0", 1) + g, 0, ""}); return v; }
static std::vector<Req> BODIES;
struct PeerT { const char *name; const Cert *c; int ok; }; /* ok: usable client certificate of pledge 12345 (1), of another (2), unusable (0) */
static std::vector<PeerT> PEERS; 
/* client certificates whose serial number is written unusually: the same number (1), another one (3), or none (0) */
static void odd() {
  auto wide = [](const std::string &t, int n) { bytes b; for (unsigned char ch : t) { b += std::string(n - 1, '\0'); b += (char)ch; } return b; }; const std::string s = "12345", z = s + std::string(1, '\0');
  struct O { const char *n; Name name; int ok; }; std::vector<O> L = {{"UTF8String", {{"CN", "p"}, {"serialNumber:12", s}}, 1}, {"PrintableString", {{"CN", "p"}, {"serialNumber:19", s}}, 1}, {"TeletexString", {{"CN", "p"}, {"serialNumber:20", s}}, 1}, {"IA5String", {{"CN", "p"}, {"serialNumber:22", s}}, 1}, {"BMPString", {{"CN", "p"}, {"serialNumber:30", wide(s, 2)}}, 1}, {"UniversalString", {{"CN", "p"}, {"serialNumber:28", wide(s, 4)}}, 1},
    {"with the common name in one part", {{"CN", "p"}, {"+serialNumber", s}}, 1}, {"first of all", {{"serialNumber", s}, {"CN", "p"}}, 1}, {"the only name", {{"serialNumber", s}}, 1}, {"zero byte at the end", {{"CN", "p"}, {"serialNumber:12", z}}, 0}, {"zero byte and more", {{"serialNumber:12", z + "6"}, {"CN", "p"}}, 0}, {"zero byte, printable", {{"CN", "p"}, {"serialNumber:19", z}}, 0}, {"zero character in a BMPString", {{"CN", "p"}, {"serialNumber:30", wide(z, 2)}}, 0}, {"zero character in a UniversalString", {{"CN", "p"}, {"serialNumber:28", wide(z, 4)}}, 0},
    {"broken UTF-8", {{"CN", "p"}, {"serialNumber:12", s + "\xff"}}, 3}, {"fullwidth digits", {{"CN", "p"}, {"serialNumber", "\xef\xbc\x91\xef\xbc\x92\xef\xbc\x93\xef\xbc\x94\xef\xbc\x95"}}, 3}, {"leading zero", {{"CN", "p"}, {"serialNumber", "012345"}}, 3}, {"trailing blank", {{"CN", "p"}, {"serialNumber", "12345 "}}, 3}, {"leading blank", {{"CN", "p"}, {"serialNumber", " 12345"}}, 3}, {"shorter", {{"CN", "p"}, {"serialNumber", "1234"}}, 3}, {"longer", {{"CN", "p"}, {"serialNumber", "123456"}}, 3},
    {"in the common name", {{"CN", s}}, 0}, {"in another name", {{"OU", s}, {"SN", s}, {"GN", s}}, 0}, {"empty", {{"CN", "p"}, {"serialNumber:12", ""}}, 0}, {"no name at all", {}, 0}};
  for (auto &o : L) { Spec sp; sp.subject = o.name; sp.key = &W.pledge.key; sp.by = &W.mfr.key; sp.ca = &W.mfr.cert; sp.isca = 0; sp.serial = 12345; PEERS.push_back({o.n, new Cert(pki::cert(sp)), o.ok}); }
  static const int N = 2; Key *k[N] = {new Key(rsa(2048)), new Key(ec("odd", NID_secp384r1))}; for (int i = 0; i < N; i++) { Spec sp; sp.subject = W.pledge.cert.subject; sp.key = k[i]; sp.by = &W.mfr.key; sp.ca = &W.mfr.cert; sp.isca = 0; sp.serial = 5; PEERS.push_back({i ? "P-384 key" : "RSA key", new Cert(pki::cert(sp)), 1}); }
}
static int FILEDEFECTS = 16 * 6;
/* file defect d: field d/6, kind d%6 (5 not configured, 0 missing file, 1 empty, 2 garbage, 3 directory, 4 certificate file with a key and vice versa); returns the expected error class: 1 = must be 500, 2 = 500 or 400, 0 no effect */
static int spoil(Conf &c, int d, std::vector<List *> &keep, std::string &name) {
  int f = d / 6, k = d % 6; static const char *FN[] = {"tls_cert_path", "cms_sign_cert_path", "cms_sign_key_path", "cms_verify_certs (only entry)", "cms_verify_certs (second)", "cms_verify_store (only entry)", "cms_verify_store (second)", "cms_add_certs (only entry)", "cms_add_certs (second)", "tls_ca_cert_path", "tls_ca_key_path", "MASA cms_sign_cert_path", "MASA ldevid_ca_cert_path", "signing key of another certificate", "tls_key_path", "MASA bind_address"}; static const char *KN[] = {"missing", "empty", "garbage", "a directory", "the wrong kind", "not configured"}; name = std::string(FN[f]) + " " + KN[k];
  std::string bad = k == 0 ? W.p("nofile") : k == 1 ? W.p("empty") : k == 2 ? W.p("garbage") : k == 3 ? W.p("dir") : f == 2 || f == 10 ? W.p("reg.crt") : W.p("reg.key");
  auto list = [&](const std::vector<std::string> &v) { List *l = new List(); paths(*l, v); keep.push_back(l); return l->l; };
  if (k == 5) switch (f) { case 0: c.r.tls_cert_path = nullptr; return 1; case 1: c.r.cms_sign_cert_path = nullptr; return 1; case 2: c.r.cms_sign_key_path = nullptr; return 1; case 9: c.r.tls_ca_cert_path = nullptr; return 0; case 10: c.r.tls_ca_key_path = nullptr; return 0; case 11: c.m.cms_sign_cert_path = nullptr; return 0; case 12: c.m.ldevid_ca_cert_path = nullptr; return 0; case 14: c.r.tls_key_path = nullptr; return 1; case 15: c.m.bind_address = nullptr; return 1; default: name = "no defect"; return 0; }
  switch (f) { case 14: case 15: name = "no defect"; return 0; case 0: c.r.tls_cert_path = c.str(bad); return 1; case 1: c.r.cms_sign_cert_path = c.str(bad); return 1; case 2: c.r.cms_sign_key_path = c.str(bad); return 1; case 3: c.r.cms_verify_certs_paths = list({bad}); return 1; case 4: c.r.cms_verify_certs_paths = list({W.p("pledge.crt"), bad}); return 1; case 5: c.r.cms_verify_store_paths = list({bad}); return 1; case 6: c.r.cms_verify_store_paths = list({W.p("mfr.crt"), bad}); return 1; case 7: c.r.cms_add_certs_paths = list({bad}); return 1; case 8: c.r.cms_add_certs_paths = list({W.p("dom.crt"), bad}); return 1;
    case 9: c.r.tls_ca_cert_path = c.str(bad); return 0; case 10: c.r.tls_ca_key_path = c.str(bad); return 0; case 11: c.m.cms_sign_cert_path = c.str(bad); return 0; case 12: c.m.ldevid_ca_cert_path = c.str(bad); return 0; default: if (k) { name = "no defect"; return 0; } name = "signing key does not belong to the certificate"; c.r.cms_sign_key_path = c.str(W.p("other.key")); return 2; }
}
static Answer mresp(int i, std::string &name) { Answer a; static const int ST[] = {-1, 100, 199, 200, 201, 202, 204, 299, 300, 302, 304, 399, 400, 401, 403, 404, 415, 422, 429, 499, 500, 501, 502, 503, 504, 599}; static const int NS = 26; int s = i % NS, b = i / NS; a.status = ST[s]; const std::string B[] = {"TUFTQSB2b3VjaGVy", "", std::string("a\0b", 3), "voucher\r\n", std::string(70000, 'V')}; a.body = B[b % 5]; a.peer = b & 1 ? nullptr : &W.masatls.cert; name = "MASA answer " + std::to_string(a.status) + " with " + std::to_string(a.body.size()) + " bytes"; return a; }
static const int NM = 26 * 5;
static bytes LONGNONCE; /* of the request named long */
static void one(Ctx &c, const Req &b, const PeerT &p, int defect, int masa, const bytes *masabody = nullptr) {
  Conf f(W); std::vector<List *> keep; std::string dn = "no defect", mn; int dc = defect < 0 ? 0 : spoil(f, defect, keep, dn); ANSWER = mresp(masa, mn); if (masabody) { ANSWER.body = *masabody; mn += " replaced by " + std::to_string(masabody->size()) + " bytes"; } ANSWERER = nullptr; CALLS.clear();
  struct Rel { std::vector<List *> &k; ~Rel() { for (auto *l : k) delete l; } } rel{keep};
  c.note("body: %s; client certificate: %s; %s; %s", b.name.c_str(), p.name, dn.c_str(), mn.c_str()); c.eval(); c.transition(); c.distinct(comb(comb(comb(mc::fnvs(b.name), mc::fnvs(p.name)), defect + 1), masa)); const char *why = c.w->note;
  Got g = ask(registrar_requestvoucher, &f.rc, b.text, p.c); 
  bool bodyok = b.valid == 1 && p.ok == 1 && (!b.msg[0] || true), bad = b.valid == 0 || p.ok != 1; if (b.valid == 0 && p.ok == 2 && b.name == "other serial") { bad = false; bodyok = true; } bool mok = ANSWER.status >= 200 && ANSWER.status < 300;
  std::set<int> want; if (bad) want.insert(400); if (dc) want.insert(500); if (dc == 2) want.insert(400); if (want.empty()) want.insert(mok ? 200 : 502); if (!bad && !bodyok) want.insert({200, 400, 502});
  if (!want.count(g.status)) c.fail("status", "%s: answered %d", why, g.status);
  bool contact = !bad && !dc; if (contact != (CALLS.size() == 1) || CALLS.size() > 1) c.fail("masa-contact", "%s: the MASA was contacted %zu times", why, CALLS.size());
  if (g.status == 200) { if (g.body != ANSWER.body) c.fail("body", "%s: the answer is not the MASA's voucher unchanged (%zu bytes)", why, g.body.size()); if (g.type() != "application/voucher-cms+json") c.fail("content-type", "%s: content type %s", why, g.type().c_str()); }
  if (g.status == 502 && (g.body.find("MASA") == std::string::npos || g.body == ANSWER.body)) c.fail("explanation", "%s: no explanatory text: %.60s", why, g.body.c_str());
  if (g.status != 200 && ANSWER.body.size() && g.body == ANSWER.body) c.fail("leaked", "%s: the MASA's answer is passed on with an error", why);
  if (CALLS.size() == 1) { const Call &q = CALLS[0]; c.validated(); if (q.withca || q.key != W.p("regtls.key") || q.cert != W.p("regtls.crt") || q.host != "masa.example" || q.port != 15678 || q.path != "/.well-known/brski/requestvoucher" || q.type != "application/voucher-cms+json") c.fail("masa-address", "%s: the MASA request went to %s:%d%s with %s and type %s", why, q.host.c_str(), q.port, q.path.c_str(), q.cert.c_str(), q.type.c_str());
    bool ok; Msg m = open_cms(unb64(q.body, &ok)); V v; std::string e; if (!ok || !m.ok || !(e = parse_strict(m.data, v)).empty() || m.signers.size() != 1 || m.signers[0] != W.reg.cert.der) c.fail("masa-request", "%s: the request sent to the MASA is not a request signed by the registrar %s", why, e.c_str());
    bytes prior = MSG[b.msg]; std::string sn = p.ok == 2 ? "67890" : "12345"; if (v.a[PRIOR].s != prior || v.a[SERIAL].s != sn || v.a[NONCE].s != (b.name == "nonceless" ? bytes() : b.name == "long" ? LONGNONCE : bytes("nonce")) || v.a[ISSUER].s != "CN = manufacturer") c.fail("masa-request", "%s: the request sent to the MASA does not carry the pledge's request, serial number, issuer and nonce", why);
    time_t now = time(nullptr); struct tm ct = tm6(v.a[CREATED].t); if (labs((long)(timegm(&ct) - now)) > 120) c.fail("created", "%s: the creation time is not the current time", why); bool ex = false; for (auto &x : m.certs) ex |= x == W.dom.cert.der; bool noadd = false; (void)noadd; if (!ex && defect < 0) c.fail("masa-request", "%s: the configured additional certificate is missing", why); }
}
static void body(Ctx &c) {
  static bool made = false; if (!made) { W.files(c.scratch); made = true; }
  if (BODIES.empty()) { BODIES = bodies(); }
  int part = c.choose(5);
  if (part == 4) { /* every length class of the MASA's answer and of the pledge's request */
    auto &sz = mc::sizes(c.thorough); size_t n = sz[c.choose((int)sz.size())]; int k = c.choose(3); if (!c.mine()) return; bytes x(n, 0); for (size_t i = 0; i < n; i++) x[i] = (char)(i * 131 + (i >> 8) * 7 + k); c.distinct(comb(comb(7000, n), k));
    if (k < 2) one(c, BODIES[0], PEERS[0], -1, k ? 20 : 3, &x); else { LONGNONCE = x; MSG["long"] = pvr(W.pledge, "12345", W.regtls.cert.der, x); Req r{"long", b64(MSG["long"]), 1, "long"}; one(c, r, PEERS[0], -1, 3); }
    return;
  }
  if (part == 0) { int b = c.choose((int)BODIES.size()), p = c.choose((int)PEERS.size()), m = c.choose(3); if (!c.mine()) return; one(c, BODIES[b], PEERS[p], -1, m == 0 ? 3 : m == 1 ? 0 : 14); if (b == 0 && p == 0) c.sample("good request: %s", c.w->note); } /* who asks with what */
  else if (part == 1) { int m = c.choose(NM), b = c.choose(4); if (!c.mine()) return; one(c, BODIES[b], PEERS[0], -1, m); } /* what the MASA answers */
  else if (part == 2) { int d = c.choose(FILEDEFECTS), b = c.choose(3), p = c.choose(3), m = c.choose(3); if (!c.mine()) return; static const int BI[] = {0, 4, 13}; one(c, BODIES[BI[b]], PEERS[p == 2 ? 3 : p], d, m == 0 ? 3 : m == 1 ? 0 : 20); } /* own defects next to others */
  else { /* sequences: a failure must not change later answers */
    int a = c.choose(5), b = c.choose(5), e = c.choose(5); if (!c.mine()) return; for (int k : {a, b, e}) switch (k) { case 0: one(c, BODIES[0], PEERS[0], -1, 3); break; case 1: one(c, BODIES[0], PEERS[0], -1, 0); break; case 2: one(c, BODIES[8], PEERS[0], -1, 3); break; case 3: one(c, BODIES[0], PEERS[0], 0, 3); break; default: one(c, BODIES[6], PEERS[1], -1, 14); break; } }
}
int main(int argc, char **argv) { quiet_logs(); setenv("TZ", "UTC", 1); init();
  PEERS = {{"pledge", &W.pledge.cert, 1}, {"another pledge", &W.pledge2.cert, 2}, {"twin with the same serial number", &W.twinpledge.cert, 1}, {"without serial number", &W.noserial.cert, 0}, {"none", nullptr, 0}}; PEERS[2].ok = 1; odd();
  Opts o; o.worker_init = quiet_logs; o.settle = pki::settle; return run(argc, argv, body, o); }
