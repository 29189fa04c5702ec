/* servers.hpp - files and configurations of a small BRSKI installation, the request handlers reached through the public
 * route headers, and a stand-in for the HTTPS client that records what it was given and answers as the check chooses */
#pragma once
#include "world.hpp"
#include <map>
#include <vector>
#include <fcntl.h>
#include <unistd.h>
#include <sys/stat.h>
#include "brski/http/http.hpp"
#include "brski/http/https_client.hpp"
#include "brski/masa/masa_api.hpp"
#include "brski/registrar/registrar_api.hpp"
extern "C" {
#include "brski/config.h"
}
namespace srv {
using namespace world;
struct Call { std::string key, cert, ca, host, path, body, type; int port; bool verify, withca; };
struct Answer { int status = 200; std::string body; const Cert *peer = nullptr; };
static std::vector<Call> CALLS; static Answer ANSWER; static std::function<Answer(const Call &)> ANSWERER;
inline CRYPTO_CERT ctx_of(const Cert &c) { return crypto_cert2context((const uint8_t *)c.der.data(), c.der.size()); }
} // namespace srv
#ifndef SRV_NO_STUB
int https_post_request(const std::string &k, const std::string &c, const std::string &host, int port, const std::string &path, bool verify, const std::string &body, const std::string &type, struct HttpResponse &res) {
  srv::Call q{k, c, "", host, path, body, type, port, verify, false}; srv::Answer a = srv::ANSWERER ? srv::ANSWERER(q) : srv::ANSWER; srv::CALLS.push_back(q);
  if (a.status < 0) return -1; /* leaves the result as it was, like the real one */ res.response = a.body; res.peer_certificate = a.peer ? srv::ctx_of(*a.peer) : nullptr; return a.status;
}
int https_post_request_ca(const std::string &k, const std::string &c, const std::string &ca, const std::string &host, int port, const std::string &path, const std::string &body, const std::string &type, std::string &response) {
  srv::Call q{k, c, ca, host, path, body, type, port, true, true}; srv::Answer a = srv::ANSWERER ? srv::ANSWERER(q) : srv::ANSWER; srv::CALLS.push_back(q);
  if (a.status < 0) return -1; response = a.body; return a.status;
}
std::string get_https_address(const char *bind_address, int port) { return "https://" + std::string(bind_address) + ":" + std::to_string(port); }
#endif
namespace srv {
struct Site { Id mfr, twinmfr, pledge, pledge2, noserial, twinpledge, dom, reg, regtls, ldevid, masa, masatls, other, mfrsub, domsub, masasub, masaroot; std::string dir; bool via = false;
  /* every identity with keys of a kind; via: pledge, registrar and MASA are certified through intermediates */
  void make(int kind, bool v) { keykind() = kind; make(); via = v; if (v) { mfrsub = id("mfrsub", cn("manufacturer sub"), &mfr, 1, 61); domsub = id("domsub", cn("domain sub"), &dom, 1, 62); masaroot = id("masaroot", cn("masa root"), nullptr, 1, 1); masasub = id("masasub", cn("masa sub"), &masaroot, 1, 63);
    pledge = id("pledge", Name{{"C", "IE"}, {"CN", "pledge"}, {"serialNumber", "12345"}}, &mfrsub, 0, 5); reg = id("reg", cn("registrar"), &domsub, 0, 8); masa = id("masa", cn("masa"), &masasub, 0, 4); } keykind() = 0; }
  void make() {
    mfr = id("mfr", cn("manufacturer"), nullptr, 1, 1); twinmfr = id("twinmfr", cn("manufacturer"), nullptr, 1, 1);
    pledge = id("pledge", Name{{"C", "IE"}, {"CN", "pledge"}, {"serialNumber", "12345"}}, &mfr, 0, 5); pledge2 = id("pledge2", Name{{"CN", "pledge 2"}, {"serialNumber", "67890"}}, &mfr, 0, 6); noserial = id("noserial", cn("pledge"), &mfr, 0, 7); twinpledge = id("twinpledge", Name{{"CN", "pledge"}, {"serialNumber", "12345"}}, &twinmfr, 0, 5);
    dom = id("dom", cn("domain"), nullptr, 1, 1); reg = id("reg", cn("registrar"), &dom, 0, 8); regtls = id("regtls", cn("registrar tls"), &dom, 0, 9); ldevid = id("ldevid", Name{{"C", "IE"}, {"O", "owner"}, {"CN", "ldevid ca"}}, nullptr, 1, 2);
    masa = id("masa", cn("masa"), nullptr, 1, 1); masatls = id("masatls", cn("masa tls"), nullptr, 1, 1); other = id("other", cn("other"), nullptr, 1, 3);
  }
  std::string p(const std::string &n) const { return dir + "/" + n; }
  void files(const std::string &d) {
    dir = d; struct { const char *n; const Id *i; } F[] = {{"mfr", &mfr}, {"twinmfr", &twinmfr}, {"pledge", &pledge}, {"dom", &dom}, {"reg", &reg}, {"regtls", &regtls}, {"ldevid", &ldevid}, {"masa", &masa}, {"masatls", &masatls}, {"other", &other}};
    for (auto &f : F) if (!write(p(std::string(f.n) + ".crt"), f.i->cert.pem) || !write(p(std::string(f.n) + ".key"), f.i->key.pem)) die("files");
    if (via) write(p("mfrsub.crt"), mfrsub.cert.pem), write(p("domsub.crt"), domsub.cert.pem), write(p("masasub.crt"), masasub.cert.pem), write(p("masaroot.crt"), masaroot.cert.pem);
    write(p("empty"), ""); write(p("garbage"), "-----BEGIN garbage\n\x01\x02"); write(p("half.crt"), reg.cert.pem.substr(0, reg.cert.pem.size() / 2)); mkdir(p("dir").c_str(), 0700);
  }
};
struct Strs { std::vector<char *> v; char *operator()(const std::string &s) { v.push_back(strdup(s.c_str())); return v.back(); } ~Strs() { for (char *p : v) free(p); } };
inline void paths(List &l, const std::vector<std::string> &v) { for (auto &s : v) { if (!l.l) l.l = init_array_list(); push_array_list(l.l, (uint8_t *)s.c_str(), s.size() + 1, 0); } }
/* a working configuration; members may be changed afterwards */
struct Conf { Strs str; List rv, rs, ra, mv, ms, ma; registrar_config r; masa_config m; RegistrarContext rc; MasaContext mc; const Site &s;
  Conf(const Site &s) : s(s) {
    memset(&r, 0, sizeof r); memset(&m, 0, sizeof m); memset(&rc, 0, sizeof rc); memset(&mc, 0, sizeof mc);
    r.bind_address = str("127.0.0.1"); r.port = 12345; r.tls_cert_path = str(s.p("regtls.crt")); r.tls_key_path = str(s.p("regtls.key")); r.tls_ca_cert_path = str(s.p("ldevid.crt")); r.tls_ca_key_path = str(s.p("ldevid.key")); r.cms_sign_cert_path = str(s.p("reg.crt")); r.cms_sign_key_path = str(s.p("reg.key"));
    paths(rs, {s.p("mfr.crt")}); r.cms_verify_store_paths = rs; paths(ra, {s.p("dom.crt")}); if (s.via) paths(ra, {s.p("domsub.crt")}); r.cms_add_certs_paths = ra;
    m.bind_address = str("masa.example"); m.expires_on = str("2030-01-02T03:04:05Z"); m.port = 15678; m.ldevid_ca_cert_path = str(s.p("dom.crt")); m.tls_cert_path = str(s.p("masatls.crt")); m.tls_key_path = str(s.p("masatls.key")); m.tls_ca_cert_path = str(s.p("ldevid.crt")); m.cms_sign_cert_path = str(s.p("masa.crt")); m.cms_sign_key_path = str(s.p("masa.key"));
    paths(ms, {s.p("dom.crt")}); m.cms_verify_store_paths = ms; paths(ma, {s.p("other.crt")}); if (s.via) paths(ma, {s.p("masasub.crt")}); m.cms_add_certs_paths = ma;
    rc.rconf = &r; rc.mconf = &m; snprintf(rc.log_path, sizeof rc.log_path, "%s", s.p("enrol.log").c_str()); mc.rconf = &r; mc.mconf = &m;
  }
};
struct Got { int status; std::string body; ResponseHeader head; std::string type() const { auto i = head.find("Content-Type"); return i == head.end() ? "" : i->second; } };
struct Peer { CRYPTO_CERT c = nullptr; Peer(const Cert *x) { if (x) c = ctx_of(*x); } ~Peer() { if (c) crypto_free_certcontext(c); } };
typedef int (*Handler)(const RequestHeader &, const std::string &, CRYPTO_CERT, ResponseHeader &, std::string &, void *);
inline Got ask(Handler h, void *ctx, const std::string &body, const Cert *peer) { Got g; Peer p(peer); RequestHeader rh; g.status = h(rh, body, p.c, g.head, g.body, ctx); return g; }
/* messages */
inline bytes pvr(const Id &by, const std::string &sn, const bytes &prox, const bytes &nonce = "nonce", int assertion = 3) { V v; S(v, SERIAL, sn); if (nonce.size()) S(v, NONCE, nonce); if (assertion) E(v, ASSERTION, assertion); S(v, PROX, prox); T(v, CREATED, T6{2024, 1, 1, 0, 0, 0}); return cms(doc(v), {{&by.cert, &by.key}}); }
inline bytes rvr(const Id &by, const std::string &sn, const bytes &prior, const bytes &nonce = "nonce") { V v; S(v, SERIAL, sn); if (nonce.size()) S(v, NONCE, nonce); S(v, PRIOR, prior); S(v, ISSUER, "CN = manufacturer"); T(v, CREATED, T6{2024, 1, 1, 0, 0, 0}); return cms(doc(v), {{&by.cert, &by.key}}); }
inline std::string b64(const bytes &b) { return ref::b64enc(b); }
inline bytes unb64(const std::string &s, bool *ok = nullptr) { bytes o; int r = ref::b64dec(s, o); if (ok) *ok = r == 1; return o; }
} // namespace srv
