/* C15: configuration files are loaded exactly as written */
#include "mc.hpp"
#include <functional>
#include <algorithm>
#include <cstddef>
#define SRV_NO_STUB
#include "servers.hpp"
using namespace mc; using namespace srv;
enum K { TXT, TIM, PORT, LST }; struct St { int sec; const char *key; K k; size_t off; };
static const char *SEC[] = {"pledge", "registrar", "masa"};
#define P(m) offsetof(brski_config, pconf) + offsetof(pledge_config, m)
#define R(m) offsetof(brski_config, rconf) + offsetof(registrar_config, m)
#define M(m) offsetof(brski_config, mconf) + offsetof(masa_config, m)
static const St ST[] = {
  {0, "createdOn", TIM, P(created_on)}, {0, "serialNumber", TXT, P(serial_number)}, {0, "nonce", TXT, P(nonce)}, {0, "idevidKeyPath", TXT, P(idevid_key_path)}, {0, "idevidCertPath", TXT, P(idevid_cert_path)}, {0, "idevidCACertPath", TXT, P(idevid_ca_cert_path)}, {0, "cmsSignKeyPath", TXT, P(cms_sign_key_path)}, {0, "cmsSignCertPath", TXT, P(cms_sign_cert_path)}, {0, "cmsAdditionalCertPath", LST, P(cms_add_certs_paths)}, {0, "cmsVerifyCertPath", LST, P(cms_verify_certs_paths)}, {0, "cmsVerifyStorePath", LST, P(cms_verify_store_paths)},
  {1, "bindAddress", TXT, R(bind_address)}, {1, "port", PORT, R(port)}, {1, "tlsKeyPath", TXT, R(tls_key_path)}, {1, "tlsCertPath", TXT, R(tls_cert_path)}, {1, "tlsCAKeyPath", TXT, R(tls_ca_key_path)}, {1, "tlsCACertPath", TXT, R(tls_ca_cert_path)}, {1, "cmsSignKeyPath", TXT, R(cms_sign_key_path)}, {1, "cmsSignCertPath", TXT, R(cms_sign_cert_path)}, {1, "cmsAdditionalCertPath", LST, R(cms_add_certs_paths)}, {1, "cmsVerifyCertPath", LST, R(cms_verify_certs_paths)}, {1, "cmsVerifyStorePath", LST, R(cms_verify_store_paths)},
  {2, "bindAddress", TXT, M(bind_address)}, {2, "port", PORT, M(port)}, {2, "expiresOn", TIM, M(expires_on)}, {2, "ldevidCACertPath", TXT, M(ldevid_ca_cert_path)}, {2, "tlsKeyPath", TXT, M(tls_key_path)}, {2, "tlsCertPath", TXT, M(tls_cert_path)}, {2, "tlsCACertPath", TXT, M(tls_ca_cert_path)}, {2, "cmsSignKeyPath", TXT, M(cms_sign_key_path)}, {2, "cmsSignCertPath", TXT, M(cms_sign_cert_path)}, {2, "cmsAdditionalCertPath", LST, M(cms_add_certs_paths)}, {2, "cmsVerifyCertPath", LST, M(cms_verify_certs_paths)}, {2, "cmsVerifyStorePath", LST, M(cms_verify_store_paths)}};
static const int NS = sizeof ST / sizeof *ST;
/* what the file says: values of each setting in order; dontcare: not compared */
struct Want { std::vector<std::string> v[NS]; bool dc[NS]; Want() { memset(dc, 0, sizeof dc); } };
static std::string val(int i) { const St &s = ST[i]; return s.k == PORT ? std::to_string(1000 + i) : s.k == TIM ? (i ? "2031-12-30T01:02:03Z" : "1973-11-29T21:33:09Z") : std::string("/etc/") + SEC[s.sec] + "/" + s.key + std::to_string(i); }
static void load(Ctx &c, const std::string &text, const Want &w, const char *why, int times = 1) {
  std::string f = c.scratch + "/c.ini"; if (!write(f, text)) die("write"); c.eval();
  for (int t = 0; t < times; t++) { struct brski_config k; memset(&k, 0, sizeof k); int r = load_brski_config(f.c_str(), &k); c.transition(); if (r != 0) c.fail("refused", "%s: the configuration was refused", why); std::string bad;
    for (int i = 0; i < NS && bad.empty(); i++) { if (w.dc[i]) continue; const St &s = ST[i]; char *b = (char *)&k + s.off; std::string name = std::string(SEC[s.sec]) + "." + s.key;
      if (s.k == PORT) { unsigned want = w.v[i].size() ? (unsigned)strtol(w.v[i][0].c_str(), nullptr, 0) : 0; if (*(unsigned *)b != want) bad = name + " is " + std::to_string(*(unsigned *)b) + " instead of " + std::to_string(want); }
      else if (s.k == LST) { std::vector<bytes> got = *(struct BinaryArrayList **)b ? items(*(struct BinaryArrayList **)b) : std::vector<bytes>{}, want; for (auto &x : w.v[i]) if (x.size()) want.push_back(bytes(x.c_str(), x.size() + 1)); if (got != want) { bad = name + " holds " + std::to_string(got.size()) + " entries instead of " + std::to_string(want.size()); for (auto &g : got) bad += " " + g; } }
      else { const char *g = *(char **)b; std::string want = w.v[i].size() ? w.v[i][0] : !strcmp(s.key, "bindAddress") ? "0.0.0.0" : ""; if (want.empty() ? g != nullptr : !g || want != g) bad = name + " is " + (g ? g : "unset") + " instead of " + (want.empty() ? "unset" : want); } }
    free_config_content(&k); for (int i = 0; i < NS && bad.empty(); i++) if (ST[i].k != PORT && *(void **)((char *)&k + ST[i].off)) bad = std::string(SEC[ST[i].sec]) + "." + ST[i].key + " is left behind by the release"; free_config_content(&k); c.validated();
    if (!bad.empty()) c.fail("setting", "%s: %s", why, bad.c_str()); }
}
static std::string line(int i, const std::string &v, int style) { bool q = ST[i].k != PORT || style & 4; std::string x = style & 1 && v.size() && v.find_first_of(" ;#=\"") == std::string::npos ? v : q ? "\"" + v + "\"" : v; return std::string(ST[i].key) + (style & 2 ? "=" : " = ") + x; }
static Site W; static bool made;
static void body(Ctx &c) {
  if (!made) { W.files(c.scratch); made = true; } int part = c.choose(9); Want w; std::string t;
  if (part == 0) { /* every subset of the settings of one section; the others empty, complete or the same subset */
    int s = c.choose(3), n = 0, first = -1; for (int i = 0; i < NS; i++) if (ST[i].sec == s) { n++; if (first < 0) first = i; } int m = c.choose(1 << n), o = c.choose(3), st = c.thorough ? c.choose(4) : (m ^ o) & 3; if (!c.mine()) return;
    for (int x = 0; x < 3; x++) { t += std::string("[") + SEC[x] + "]\n"; int j = 0; for (int i = 0; i < NS; i++) if (ST[i].sec == x) { bool in = x == s ? m >> j & 1 : o == 1 ? true : o == 2 ? m >> j & 1 : false; j++; if (in) { w.v[i].push_back(val(i)); t += line(i, val(i), st) + "\n"; } } }
    c.note("settings %x of [%s], others %s", m, SEC[s], o == 0 ? "empty" : o == 1 ? "complete" : "the same"); c.distinct(comb(comb(comb(1, s), m), o)); load(c, t, w, c.w->note);
  } else if (part == 1) { /* one setting with every kind of value, among all others */
    int i = c.choose(NS), k = c.choose(30), st = c.choose(4), al = c.choose(2); if (!c.mine()) return; static const char *X[] = {"a", " a", "a ", "a b", "a;b", ";", "a#b", "#", "a=b", "=", "[masa]", "[", "]", "port = 5", "%s%n%d", "\xc3\xa9\xe2\x82\xac", "'", "'a'", ",", "a,b", "//", "a:b", "~", "$HOME", "C:/x", "\t", "0", "1e3", "null", ""}; std::string v = X[k]; if (ST[i].k == PORT) v = std::to_string(k * 2255); 
    for (int s = 0; s < 3; s++) { t += std::string("[") + SEC[s] + "]\n"; for (int j = 0; j < NS; j++) if (ST[j].sec == s && (j == i || al)) { std::string x = j == i ? v : val(j); int y = j == i ? st & 6 : st; if (j == i && ST[i].k == PORT) y = st; t += line(j, x, y) + "\n"; w.v[j].push_back(x); } } if (ST[i].k != PORT && v.size() && strspn(v.c_str(), " \t") == v.size()) w.dc[i] = true;
    c.note("%s.%s = \"%s\"", SEC[ST[i].sec], ST[i].key, v.c_str()); c.distinct(comb(comb(comb(2, i), k), st)); if (v.size() && (v[0] == ' ' || v[0] == '\t' || v.back() == ' ')) w.dc[i] = true; if (v.empty() && ST[i].k == TXT && !strcmp(ST[i].key, "bindAddress")) w.dc[i] = true; load(c, t, w, c.w->note);
  } else if (part == 2) { /* value lengths */
    int i = c.choose(NS), l = c.choose(c.thorough ? 480 : 120); if (!c.mine()) return; if (!c.thorough) l = l * 4 + (i & 3); l++; if (ST[i].k == PORT) return; if (ST[i].k == TIM && l > 20) w.dc[i] = true; std::string v; for (int j = 0; j < l; j++) v += (char)('a' + j * 7 % 26); if (l + (int)strlen(ST[i].key) > 490) return;
    for (int s = 0; s < 3; s++) { t += std::string("[") + SEC[s] + "]\n"; for (int j = 0; j < NS; j++) if (ST[j].sec == s) { std::string x = j == i ? v : val(j); t += line(j, x, l & 3) + "\n"; w.v[j].push_back(x); } } c.note("%s.%s of %d characters", SEC[ST[i].sec], ST[i].key, l); c.distinct(comb(comb(3, i), l)); load(c, t, w, c.w->note);
  } else if (part == 3) { /* every port number */
    int hi = c.choose(256), s = c.choose(2); if (!c.mine()) return; int ip = s ? 23 : 12; for (int lo = 0; lo < 256; lo++) { if (!c.thorough && lo > 2 && lo < 252 && (hi ^ lo) % 11) continue; int p = hi * 256 + lo; Want x; t = std::string("[") + (s ? "masa" : "registrar") + "]\nport = " + std::to_string(p) + "\n"; x.v[ip].push_back(std::to_string(p)); c.note("%s.port = %d", SEC[1 + s], p); c.distinct(comb(comb(4, s), p)); load(c, t, x, c.w->note); }
  } else if (part == 4) { /* layout: order of sections and settings, comments, line ends, foreign settings */
    int perm = c.choose(6), rev = c.choose(3), lay = c.choose(8), fo = c.choose(8); if (!c.mine()) return; static const int PM[6][3] = {{0, 1, 2}, {0, 2, 1}, {1, 0, 2}, {1, 2, 0}, {2, 0, 1}, {2, 1, 0}}; std::string nl = lay & 1 ? "\r\n" : "\n"; if (fo & 1) t += "[other]" + nl + "port = 7" + nl + "bindAddress = 9.9.9.9" + nl + "tlsKeyPath = x" + nl + "cmsVerifyStorePath = y" + nl + "[masax]" + nl + "port = 8" + nl + "cmsVerifyStorePath = y" + nl + "[mas]" + nl + "port = 9" + nl + "tlsKeyPath = y" + nl;
    for (int q = 0; q < 3; q++) { int s = PM[perm][q]; if (lay & 2) t += "# comment [masa]" + nl + "; port = 3" + nl + nl; t += std::string("[") + SEC[s] + "]" + nl; std::vector<int> is; for (int j = 0; j < NS; j++) if (ST[j].sec == s) is.push_back(j); if (rev == 1) std::reverse(is.begin(), is.end()); if (rev == 2) std::rotate(is.begin(), is.begin() + is.size() / 2, is.end());
      for (int j : is) { if (fo & 2) t += std::string(ST[j].key) + "X = wrong" + nl + "x" + ST[j].key + " = wrong" + nl + std::string(ST[j].key).substr(0, strlen(ST[j].key) - 1) + " = wrong" + nl; if (fo & 4 && s != 1) { if (!strcmp(ST[j].key, "tlsKeyPath")) t += "tlsCAKeyPath = wrong" + nl; if (s == 0) t += "tlsCertPath = wrong" + nl + "port = 4" + nl; if (s == 2) t += "createdOn = wrong" + nl + "serialNumber = wrong" + nl; } t += line(j, val(j), lay >> 1) + nl; w.v[j].push_back(val(j)); if (lay & 2) t += nl + "# x" + nl; } }
    if (lay & 4) while (t.back() == '\n' || t.back() == '\r') t.pop_back(); c.note("layout %d %d %d %d", perm, rev, lay, fo); c.distinct(comb(comb(comb(comb(5, perm), rev), lay), fo)); load(c, t, w, c.w->note, 2);
  } else if (part == 5) { /* repeated list settings: every value, in order */
    int i = c.choose(9), n = c.choose(c.thorough ? 6 : 5), k[6], mixd = c.choose(2); for (int j = 0; j < n; j++) k[j] = c.choose(4); if (!c.mine()) return; std::vector<int> ls; for (int j = 0; j < NS; j++) if (ST[j].k == LST) ls.push_back(j); int q = ls[i]; static const char *X[] = {"/a", "/b b", "", "/a"};
    for (int s = 0; s < 3; s++) { t += std::string("[") + SEC[s] + "]\n"; int pos = 0; for (int j = 0; j < NS; j++) if (ST[j].sec == s && j != q) { if (mixd) { t += line(j, val(j), 0) + "\n"; w.v[j].push_back(val(j)); if (ST[j].k == LST) { t += line(j, "/2nd", 0) + "\n"; w.v[j].push_back("/2nd"); } } if (s == ST[q].sec && pos < n && mixd) { t += line(q, X[k[pos]], 0) + "\n"; w.v[q].push_back(X[k[pos++]]); } } if (s == ST[q].sec) while (pos < n) { t += line(q, X[k[pos]], 0) + "\n"; w.v[q].push_back(X[k[pos++]]); } }
    std::string l; for (auto &x : w.v[q]) l += " '" + x + "'"; c.note("[%s] %s%s", SEC[ST[q].sec], ST[q].key, l.c_str()); c.distinct(comb(mc::fnvs(l), i * 2 + mixd)); load(c, t, w, c.w->note);
  } else if (part == 6) { /* the file ends (or was torn) at any byte */
    static std::string full; static std::vector<std::pair<size_t, int>> ends; if (full.empty()) for (int s = 0; s < 3; s++) { full += std::string("[") + SEC[s] + "]\n"; for (int j = 0; j < NS; j++) if (ST[j].sec == s) { full += line(j, val(j), j & 7) + "\n"; ends.push_back({full.size(), j}); } }
    int n = c.choose((int)full.size() + 1); if (!c.mine()) return; size_t prev = 0; for (auto &e : ends) { if (e.first <= (size_t)n) w.v[e.second].push_back(val(e.second)); else if (prev < (size_t)n) w.dc[e.second] = true; prev = e.first; } c.note("the file ends after %d bytes", n); c.distinct(comb(7, n)); load(c, full.substr(0, n), w, c.w->note);
  } else if (part == 7) { /* the certificates named by a list */
    int n = c.choose(c.thorough ? 5 : 4), k[5]; for (int j = 0; j < n; j++) k[j] = c.choose(8); if (!c.mine()) return; static const char *F[] = {"mfr.crt", "dom.crt", "reg.crt", "nofile", "empty", "garbage", "half.crt", "mfr.key"}; List l; std::vector<std::string> ps; std::vector<bytes> want; bool ok = true; std::string nm; for (int j = 0; j < n; j++) { ps.push_back(W.p(F[k[j]])); nm += std::string(" ") + F[k[j]]; want.push_back(k[j] == 0 ? W.mfr.cert.der : k[j] == 1 ? W.dom.cert.der : W.reg.cert.der); ok &= k[j] < 3; } paths(l, ps); if (n == 0 && c.w) { l.l = init_array_list(); }
    c.note("certificate files%s", nm.c_str()); c.eval(); c.distinct(comb(8, mc::fnvs(nm))); struct BinaryArrayList *out = (struct BinaryArrayList *)16; int r = load_cert_files(l.l, &out); c.transition(); std::vector<bytes> got = r == 0 && out ? items(out) : std::vector<bytes>{}; bool left = r != 0 && out; if (r == 0) free_array_list(out); if ((r == 0) != ok) c.fail("certificate-files", "%s: %s", c.w->note, r == 0 ? "accepted" : "refused"); if (left) c.fail("certificate-files", "%s: refused with a list left behind", c.w->note); if (ok && got != want) c.fail("certificate-files", "%s: %zu other certificates", c.w->note, got.size());
    if (n == 0) { out = (struct BinaryArrayList *)16; r = load_cert_files(nullptr, &out); if (r != 0 || out) c.fail("certificate-files", "no list: %d", r); }
  } else { /* unusable files, and reuse after a failure */
    int k = c.choose(6); if (!c.mine()) return; struct brski_config g; memset(&g, 0, sizeof g); c.eval(); c.distinct(comb(9, k)); std::string f = k == 0 ? W.p("nofile") : k == 1 ? W.p("nodir/x") : k == 2 ? W.p("mfr.crt/x") : k == 3 ? std::string(5000, 'x') : k == 4 ? "" : W.p("dir"); c.note("file %.40s", f.c_str()); int r = load_brski_config(f.c_str(), &g); if (k < 5 && r == 0) c.fail("unreadable", "%s: loaded", c.w->note); for (int i = 0; i < NS && r != 0; i++) if (ST[i].k != PORT && *(void **)((char *)&g + ST[i].off)) c.fail("unreadable", "%s: refused with %s left behind", c.w->note, ST[i].key); free_config_content(&g); 
    if (k < 5) { for (int i = 0; i < NS; i++) { if (!i || ST[i].sec != ST[i - 1].sec) t += std::string("[") + SEC[ST[i].sec] + "]\n"; t += line(i, val(i), 0) + "\n"; w.v[i].push_back(val(i)); } load(c, t, w, "after an unreadable file"); }
  }
}
int main(int argc, char **argv) { quiet_logs(); setenv("TZ", "UTC", 1); W.make(); Opts o; o.worker_init = quiet_logs; o.settle = pki::settle; return run(argc, argv, body, o); }
