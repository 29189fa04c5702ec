/* C23: the program's command line: every command with every option, file, input and outcome around the limits.
 * The real main() runs in a forked child with its own standard streams; only the network is replaced. */
#include <algorithm>
#include <functional>
#include "mc.hpp"
#include "servers.hpp"
#include <dirent.h>
#include <getopt.h>
#include <sys/prctl.h>
#include <sys/wait.h>
using mc::Ctx; using mc::Opts; using mc::comb; using namespace srv;
extern "C" int __real_main(int, char **);
static Site W; static std::string SDIR, CALLLOG; static int OUTCOME; static bytes VOUCHER;
static void record(const std::string &s) { int f = open(CALLLOG.c_str(), O_WRONLY | O_APPEND | O_CREAT, 0600); std::string l = s + "\n"; if (f < 0 || ::write(f, l.data(), l.size()) != (ssize_t)l.size()) _exit(99); close(f); }
int https_start(struct http_config *config, std::vector<struct RouteTuple> &routes, void *ctx, void **srv_ctx) { *srv_ctx = nullptr; record("start " + std::string(config->bind_address ? config->bind_address : "(null)") + " " + std::to_string(config->port) + " " + (config->tls_cert_path ? config->tls_cert_path : "(null)") + " " + std::to_string(routes.size() && ctx)); return OUTCOME ? -1 : 0; }
void https_stop(void *) { record("stop"); }
static std::string txt(const std::string &p) { bytes b; return read(p, b) ? b : ""; }
static const char *CMD[] = {"epvr", "preq", "sign", "vmasa", "serial", "registrar", "masa", "epv", "", "EPVR", "epvr "}; enum { EPVR, PREQ, SIGN, VMASA, SERIALC, REGISTRAR, MASA };
static const char *CONFIG[] = {"good", "none", "missing", "directory", "empty", "no settings", "no pledge section", "long path", "no serial number", "unreadable key", "no trusted MASA"};
static const char *IN[] = {"good", "none", "empty name", "missing", "garbage", "key", "directory", "other certificate", "long path", "half a certificate", "certificate without serial number", "a device with other serial number"};
static const char *OUT[] = {"standard output", "file", "existing file", "missing directory", "directory in the way", "full device", "245", "247", "248", "249", "250", "251", "252", "254", "255", "256", "300", "5000", "file in the current directory", "file with a dot", "second file unwritable"};
static const char *SO[] = {"file", "full", "closed"}, *IN0[] = {"voucher", "voucher and newline", "empty", "garbage", "closed", "4096 bytes", "4097 bytes", "100000 bytes", "other serial number", "half", "wrapped", "directory", "signed by another", "4095 bytes"};
static const char *PORT[] = {"", "1234", "65535", "1", "65536", "-1", "abc", "", "12x", "99999999999999999999", "4294967297", "0"}, *ADDR[] = {"", "reg.example", "long", ""};
static const char *FLAG[] = {"", "-d", "-h", "-v", "-x", "missing argument", "command first", "--", "attached", "config twice", "extra operand", "-ddd"};
enum { CF, INF, OUTF, SOUT, SIN, PT, AD, NET, FL, ND }; static const int DIM[ND] = {11, 12, 21, 3, 14, 12, 4, 4, 12};
static std::string slashes(const std::string &p) { return p; }
static void config(const std::string &path, bool pledge, bool serial, bool key, bool store) {
  auto p = [&](const char *n) { return "\"" + slashes(W.p(n)) + "\"\n"; }; std::string s;
  if (pledge) s += "[pledge]\ncreatedOn = \"2024-01-01T00:00:00Z\"\n" + std::string(serial ? "serialNumber = \"12345\"\n" : "") + "nonce = \"bm9uY2U=\"\nidevidKeyPath = " + p("pledge.key") + "idevidCertPath = " + p("pledge.crt") + "idevidCACertPath = " + p("mfr.crt") + "cmsSignKeyPath = " + p(key ? "pledge.key" : "garbage") + "cmsSignCertPath = " + p("pledge.crt") + "cmsAdditionalCertPath = " + p("mfr.crt") + "cmsVerifyStorePath = " + p(store ? "masa.crt" : "other.crt");
  s += "[registrar]\nbindAddress = \"reg.configured\"\nport = 12345\ntlsKeyPath = " + p("regtls.key") + "tlsCertPath = " + p("regtls.crt") + "tlsCAKeyPath = " + p("ldevid.key") + "tlsCACertPath = " + p("ldevid.crt") + "cmsSignKeyPath = " + p("reg.key") + "cmsSignCertPath = " + p("reg.crt") + "cmsVerifyStorePath = " + p("mfr.crt");
  s += "[masa]\nbindAddress = \"masa.configured\"\nexpiresOn = \"2030-01-02T03:04:05Z\"\nport = 15678\nldevidCACertPath = " + p("dom.crt") + "tlsKeyPath = " + p("masatls.key") + "tlsCertPath = " + p("masatls.crt") + "tlsCACertPath = " + p("ldevid.crt") + "cmsSignKeyPath = " + p("masa.key") + "cmsSignCertPath = " + p("masa.crt") + "cmsVerifyStorePath = " + p("dom.crt"); if (!write(path, s)) die("config");
}
static bytes voucher(const std::string &sn, const Id &by) { V v; S(v, SERIAL, sn); S(v, NONCE, "nonce"); S(v, PINNED, W.dom.cert.der); E(v, ASSERTION, 3); T(v, EXPIRES, T6{2090, 1, 1, 0, 0, 0}); return cms(doc(v), {{&by.cert, &by.key}}); }
static std::string base, od; /* scratch of this worker, directory of the outputs */
static void wipe(const std::string &d) { DIR *h = opendir(d.c_str()); if (!h) return; while (struct dirent *e = readdir(h)) { std::string n = e->d_name; if (n == "." || n == "..") continue; std::string p = d + "/" + n; struct stat s; if (lstat(p.c_str(), &s) == 0 && S_ISDIR(s.st_mode)) { wipe(p); rmdir(p.c_str()); } else unlink(p.c_str()); } closedir(h); }
static void listing(const std::string &d, const std::string &rel, std::vector<std::string> &v) { DIR *h = opendir(d.c_str()); if (!h) return; while (struct dirent *e = readdir(h)) { std::string n = e->d_name; if (n == "." || n == "..") continue; struct stat s; std::string p = d + "/" + n; if (lstat(p.c_str(), &s) == 0 && S_ISDIR(s.st_mode)) listing(p, rel + n + "/", v); else v.push_back(rel + n); } closedir(h); }
/* the enrolled certificate: the request's key under another name */
static bytes issue(const std::string &body) { bytes d = unb64(body); X509 *x = x509(d); if (!x) return ""; Key k; k.k = X509_get_pubkey(x); X509_free(x); Spec s; s.subject = cn("issued"); s.key = &k; s.ca = &W.ldevid.cert; s.by = &W.ldevid.key; s.isca = 0; s.serial = 77; Cert c = pki::cert(s); bytes r = c.der; X509_free(c.x); EVP_PKEY_free(k.k); return r; }
static Answer net(const Call &q) { record((q.withca ? "enrol " : q.body.empty() ? "probe " : "request ") + q.host + " " + std::to_string(q.port)); Answer a; a.peer = &W.regtls.cert; if (q.withca) { if (OUTCOME == 3) a.status = 403; a.body = b64(issue(q.body)); } else if (q.body.empty()) a.status = 400; else { if (OUTCOME == 1) a.status = -1; a.body = b64(OUTCOME == 2 ? voucher("67890", W.masa) : VOUCHER); } return a; }
static bool keyok(const bytes &d, bool pemf, const bytes *of = nullptr) { EVP_PKEY *k = nullptr; if (pemf) { BIO *b = BIO_new_mem_buf(d.data(), (int)d.size()); k = PEM_read_bio_PrivateKey(b, nullptr, nullptr, nullptr); BIO_free(b); } else { const unsigned char *p = (const unsigned char *)d.data(); k = d2i_AutoPrivateKey(nullptr, &p, (long)d.size()); } bool r = k; if (r && of) { X509 *x = x509(*of); r = x && X509_check_private_key(x, k) == 1 && X509_check_issued(W.ldevid.cert.x, x) == X509_V_OK && X509_verify(x, W.ldevid.key.k) == 1 && ASN1_INTEGER_get(X509_get0_serialNumber(x)) == 77; X509_free(x); } EVP_PKEY_free(k); ERR_clear_error(); return r; }
static bytes pemcert(const bytes &d) { BIO *b = BIO_new_mem_buf(d.data(), (int)d.size()); X509 *x = PEM_read_bio_X509(b, nullptr, nullptr, nullptr); BIO_free(b); bytes r = x ? pki::der(x) : ""; X509_free(x); ERR_clear_error(); return r; }
static bool pvrok(const bytes &m) { Msg g = open_cms(m); V v; return g.ok && g.signers.size() == 1 && g.signers[0] == W.pledge.cert.der && parse_strict(g.data, v).empty() && v.a[SERIAL].s == "12345" && v.a[NONCE].s == "nonce" && v.a[PROX].s == W.regtls.cert.der; }
static void body(Ctx &c) {
  int cmd = c.choose(13), o[ND] = {0}, k = c.thorough ? 3 : 2, head = -1;
  /* what matters to the command; several deviations at once only there (thorough: all pairs) */
  auto rel = [&](int i) { return cmd < 7 && (i == CF || i == FL || i == SOUT || (i == INF ? cmd == VMASA || cmd == SERIALC : i == OUTF ? cmd < SERIALC : i == SIN ? cmd == VMASA : i == NET ? cmd != EPVR && cmd != VMASA && cmd != SERIALC : cmd == PREQ || cmd == SIGN || cmd == REGISTRAR)); };
  bool norel = false; for (int n = 0, from = 0; n < k; n++) { std::vector<int> can; for (int i = from; i < ND; i++) if (n == 0 || (n == 1 && c.thorough) || (rel(i) && rel(head) && !norel)) can.push_back(i); int i = c.choose((int)can.size() + 1); if (i == (int)can.size()) break; i = can[i]; if (head < 0) head = i; norel |= !rel(i); o[i] = 1 + c.choose(DIM[i] - 1); from = i + 1; }
  if (!c.mine()) return; char note[600]; snprintf(note, sizeof note, "%s; config %s, input %s, output %s to %s, stdin %s, port '%s', address %s, outcome %d, option %s", cmd == 11 ? "(no command)" : cmd == 12 ? "(no arguments)" : CMD[cmd], CONFIG[o[CF]], IN[o[INF]], OUT[o[OUTF]], SO[o[SOUT]], IN0[o[SIN]], PORT[o[PT]], ADDR[o[AD]], o[NET], FLAG[o[FL]]); c.note("%s", note); uint64_t h = cmd; for (int x : o) h = comb(h, x); c.distinct(h); c.eval(); c.state(h);
  std::string id = std::to_string(getpid()); base = SDIR + "/w" + id; mkdir(base.c_str(), 0700); od = base + "/o"; mkdir(od.c_str(), 0700); wipe(od); CALLLOG = base + "/calls"; unlink(CALLLOG.c_str());
  /* arguments */
  std::vector<std::string> a; std::string in, out, cfg; bool stdo = o[OUTF] == 0, outbad = false; std::string longname(5000, 'n');
  static const char *CN[] = {"good.ini", "", "missing.ini", "dir", "empty", "nosettings.ini", "nopledge.ini", "", "noserial.ini", "nokey.ini", "nostore.ini"}; cfg = W.p(CN[o[CF]]); if (o[CF] == 7) cfg = W.p(longname);
  switch (o[INF]) { case 0: in = W.p(cmd == SERIALC ? "pledge.crt" : "regtls.crt"); break; case 2: in = ""; break; case 3: in = W.p("missing.crt"); break; case 4: in = W.p("garbage"); break; case 5: in = W.p("pledge.key"); break; case 6: in = W.p("dir"); break; case 7: in = W.p("masatls.crt"); break; case 8: in = W.p(longname); break; case 9: in = W.p("half.crt"); break; case 10: in = W.p("other.crt"); break; case 11: in = W.p("pledge2.crt"); break; default: break; }
  const std::string suf = cmd == EPVR ? ".smime" : ".crt"; bool exist = false;
  if (o[OUTF]) { int n = o[OUTF]; out = od + "/out"; if (n == 2) { exist = true; if (!write(out + suf, std::string(20000, 'x'))) die("existing"); } if (n == 3) { out = od + "/no/such/out"; outbad = true; } if (n == 4) { mkdir((out + suf).c_str(), 0700); outbad = true; } if (n == 5) { if (symlink("/dev/full", (out + suf).c_str())) die("symlink"); outbad = true; }
    if (n >= 6 && n <= 16) { std::string d = od + "/" + std::string(90, 'd'); mkdir(d.c_str(), 0700); int len = atoi(OUT[n]); out = d + "/" + std::string(len - (int)d.size() - 1, 'f'); } if (n == 17) { out = od + "/" + std::string(5000, 'f'); outbad = true; } if (n == 18) out = "rel"; if (n == 19) out = od + "/out.crt"; if (n == 20) { if (cmd == SIGN) { mkdir((out + ".key").c_str(), 0700); outbad = true; } } }
  bool usesport = cmd == PREQ || cmd == SIGN || cmd == REGISTRAR; std::vector<std::string> opts; bool att = o[FL] == 8; auto opt = [&](const char *f, const std::string &v) { if (att && v.size()) opts.push_back(f + v); else { opts.push_back(f); opts.push_back(v); } };
  if (o[FL] == 9) { opts.push_back("-c"); opts.push_back(W.p("missing.ini")); } if (o[CF] != 1) opt("-c", cfg); if (o[INF] != 1) opt("-i", in); if (!stdo) opt("-o", out); if (o[PT]) opt("-p", PORT[o[PT]]); std::string addr = o[AD] == 2 ? std::string(10000, 'h') : ADDR[o[AD]]; if (o[AD]) opt("-a", addr);
  a.push_back("./some/where/brski"); if (o[FL] >= 1 && o[FL] <= 4) a.push_back(FLAG[o[FL]]); if (o[FL] == 11) a.push_back("-ddd"); if (o[FL] == 6 && cmd < 11) a.push_back(CMD[cmd]); for (auto &x : opts) a.push_back(x); if (o[FL] == 7) a.push_back("--"); if (o[FL] != 6 && cmd < 11) a.push_back(CMD[cmd]); if (o[FL] == 10) a.push_back("extra"); if (o[FL] == 5) a.push_back("-o"); if (cmd == 12) a.resize(1);
  /* standard input */
  std::string si; switch (o[SIN]) { case 0: si = b64(VOUCHER); break; case 1: si = b64(VOUCHER) + "\n"; break; case 3: si = "?"; break; case 5: si = b64(VOUCHER); si.resize(4096, '\n'); break; case 6: si = b64(VOUCHER); si.resize(4097, '\n'); break; case 7: si = b64(VOUCHER); si.resize(100000, '\n'); break; case 8: si = b64(voucher("67890", W.masa)); break; case 9: si = b64(VOUCHER); si.resize(si.size() / 2); break;
    case 10: { std::string t = b64(VOUCHER); for (size_t i = 0; i < t.size(); i += 64) si += t.substr(i, 64) + "\n"; break; } case 12: si = b64(voucher("12345", W.other)); break; case 13: si = b64(VOUCHER); si.resize(4095, '\n'); break; default: break; }
  if (!write(base + "/in", si)) die("stdin"); std::string fo = base + "/stdout", fe = base + "/stderr"; OUTCOME = o[NET];
  std::vector<std::string> pre; listing(od, "", pre); fflush(stdout); fflush(stderr); pid_t p = fork();
  if (!p) {
    prctl(PR_SET_PDEATHSIG, SIGKILL); signal(SIGPIPE, SIG_DFL); int f; if (chdir(od.c_str())) _exit(98);
    if (o[SIN] == 4) close(0); else { f = open(o[SIN] == 11 ? od.c_str() : (base + "/in").c_str(), O_RDONLY); if (f != 0) { dup2(f, 0); close(f); } }
    f = open(fe.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600); dup2(f, 2); close(f); f = open(o[SOUT] == 1 ? "/dev/full" : fo.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600); dup2(f, 1); if (f > 2) close(f); if (o[SOUT] == 2) close(1);
    std::vector<char *> v; for (auto &x : a) v.push_back(strdup(x.c_str())); v.push_back(nullptr); optind = 1; opterr = 1; log_set_quiet(false); log_set_level(0); ANSWERER = net; exit(__real_main((int)a.size(), v.data()));
  }
  int st = 0; if (p < 0 || waitpid(p, &st, 0) != p) die("fork"); c.transition(); c.validated(); bool crashed = !WIFEXITED(st); int code = crashed ? -1 : WEXITSTATUS(st); std::string so = o[SOUT] ? "" : txt(fo), se = txt(fe), calls = txt(CALLLOG); if (code == 98 || code == 99) die("child");
  if (crashed || code == 77 || se.find("runtime error:") != std::string::npos || se.find("AddressSanitizer") != std::string::npos) { size_t e = se.find("ERROR: "); if (e == std::string::npos) e = se.find("runtime error:"); c.fail("crash", "%s: the program died (status %x): %s", note, st, e == std::string::npos ? "" : se.substr(e, 300).c_str()); }
  /* what should have happened: 1 success, 0 failure, -1 unspecified */
  int want = 1; bool before = false; auto no = [&](bool b) { want = 0; before |= b; }; bool usage = false;
  if (cmd != SERIALC && (o[CF] == 1 || o[CF] == 2 || o[CF] == 7)) no(true); bool nosettings = o[CF] == 3 || o[CF] == 4 || o[CF] == 5 || o[CF] == 6;
  if (cmd == EPVR || cmd == PREQ || cmd == SIGN) if (nosettings || o[CF] == 8 || o[CF] == 9) no(true); if ((cmd == PREQ || cmd == SIGN) && (o[NET] == 1 || o[NET] == 2 || (cmd == SIGN && o[NET] == 3) || o[CF] == 10)) no(true);
  if (cmd == VMASA) { if (nosettings && o[CF] != 6) no(true); if (o[CF] == 6 || o[CF] == 8 || o[CF] == 10) no(true); if (o[CF] == 10 && o[SIN] == 12) want = 1, before = false; if (o[INF] && o[INF] != 0) no(true); switch (o[SIN]) { case 2: case 3: case 4: case 8: case 9: case 11: no(true); break; case 12: if (o[CF] != 10) no(true); break; case 6: case 7: if (want) want = -1; break; default: break; } }
  if (cmd == SERIALC) { if (o[INF] && o[INF] != 11) no(true); }
  if (cmd == REGISTRAR || cmd == MASA) { if (o[NET]) no(true); if (want && (nosettings && o[CF] != 6)) want = -1; }
  bool prints = cmd <= SERIALC, tostdout = prints && (cmd == SERIALC || stdo); if (prints && !tostdout && outbad) want = want ? 0 : 0; if (tostdout && o[SOUT]) want = 0; if (cmd > MASA) { want = 0; before = usage = true; }
  if (o[PT] >= 4 && o[PT] <= 10) { if (usesport) { want = 0; before = true; } else if (want == 1) want = -1; } if (o[PT] == 11 && want == 1) want = -1; if (o[AD] == 3 && want == 1 && usesport) want = 1;
  bool help = (o[FL] == 2 || o[FL] == 3) && cmd != 12; if (o[FL] == 4 || o[FL] == 5) { want = 0; before = usage = true; } if (o[FL] == 10 && want == 1) want = -1; if (cmd == 12) want = -1; 
  if (help) { if (code != 0 && !o[SOUT]) c.fail("help", "%s: exit status %d", note, code); if (!o[SOUT] && so.empty()) c.fail("help", "%s: nothing was printed", note); if (calls.size()) c.fail("help", "%s: ran the command", note); return; }
  c.user(code == 0 ? 1 : 0); std::vector<std::string> files; listing(od, "", files); bool writes = cmd < SERIALC && !stdo; if (!writes || code) for (auto &x : pre) files.erase(std::remove(files.begin(), files.end(), x), files.end()); if (cmd == 12) return; /* only that it does not crash */
  if (code == 0 && want == 0) c.fail("false-success", "%s: exit status 0", note); if (code != 0 && want == 1) c.fail("refused", "%s: exit status %d: %s", note, code, se.substr(0, 200).c_str());
  if (code != 0) { if (before) for (auto &f : files) c.fail("left", "%s: failed, but left %s", note, f.c_str()); if ((o[FL] == 1 || o[FL] == 11) && !o[SOUT] && se.empty() && so.empty()) c.fail("silent", "%s: failed without a word", note); if (usage && !o[SOUT] && so.empty() && se.empty()) c.fail("silent", "%s: failed without a word", note); return; }
  if (cmd > MASA) return;
  /* success: exactly the documented output */
  std::string first = so, second; std::vector<std::string> expect;
  if (prints && !tostdout) { std::string r = out == "rel" ? "rel" : out.substr(od.size() + 1); expect.push_back(r + suf); if (cmd == SIGN) expect.push_back(r + ".key"); std::sort(expect.begin(), expect.end()); std::sort(files.begin(), files.end()); if (files != expect) c.fail("output-files", "%s: left %zu files (%s)", note, files.size(), files.size() ? files[0].c_str() : ""); first = txt((out == "rel" ? od + "/rel" : out) + suf); second = cmd == SIGN ? txt((out == "rel" ? od + "/rel" : out) + ".key") : ""; if (so.size() && !o[SOUT]) c.fail("output", "%s: printed %zu bytes although there is an output file", note, so.size()); }
  else if (files.size()) c.fail("output-files", "%s: left %s", note, files[0].c_str());
  auto line = [&](std::string &s) { size_t n = s.find('\n'); std::string r = n == std::string::npos ? s : s.substr(0, n); s = n == std::string::npos ? "" : s.substr(n + 1); return r; };
  switch (cmd) {
    case EPVR: { bytes m; bool dec; if (tostdout) { std::string l = line(first); m = unb64(l, &dec); if (!dec || first.size()) c.fail("output", "%s: not one line of base64", note); } else { size_t b = first.find("\n\n"); m = unb64(first.find("MIME-Version") != std::string::npos && b != std::string::npos ? first.substr(b) : first, &dec); } if (!pvrok(m)) c.fail("output", "%s: the output is not the pledge's voucher request", note); break; }
    case PREQ: case VMASA: { bytes d; if (tostdout) { d = unb64(line(first)); if (first.size()) c.fail("output", "%s: more than one line", note); } else d = pemcert(first); if (d != W.dom.cert.der) c.fail("output", "%s: the output is not the pinned certificate", note); break; }
    case SIGN: { bytes d; bool kk; if (tostdout) { d = unb64(line(first)); kk = keyok(unb64(line(first)), false, &d); if (first.size()) c.fail("output", "%s: more than two lines", note); } else d = pemcert(first), kk = keyok(second, true, &d); if (!kk) c.fail("output", "%s: the output is not the issued certificate and its key", note); break; }
    case SERIALC: if (so != (o[INF] == 11 ? "67890" : "12345") && so != std::string(o[INF] == 11 ? "67890" : "12345") + "\n") c.fail("output", "%s: printed '%s'", note, so.c_str()); break;
    default: if (so.size() && !o[SOUT]) c.fail("output", "%s: printed %zu bytes", note, so.size()); break;
  }
  if (cmd == REGISTRAR || cmd == MASA) { if (want == 1) { std::string host = cmd == MASA ? "masa.configured" : o[AD] == 1 || o[AD] == 2 ? addr : "reg.configured", port = cmd == MASA ? "15678" : o[PT] && o[PT] < 4 ? PORT[o[PT]] : "12345"; std::string w = "start " + host + " " + port + " " + W.p(cmd == MASA ? "masatls.crt" : "regtls.crt") + " 1\n"; if (calls.compare(0, w.size(), w)) c.fail("started", "%s: started as '%.200s'", note, calls.c_str()); } }
  else if (cmd == PREQ || cmd == SIGN) { std::string host = o[AD] == 1 || o[AD] == 2 ? addr : "reg.configured", port = o[PT] && o[PT] < 4 ? PORT[o[PT]] : "12345"; std::string t = " " + host + " " + port + "\n", w = "probe" + t + "request" + t + (cmd == SIGN ? "enrol" + t : ""); if (o[PT] != 11 && calls != w) c.fail("requests", "%s: requests '%.300s'", note, calls.c_str()); }
  else if (calls.size()) c.fail("requests", "%s: contacted a server", note);
  if (o[OUTF] == 0 && !o[CF] && cmd < 7) c.sample("%s: done", note);
}
static void init() {
  W.make(); W.files(SDIR); write(W.p("pledge2.crt"), W.pledge2.cert.pem); write(W.p("nosettings.ini"), "hello\n[world\n= 1\n"); config(W.p("good.ini"), true, true, true, true); config(W.p("nopledge.ini"), false, true, true, true); config(W.p("noserial.ini"), true, false, true, true); config(W.p("nokey.ini"), true, true, false, true); config(W.p("nostore.ini"), true, true, true, false); VOUCHER = voucher("12345", W.masa);
}
extern "C" int __wrap_main(int argc, char **argv) { for (int i = 1; i + 1 < argc; i++) if (!strcmp(argv[i], "--scratch")) SDIR = std::string(argv[i + 1]) + "/s"; if (SDIR.empty()) return 3; mkdir(SDIR.c_str(), 0700); init(); Opts o; o.settle = pki::settle; return mc::run(argc, argv, body, o); }
