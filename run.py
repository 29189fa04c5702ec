#!/usr/bin/env python3
"""Builds one check against /repo's current working tree, runs it, writes its
evidence file and reports.  usage: run.py ID [quick|thorough] [--replay FILE]
exit 0: property held on everything explored; 1: VIOLATION printed; 2/3: error."""
import concurrent.futures as cf, fcntl, glob, hashlib, json, os, re, shutil, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("BRSKI_REPO", "/repo")
SRC = os.path.join(REPO, "src")
BUILD = os.path.join(HERE, ".build")
sys.path.insert(0, HERE)
from checkdefs import CHECKS  # noqa: E402

SAN = ["-fsanitize=address", "-fsanitize=bounds,signed-integer-overflow,integer-divide-by-zero,vla-bound",
       "-fno-sanitize-recover=all", "-fno-omit-frame-pointer"]
COMMON = ["-w", "-g1", "-pthread"]


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def tree_hash(paths):
    h = hashlib.sha256()
    for p in sorted(paths):
        h.update(p.encode())
        with open(p, "rb") as f:
            h.update(f.read())
    return h.hexdigest()


def repo_files(group):
    def has_main(p):
        return re.search(r"\bint\s+main\s*\(", open(p, errors="replace").read()) is not None
    if group == "utils":
        r = glob.glob(SRC + "/utils/**/*.c", recursive=True)
    elif group == "voucher":
        r = [p for p in glob.glob(SRC + "/voucher/**/*.c", recursive=True) if "wssl" not in os.path.basename(p)]
    elif group == "brski_c":
        r = glob.glob(SRC + "/brski/**/*.c", recursive=True)
    elif group == "brski_cpp":
        r = [p for p in glob.glob(SRC + "/brski/**/*.cpp", recursive=True)
             if "/brski/http/" not in p and not has_main(p)]
    elif group == "servers_off":  # brski_cpp without the files that start servers
        r = [p for p in repo_files("brski_cpp") if not p.endswith("_server.cpp")]
    elif group == "http":
        r = glob.glob(SRC + "/brski/http/**/*.cpp", recursive=True)
    elif group == "httplib":  # everything in http but the client entry points (which the harness replaces)
        r = [p for p in repo_files("http") if not p.endswith("https_client.cpp")]
    elif group == "main":
        r = [p for p in glob.glob(SRC + "/brski/**/*.cpp", recursive=True) if has_main(p)]
    else:
        raise SystemExit("unknown group " + group)
    return sorted(r)


def gen_headers():
    """version.h as the repo's own build generates it"""
    d = os.path.join(BUILD, "gen")
    os.makedirs(d, exist_ok=True)
    txt = "#ifndef VERSION_H\n#define VERSION_H\n#define BRSKI_VERSION \"0.0.0\"\n#endif\n"
    tmpl = glob.glob(SRC + "/**/version.h.in", recursive=True)
    if tmpl:
        txt = re.sub(r"@[A-Za-z_]+@", "0", open(tmpl[0]).read())
    p = os.path.join(d, "version.h")
    if not os.path.exists(p) or open(p).read() != txt:
        with open(p + ".%d" % os.getpid(), "w") as f:
            f.write(txt)
        os.replace(p + ".%d" % os.getpid(), p)
    return d


def compile_one(src, flags, hdrhash):
    cxx = src.endswith((".cpp", ".cc"))
    std = ["-std=c++17"] if cxx else ["-std=gnu11", "-D_GNU_SOURCE", "-fexceptions"]
    repo_src = src.startswith(REPO + "/")
    if cxx and repo_src:
        std = ["-std=gnu++14", "-D_GNU_SOURCE"]
    cc = "g++" if cxx else "gcc"
    cmd = [cc] + std + COMMON + flags
    key = hashlib.sha256((" ".join(cmd) + src + hdrhash).encode() + open(src, "rb").read()).hexdigest()[:32]
    out = os.path.join(BUILD, "obj", key + ".o")
    if os.path.exists(out):
        return out, ""
    os.makedirs(os.path.dirname(out), exist_ok=True)
    tmp = out + ".%d.tmp" % os.getpid()
    r = sh(cmd + ["-c", src, "-o", tmp])
    if r.returncode:
        return None, "%s\n%s" % (" ".join(cmd + ["-c", src]), r.stdout)
    os.replace(tmp, out)
    return out, r.stdout


def build(cid, part):
    gen = gen_headers()
    hdrs = [p for p in glob.glob(SRC + "/**/*", recursive=True) if p.endswith((".h", ".hpp", ".in"))]
    hdrs += glob.glob(HERE + "/mc/*.h*")
    hh = tree_hash(hdrs)
    san = part.get("san", SAN)
    rflags = san + part.get("opt", ["-O1"]) + ["-DWITH_CPPHTTPLIB_LIB", "-I" + gen, "-I" + SRC] + part.get("repo_flags", [])
    hflags = part.get("hsan", san) + part.get("opt", ["-O1"]) + ["-DWITH_CPPHTTPLIB_LIB", "-I" + gen, "-I" + SRC, "-I" + HERE + "/mc"] + part.get("flags", [])
    cov = os.environ.get("MC_COV_DIR")  # tools/cov.py
    if cov:
        rflags = rflags + ["-fsanitize-coverage=trace-pc"]
    jobs = []
    for g in part["groups"]:
        extra = part.get("group_flags", {}).get(g, [])
        jobs += [(p, rflags + extra) for p in repo_files(g)]
    own = [os.path.join(HERE, s) for s in part["src"]]
    jobs += [(p, hflags) for p in own]
    for s in part.get("nosan_src", []) + (["mc/cov.c"] if cov else []):
        jobs.append((os.path.join(HERE, s), part.get("opt", ["-O1"]) + ["-I" + SRC, "-I" + HERE + "/mc"]))
    with cf.ThreadPoolExecutor(8) as ex:
        res = list(ex.map(lambda j: compile_one(j[0], j[1], hh), jobs))
    bad = [e for o, e in res if o is None]
    if bad:
        print("BUILD-ERROR\n" + "\n".join(bad)[:6000])
        sys.exit(2)
    objs = [o for o, _ in res]
    link = ["g++", "-pthread"] + part.get("hsan", san) + objs + part.get("ldflags", [])
    link += ["-Wl,--wrap=" + w for w in part.get("wrap", [])]
    link += part.get("libs", ["-lminIni"]) + ["-lssl", "-lcrypto", "-lpthread", "-ldl"]
    key = hashlib.sha256(" ".join(link).encode()).hexdigest()[:32]
    exe = os.path.join(BUILD, "bin", "%s-%s" % (cid, key))
    if not os.path.exists(exe):
        os.makedirs(os.path.dirname(exe), exist_ok=True)
        tmp = exe + ".%d.tmp" % os.getpid()
        r = sh(link + ["-o", tmp])
        if r.returncode:
            print("LINK-ERROR\n" + r.stdout[:6000])
            sys.exit(2)
        os.replace(tmp, exe)
    return exe


def known():
    k = {}
    p = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"known: property=(\S+) sig=\[(.*?)\] (.*)", line)
            if m:
                k[(m.group(1), m.group(2))] = m.group(3).strip()
    return k


def main():
    cid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 and not sys.argv[2].startswith("-") else os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    replay = sys.argv[sys.argv.index("--replay") + 1] if "--replay" in sys.argv else None
    spec = CHECKS[cid]
    t0 = time.time()
    env = dict(os.environ)
    env["ASAN_OPTIONS"] = ("detect_leaks=0:exitcode=77:allocator_may_return_null=1:handle_abort=1:"
                           "hard_rss_limit_mb=3500:detect_stack_use_after_return=0:malloc_context_size=8")
    env["UBSAN_OPTIONS"] = "print_stacktrace=1:halt_on_error=1"
    env["TZ"] = "UTC"
    env["LC_ALL"] = "C"
    for v in ("EF_DUMPCORE", "http_proxy", "https_proxy"):
        env.pop(v, None)
    scratch = tempfile.mkdtemp(prefix="mc-%s-" % cid, dir="/dev/shm" if os.access("/dev/shm", os.W_OK) else "/tmp")
    tot = {"evaluations": 0, "transitions": 0, "validated": 0, "executions": 0, "states": 0, "distinct": 0}
    samples, viols, user, cap, trunc, rc_err = [], [], {}, False, False, None
    try:
        fresh = False
        for pi, part in enumerate(spec["parts"]):
            if fresh:  # decided: the other parts need not run
                trunc = True
                break
            if replay:
                rp = json.load(open(replay))
                if rp["part"] != pi:
                    continue
            exe = build(cid, part)
            tb = time.time() - t0
            if os.environ.get("MC_COV_DIR"):
                env["MC_COV"] = os.path.join(os.environ["MC_COV_DIR"], "%s.%d" % (cid, pi))
                with open(env["MC_COV"], "wb") as f:
                    f.truncate(64 << 20)
                os.chmod(env["MC_COV"], 0o666)
                os.symlink(exe, env["MC_COV"] + ".exe")
            out = os.path.join(scratch, "out%d.json" % pi)
            sd = os.path.join(scratch, "p%d" % pi)
            os.mkdir(sd)
            cmd = [exe, "--scratch", sd, "--out", out, "--tier", tier]
            cmd += ["--cap", str(part.get("cap", {}).get(tier, 600 if tier == "quick" else 3000))]
            if part.get("workers"):
                cmd += ["--workers", str(part["workers"])]
            if replay:
                vf = os.path.join(sd, "vector")
                with open(vf, "w") as f:
                    f.write(rp["vector"])
                r = subprocess.run(cmd + ["--replay", "@" + vf], env=env)
                sys.exit(r.returncode)
            r = subprocess.run(cmd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if not os.path.exists(out) or r.returncode not in (0, 1, 3):
                print("CHECK-ERROR part %d rc=%d\n%s" % (pi, r.returncode, r.stdout[-3000:]))
                rc_err = 3
                continue
            d = json.load(open(out))
            for k in tot:
                tot[k] += d[k]
            samples += d["samples"][:6]
            cap |= d["cap_hit"]
            trunc |= d["truncated"]
            for i, u in enumerate(d["user"]):
                if u:
                    user["p%d_%s" % (pi, part.get("user", {}).get(i, "counter%d" % i))] = u
            for v in d["violations"]:
                v["part"] = pi
                viols.append(v)
                fresh |= (cid, v["sig"]) not in known()
            if r.returncode == 3:
                print("CHECK-ERROR part %d: %s" % (pi, d["error"][:2000]))
                rc_err = 3
            print("part %d (%s): %d executions, %d evaluations, %d states, %d distinct, build %.1fs, run %.1fs%s" % (
                pi, part.get("name", cid), d["executions"], d["evaluations"], d["states"], d["distinct"], tb, d["wall"],
                " CAP-HIT" if d["cap_hit"] else ""))
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    if replay:
        sys.exit(3)
    kn = known()
    new = []
    seenk = set()
    for v in viols:
        key = (cid, v["sig"])
        if key in kn:
            if key not in seenk:
                print("KNOWN-FINDING: property=%s %s" % (cid, kn[key]))
            seenk.add(key)
        else:
            new.append(v)
    lvl = spec["level"]
    cov = {"samples": samples[:10] or ["(none)"], "rule": spec["rule"]}
    if lvl == "model_checking":
        cov.update(states=tot["states"], transitions=tot["transitions"], traces_validated_against_impl=tot["validated"])
        if tot["evaluations"]:
            cov["property_evaluations"] = tot["evaluations"]
    else:
        cov.update(evaluations=tot["evaluations"], distinct_nontrivial=tot["distinct"])
        if tot["transitions"]:
            cov["transitions"] = tot["transitions"]
    cov["exhaustive"] = not cap and not trunc and rc_err is None
    cov["bounds"] = spec["bounds"][tier] if isinstance(spec["bounds"], dict) else spec["bounds"]
    cov["executions_of_real_code"] = tot["executions"]
    if user:
        cov["detail_counters"] = user
    ev = {"property": cid, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1), "level": lvl, "coverage": cov,
          "assumptions": spec.get("assumptions", []), "violations": len(new), "wall_s": round(time.time() - t0, 2)}
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", cid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    if new:
        os.makedirs(os.path.join(HERE, "replays"), exist_ok=True)
        for i, v in enumerate(new[:6]):
            p = os.path.join(HERE, "replays", "%s-%d.json" % (cid, i))
            with open(p, "w") as f:
                json.dump({"property": cid, "part": v["part"], "tier": tier, "sig": v["sig"], "detail": v["detail"], "vector": v["vector"],
                           "how": "python3 /verif/run.py %s %s --replay %s" % (cid, tier, p)}, f, indent=1)
            print("  [%s] %s" % (v["sig"], v["detail"][:700]))
            print("VIOLATION property=%s replay=%s" % (cid, p))
        sys.exit(1)
    if rc_err:
        sys.exit(rc_err)
    if tot["executions"] == 0:
        print("CHECK-ERROR: nothing explored")
        sys.exit(3)
    print("OK property=%s held (%.1fs)" % (cid, time.time() - t0))
    sys.exit(0)


main()
