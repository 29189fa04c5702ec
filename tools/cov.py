#!/usr/bin/env python3
"""which basic blocks of the repository no check runs.  usage: cov.py OUTDIR ID...  (runs the quick tier of each with recording), then cov.py OUTDIR"""
import collections, glob, os, re, subprocess, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
d = os.path.abspath(sys.argv[1]); os.makedirs(d, exist_ok=True); os.chmod(d, 0o777)
for i in sys.argv[2:]:
    for f in glob.glob(d + "/" + i + ".*"): os.unlink(f)
    r = subprocess.run(["python3", H + "/run.py", i], env=dict(os.environ, MC_COV_DIR=d), stdout=subprocess.PIPE, text=True)
    print(i, r.returncode, r.stdout[-200:].strip(), flush=True)
hit, allb = collections.defaultdict(set), set()
for e in sorted(glob.glob(d + "/*.exe")):
    i = os.path.basename(e)[:-4]; m = open(e[:-4], "rb").read()
    dis = subprocess.Popen(["objdump", "-d", "--no-show-raw-insn", e], stdout=subprocess.PIPE, text=True)
    addr, nxt = [], False
    for l in dis.stdout:
        a = re.match(r"\s*([0-9a-f]+):\t(.*)", l)
        if not a: continue
        if nxt: addr.append(int(a.group(1), 16)); nxt = False
        if "<__sanitizer_cov_trace_pc>" in a.group(2) and "call" in a.group(2): nxt = True
    r = subprocess.run(["addr2line", "-f", "-C", "-e", e], input="\n".join("%x" % (x - 1) for x in addr), stdout=subprocess.PIPE, text=True).stdout.split("\n")
    for k, x in enumerate(addr):
        fn, loc = r[2 * k], r[2 * k + 1].split(" ")[0]
        if "/src/" not in loc or loc.startswith("/usr"): continue
        loc = re.sub(r".*?/src/", "", loc, count=1); b = (loc.split(":")[0], int(re.sub(r"\D", "", loc.split(":")[1]) or 0), fn)
        allb.add(b)
        if m[x]: hit[b].add(i.split(".")[0])
per = collections.defaultdict(list)
for b in sorted(allb):
    if b not in hit: per[b[0]].append(b)
tot = collections.Counter(b[0] for b in allb)
for f in sorted(tot): print("%-45s %5d lines with blocks, %4d never run" % (f, tot[f], len(per[f])))
with open(d + "/never.txt", "w") as o:
    for f in sorted(per):
        for b in per[f]: o.write("%s:%d %s\n" % b)
with open(d + "/by.txt", "w") as o:
    for b in sorted(allb): o.write("%s:%d %s %s\n" % (b + (",".join(sorted(hit.get(b, []))),)))
