#!/usr/bin/env python3
"""Which basic blocks of /repo do the checks execute?  coverage.py [SECONDS] Cxx...: for every
check, runs its stock variant with SIM_COV and lists source lines never reached by any of them."""
import os, sys, subprocess, re, glob, tempfile, json, collections
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, V)
import check
a = sys.argv[1:]; secs = a.pop(0) if a and a[0].isdigit() else "8"; props = a or sorted(check.PROPS)
hit = collections.defaultdict(set); miss = collections.defaultdict(set)
for p in props:
    out, _ = check.build(p)
    for var, b in out:
        if "fsanitize" in " ".join(var.get("flags", [])) or var.get("runs"): continue
        f = tempfile.mktemp(); subprocess.run([sys.executable, "check.py", p, "--time", secs, "--only", var["name"]], cwd=V, env=dict(os.environ, SIM_COV=f), stdout=subprocess.DEVNULL)
        cov = open(f, "rb").read(); os.unlink(f)
        dis = subprocess.run(["objdump", "-d", "--no-show-raw-insn", b], capture_output=True, text=True).stdout.split("\n")
        nm = subprocess.run(["nm", b], capture_output=True, text=True).stdout; base = int(re.search(r"(\w+) . __executable_start", nm).group(1), 16) if "__executable_start" in nm else 0
        pcs = []; nxt = False
        for l in dis:
            m = re.match(r"\s+([0-9a-f]+):\s+(.*)", l)
            if not m: continue
            if nxt: pcs.append(int(m.group(1), 16)); nxt = False
            if "call" in m.group(2) and "__sanitizer_cov_trace_pc>" in m.group(2): nxt = True
        r = subprocess.run(["addr2line", "-e", b, "-a"] , input="\n".join(hex(x - 1) for x in pcs), capture_output=True, text=True).stdout.split("\n")
        for i, pc in enumerate(pcs):
            loc = r[2 * i + 1].split(" ")[0]; m = re.match(r".*?(emp-tool/.*):(\d+)$", loc)
            if m: (hit if cov[pc - base] else miss)[m.group(1)].add(int(m.group(2)))
        print("%s/%s: %d of %d blocks" % (p, var["name"], sum(1 for pc in pcs if cov[pc - base]), len(pcs)), flush=True)
for f in sorted(miss):
    m = sorted(miss[f] - hit[f])
    try: L = open(os.path.join(check.REPO, f)).read().split("\n")
    except OSError: L = []
    for n in m: print("%s:%d: %s" % (f, n, L[n - 1].strip() if n <= len(L) else ""))
