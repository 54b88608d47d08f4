#!/usr/bin/env python3
"""Deterministic-simulation checks for emp-tool.

  check.py C01 [--tier quick|thorough] [--time S] [--seed N]   run the check of one property
  check.py C01 --replay FILE [--verbose]                       replay a recorded violation
  check.py --setup                                             build what does not depend on /repo
Exit 0: held on everything explored; 1: VIOLATION line printed; 2: the check itself failed.
"""
import sys, os, re, json, time, hashlib, subprocess, struct, shutil, argparse, fcntl
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
NCPU = os.cpu_count() or 4
sys.path.insert(0, VERIF)
from props import PROPS, BASE_FLAGS, WRAPS, FLOAT_SRC

def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)

def die(msg, code=2):
    print("CHECK-ERROR: " + msg, flush=True)
    sys.exit(code)

def tree_hash(root, subs):
    h = hashlib.sha256()
    for s in subs:
        p = os.path.join(root, s)
        if os.path.isfile(p):
            files = [p]
        else:
            files = sorted(os.path.join(d, f) for d, _, fs in os.walk(p) for f in fs)
        for f in files:
            if f.endswith((".pyc",)): continue
            h.update(os.path.relpath(f, root).encode()); h.update(b"\0")
            with open(f, "rb") as fh: h.update(fh.read())
            h.update(b"\0")
    return h.hexdigest()[:20]

class Job:
    """compile commands run in parallel, content-addressed"""
    def __init__(self): self.cmds = []
    def add(self, out, cmd): self.cmds.append((out, cmd))
    def run(self):
        def one(oc):
            out, cmd = oc
            if os.path.exists(out): return None
            tmp = out + ".tmp%d" % os.getpid()
            r = sh([c if c != "@OUT@" else tmp for c in cmd])
            if r.returncode != 0: return "%s\n%s" % (" ".join(cmd), r.stdout[-6000:])
            os.replace(tmp, out); return None
        seen = {}; todo = []
        for oc in self.cmds:
            if oc[0] not in seen: seen[oc[0]] = 1; todo.append(oc)
        with ThreadPoolExecutor(NCPU) as ex:
            errs = [e for e in ex.map(one, todo) if e]
        if errs: die("build failed:\n" + errs[0])

SIMSRC = ["core", "io", "sync", "runner"]
def sim_objs(job):
    h = tree_hash(VERIF, ["sim"])
    d = os.path.join(BUILD, "sim-" + h); os.makedirs(d, exist_ok=True)
    objs = []
    for f in SIMSRC:
        o = os.path.join(d, f + ".o"); objs.append(o)
        job.add(o, ["g++", "-std=c++17", "-O2", "-g1", "-w", "-U_FORTIFY_SOURCE", "-D_GNU_SOURCE", "-c", os.path.join(VERIF, "sim", f + ".cpp"), "-o", "@OUT@"])
    tso = [os.path.join(d, "tsanrt.o"), os.path.join(d, "tsanlib.o")]
    hpo = [os.path.join(d, "heap.o")]; job.add(hpo[0], ["g++", "-std=c++17", "-O2", "-g1", "-w", "-U_FORTIFY_SOURCE", "-D_GNU_SOURCE", "-fno-builtin", "-c", os.path.join(VERIF, "sim", "heap.cpp"), "-o", "@OUT@"])
    for f in ("tsanrt", "tsanlib"):
        job.add(os.path.join(d, f + ".o"), ["g++", "-std=c++17", "-O2", "-g1", "-w", "-U_FORTIFY_SOURCE", "-D_GNU_SOURCE", "-fno-builtin", "-c", os.path.join(VERIF, "sim", f + ".cpp"), "-o", "@OUT@"])
    return objs, tso, hpo

def make_overlay(var, d):
    """copy of constants.h with other buffer sizes; None if it cannot be derived"""
    src = os.path.join(REPO, "emp-tool/utils/constants.h")
    try: t = open(src).read()
    except OSError: return None
    for name, val in var["overlay"].items():
        t2, n = re.subn(r"(\b%s\s*=\s*)[^;]+;" % name, r"\g<1>%s;" % val, t)
        if n != 1: return None
        t = t2
    o = os.path.join(d, "overlay-" + hashlib.sha256(t.encode()).hexdigest()[:12], "emp-tool/utils")
    os.makedirs(o, exist_ok=True)
    p = os.path.join(o, "constants.h")
    if not os.path.exists(p) or open(p).read() != t: open(p, "w").write(t)
    return os.path.dirname(os.path.dirname(o))

def plan_build(prop, job):
    """returns [(variant, binary)]"""
    spec = PROPS[prop]
    vh = tree_hash(VERIF, ["sim", "scen", "props.py", "check.py"]); rh = tree_hash(REPO, ["emp-tool", "CMakeLists.txt", "cmake"])
    d = os.path.join(BUILD, "bin-" + hashlib.sha256((vh + rh).encode()).hexdigest()[:20]); os.makedirs(d, exist_ok=True)
    objs, tso, hpo = sim_objs(job); out = []; links = []
    gen = []
    if spec.get("aes_txt"):
        src = os.path.join(REPO, "emp-tool/circuits/files/bristol_fashion/aes_128.txt")
        s = os.path.join(d, "aes_txt.s"); o = os.path.join(d, "aes_txt.o")
        if not os.path.exists(s):
            n = "emp_tool_circuits_files_bristol_fashion_aes_128_txt"
            open(s, "w").write('.data\n.globl %s\n%s:\n.incbin "%s"\n1:\n.globl %s_len\n.align 4\n%s_len:\n.long 1b-%s\n.section .note.GNU-stack,"",@progbits\n' % (n, n, src, n, n, n))
        job.add(o, ["g++", "-c", s, "-o", "@OUT@"]); gen.append(o)
    if spec.get("keccak"):   # the permutation circuit of the SHA3 calculator: the checkout's file, or one written here when it has none
        src = os.path.join(REPO, "emp-tool/circuits/files/bristol_fashion/Keccak_f.txt"); s = os.path.join(d, "keccak_txt.s"); o = os.path.join(d, "keccak_txt.o")
        if not os.path.exists(s):
            if not os.path.exists(src):
                src = os.path.join(d, "Keccak_f.txt"); subprocess.run([sys.executable, os.path.join(VERIF, "tools", "keccak.py"), src], check=True)
            n = "emp_tool_circuits_files_bristol_fashion_Keccak_f_txt"
            open(s, "w").write('.data\n.globl %s\n%s:\n.incbin "%s"\n1:\n.globl %s_len\n.align 4\n%s_len:\n.long 1b-%s\n.section .note.GNU-stack,"",@progbits\n' % (n, n, src, n, n, n))
        job.add(o, ["g++", "-c", s, "-o", "@OUT@"]); gen.append(o)
    for var in spec["variants"]:
        inc = []
        if var.get("overlay"):
            ov = make_overlay(var, d)
            if not ov: print("note: variant %s skipped (buffer constants not found)" % var["name"]); continue
            inc = ["-I" + ov]
        flags = BASE_FLAGS + var.get("flags", []) + inc + ["-I" + REPO, "-I" + VERIF, "-DREPO_DIR=\"%s\"" % REPO] + (["-DHAVE_KECCAK"] if spec.get("keccak") else [])
        key = hashlib.sha256(" ".join(flags).encode()).hexdigest()[:10]
        vobjs = []
        for src in var.get("src", spec["src"]):
            p = os.path.join(VERIF, "scen", src); o = os.path.join(d, "%s-%s.o" % (src.replace("/", "_"), key))
            job.add(o, ["g++"] + flags + ["-c", p, "-o", "@OUT@"]); vobjs.append(o)
        for src, xf in var.get("xsrc", []):
            p = os.path.join(VERIF, "scen", src); o = os.path.join(d, "%s-%s-x%s.o" % (src.replace("/", "_"), key, hashlib.sha256(" ".join(xf).encode()).hexdigest()[:6]))
            job.add(o, ["g++"] + flags + xf + ["-c", p, "-o", "@OUT@"]); vobjs.append(o)
        rs = ["emp-tool/emp-tool.cpp"] if spec.get("emp", True) else []
        if spec.get("float"): rs += FLOAT_SRC
        for src in rs:
            p = os.path.join(REPO, src); o = os.path.join(d, "%s-%s.o" % (src.replace("/", "_"), key))
            job.add(o, ["g++"] + flags + ["-c", p, "-o", "@OUT@"]); vobjs.append(o)
        b = os.path.join(d, "%s-%s" % (prop, var["name"]))
        so = objs + (tso if var.get("tsanrt") else []) + (hpo if var.get("heap") else [])
        links.append((b, ["g++", "-o", "@OUT@"] + vobjs + gen + so + var.get("ldflags", []) + ["-static-libstdc++", "-static-libgcc"] + ["-Wl,--wrap=" + w for w in WRAPS + var.get("wraps", [])] + ["-lcrypto", "-lpthread"]))
        out.append((var, b))
    return out, links

def build(prop):
    t = time.time(); os.makedirs(BUILD, exist_ok=True)
    job = Job(); out, links = plan_build(prop, job); job.run()
    l = Job(); [l.add(*x) for x in links]; l.run()
    return out, time.time() - t

def env_run():
    e = dict(os.environ); e["ASAN_OPTIONS"] = "detect_leaks=0:abort_on_error=0:exitcode=77:allocator_may_return_null=1:detect_stack_use_after_return=0:handle_abort=0"; return e

def symbolize(msg, binary):
    """binary+0xOFF -> function (file:line)"""
    def one(m):
        r = sh(["addr2line", "-Cfie", binary, m.group(1)]); l = r.stdout.splitlines()
        return "%s (%s)" % (l[0], os.path.basename(l[1].split(" ")[0])) if r.returncode == 0 and len(l) >= 2 and l[0] != "??" else m.group(0)
    try: return re.sub(r"binary\+(0x[0-9a-f]+)", one, msg)
    except OSError: return msg

def known_findings():
    p = os.path.join(VERIF, "known_findings.json")
    return json.load(open(p)) if os.path.exists(p) else {"known": [], "fixed": []}

def run_variant(prop, var, binary, base, tlimit, count, work):
    procs = []
    for w in range(min(NCPU, 2) if "runs" in var else NCPU):
        out = os.path.join(work, "%s-w%d" % (var["name"], w))
        cmd = [binary, "--base", str(base), "--start", str(w), "--stride", str(min(NCPU, 2) if "runs" in var else NCPU), "--count", str(count), "--time", "%.2f" % tlimit, "--out", out, "--pin", str(w), "--dup", str(var.get("dup", 60))]
        procs.append((out, subprocess.Popen(cmd, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, text=True, env=env_run())))
    res = []; viol = []; errs = []
    for out, p in procs:
        try: _, err = p.communicate(timeout=tlimit + 240)
        except subprocess.TimeoutExpired: p.kill(); err = "worker timed out"; p.communicate()
        if err: errs.append(err.strip()[-600:])
        if os.path.exists(out + ".viol"):
            for line in open(out + ".viol"):
                f = line.rstrip("\n").split("\t")
                if len(f) >= 4: viol.append({"path": f[0], "seed": int(f[1]), "cls": f[2], "msg": f[3], "var": var, "bin": binary})
        if not os.path.exists(out): errs.append("worker left no result (exit %s)" % p.returncode); continue
        r = json.load(open(out)); r["hashes"] = open(out + ".hashes", "rb").read() if os.path.exists(out + ".hashes") else b""
        res.append(r)
    return res, viol, errs

def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop", nargs="?"); ap.add_argument("--tier"); ap.add_argument("--time", type=float); ap.add_argument("--seed", type=int)
    ap.add_argument("--replay"); ap.add_argument("--verbose", action="store_true"); ap.add_argument("--setup", action="store_true"); ap.add_argument("--build", action="store_true")
    ap.add_argument("--only")
    a = ap.parse_args()
    if a.setup:
        os.makedirs(BUILD, exist_ok=True); job = Job(); sim_objs(job); job.run(); print("setup done"); return 0
    prop = a.prop
    if prop not in PROPS: die("unknown property %s" % prop)
    spec = PROPS[prop]
    tier = a.tier or os.environ.get("VERIF_TIER") or "quick"
    seed = a.seed if a.seed is not None else int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    bins, tb = build(prop)
    if a.build: print([b for _, b in bins]); return 0
    if a.replay:
        vn = "".join(l.split(None, 1)[1].strip() for l in open(a.replay) if l.startswith("variant "))
        for var, b in bins:
            if var["name"] == vn or not vn:
                r = subprocess.run([b, "--replay", a.replay] + (["--verbose", "1"] if a.verbose else []), env=env_run()); return 1 if r.returncode == 1 else 0 if r.returncode == 0 else 2
        die("variant %s of the replay file is not built" % vn)
    total = a.time or (spec.get("quick_s", 24) if tier == "quick" else spec.get("thorough_s", 1500))
    work = os.path.join(BUILD, "work-%s-%d" % (prop, os.getpid())); shutil.rmtree(work, ignore_errors=True); os.makedirs(work)
    os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
    base = int.from_bytes(hashlib.sha256(("%d/%s" % (seed, prop)).encode()).digest()[:7], "big")
    known = [k for k in known_findings()["known"] if k["property"] == prop]
    stats = []; viols = []; errs = []
    shares = sum(v.get("share", 1) for v, _ in bins)
    try:
        for var, b in bins:
            if a.only and var["name"] != a.only: continue
            if "runs" in var and a.time and a.time < 15 and not a.only: continue   # a short manual run
            vb = (base + int.from_bytes(hashlib.sha256(var["name"].encode()).digest()[:4], "big")) & ((1 << 62) - 1)
            tl = total * var.get("share", 1) / shares; cnt = 10**9
            if "runs" in var: tl = 120; cnt = var["runs"] * (1 if tier == "quick" else 12)   # few, large runs
            res, vi, er = run_variant(prop, var, b, vb, tl, cnt, work)
            stats.append((var, res)); viols += vi; errs += er
            if [v for v in vi if not any(re.search(k["class"], v["cls"] + " " + v["msg"]) for k in known)]: break
        rc = 0; reported = []; seen_known = set(); nonrepro = 0
        bycls = {}
        for v in viols:
            k = next((k for k in known if re.search(k["class"], v["cls"] + " " + v["msg"])), None)
            if k: seen_known.add(k["what"]); continue
            bycls.setdefault(v["cls"], []).append(v)
        for k in known: print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
        for cls, vs in sorted(bycls.items(), key=lambda kv: -len(kv[1]))[:3]:
            if reported: break
            for v in vs[:3]:
                dst = os.path.join(VERIF, "replays", "%s-%s-%d.replay" % (prop, v["var"]["name"], v["seed"] % 10**12))
                if cls in ("no-termination",): r = None
                else: r = sh([v["bin"], "--shrink", v["path"], "--out", dst, "--budget", "25" if tier == "quick" else "90"], env=env_run())
                if r is None or r.returncode != 0:
                    if r: print("note: minimisation failed: " + r.stdout[-300:].strip())
                    shutil.copy(v["path"], dst)
                txt = open(dst).read(); txt = txt.replace("property %s\n" % prop, "property %s\nvariant %s\n" % (prop, v["var"]["name"]), 1); open(dst, "w").write(txt)
                g = [sh([v["bin"], "--replay", dst], env=env_run()) for _ in range(2)]   # fresh processes
                if all(x.returncode == 1 for x in g):
                    msg = "".join(l for l in txt.splitlines(True) if l.startswith("message "))[8:].strip(); msg = symbolize(msg, v["bin"])
                    print("violation class=%s seed=%d variant=%s: %s" % (cls, v["seed"], v["var"]["name"], msg))
                    print("VIOLATION property=%s replay=%s" % (prop, dst), flush=True)
                    reported.append({"class": cls, "seed": v["seed"], "variant": v["var"]["name"], "message": msg, "replay": dst}); rc = 1; break
                else:
                    nonrepro += 1; print("note: violation %s (seed %d) did not replay exactly: %s" % (cls, v["seed"], g[0].stdout[:300].strip()))
        if bycls and not reported: rc = 2
        evidence(prop, spec, tier, seed, stats, reported, nonrepro, time.time() - t0, tb, errs, total)
        for e in errs[:3]: print("note: " + e)
        tot = sum(r["runs"] for _, rs in stats for r in rs)
        if tot == 0: die("no simulated run completed: " + "; ".join(errs[:2]))
        print("%s tier=%s seed=%d: %d simulated runs, %d skipped, %d violations reported, build %.1fs, total %.1fs" % (prop, tier, seed, tot, sum(r["skips"] for _, rs in stats for r in rs), len(reported), tb, time.time() - t0))
        return rc
    finally:
        shutil.rmtree(work, ignore_errors=True)

def evidence(prop, spec, tier, seed, stats, reported, nonrepro, wall, tb, errs, total):
    A = lambda k: sum(r[k] for _, rs in stats for r in rs)
    probes = {}; hs = set(); ss = set(); samples = []; per = {}; skip = {}
    for var, rs in stats:
        per[var["name"]] = {"runs": sum(r["runs"] for r in rs), "what": var.get("what", "")}
        for r in rs:
            for k, n in r["probes"].items(): probes[k] = probes.get(k, 0) + n
            for k, n in r["skipwhy"].items(): skip[k] = skip.get(k, 0) + n
            b = r["hashes"]
            for i in range(0, len(b) - 15, 16):
                t, s = struct.unpack_from("<QQ", b, i); hs.add(t); ss.add(s)
            samples += ["%s: %s" % (var["name"], s) for s in r["samples"]]
    sw = max((r["wall"] for _, rs in stats for r in rs), default=1) * max(1, len(stats)) or 1
    faults = {k[6:]: n for k, n in sorted(probes.items()) if k.startswith("fault:")}
    runs = A("runs")
    ev = {"property": prop, "tier": tier, "seed": seed, "level": "exploration", "wall_s": round(wall, 2), "violations": len(reported),
      "coverage": {"evaluations": runs, "distinct_nontrivial": len(hs),
        "rule": spec["rule"] + " One evaluation is one simulated run; distinct = different hash of the complete event trace (scheduling decisions, deliveries, system-call results); non-trivial as stated.",
        "samples": samples[:6] or ["(none)"],
        "runs_per_hour": int(runs * 3600 / max(0.1, sum(max((r["wall"] for r in rs), default=0) for _, rs in stats))),
        "seeds": runs, "simulated_seconds": round(A("vtime"), 3), "scheduler_steps": A("steps"), "context_switches": A("switches"),
        "distinct_schedules": len(ss), "distinct_schedules_measure": "distinct hashes of the sequence of contested scheduling decisions of a run",
        "faults_injected": faults or {"none": 0}, "reach_probes": {k: n for k, n in sorted(probes.items()) if not k.startswith("fault:")},
        "skipped_runs": A("skips"), "skip_reasons": skip, "determinism_reruns": A("dups") * 2, "determinism_mismatches": A("dupbad"), "variants": per,
        "components_real": spec["real"], "components_stubbed": spec["stub"], "violations_not_reproduced": nonrepro, "reported": reported, "build_s": round(tb, 1)},
      "assumptions": spec["assume"]}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(VERIF, "evidence", prop + ".json"), "w"), indent=1)

if __name__ == "__main__":
    sys.exit(main())
