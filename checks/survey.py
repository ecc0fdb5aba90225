#!/usr/bin/env python3
"""Development tool: runs scenarios of a check and clusters all violations.  survey.py C10 N [--seed n] [--from i] [key=value ...]"""
import sys, os, re, json, time, collections, tempfile, shutil, multiprocessing as mp
import framework as F
import run

def main():
    a = sys.argv[1:]
    pid, n = a[0], int(a[1])
    seed, lo = 1, 0
    if "--seed" in a: seed = int(a[a.index("--seed") + 1])
    if "--from" in a: lo = int(a[a.index("--from") + 1])
    mod, cls = run.CHECKS[pid], pid
    chk = F.load(mod, cls)
    so, exe = F.images(chk)
    root = tempfile.mkdtemp(prefix="espsim", dir=F.simrun.scratch_root())
    t = time.time()
    cl = collections.OrderedDict(); cov = collections.Counter(); walls = []
    with mp.Pool(8, F._winit, (mod, cls, so, exe, root)) as pool:
        for r in pool.imap_unordered(F._work, [(i, seed, "quick") for i in range(lo, lo + n)], 1):
            if "infra" in r:
                cl.setdefault("INFRA", []).append((r["i"], r["infra"][-600:], None)); continue
            walls.append(r["wall"])
            for c in r["cover"]: cov[c] += 1
            if r["v"]:
                k = ("KEY", r["v"]["key"]) if r["v"].get("key") else (r["v"]["class"], re.sub(r"[0-9.e\-]+", "#", r["v"]["detail"])[:80])
                cl.setdefault(k, []).append((r["i"], r["v"]["detail"], r["scn"]))
    shutil.rmtree(root, ignore_errors=True)
    print(n, "scenarios", "%.1f s" % (time.time() - t), "wall mean %.3f max %.2f" % (sum(walls) / max(1, len(walls)), max(walls or [0])))
    for k, v in sorted(cl.items(), key=lambda x: -len(x[1])):
        print("####", len(v), k)
        for x in v[:2]:
            print("   ", x[0], x[1][:300])
        com = None
        for x in v:      # values common to all failures of the cluster
            if x[2] is None: continue
            f = {kk: json.dumps(vv) for kk, vv in list(x[2].items()) + list(x[2]["job"].items()) if kk != "job"}
            com = f if com is None else {kk: vv for kk, vv in com.items() if f.get(kk) == vv}
        if com and len(v) > 1: print("    common:", {k: v for k, v in com.items() if len(v) < 60})
        if "--all" in a:
            for x in v: print("    scn:", x[0], {k: v for k, v in x[2].items() if k not in ("coef",)} if x[2] else "")
        elif com and len(v) == 1: print("    scn:", {k: v for k, v in com.items() if len(v) < 90})
    if "--cover" in a:
        for k, v in sorted(cov.items()): print("   ", v, k)
main()
