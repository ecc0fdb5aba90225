"""C13: results of finished substeps survive a crash of the application.

Each scenario of C12/C07 is executed twice with the same seed: undisturbed, and with one process killed at a random point. Both
executions are the same until the crash, hence files of all substeps that were finished before the crash have to be the same."""
import os, re, glob, copy
import framework as F
import history, imports

INNER = {"C12": history.C12(), "C07": history.C07()}

class C13:
    ID, TARGET, MAXRANKS, LEVEL = "C13", "espreso", 6, "exploration"
    BUDGET = {"quick": (1000, 60), "thorough": (10**9, 1200)}
    REAL, STUB = history.REAL, history.STUB
    ASSUME = ["a killed process loses its memory (also buffers of stdio), written data survive; the launcher kills the other processes"]
    RULE = "scenario = history of C12/C07 x killed process x point of its execution; non-trivial = the process was killed when at least one substep was finished, and the interleaving was new"
    def gen(self, rng, i, tier):
        inner = rng.choice(["C12", "C12", "C07"])
        while True:
            s = INNER[inner].gen(rng, i, tier)
            if s["kind"] != "strain" and sum(t.get("n", 1) for t in s["steps"]) >= 2: break
        s.update(inner=inner, victim=rng.randrange(s["job"]["ranks"]), at=rng.choice([rng.random(), 1 - rng.random() ** 2 / 2]))
        return s

    def run(self, s, ctx):
        chk = INNER[s["inner"]]
        m, r = chk.mesh(s)
        j = s["job"]
        if len(m.elements) < history.PER_RANK * j["ranks"]: return None
        reg = chk.regions(m)
        mon = chk.monitors(s, reg)
        path = []
        def prepare(d):
            import random, formats
            p = formats.write_ensight(m, d + "/in", random.Random(s["mseed"]))
            open(d + "/espreso.ecf", "w").write(chk.ecf(s, p.replace(d + "/", ""), mon)[0])
        a = ctx.sim(F.job(s), prepare)
        if F.abnormal(a): ctx.cover.append("undisturbed run failed"); return None
        b = ctx.sim(F.job(s, crashrank=s["victim"], crashstep=1 + int(s["at"] * a["ranks"][s["victim"]]["lsteps"])), prepare)
        if b["fail"]: return {"class": b["fail"]["class"], "detail": "after a crash: " + b["fail"]["detail"]}
        if not any(x["state"] == "crashed" for x in b["ranks"]): ctx.cover.append("not crashed"); return None
        return self.oracle(s, ctx, chk, m, a["dir"] + "/results/last/", b["dir"] + "/results/last/", b["out"])

    def oracle(self, s, ctx, chk, m, A, B, log):
        rows = chk.history(s)
        ends = {x[0]: x[1] for x in rows}
        stored = lambda freq, nth: [i for i, x in enumerate(rows) if freq == "EVERY_SUBSTEP" or freq == "EVERY_NTH_SUBSTEP" and x[1] % nth == 0 or freq == "LAST_SUBSTEP" and ends[x[0]] == x[1]]
        res, mons = stored(s["rfreq"], s["rnth"]), stored(s["mfreq"], s["mnth"])
        read = lambda f: open(f, "rb").read() if os.path.exists(f) else None
        # files of each stored substep
        files = []
        for k, i in enumerate(res):
            pat = "*.%04d" % (k + 1) if s["fmt"] == "ENSIGHT" else "*.%f.vtk" % rows[i][2]
            files.append((i, sorted(os.path.relpath(f, A) for f in glob.glob(A + "PREPOSTDATA/" + pat))))
        lines = lambda d: [l for f in glob.glob(d + "*.emr") for l in read(f).decode(errors="replace").split("\n")]
        la, lb = lines(A), lines(B)
        nb = len(lb) - 1 if lb else 0        # the last one is not complete
        if lb[:nb] != la[:nb] or lb and not la[nb].startswith(lb[nb]): return {"class": "crash-corrupted", "detail": "monitors differ from the undisturbed run: %r" % [x for x, y in zip(lb, la) if x != y][:1]}
        # how far was the analysis: a substep is finished if the next one was announced in the log or stored
        head = 4
        sync = s["mode"] == "SYNC"
        last = max([i for i, fs in files if any(os.path.exists(B + f) for f in fs)] + ([mons[k] for k in range(len(mons)) if nb > head + k] if sync else []) + [0])
        if sync:
            for x in re.findall(r"LOAD STEP\s+(\d+), SUBSTEP\s+(\d+)", log):
                last = max([last] + [i for i, y in enumerate(rows) if y[:2] == (int(x[0]), int(x[1]))])
        ctx.trivial = last == 0
        ctx.cover += ["kind:" + s["kind"], "fmt:" + s["fmt"], "mode:" + s["mode"], "ranks:%d" % s["job"]["ranks"], "finished:%d" % min(last, 5), "rank0" if s["victim"] == 0 else "rank>0"]
        for i, fs in files:
            for f in fs:
                x, y = read(A + f), read(B + f)
                if i < last and x != y: return {"class": "crash-lost-results", "detail": "load step %d, substep %d was finished before the crash, %s is %s" % (rows[i][0], rows[i][1], f, "missing" if y is None else "incomplete (%d of %d bytes)" % (len(y), len(x)))}
                if y is not None and len(y) > len(x): return {"class": "crash-corrupted", "detail": "%s has %d bytes instead of %d" % (f, len(y), len(x))}
        for k, i in enumerate(mons):
            if sync and i < last and nb <= head + k: return {"class": "crash-lost-monitors", "detail": "load step %d, substep %d was finished before the crash, its monitors are not stored" % rows[i][:2]}
        geo = [os.path.relpath(f, A) for f in glob.glob(A + "*.geo")]
        if last and geo and read(A + geo[0]) != read(B + geo[0]): return {"class": "crash-lost-results", "detail": "geometry is not complete"}
        return None

    def shrink(self, s):
        for t in INNER[s["inner"]].shrink(s):
            t["victim"] = min(t["victim"], t["job"]["ranks"] - 1)
            yield t
