"""Seeded search over simulated executions, with minimisation, replay and evidence.

A check module provides a class with
  ID, TARGET, MAXRANKS, LEVEL, RULE, REAL, STUB, ASSUME
  gen(rng, i, tier) -> scenario   (plain JSON; a pure function of the random stream)
  run(scn, ctx)     -> None | {"class":..., "detail":...}      (the oracle)
  shrink(scn)       -> simpler scenarios (optional)
A scenario is executed in one or more simulated runs: ctx.sim(job, prepare).
"""
import os, sys, json, time, random, shutil, tempfile, hashlib, signal, traceback, multiprocessing as mp

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path[:0] = [os.path.join(VERIF, "sim")]
import simrun, build as simbuild

ENTRY = "_Z16espreso_app_mainiPPc"

def subseed(*a):
    return int.from_bytes(hashlib.sha256(repr(a).encode()).digest()[:7], "big")

class Infra(Exception):
    """the machinery, not the code under test, failed"""

class Ctx:
    """runs simulated executions of one scenario and accumulates what they covered"""
    def __init__(self, server, root, scripts=None, journal=False):
        self.server, self.root, self.scripts, self.journal = server, root, scripts, journal
        self.k = 0
        self.results, self.journals, self.cover = [], [], []
        self.trivial = True
    def sim(self, job, prepare=None, name=None, keep=False):
        d = os.path.join(self.root, name or "r%d" % self.k)
        if not keep:         # otherwise the previous run of the scenario left its files there
            shutil.rmtree(d, ignore_errors=True)
            os.makedirs(d)
        if prepare:
            prepare(d)
        job = dict(job)
        if self.scripts is not None:
            job["script"] = self.scripts[self.k] if self.k < len(self.scripts) else []
        if self.journal:
            job["journal"] = True
        job.setdefault("cpu", 60)
        self.k += 1
        res = self.server.run(job, d)
        if "infra" in res:
            sig = res["infra"]
            if "done 10" in sig:       # the process died of a signal outside of the simulator's handler
                res = {"fail": {"class": "crash", "detail": "the process was killed by a signal: " + sig}, "ranks": [], "steps": 0, "hash": "dead", "fired": {}, "asked": {}, "dead": True, "probe": {}, "notes": []}
            else:
                self.server.stop()
                raise Infra(sig)
        res["dir"] = d
        res["out"] = slurp(d + "/out.log")
        res["err"] = slurp(d + "/err.log")
        self.journals.append(res.get("journal") or [])
        self.results.append(res)
        return res
    def hash(self):
        return "/".join(str(r["hash"]) for r in self.results)

def slurp(p):
    try:
        return open(p, errors="replace").read()
    except OSError:
        return ""

def job(scn, **kw):
    j = dict(scn["job"])
    j.setdefault("entry", ENTRY)
    j.update(kw)
    return j

def schedule(rng, ranks, threads, intensity=None, os_noise=True):
    """a random profile of the simulator's decisions (swarm style: kinds are switched on and off)"""
    t = rng.choice([0, 1, 1, 2, 2, 3]) if intensity is None else intensity
    p = {}
    if t:
        lv = {1: [0.02, 0.1], 2: [0.1, 0.3, 0.5], 3: [0.5, 0.8, 1.0]}[t]
        def on(k, pr, *vals):
            if rng.random() < pr:
                p[k] = rng.choice(vals or lv)
        on("sched", 0.9)
        on("rdv", 0.6, 0.3, 0.7, 1.0)
        on("delay", 0.5)
        on("collsync", 0.5, 0.3, 1.0)
        on("stall", 0.25, 0.002, 0.02)
        on("iprobe", 0.3)
        if threads > 1:
            on("omporder", 0.7, 0.3, 1.0)
        if os_noise:
            on("poison", 0.7, 1.0)
            on("clock", 0.15, 0.05)
    return p

def abnormal(res, ok_exit=False):
    """a violation for every run that does not end by a normal return of all ranks"""
    if res["fail"]:
        return {"class": res["fail"]["class"], "detail": res["fail"]["detail"]}
    bad = [r for r in res["ranks"] if r["state"] != "returned" or r["code"]]
    bad.sort(key=lambda r: r["state"] == "killed")
    if bad and not ok_exit:
        msg = [l.strip() for l in (res["err"] + res["out"]).split("\n") if "rror" in l or "ERROR" in l or "quit" in l]
        return {"class": "exit", "detail": "rank %d %s with code %d: %s" % (res["ranks"].index(bad[0]), bad[0]["state"], bad[0]["code"], "; ".join(msg[-3:])[:300])}
    return None

# ---------------------------------------------------------------------------
_chk = None
_server = None
_root = None

def _winit(modname, clsname, so, exe, root):
    global _chk, _server, _root
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    _chk = load(modname, clsname)
    _root = tempfile.mkdtemp(prefix="w", dir=root)
    _server = make_server(exe, so, _chk.MAXRANKS, _root)

def execute(chk, server, root, scn, scripts=None, journal=False):
    """-> (violation|None, ctx)"""
    for attempt in (0, 1):
        ctx = Ctx(server, root, scripts, journal)
        try:
            v = chk.run(scn, ctx)
            return v, ctx
        except Infra as e:
            if attempt:
                raise

def _work(args):
    i, seed, tier = args
    out = {"i": i}
    try:
        rng = random.Random(subseed(_chk.ID, seed, i))
        scn = _chk.gen(rng, i, tier)
        t = time.time()
        v, ctx = execute(_chk, _server, _root, scn)
        out["wall"] = time.time() - t
        out["v"] = v
        if v: out["scn"] = scn
        st = out["st"] = {"runs": len(ctx.results), "steps": 0, "fired": {}, "asked": {}, "msgs": 0, "colls": 0, "regions": 0, "wildchoice": 0, "switches": 0, "ranksteps": 0}
        for r in ctx.results:
            st["steps"] += r.get("steps", 0)
            for k in ("msgs", "colls", "regions", "wildchoice", "switches"):
                st[k] += r.get(k, 0)
            for kk in ("fired", "asked"):
                for k, n in r.get(kk, {}).items():
                    st[kk][k] = st[kk].get(k, 0) + n
            for k, n in r.get("probe", {}).items():
                ctx.cover.append("probe:" + k)
        out["hash"] = ctx.hash()
        out["hashes"] = [str(r["hash"]) for r in ctx.results]
        out["cover"] = sorted(set(ctx.cover))
        out["nontrivial"] = not ctx.trivial
        if i < 3: out["sample"] = scn
    except Exception as e:
        out["infra"] = "".join(traceback.format_exception(e))[-2000:]
        try: _server.stop()
        except Exception: pass
    return out

def load(modname, clsname):
    sys.path[:0] = [HERE]
    m = __import__(modname)
    return getattr(m, clsname)()

def same(a, b):
    return a is not None and b is not None and a["class"] == b["class"]

def minimise(chk, server, root, scn, v, limit):
    """greedy scenario shrinking, then ddmin over the journalled decisions"""
    end = time.time() + limit
    tried = 0
    if hasattr(chk, "shrink"):
        progress = True
        while progress and time.time() < end:
            progress = False
            for s in chk.shrink(scn):
                if time.time() > end: break
                tried += 1
                try:
                    w, _ = execute(chk, server, root, s)
                except Exception:
                    continue
                if same(v, w):
                    scn, progress = s, True
                    break
    w, ctx = execute(chk, server, root, scn, journal=True)
    scripts = [list(map(list, j)) for j in ctx.journals]
    total = sum(map(len, scripts))
    # does the recorded journal alone reproduce it?
    try:
        w, _ = execute(chk, server, root, scn, scripts=scripts)
        scripted = same(v, w)
    except Exception:
        scripted = False
    if not scripted:
        return scn, None, total, total, tried
    flat = [(k, d) for k, s in enumerate(scripts) for d in s]
    def attempt(sub):
        ss = [[] for _ in scripts]
        for k, d in sub: ss[k].append(d)
        try:
            w, _ = execute(chk, server, root, scn, scripts=ss)
        except Exception:
            return False
        return same(v, w)
    n = 2
    if flat and attempt([]):
        flat = []
    while len(flat) >= 1 and time.time() < end:
        size = max(1, len(flat) // n)
        cut = False
        for a in range(0, len(flat), size):
            if time.time() > end: break
            tried += 1
            sub = flat[:a] + flat[a + size:]
            if attempt(sub):
                flat, cut, n = sub, True, max(2, n - 1)
                break
        if not cut:
            if size == 1: break
            n = min(len(flat), 2 * n)
    ss = [[] for _ in scripts]
    for k, d in flat: ss[k].append(d)
    return scn, ss, total, len(flat), tried

def images(chk):
    if isinstance(chk.TARGET, str):
        return simbuild.build(chk.TARGET, getattr(chk, "FLAVOR", "plain"))
    b = {t: simbuild.build(t, getattr(chk, "FLAVOR", "plain")) for t in chk.TARGET}
    return {t: x[0] for t, x in b.items()}, {t: x[1] for t, x in b.items()}

class Servers:
    """one server per target (an application), started on demand"""
    def __init__(self, exe, so, maxranks, root):
        self.s = {t: simrun.Server(exe[t], so[t], maxranks, root) for t in so}
    def run(self, job, d): return self.s[job["args"][0]].run(job, d)
    def stop(self):
        for s in self.s.values(): s.stop()

def make_server(exe, so, maxranks, root):
    return (simrun.Server if isinstance(so, str) else Servers)(exe, so, maxranks, root)

def known(pid):
    out = []
    for l in slurp(os.path.join(VERIF, "known-findings.txt")).split("\n"):
        if l.startswith("known: property=%s " % pid):
            # known: property=<id> key=<key> <text>
            parts = l.split(" ", 3)
            out.append((parts[2][4:], parts[3]))
    return out

def main(modname, clsname, tier, seed, workers=None):
    t0 = time.time()
    chk = load(modname, clsname)
    so, exe = images(chk)
    tb = time.time() - t0
    budget = chk.BUDGET[tier]          # (max scenarios, seconds)
    if os.environ.get("VERIF_BUDGET"):
        budget = (10 ** 9, float(os.environ["VERIF_BUDGET"]))
    root = tempfile.mkdtemp(prefix="espsim", dir=simrun.scratch_root())
    rep = os.path.join(VERIF, "replays")
    code, viol = 0, []
    try:
        workers = workers or int(os.environ.get("SIM_JOBS", os.cpu_count()))
        agg = {"runs": 0, "steps": 0, "fired": {}, "asked": {}, "msgs": 0, "colls": 0, "regions": 0, "wildchoice": 0, "switches": 0}
        n = nontrivial = 0
        hashes, covers, samples, infra = set(), {}, [], []
        ts = time.time()
        knowns = known(chk.ID)
        seenknown = {}
        with mp.Pool(workers, _winit, (modname, clsname, so, exe, root)) as pool:
            def jobs():
                for i in range(budget[0]):
                    if time.time() - ts > budget[1] or len(viol) >= 1 or len(infra) > 20: return
                    yield (i, seed, tier)
            # bounded look-ahead so that the time limit and the first violation stop the search
            it = jobs()
            pending = []
            def feed():
                while len(pending) < workers * 2:
                    a = next(it, None)
                    if a is None: return False
                    pending.append(pool.apply_async(_work, (a,)))
                return True
            feed()
            while pending:
                j = next((k for k, p in enumerate(pending) if p.ready()), None)
                if j is None:
                    pending[0].wait(0.005)
                    continue
                r = pending.pop(j).get()
                if "infra" in r:
                    infra.append(r["infra"])
                else:
                    n += 1
                    for k, x in r["st"].items():
                        if isinstance(x, dict):
                            for kk, nn in x.items(): agg[k][kk] = agg[k].get(kk, 0) + nn
                        elif k in agg: agg[k] += x
                    if r["hash"] not in hashes and r["nontrivial"]: nontrivial += 1
                    hashes.add(r["hash"])
                    for c in r["cover"]: covers[c] = covers.get(c, 0) + 1
                    if "sample" in r: samples.append(r["sample"])
                    if r["v"]:
                        key = r["v"].get("key")
                        hit = [k for k in knowns if key and k[0] == key]
                        if hit: seenknown[hit[0]] = r["i"]
                        else: viol.append(r)
                feed()
        searched = time.time() - ts
        for k, i in seenknown.items():
            print("KNOWN-FINDING: property=%s %s (seed %d, scenario %d)" % (chk.ID, k[1], seed, i))
        final = []
        if viol:
            viol.sort(key=lambda r: r["i"])
            final = confirm(chk, modname, clsname, so, exe, root, rep, viol[:4], seed, tier)
            if not any(final):
                print("ERROR: a violation did not reproduce, see above")
                code = 2
            for f in final:
                if f:
                    code = 1 if code == 0 else code
        if infra:
            print("ERROR: %d scenario(s) could not be executed: %s" % (len(infra), infra[0]))
            if code == 0: code = 2
        if n == 0 and code == 0:
            code = 2
        ev = {"property": chk.ID, "tier": tier, "seed": seed, "level": chk.LEVEL, "wall_s": round(time.time() - t0, 1),
              "violations": len([f for f in final if f]), "assumptions": chk.ASSUME,
              "coverage": {
                  "evaluations": n, "distinct_nontrivial": nontrivial, "rule": chk.RULE, "samples": samples[:3],
                  "simulated_runs": agg["runs"], "simulated_runs_per_hour": int(agg["runs"] / max(searched, 1e-3) * 3600),
                  "seeds_per_hour": int(n / max(searched, 1e-3) * 3600), "simulated_time_s": round(agg["steps"] * 1e-6, 6),
                  "simulated_time_note": "one scheduler step advances the simulated clock by 1 us (plus injected clock jumps)",
                  "decisions_asked": agg["asked"], "faults_injected": {k: v for k, v in agg["fired"].items()},
                  "distinct_interleavings": len(hashes), "distinct_interleavings_measure": "hash of the whole sequence of scheduler steps, message matches and injected faults of a scenario",
                  "messages": agg["msgs"], "collectives": agg["colls"], "omp_regions": agg["regions"], "wildcard_choices": agg["wildchoice"], "context_switches": agg["switches"],
                  "reached": dict(sorted(covers.items())),
                  "real": chk.REAL, "stub": chk.STUB, "build_s": round(tb, 1), "search_s": round(searched, 1)}}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        tmp = os.path.join(VERIF, "evidence", ".%s.tmp" % chk.ID)
        json.dump(ev, open(tmp, "w"), indent=1)
        os.rename(tmp, os.path.join(VERIF, "evidence", chk.ID + ".json"))
        print("%s tier=%s seed=%d scenarios=%d nontrivial=%d runs=%d distinct=%d build=%.0fs search=%.0fs -> %s" % (
            chk.ID, tier, seed, n, nontrivial, agg["runs"], len(hashes), tb, searched, {0: "held", 1: "VIOLATED"}.get(code, "ERROR")))
    finally:
        shutil.rmtree(root, ignore_errors=True)
    return code

def confirm(chk, modname, clsname, so, exe, root, rep, viol, seed, tier):
    """same scenario twice, minimise, replay the file in a fresh process: only then it is a violation"""
    import subprocess
    out = []
    d = tempfile.mkdtemp(prefix="c", dir=root)
    server = make_server(exe, so, chk.MAXRANKS, d)
    for r in viol:
        scn, v = r["scn"], r["v"]
        v1, c1 = execute(chk, server, d, scn)
        dead = any(x.get("dead") for x in c1.results)
        if v1 is None:
            print("ERROR: scenario %d of seed %d is not repeatable: %r (%s) then %r (%s)" % (r["i"], seed, v, r["hash"], v1, c1.hash()))
            out.append(None); continue
        if not same(v, v1) or (c1.hash() != r["hash"] and not dead):
            # e.g. the code under test branches on uninitialised memory or addresses; it is violated in all executions, though
            print("note: executions of scenario %d of seed %d differ (the code depends on something outside of the simulator): %r then %r" % (r["i"], seed, v, v1))
            v = v1
        s2, scripts, total, left, tried = minimise(chk, server, d, scn, v, 40 if tier == "quick" else 300)
        w, c = execute(chk, server, d, s2, scripts=scripts)
        if w is None:
            s2, scripts, w, c = scn, None, v1, c1
        os.makedirs(rep, exist_ok=True)
        f = os.path.join(rep, "%s-seed%d-%d.json" % (chk.ID, seed, r["i"]))
        json.dump({"property": chk.ID, "module": modname, "class": clsname, "seed": seed, "scenario_index": r["i"], "scenario": s2, "decisions": scripts,
                   "decision_format": "[kind, a, b, value] per simulated run; kinds: " + ",".join(simrun.KINDS),
                   "decisions_recorded": total, "decisions_minimised": left, "executions_for_minimisation": tried,
                   "violation": w, "original_violation": v, "hash": c.hash()}, open(f, "w"), indent=1)
        p = subprocess.run([sys.executable, os.path.join(HERE, "run.py"), "replay", f], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if p.returncode != 1:
            print("ERROR: replay of %s did not reproduce:\n%s" % (f, p.stdout[-1500:]))
            out.append(None); continue
        print("violation: %s: %s" % (w["class"], w["detail"]))
        print("scenario %d of seed %d, %d of %d decisions are necessary" % (r["i"], seed, left, total))
        print("VIOLATION property=%s replay=%s" % (chk.ID, f))
        out.append(f)
        break
    server.stop()
    return out

def replay(path):
    r = json.load(open(path))
    chk = load(r["module"], r["class"])
    so, exe = images(chk)
    root = tempfile.mkdtemp(prefix="espsim", dir=simrun.scratch_root())
    try:
        server = make_server(exe, so, chk.MAXRANKS, root)
        v, ctx = execute(chk, server, root, r["scenario"], scripts=r["decisions"])
        server.stop()
        if v is None:
            print("replay: no violation"); return 0
        print("replay: %s: %s" % (v["class"], v["detail"]))
        if ctx.hash() != r["hash"] and "dead" not in r["hash"]:
            print("replay: note: the execution differs: %s instead of %s" % (ctx.hash(), r["hash"]))
        if not same(v, r["violation"]):
            print("replay: note: a different violation")
        print("VIOLATION property=%s replay=%s" % (r["property"], path))
        return 1
    finally:
        shutil.rmtree(root, ignore_errors=True)
