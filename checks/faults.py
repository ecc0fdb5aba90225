"""C08: a failed input or output operation is never turned into a wrong result.

Scenarios of other checks (imports, stored databases, histories of analyses) are executed with injected I/O faults. Legal
outcomes: everything is right as without the fault, or the application ends with an error message and a non-zero code."""
import copy
import framework as F
import imports, outputs, history

INNER = {"C03": imports.C03(), "C04": imports.C04(), "C05": imports.C05(), "C06": outputs.C06(), "C12": history.C12(), "C07": history.C07()}
KINDS = ("open", "read", "write", "close", "mkdir")

class C08:
    ID, TARGET, MAXRANKS, LEVEL = "C08", ("mesio", "espreso"), 6, "exploration"
    BUDGET = {"quick": (2500, 70), "thorough": (10**9, 1500)}
    REAL = history.REAL + imports.REAL
    STUB = imports.STUB
    ASSUME = ["a failed operation is reported to the caller by MPI-IO, stdio or the system call (no silent corruption by the storage)", "inputs are valid and have at least 24 elements per process"]
    RULE = "scenario = scenario of the checks C03-C07, C12 with random I/O faults (failed open, read, write, close, mkdir, short and torn transfers, full disk), restricted to random files; non-trivial = a fault was injected and the interleaving was new"
    def gen(self, rng, i, tier):
        inner = rng.choice(["C03", "C04", "C05", "C06", "C06", "C12", "C12", "C07"])
        s = INNER[inner].gen(rng, i, tier)
        s["inner"] = inner
        j = s["job"]
        if rng.random() < .5: j["p"] = {}
        what = rng.choice(["mix", "open", "read", "read", "write", "write", "write", "close", "mkdir", "quota"])
        lv = rng.choice([.01, .05, .2, 1.])
        if what == "quota": j["quota"] = rng.choice([0, 10, 500, rng.randint(0, 5000), rng.randint(0, 50000), rng.randint(0, 200000)])
        else: j["p"].update({k: lv for k in (KINDS if what == "mix" else [what])})
        if what != "quota" and rng.random() < .6:
            j["ioonly"] = rng.choice([[".case"], [".emr"], [".geo"], ["PREPOSTDATA"], ["/in"], ["in."], ["espreso.ecf"], ["results"], [".vtk"], [".stl", ".mesh"]])
        return s

    def run(self, s, ctx):
        v = INNER[s["inner"]].run(s, ctx)
        res = ctx.results[-1] if ctx.results else None
        if res is None: return v
        fired = [k for k in KINDS if res.get("fired", {}).get(k)] + (["disk-full"] if res.get("probe", {}).get("disk_full") else [])
        ctx.trivial = not fired
        ctx.cover = [c for c in ctx.cover if c.startswith(("fmt", "loader", "writer"))] + ["inner:" + s["inner"]] + ["fault:" + k for k in fired]
        if v is None:
            if fired: ctx.cover.append("harmless:" + s["inner"])
            return None
        if v.get("key"): return None          # a known finding of another property
        if v["class"] == "exit" and fired:
            text = res["err"] + res["out"]
            if "rror" in text or "ERROR" in text or "annot" in text:
                ctx.cover += ["reported:" + k for k in fired]
                return None
            return {"class": "silent-exit", "detail": "a failure is not described: " + v["detail"]}
        return {"class": v["class"], "detail": "%s, injected %s: %s" % (s["inner"], "+".join(fired) or "nothing", v["detail"])}

    def shrink(self, s):
        def alt(**kw):
            t = copy.deepcopy(s)
            for a, x in kw.items(): t["job"][a] = x
            return t
        p = s["job"]["p"]
        if set(p) - set(KINDS): yield alt(p={k: x for k, x in p.items() if k in KINDS})
        for k in KINDS:
            if k in p: yield alt(p={x: y for x, y in p.items() if x != k})
        if s["job"].get("ioonly") is None:
            for f in (".case", ".emr", ".geo", "PREPOSTDATA", "/in", "in.", "espreso.ecf", ".vtk"): yield alt(ioonly=[f])
        for t in INNER[s["inner"]].shrink(s):
            if t["job"]["p"] or not p: yield t
