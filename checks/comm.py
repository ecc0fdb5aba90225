"""C01: data exchange among processes against a reference model (driver: sim/lib/comm.cpp)."""
import re, copy
import framework as F
from imports import STUB

OPS = 30
class C01:
    ID, TARGET, MAXRANKS, LEVEL = "C01", "mesio", 13, "exploration"
    BUDGET = {"quick": (6000, 40), "thorough": (10**9, 1200)}
    REAL = ["wrappers/mpi: MPITools, MPIGroup, MPISubset, all operations of Communication", "logging and profiling called by them"]
    STUB = STUB + ["the application: a driver that executes random programs of the operations"]
    ASSUME = ["arguments are valid: symmetric and sorted neighbours, known sizes agree, distinct targets, messages below 1 GB"]
    RULE = "scenario = random program of 20-120 operations on random groups, types and sizes x number of processes x schedule and fault profile; non-trivial = more than one process and the interleaving was new"
    def gen(self, rng, i, tier):
        ranks = rng.choice([1, 2, 3, 4, 5, 6, 7, 8, 9, 11, 13])
        mask = (1 << OPS) - 1 if rng.random() < .5 else sum(1 << o for o in rng.sample(range(OPS), rng.randint(1, 4)))
        return {"ops": rng.choice([20, 60, 120]), "mask": mask, "pseed": rng.getrandbits(40), "limit": rng.randint(1, ranks),
                "job": {"seed": rng.getrandbits(31), "ranks": ranks, "threads": 1, "ppn": rng.choice([1, 2, 3, 64]), "entry": "sim_comm", "p": F.schedule(rng, ranks, 1), "maxsteps": 5000000}}
    def run(self, s, ctx):
        res = ctx.sim(F.job(s, args=["comm", str(s["pseed"]), str(s["ops"]), str(s["limit"]), "%x" % s["mask"]]))
        m = re.search(r"COMM-WRONG op=\d+ (.*)", res["out"])
        if m: return {"class": "wrong-data", "detail": m.group(1)}
        v = F.abnormal(res)
        if v: return v
        if res["out"].count("COMM-DONE") != s["job"]["ranks"]: return {"class": "incomplete", "detail": "not all processes finished the program"}
        ctx.trivial = s["job"]["ranks"] == 1
        ctx.cover += ["ranks:%d" % s["job"]["ranks"]] + (["all-operations"] if s["mask"] == (1 << OPS) - 1 else ["op:%d" % o for o in range(OPS) if s["mask"] >> o & 1])
        return None
    def shrink(self, s):
        def alt(**kw):
            t = copy.deepcopy(s)
            for a, x in kw.items(): (t["job"] if a in t["job"] else t)[a] = x
            t["limit"] = min(t["limit"], t["job"]["ranks"])
            return t
        j = s["job"]
        if j["p"]: yield alt(p={})
        for n in (1, 2, 4, 8, 16, 32, 64):
            if n < s["ops"]: yield alt(ops=n)
        for r in range(1, j["ranks"]): yield alt(ranks=r)
        if j["ppn"] != 64: yield alt(ppn=64)
