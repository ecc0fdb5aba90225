"""C03-C05: every element, node and region of an external database survives the parallel import.

Oracle: the generated mesh itself (the database files are written by an independent writer), compared
with the database that the application converts it to (read by an independent reader).
"""
import os, glob, random
import framework as F, meshgen, formats

REAL = ["mesio application: ECF configuration, parallel readers (loaders, chunking, alignment, scanners, parsers), mesh builder (clustering, linking, regions), mesh preprocessing, EnSight writer",
        "METIS and ParMETIS libraries"]
STUB = ["MPI library: simulated (matching, eager/rendezvous, collectives, MPI-IO)", "OpenMP runtime and pthreads: simulated scheduler in one thread", "operating system calls (files, clock, host names): simulated on a scratch directory"]

PER_RANK = 24

def size_for(rng, ranks):
    while True:
        z = [rng.randint(1, 7), rng.randint(1, 6), rng.randint(1, 5)]
        n = z[0] * z[1] * z[2]
        if n >= PER_RANK * ranks or (rng.random() < .1 and 2 * n >= PER_RANK * ranks):
            return z

class Import:
    TARGET, MAXRANKS, LEVEL = "mesio", 6, "exploration"
    BUDGET = {"quick": (2600, 45), "thorough": (10**9, 1500)}
    REAL, STUB = REAL, STUB
    ASSUME = ["databases are valid for their format; at least 24 volume elements per process (smaller inputs may be refused with an error message)",
              "coordinates are representable exactly in the textual and single precision form of the databases"]
    RULE = "scenario = random mesh (element kinds, order, ids, regions) written to a random variant of the format, with random number of processes, threads, nodes, readers, loader, stripe, chunk size, decomposer and schedule/fault profile; non-trivial = the import was accepted, ran on >1 process or >1 thread, and the interleaving was new"
    FORMATS = ()

    def gen(self, rng, i, tier):
        fmt = rng.choice(self.FORMATS)
        ranks, threads = rng.choice([1, 2, 3, 4, 5, 6]), rng.choice([1, 1, 2, 3, 4])
        s = {"fmt": fmt, "mseed": rng.getrandbits(40), "quadratic": rng.random() < .3,
             "size": size_for(rng, ranks),
             "loader": rng.choice(["MPI", "MPI_COLLECTIVE", "POSIX"]), "stripe": rng.choice([1024, 1200, 1777, 2048, 4096, 65536, 1048576]),
             "readers": rng.choice([ranks, ranks, rng.randint(1, ranks)]), "decomposer": rng.choice(["NONE", "HILBERT_CURVE", "METIS", "PARMETIS"]),
             "crlf": rng.random() < .25, "ids": rng.choice(["contiguous", "sparse"]), "given": rng.random() < .3}
        s["job"] = {"seed": rng.getrandbits(31), "ranks": ranks, "threads": threads, "ppn": rng.choice([1, 2, 4, 64]), "args": ["mesio", "-c", "espreso.ecf"],
                    "p": F.schedule(rng, ranks, threads), "maxsteps": 20000000, "env": {"ESPRESO_SIM_MINCHUNK": str(rng.choice([1, 1024, 1500, 3000, 70000]))}}
        return s

    def write(self, s, d):
        r = random.Random(s["mseed"])
        f, q, size = s["fmt"], s["quadratic"], s["size"]
        if f == "VTK":
            m = meshgen.build(r, quadratic=q, partition=True, size=size)
            return m, formats.write_vtk(m, d + "/in", r), formats.canonical(m), "VTK_LEGACY"
        if f in ("ENS", "ENSA"):
            m = meshgen.build(r, quadratic=q, partition=True, size=size, unit=8.0 if f == "ENSA" else 64.0)
            return m, formats.write_ensight(m, d + "/in", r, ascii=f == "ENSA", ids=False), formats.canonical(m), "ENSIGHT"
        if f == "NET":
            m = meshgen.build(r, kinds=["tetra"], nbreg=(1, 3), nnreg=(0, 0), partition=True, size=size)
            return m, formats.write_netgen(m, d + "/in", r), formats.netgen_truth(m), "NETGEN"
        if f == "NEP":
            m = meshgen.build(r, kinds=["tetra", "hex", "prism"], quadratic=q, nnreg=(1, 3), partition=True, ids=s["ids"], size=size)
            return m, formats.write_neper(m, d + "/in", r), formats.neper_truth(m), "NEPER"
        m = meshgen.build(r, quadratic=q, partition=False, ids=s["ids"], size=size)
        return m, formats.write_cdb(m, d + "/in", r, crlf=s["crlf"]), formats.canonical(m), "ANSYS_CDB"

    def run(self, s, ctx):
        keep = {}
        def prepare(d):
            m, path, want, F_ = self.write(s, d)
            keep.update(m=m, want=want)
            open(d + "/espreso.ecf", "w").write(
                "INPUT { FORMAT %s; PATH %s; LOADER %s; STRIPE_SIZE %d; THIRD_PARTY_SCALABILITY_LIMIT %d; KEEP_MATERIAL_SETS FALSE; CONVERT_DATABASE TRUE;"
                " DECOMPOSITION { PARALLEL_DECOMPOSER %s; } }\nOUTPUT { FORMAT ENSIGHT; }\n" % (F_, path.replace(d + "/", ""), s["loader"], s["stripe"], s["readers"], s["decomposer"]))
        res = ctx.sim(F.job(s), prepare)
        m, want, j = keep["m"], keep["want"], s["job"]
        if len(m.elements) < PER_RANK * j["ranks"]:
            ctx.cover.append("out-of-domain")
            return None
        v = F.abnormal(res)
        if v: return v
        g = glob.glob(res["dir"] + "/results/last/**/*.geo", recursive=True)
        if len(g) != 1:
            return {"class": "output-missing", "detail": "expected one geometry, found %d" % len(g)}
        try:
            got = formats.canonical_parts(formats.read_ensight_geo(g[0]), 3)
        except formats.Bad as e:
            return {"class": "output-malformed", "detail": str(e)}
        for k in ("NAMELESS_ELEMENT_SET", "SURFACE"):
            if k not in want: got.pop(k, None)
        x = formats.diff(got, want)
        if x:
            return {"class": "mesh-differs", "detail": "%s import: %s" % (s["fmt"], x[:300])}
        ctx.trivial = j["ranks"] == 1 and j["threads"] == 1
        ctx.cover += ["fmt:" + s["fmt"], "loader:" + s["loader"], "decomposer:" + s["decomposer"], "ranks:%d" % j["ranks"], "threads:%d" % j["threads"], "ppn:%d" % j["ppn"],
                      "readers<ranks" if s["readers"] < j["ranks"] else "readers=ranks", "quadratic" if s["quadratic"] else "linear"] + ["element:" + c for c in {e[1] for e in m.elements}]
        return None

    def shrink(self, s):
        import copy
        def alt(**kw):
            t = copy.deepcopy(s)
            for k, x in kw.items():
                if k in t["job"]: t["job"][k] = x
                else: t[k] = x
            return t
        j = s["job"]
        if j["p"]: yield alt(p={})
        if j["threads"] > 1: yield alt(threads=1)
        for r in range(1, j["ranks"]):
            t = alt(ranks=r); t["readers"] = min(t["readers"], r); yield t
        if j["ppn"] != 64: yield alt(ppn=64)
        if s["readers"] != j["ranks"]: yield alt(readers=j["ranks"])
        if s["decomposer"] != "NONE": yield alt(decomposer="NONE")
        if s["loader"] != "MPI": yield alt(loader="MPI")
        if s["quadratic"]: yield alt(quadratic=False)
        for d in range(3):
            if s["size"][d] > 1 and j["ranks"] * PER_RANK < s["size"][0] * s["size"][1] * s["size"][2]:
                z = list(s["size"]); z[d] -= 1; yield alt(size=z)

class C03(Import):
    ID, FORMATS = "C03", ("CDB",)
class C04(Import):
    ID, FORMATS = "C04", ("ENS", "ENSA", "VTK")
class C05(Import):
    ID, FORMATS = "C05", ("NET", "NEP")
