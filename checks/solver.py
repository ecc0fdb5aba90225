"""C10: solutions of the parallel FETI solver against analytic solutions (patch tests)."""
import os, glob, random, copy
import framework as F, meshgen, formats
from imports import STUB

REAL = ["espreso application: ECF, parallel import, mesh preprocessing and decomposition, assembler, FETI (dual operators, projectors, preconditioners, iterative solvers), output",
        "Intel MKL (sequential), SuiteSparse, METIS, ParMETIS libraries"]

def find(d, pat):
    g = glob.glob(d + "/results/last/**/" + pat, recursive=True)
    return g[0] if len(g) == 1 else None

def fexpr(c):
    return "%s + %s * COORDINATE_X + %s * COORDINATE_Y + %s * COORDINATE_Z" % tuple(repr(float(x)) if x >= 0 else "(0 - %r)" % float(-x) for x in c)

FETI_SOLVERS = ["PCG", "orthogonalPCG"]

class Problem:
    """a steady-state linear problem with an analytic solution that finite elements reproduce exactly"""
    def problem(self, rng, ranks):
        s = {"mseed": rng.getrandbits(40), "quadratic": rng.random() < .25, "physics": rng.choice(["HEAT", "ELAST"]),
             "bc": rng.choice(["all", "ends"]), "coef": rng.sample([x / 4. for x in range(-12, 0)] + [x / 4. for x in range(1, 12)], 12),
             "domains": rng.choice([1, 1, 2, 3, 4]), "decomposer": rng.choice(["NONE", "METIS", "PARMETIS", "HILBERT_CURVE"]),
             "method": rng.choice(["TOTAL_FETI", "TOTAL_FETI", "HYBRID_FETI"]), "dual": rng.choice(["IMPLICIT", "EXPLICIT"]), "prec": rng.choice(["NONE", "LUMPED", "DIRICHLET"]),
             "popt": rng.choice(["DEFAULT", "WITH_FACTORS", "FULL", "WITH_FACTORS|FULL"]), "projector": "ORTHOGONAL", "solver": rng.choice(FETI_SOLVERS),
             "reg": rng.choice(["ANALYTIC", "ANALYTIC", "ALGEBRAIC"]), "contfix": rng.random() < .5, "writer": rng.choice(["MPI", "MPI_COLLECTIVE"]), "source": rng.choice(["import", "import", "grid"]), "precision": "1E-9"}
        if s["source"] == "grid":
            s["etype"] = rng.choice(["HEXA8", "HEXA8", "TETRA4", "PRISMA6", "PYRAMID5", "HEXA20", "TETRA10"])
            s["clusters"] = rng.choice([c for a in range(1, ranks + 1) for b in range(1, ranks + 1) for c in [[a, b, ranks // (a * b)]] if a * b * c[2] == ranks])
            s["gdomains"] = [rng.choice([1, 1, 2]) for _ in range(3)]
            m = 2 if s["etype"] in ("HEXA20", "TETRA10") else 3
            s["gelements"] = [rng.randint(1, m) if s["clusters"][k] * s["gdomains"][k] > 1 else rng.randint(2, m) for k in range(3)]
            if s["physics"] == "ELAST" and m == 2 and s["prec"] == "NONE": s["prec"] = "LUMPED"     # ill-conditioned
            if s["physics"] == "ELAST": s["gelements"] = [max(2, x) for x in s["gelements"]]
            s["size"] = [0, 0, 0]
            s["method"] = rng.choice(["TOTAL_FETI", "HYBRID_FETI"])
            if s["method"] == "HYBRID_FETI": s["dual"] = "IMPLICIT"
            if s["prec"] == "DIRICHLET": s["gelements"] = [3, 3, 3] if m == 3 else [2, 2, 2]    # the Schur complement requires inner nodes
            return s
        s["method"] = "TOTAL_FETI"     # hybrid FETI supports one connected cluster per process only
        s["reg"] = "ANALYTIC"          # small domains of irregular meshes have matrices that the algebraic one cannot handle
        if s["physics"] == "ELAST": s["quadratic"] = False
        if s["prec"] == "DIRICHLET": s["prec"] = "LUMPED"
        k = 3 if s["quadratic"] else 6
        while True:
            z = [rng.randint(1, 5), rng.randint(1, 5), rng.randint(1, 4)]
            n = z[0] * z[1] * z[2]
            if 24 * ranks <= n <= 160 or (n >= 16 * ranks and rng.random() < .05): break
            if rng.random() < .001: break
        s["size"] = z
        return s

    def mesh(self, s):
        r = random.Random(s["mseed"])
        m = meshgen.build(r, quadratic=s["quadratic"], partition=True, size=s["size"], nnreg=(0, 0), nbreg=(0, 0))
        lim = [(min(p[d] for p in m.nodes.values()), max(p[d] for p in m.nodes.values())) for d in range(3)]
        side = lambda d, e: sorted(n for n, p in m.nodes.items() if p[d] == lim[d][e])
        if s["bc"] == "all":
            m.nregions["OUTER"] = sorted(n for n, p in m.nodes.items() if any(p[d] in lim[d] for d in range(3)))
        else:
            m.nregions.update(XMIN=side(0, 0), XMAX=side(0, 1), YMIN=side(1, 0), ZMIN=side(2, 0))
        return m, lim, r

    def setup(self, s, d):
        """writes the database; returns (mesh, configuration of physics, exact solution, variable, dimension)"""
        if s["source"] == "grid":
            m, lim, path = None, [(0., 1.), (0., 2.), (0., 1.5)], None
        else:
            m, lim, r = self.mesh(s)
            path = formats.write_ensight(m, d + "/in", r)
        outer = ("XMIN", "XMAX", "YMIN", "YMAX", "ZMIN", "ZMAX") if s["source"] == "grid" else ("OUTER",)
        c = s["coef"]
        feti = ("FETI { METHOD %(method)s; PROJECTOR %(projector)s; PROJECTOR_OPT %(popt)s; DUAL_OPERATOR %(dual)s; PRECONDITIONER %(prec)s; ITERATIVE_SOLVER %(solver)s; REGULARIZATION %(reg)s; PRECISION %(precision)s; MAX_ITERATIONS 2000; MAX_STAGNATION 500; }" % s)
        step = "LOAD_STEPS_SETTINGS { 1 { DURATION_TIME 1; TYPE STEADY_STATE; MODE LINEAR; SOLVER FETI; %s %s } }"
        if s["physics"] == "HEAT":
            if s["bc"] == "all":
                exact = lambda p: (c[0] + c[1] * p[0] + c[2] * p[1] + c[3] * p[2],)
                bc = "TEMPERATURE { %s }" % " ".join("%s %s;" % (o, fexpr(c[:4])) for o in outer)
            else:
                a, b = lim[0]
                exact = lambda p: (c[0] + (c[1] - c[0]) * (p[0] - a) / (b - a),)
                bc = "TEMPERATURE { XMIN %r; XMAX %r; }" % (c[0], c[1])
            phys = ("PHYSICS HEAT_TRANSFER;\nHEAT_TRANSFER { LOAD_STEPS 1; MATERIALS { 1 { DENS 1; CP 1; THERMAL_CONDUCTIVITY { MODEL ISOTROPIC; KXX %d; } } } MATERIAL_SET { ALL_ELEMENTS 1; }"
                    " INITIAL_TEMPERATURE { ALL_ELEMENTS 200; } %s }") % (1 + abs(int(c[4])), step % (feti, bc))
            return m, path, phys, exact, "TEMPERATURE", 1
        nu = 0.25
        if s["bc"] == "all":
            exact = lambda p: tuple(c[4 * k] + c[4 * k + 1] * p[0] + c[4 * k + 2] * p[1] + c[4 * k + 3] * p[2] for k in range(3))
            bc = "DISPLACEMENT { %s }" % " ".join("%s { X %s; Y %s; Z %s; }" % ((o,) + tuple(fexpr(c[4 * k:4 * k + 4]) for k in range(3))) for o in outer)
        else:
            (ax, bx), (ay, _), (az, _) = lim
            g = c[1] / (bx - ax)
            exact = lambda p: (g * (p[0] - ax), -nu * g * (p[1] - ay), -nu * g * (p[2] - az))
            bc = "DISPLACEMENT { XMIN { X 0; } XMAX { X %r; } YMIN { Y 0; } ZMIN { Z 0; } }" % c[1]
        phys = ("PHYSICS STRUCTURAL_MECHANICS;\nSTRUCTURAL_MECHANICS { LOAD_STEPS 1; MATERIALS { 1 { DENS 1; ELASTICITY_PROPERTIES { MATERIAL_MODEL KIRCHHOFF; MIXY %r; EX 1000; } } } MATERIAL_SET { ALL_ELEMENTS 1; } %s }"
                ) % (nu, step % (feti, bc))
        return m, path, phys, exact, "DISPLACEMENT", 3

    def ecf(self, s, d, path, phys, output):
        if s["source"] == "grid":
            reg = "XMIN <0,0> <0,2> <0,1.5>; XMAX <1,1> <0,2> <0,1.5>; YMIN <0,1> <0,0> <0,1.5>; YMAX <0,1> <2,2> <0,1.5>; ZMIN <0,1> <0,2> <0,0>; ZMAX <0,1> <0,2> <1.5,1.5>;"
            dims = " ".join("%s_%s %d;" % (n, "XYZ"[k], s[v][k]) for n, v in (("CLUSTERS", "clusters"), ("DOMAINS", "gdomains"), ("ELEMENTS", "gelements")) for k in range(3))
            return ("INPUT_TYPE GENERATOR;\nGENERATOR { SHAPE GRID; GRID { LENGTH_X 1; LENGTH_Y 2; LENGTH_Z 1.5; NODES { %s } ELEMENT_TYPE %s; BLOCKS_X 1; BLOCKS_Y 1; BLOCKS_Z 1; %s } }\n%s\nOUTPUT { %s }\n"
                    % (reg, s["etype"], dims, phys, output))
        return ("INPUT_TYPE EXTERNAL_FILE;\nINPUT { FORMAT ENSIGHT; PATH %s; KEEP_MATERIAL_SETS FALSE; DECOMPOSITION { PARALLEL_DECOMPOSER %s; DOMAINS %d; } }\n%s\nOUTPUT { %s }\n"
                % (path.replace(d + "/", ""), s["decomposer"], s["domains"], phys, output))

    def count(self, s):
        n = [s["clusters"][k] * s["gdomains"][k] * s["gelements"][k] for k in range(3)]
        lin = (n[0] + 1) * (n[1] + 1) * (n[2] + 1)
        edges = sum(n[k] * (n[(k + 1) % 3] + 1) * (n[(k + 2) % 3] + 1) for k in range(3))
        return {"HEXA8": lin, "TETRA4": lin, "PRISMA6": lin, "PYRAMID5": lin + n[0] * n[1] * n[2], "HEXA20": lin + edges, "TETRA10": (2 * n[0] + 1) * (2 * n[1] + 1) * (2 * n[2] + 1)}[s["etype"]]

    def compare(self, res, s, m, exact, var, dim, tol=1e-4):
        geo = find(res["dir"], "*.geo")
        if not geo: return {"class": "output-missing", "detail": "no geometry"}
        f = find(res["dir"], var + ".0001")
        if not f: return {"class": "output-missing", "detail": "no %s" % var}
        try:
            parts = formats.read_ensight_geo(geo)
            val = formats.read_ensight_var(f, parts, dim)
        except formats.Bad as e:
            return {"class": "output-malformed", "detail": str(e)}
        xyz = set(m.nodes.values()) if m else {p for _, X, _ in parts for p in X}
        seen, worst = set(), (0, None)
        scale = max(max(abs(x) for x in exact(p)) for p in xyz) + 1e-3
        for name, X, g in parts:
            if name not in val: return {"class": "output-missing", "detail": "%s of part %s is not stored" % (var, name)}
            for p, v in zip(X, val[name]):
                seen.add(p)
                e = max(abs(a - b) for a, b in zip(v, exact(p))) / scale
                if not e <= worst[0]: worst = (e, (p, v, exact(p)))
        if m is None and len(seen) != self.count(s): return {"class": "mesh-differs", "detail": "%d nodes are stored instead of %d" % (len(seen), self.count(s))}
        if seen != xyz: return {"class": "mesh-differs", "detail": "%d nodes are stored instead of %d" % (len(seen), len(xyz))}
        if not worst[0] <= tol: return {"class": "wrong-solution", "detail": "%s: relative error %.2e at %s: %s instead of %s" % ((var, worst[0]) + worst[1])}
        return None

class C10(Problem):
    ID, TARGET, MAXRANKS, LEVEL = "C10", "espreso", 6, "exploration"
    BUDGET = {"quick": (800, 60), "thorough": (10**9, 1500)}
    REAL, STUB = REAL, STUB
    ASSUME = ["at least 24 elements per process", "linear exact solutions (patch tests), tolerance 1e-5 relative in single precision output"]
    RULE = "scenario = random mesh x physics x boundary conditions x FETI variant x processes/threads/domains/decomposer x schedule and fault profile; non-trivial = solved on more than one process, thread or domain, and the interleaving was new"
    def gen(self, rng, i, tier):
        ranks, threads = rng.choice([1, 2, 3, 4, 5, 6]), rng.choice([1, 1, 2, 3])
        s = self.problem(rng, ranks)
        s["job"] = {"seed": rng.getrandbits(31), "ranks": ranks, "threads": threads, "ppn": rng.choice([1, 2, 64]), "args": ["espreso", "-c", "espreso.ecf"],
                    "p": F.schedule(rng, ranks, threads), "maxsteps": 50000000}
        return s
    def run(self, s, ctx):
        k = {}
        def prepare(d):
            m, path, phys, exact, var, dim = self.setup(s, d)
            k.update(m=m, exact=exact, var=var, dim=dim)
            open(d + "/espreso.ecf", "w").write(self.ecf(s, d, path, phys, "FORMAT ENSIGHT; RESULTS_STORE_FREQUENCY EVERY_SUBSTEP; WRITER %s;" % s["writer"]))
        res = ctx.sim(F.job(s), prepare)
        j = s["job"]
        if k["m"] and len(k["m"].elements) < 24 * j["ranks"]:
            ctx.cover.append("out-of-domain")
            return None
        if "FETI SOLVER ERROR" in res["err"]:
            # the requested precision need not be reachable; one that is far from the limits has to be
            ctx.cover.append("retried:" + s["prec"])
            s = dict(s, precision="1E-6")
            res = ctx.sim(F.job(s), prepare)
        v = F.abnormal(res) or self.compare(res, s, k["m"], k["exact"], k["var"], k["dim"])
        if v: return v
        ctx.trivial = j["ranks"] * j["threads"] == 1
        ctx.cover += [a + ":" + str(s[a]) for a in ("source", "physics", "bc", "domains", "decomposer", "method", "dual", "prec", "popt", "solver", "reg")] + ["ranks:%d" % j["ranks"], "threads:%d" % j["threads"]]
        return None
    def shrink(self, s):
        def alt(**kw):
            t = copy.deepcopy(s)
            for a, x in kw.items():
                (t["job"] if a in t["job"] else t)[a] = x
            return t
        j = s["job"]
        if j["p"]: yield alt(p={})
        if j["threads"] > 1: yield alt(threads=1)
        if s["source"] == "import":
            for r in range(1, j["ranks"]): yield alt(ranks=r)
        if s["domains"] > 1: yield alt(domains=1)
        for a, x in (("quadratic", False), ("decomposer", "NONE"), ("method", "TOTAL_FETI"), ("dual", "IMPLICIT"), ("prec", "NONE"), ("popt", "DEFAULT"), ("solver", "PCG"), ("reg", "ANALYTIC"), ("physics", "HEAT"), ("bc", "all")):
            if s[a] != x: yield alt(**{a: x})
