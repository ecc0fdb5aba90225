"""C11: results do not depend on the parallel setup.

A problem is solved by one process, one thread and one domain, and by a random setup (processes, threads, domains,
decomposition, FETI variant, schedule). All stored fields and monitors of all substeps have to agree."""
import os, glob, random, copy, math
import framework as F, meshgen, formats
from formats import Bad
from imports import STUB
from solver import REAL
from history import num, TYPE, PER_RANK

STATS = ["MIN", "MAX", "AVG", "NORM", "ABSMIN", "ABSMAX"]
E2 = ["SQUARE4", "SQUARE4", "TRIANGLE3", "SQUARE8", "TRIANGLE6"]
E3 = ["HEXA8", "HEXA8", "TETRA4", "PRISMA6", "PYRAMID5", "HEXA20", "TETRA10", "PRISMA15", "PYRAMID13"]
SIZE = (1., 2., 1.5)
SIDES = ["X0", "X1", "Y0", "Y1", "Z0", "Z1"]

class C11:
    ID, TARGET, MAXRANKS, LEVEL = "C11", "espreso", 6, "exploration"
    BUDGET = {"quick": (1000, 70), "thorough": (10**9, 1500)}
    REAL, STUB = REAL, STUB
    ASSUME = ["at least 24 elements per process in imported meshes", "FETI converges to 1e-9; fields are compared with relative tolerance"]
    RULE = "scenario = problem (mesh, physics, materials, loads, load steps) x setup (processes, threads, domains, decomposition, FETI variant) x schedule and fault profile; non-trivial = more than one process, thread or domain and the interleaving was new"

    def gen(self, rng, i, tier):
        ranks, threads = rng.choice([1, 2, 2, 3, 4, 4, 6]), rng.choice([1, 1, 2, 3])
        s = {"mseed": rng.getrandbits(40), "source": rng.choice(["grid", "grid", "import"]), "physics": rng.choice(["HEAT", "ELAST"]), "dual": rng.choice(["IMPLICIT", "EXPLICIT"]), "prec": rng.choice(["NONE", "LUMPED", "DIRICHLET"]),
             "popt": rng.choice(["DEFAULT", "WITH_FACTORS", "FULL", "WITH_FACTORS|FULL"]), "solver": rng.choice(["PCG", "PCG", "orthogonalPCG"]), "method": rng.choice(["TOTAL_FETI", "HYBRID_FETI"]),
             "decomposer": rng.choice(["NONE", "METIS", "PARMETIS", "HILBERT_CURVE"]), "domains": rng.choice([1, 2, 3]), "writer": rng.choice(["MPI", "MPI_COLLECTIVE"]), "uniform": rng.random() < .75}
        if s["source"] == "grid":
            d = s["dim"] = rng.choice([2, 3])
            s["etype"] = rng.choice(E2 if d == 2 else E3)
            quad = s["etype"][-1] in "05" and s["etype"] not in ("PYRAMID5",) or s["etype"][-2:] == "13" or s["etype"] in ("SQUARE8", "TRIANGLE6")
            while True:
                c = [rng.randint(1, ranks) for _ in range(d)]
                if math.prod(c) == ranks: break
            lim = (90 if quad else 250) if d == 3 else (150 if quad else 400)
            while True:
                g = [rng.choice([1, 1, 2]) for _ in range(d)]
                e = [rng.randint(2, 4) for _ in range(d)]
                if s["prec"] == "DIRICHLET" and not quad: e = [max(3, x) for x in e]
                if math.prod(c) * math.prod(g) * math.prod(e) <= lim: break
                if rng.random() < .02: lim *= 1.1
            s.update(clusters=c, gdomains=g, gelements=e)
            if not s["uniform"]: s["method"] = "TOTAL_FETI"; s["prec"] = "LUMPED" if s["prec"] == "DIRICHLET" else s["prec"]
            if s["method"] == "HYBRID_FETI": s["dual"] = "IMPLICIT"
        else:
            s.update(dim=3, method="TOTAL_FETI", etype="", quadratic=s["physics"] == "HEAT" and rng.random() < .2, prec=rng.choice(["NONE", "LUMPED"]))
            while True:
                z = [rng.randint(1, 7), rng.randint(1, 6), rng.randint(1, 5)]
                n = z[0] * z[1] * z[2]
                if PER_RANK * ranks <= n <= 160: break
            s["size"] = z
            quad = s["quadratic"]
        self.problem(s, rng, quad, ranks)
        s["job"] = {"seed": rng.getrandbits(31), "ranks": ranks, "threads": threads, "ppn": rng.choice([1, 2, 64]), "args": ["espreso", "-c", "espreso.ecf"], "p": F.schedule(rng, ranks, threads), "maxsteps": 50000000}
        return s

    def problem(self, s, rng, quad, ranks):
        d = s["dim"]
        sides = SIDES[:2 * d]
        fix, *loads = rng.sample(sides, 4)
        s["fix"] = fix
        v = lambda *a: rng.choice(a)
        coord = lambda: v("COORDINATE_X", "COORDINATE_Y", "COORDINATE_Z" if d == 3 else "COORDINATE_X")
        vec = lambda f: "{ %s }" % " ".join("%s %s;" % (a, f()) for a in "XYZ"[:d])
        s["mode"] = v("LINEAR", "LINEAR", "NONLINEAR")
        s["steps"] = v("S", "S", "T", "ST") if s["physics"] == "HEAT" else v("S", "S", "T")
        if s["physics"] == "HEAT" and "T" in s["steps"]: s["mode"] = "LINEAR"     # not implemented
        if s["physics"] == "ELAST" and (quad or s["source"] == "import"): s["steps"], s["prec"] = "S", "LUMPED" if s["prec"] == "NONE" else s["prec"]
        if s["physics"] == "ELAST" and s["mode"] == "NONLINEAR" and s["steps"] == "S": s["mode"] = "LINEAR"   # kernels of deformed floating domains are not supported
        if s["physics"] == "ELAST" and s["mode"] == "NONLINEAR": s["method"] = "TOTAL_FETI"   # geometric stiffness makes matrices of floating domains indefinite, F0 has to be positive definite
        s["nmat"] = v(1, 1, 2)
        if s["physics"] == "HEAT":
            def material():
                model = v("ISOTROPIC", "DIAGONAL", "SYMMETRIC")
                kxx = v("5", "2 + %s" % coord(), "5 + 0.005 * TEMPERATURE" if s["mode"] == "NONLINEAR" or s["steps"] == "T" else "4")
                k = {"ISOTROPIC": "KXX %s;" % kxx, "DIAGONAL": "KXX %s; KYY %s; %s" % (kxx, v(2, 9), "KZZ %s;" % v(3, 7) if d == 3 else ""), "SYMMETRIC": "KXX %s; KYY 6; %s KXY 1; %s" % (kxx, "KZZ 5;" if d == 3 else "", "KYZ 1; KXZ .5;" if d == 3 else "")}[model]
                cs = v("", "", "COORDINATE_SYSTEM { TYPE CARTESIAN; ROTATION { %s Z 35; } }" % ("X 10; Y 0;" if d == 3 else ""), "COORDINATE_SYSTEM { TYPE CYLINDRICAL; CENTER { X .5; Y .5; } }" if model == "DIAGONAL" else "")
                return "%s DENS %s; CP %s; THERMAL_CONDUCTIVITY { MODEL %s; %s }" % (cs, v(1, 2, "1 + COORDINATE_X", "1 + 0.5 * TIME"), v(1, 3, "1 + 0.02 * TEMPERATURE"), model, k)
            def load(r):
                k = v("HEAT_FLUX", "HEAT_FLOW", "CONVECTION", "TEMPERATURE", "")
                if k == "": return ""
                if k == "CONVECTION": return "CONVECTION { %s { HEAT_TRANSFER_COEFFICIENT %s; EXTERNAL_TEMPERATURE %s; } }" % (r, v("3", "1 + " + coord()), v("50", "20 + 10 * " + coord()))
                return "%s { %s %s; }" % (k, r, v("40", "10 + 30 * " + coord()))
            L = [load(r) for r in loads]
            body = v("" if any(L) else "HEAT_SOURCE { ALL_ELEMENTS 15; }", "HEAT_SOURCE { ALL_ELEMENTS %s; }" % v("20", "5 + 10 * " + coord()))
            s["bc"] = merge(["TEMPERATURE { %s %s; }" % (fix, v("100", "60 + 20 * " + coord()))] + L + [body])
        else:
            nl = s["mode"] == "NONLINEAR"
            def material():
                m = v("KIRCHHOFF", "NEO_HOOKEAN_CMP") if nl and d == 3 else "KIRCHHOFF"
                return "DENS %s; ELASTICITY_PROPERTIES { MATERIAL_MODEL %s; MIXY %s; EX %s; }" % (v(1, 2), m, v(.25, .3), v(1000, 1500) if nl or d == 3 else v("1000", "900 + 200 * " + coord()))
            f = v(1., 4.) if not nl else .5
            val = lambda: v(num(f), num(-f), num(2 * f), "%r * %s" % (f, coord()))
            def load(r):
                k = v("PRESSURE", "NORMAL_PRESSURE", "FORCE", "")
                if k == "FORCE" and ranks > 1: k = v("FORCE", "PRESSURE", "PRESSURE", "PRESSURE", "PRESSURE")
                if k == "PRESSURE": return "PRESSURE { %s { PRESSURE %s; DIRECTION %s } }" % (r, val(), "{ %s }" % " ".join("%s %s;" % (a, v(0.5, 1)) for a in "XYZ"[:d]))
                if k == "NORMAL_PRESSURE": return "NORMAL_PRESSURE { %s %s; }" % (r, val())
                if k == "FORCE": return "FORCE { %s %s }" % (r, vec(lambda: num(v(.1, -.1, .2))))
                return ""
            L = [load(r) for r in loads[:2]]
            body = v("" if any(L) else "ACCELERATION { ALL_ELEMENTS %s }" % vec(lambda: num(f)), "ACCELERATION { ALL_ELEMENTS %s }" % vec(val), "ANGULAR_VELOCITY { ALL_ELEMENTS { %s 0.5; } }" % (v("X", "Y", "Z") if d == 3 else "Z"))
            s["bc"] = merge(["DISPLACEMENT { %s %s }" % (fix, vec(lambda: "0"))] + L + [body])
            s["behaviour"] = v("PLANE_STRAIN", "PLANE_STRESS", "PLANE_STRESS_WITH_THICKNESS") if d == 2 else ""
        s["materials"] = [material() for _ in range(s["nmat"])]
        s["dt"], s["nt"] = v(.1, .25), v(1, 2, 3)
        s["monitors"] = [[v("ALL_ELEMENTS", fix, loads[0], "MAT1"), v("TEMPERATURE", "FLUX", "GRADIENT") if s["physics"] == "HEAT" else v("DISPLACEMENT", "DISPLACEMENT_X"), v(*STATS)] for _ in range(3)]
        for m in s["monitors"]:
            if m[1] in ("FLUX", "GRADIENT"): m[0] = v("ALL_ELEMENTS", "MAT1")

    def mesh(self, s):
        r = random.Random(s["mseed"])
        m = meshgen.build(r, quadratic=s["quadratic"], partition=True, size=s["size"], nnreg=(0, 0), nbreg=(0, 0))
        return m, r

    def ecf(self, s, path, ref):
        d = s["dim"]
        if s["source"] == "grid":
            c, g, e = s["clusters"], s["gdomains"], s["gelements"]
            if ref: e, c, g = [x * y * z for x, y, z in zip(c, g, e)], [1] * d, [1] * d
            pad = lambda x: x + [1] * (3 - d)
            dims = " ".join("%s_%s %d;" % (n, "XYZ"[k], pad(x)[k]) for n, x in (("CLUSTERS", c), ("DOMAINS", g), ("ELEMENTS", e)) for k in range(3))
            box = lambda a, v: " ".join("<%g , %g>" % ((v, v) if k == a else (0, SIZE[k]) if k < d else (0, 0)) for k in range(3))
            reg = " ".join("%s %s;" % (n, box("XYZ".index(n[0]), SIZE["XYZ".index(n[0])] * int(n[1]))) for n in SIDES[:2 * d])
            half = [x * y * z for x, y, z in zip(s["clusters"], s["gdomains"], s["gelements"])][0] // 2 / math.prod((s["clusters"][0], s["gdomains"][0], s["gelements"][0])) * SIZE[0]
            els = "MAT1 <0 , %r> %s; MAT2 <%r , 1> %s;" % (half + .01, box(0, 0).split("> ", 1)[1], half - .01, box(0, 0).split("> ", 1)[1])
            inp = ("INPUT_TYPE GENERATOR;\n%s GENERATOR { SHAPE GRID; %s GRID { LENGTH_X 1; LENGTH_Y 2; LENGTH_Z 1.5; %s { %s } ELEMENTS { %s } ELEMENT_TYPE %s; BLOCKS_X 1; BLOCKS_Y 1; BLOCKS_Z 1; %s } }\n"
                   % ("" if ref or s["uniform"] else "INPUT { DECOMPOSITION { PARALLEL_DECOMPOSER %s; DOMAINS %d; } }\n" % (s["decomposer"], s["domains"]), "" if ref or s["uniform"] else "UNIFORM_CLUSTERS FALSE; UNIFORM_DOMAINS FALSE;", "FACES" if d == 3 else "EDGES", reg, els, s["etype"], dims))
        else:
            inp = "INPUT_TYPE EXTERNAL_FILE;\nINPUT { FORMAT ENSIGHT; PATH %s; KEEP_MATERIAL_SETS FALSE; DECOMPOSITION { PARALLEL_DECOMPOSER %s; DOMAINS %d; } }\n" % (path, "NONE" if ref else s["decomposer"], 1 if ref else s["domains"])
        o = dict(s, method="TOTAL_FETI", dual="IMPLICIT", prec="LUMPED", popt="DEFAULT", solver="PCG") if ref else s
        feti = "FETI { METHOD %(method)s; PROJECTOR ORTHOGONAL; PROJECTOR_OPT %(popt)s; DUAL_OPERATOR %(dual)s; PRECONDITIONER %(prec)s; ITERATIVE_SOLVER %(solver)s; REGULARIZATION ANALYTIC; PRECISION 1E-9; MAX_ITERATIONS 5000; MAX_STAGNATION 2000; }" % o
        steps = ""
        heat = s["physics"] == "HEAT"
        nls = "" if s["mode"] == "LINEAR" else "NONLINEAR_SOLVER { MAX_ITERATIONS 30; %s }" % ("REQUESTED_TEMPERATURE_RESIDUAL 1e-7;" if heat else "CHECK_DISPLACEMENT TRUE; CHECK_FORCES FALSE; REQUESTED_DISPLACEMENT_RESIDUAL 1e-6;")
        for k, t in enumerate(s["steps"]):
            ts = "" if t == "S" else "TRANSIENT_SOLVER { METHOD %s; TIME_STEP %r; }" % ("CRANK_NICOLSON" if heat else "NEWMARK", s["dt"])
            steps += "%d { DURATION_TIME %r; TYPE %s; MODE %s; SOLVER FETI; %s %s %s %s }\n" % (k + 1, 1. if t == "S" else s["dt"] * s["nt"], "STEADY_STATE" if t == "S" else "TRANSIENT", s["mode"], feti, nls, ts, s["bc"])
        mats = " ".join("%d { %s }" % (k + 1, x) for k, x in enumerate(s["materials"]))
        mset = "ALL_ELEMENTS 1;" if s["nmat"] == 1 else " ".join("%s %d;" % x for x in self.matset(s))
        name = "HEAT_TRANSFER" if heat else "STRUCTURAL_MECHANICS"
        glob = "INITIAL_TEMPERATURE { ALL_ELEMENTS 30; } " if heat else ("ELEMENT_BEHAVIOUR %s; " % s["behaviour"] if s["behaviour"] else "")
        if d == 2: glob += "THICKNESS { ALL_ELEMENTS 1.5; }"
        phys = "PHYSICS %s;\n%s { LOAD_STEPS %d; MATERIALS { %s } MATERIAL_SET { %s } %s LOAD_STEPS_SETTINGS { %s } }\n" % (name, name, len(s["steps"]), mats, mset, glob, steps)
        mon = " ".join("%d { REGION %s; STATISTICS %s; PROPERTY %s; }" % (k + 1, r if s["source"] == "grid" or r != "MAT1" else "ALL_ELEMENTS", st, p) for k, (r, p, st) in enumerate(s["monitors"]))
        return inp + phys + "OUTPUT { FORMAT ENSIGHT; STORE_RESULTS ALL; WRITER %s; RESULTS_STORE_FREQUENCY EVERY_SUBSTEP; MONITORS_STORE_FREQUENCY EVERY_SUBSTEP; MONITORING { %s } }\n" % (s["writer"], mon)

    def matset(self, s):
        if s["source"] == "grid": return [("MAT1", 1), ("MAT2", 2)]
        m, _ = self.mesh(s)
        return [(r, 1 + k % 2) for k, r in enumerate(sorted(m.eregions))]

    def run(self, s, ctx):
        j = s["job"]
        m = None
        def prepare(d, ref):
            path = ""
            if s["source"] == "import":
                x, r = self.mesh(s)
                self.sides(x)
                path = formats.write_ensight(x, d + "/in", r).replace(d + "/", "")
            open(d + "/espreso.ecf", "w").write(self.ecf(s, path, ref))
        if s["source"] == "import":
            m, _ = self.mesh(s)
            if len(m.elements) < PER_RANK * j["ranks"]: ctx.cover.append("out-of-domain"); return None
        a = ctx.sim(F.job(s, ranks=s.get("refranks", 1), threads=1, p={}), lambda d: prepare(d, True))
        if s["mode"] == "NONLINEAR" and a.get("fail") is None and F.abnormal(a) and "physical solver failed" in open(a["dir"] + "/err.log").read():
            ctx.cover.append("nonlinear reference does not converge")
            return None
        if F.abnormal(a): return dict(F.abnormal(a), detail="reference: " + F.abnormal(a)["detail"])
        b = ctx.sim(F.job(s), lambda d: prepare(d, False))
        v = F.abnormal(b)
        if v: return v
        ctx.trivial = j["ranks"] * j["threads"] == 1
        ctx.cover += [k + ":" + str(s[k]) for k in ("source", "physics", "dim", "etype", "mode", "steps", "method", "dual", "prec", "popt", "solver", "nmat", "uniform")] + ["ranks:%d" % j["ranks"], "threads:%d" % j["threads"]]
        ctx.cover += ["load:" + k for k in ("HEAT_FLUX", "HEAT_FLOW", "CONVECTION", "HEAT_SOURCE", "NORMAL_PRESSURE", " PRESSURE {", "FORCE", "ACCELERATION", "ANGULAR_VELOCITY") if k in " " + s["bc"]]
        try:
            x = self.compare(s, self.read(s, a["dir"]), self.read(s, b["dir"]))
        except Bad as e:
            return {"class": "output-malformed", "detail": str(e)[:300]}
        if x and "FORCE {" in s["bc"] and j["ranks"] > 1: return {"class": "setup-dependent", "detail": x[:300], "key": "FORCE-PER-PROCESS"}
        return {"class": "setup-dependent", "detail": x[:300]} if x else None

    def sides(self, m):
        """boundary regions: outer faces by the direction of their normals (bounding box)"""
        lo, hi = ([f(p[d] for p in m.nodes.values()) for d in range(3)] for f in (min, max))
        faces = {}
        for e, code, v in m.elements:
            lin = next((a for a, b in meshgen.QUAD.items() if b == code), code)
            for f in meshgen.FACES[lin]: faces.setdefault(frozenset(v[x] for x in f), []).append((code, lin, v, f))
        m.faces, m.bregions = [], {n: [] for n in SIDES}
        for key, l in sorted(faces.items(), key=lambda x: sorted(x[0])):
            if len(l) > 1: continue
            code, lin, v, f = l[0]
            c = [sum(m.nodes[v[x]][d] for x in f) / len(f) for d in range(3)]
            for k in range(6):
                if all(abs(m.nodes[v[x]][k // 2] - (lo, hi)[k % 2][k // 2]) < 1e-9 for x in f):
                    fe = [v[x] for x in f]
                    fc = "TRIANGLE3" if len(f) == 3 else "SQUARE4"
                    if code != lin:
                        n = len(v) - len(meshgen.EDGES[lin])
                        mid = {frozenset(x): v[n + i] for i, x in enumerate(meshgen.EDGES[lin])}
                        fe += [mid[frozenset((f[i], f[(i + 1) % len(f)]))] for i in range(len(f))]
                        fc = {"TRIANGLE3": "TRIANGLE6", "SQUARE4": "SQUARE8"}[fc]
                    i = 10000000 + len(m.faces)
                    m.faces.append((i, fc, fe)); m.bregions[SIDES[k]].append(i)
                    break

    def key(self, s):
        if s["source"] != "grid": return lambda p: p
        n = [4 * x * y * z / l for x, y, z, l in zip(s["clusters"], s["gdomains"], s["gelements"], SIZE)] + [1]
        return lambda p: tuple(round(x * k) for x, k in zip(p, n))

    def read(self, s, d):
        last = d + "/results/last/"
        case = glob.glob(last + "*.case")
        if len(case) != 1: raise Bad("no case file")
        c = formats.read_case(case[0])
        parts = formats.read_ensight_geo(last + c["model"])
        key = self.key(s)
        vol = [p for p in parts if p[2] and formats.DIM[p[2][0][0]] == s["dim"] and p[0] not in SIDES]
        N, E = [], []
        for i in range(len(c["times"])):
            nd, ed = {}, {}
            for var, (kind, per, f) in sorted(c["vars"].items()):
                if var[:6] in ("DOMAIN", "CLUSTE") or var in ("MPI", "BODY", "MATERIAL") : continue
                D = {v: k for k, v in TYPE.items()}.get(kind)
                if D is None: raise Bad("%s: unknown kind %s" % (var, kind))
                x = formats.read_ensight_var(last + f.replace("****", "%04d" % (i + 1)), parts if per == "node" else [p if p in vol else (p[0], p[1], []) for p in parts], D, per)
                out = (nd if per == "node" else ed).setdefault(var, {})
                for name, X, groups in parts:
                    if name not in x: continue
                    if per == "node": pairs = zip(map(key, X), x[name])
                    else: pairs = zip((frozenset(key(X[n]) for n in e) for _, es in groups for e in es), x[name])
                    for k, v in pairs: out.setdefault((name, k), v)
            N.append(nd); E.append(ed)
        emr = glob.glob(last + "*.emr")
        if len(emr) != 1: raise Bad("no monitors")
        M = [[float(x) for x in l.split(";") if x.strip()] for l in open(emr[0]).read().split("\n")[3:] if l.strip()]
        regions = {name: (frozenset(map(key, X)), frozenset((code, frozenset(key(X[n]) for n in e)) for code, es in groups for e in es)) for name, X, groups in parts}
        return {"times": c["times"], "N": N, "E": E, "M": M, "regions": regions}

    def compare(self, s, a, b):
        if a["times"] != b["times"]: return "stored times %s instead of %s" % (b["times"], a["times"])
        if set(a["regions"]) != set(b["regions"]): return "stored regions %s instead of %s" % (sorted(b["regions"]), sorted(a["regions"]))
        for r in a["regions"]:
            if a["regions"][r][0] != b["regions"][r][0]: return "region %s has different nodes" % r
            if a["regions"][r][1] != b["regions"][r][1]: return "region %s has different elements" % r
        scale = {}
        for what in "NE":
            for i, (x, y) in enumerate(zip(a[what], b[what])):
                if set(x) != set(y): return "step %d: stored variables %s instead of %s" % (i + 1, sorted(y), sorted(x))
                for var in sorted(x, key=lambda v: (v not in ("DISPLACEMENT", "TEMPERATURE"), v)):
                    if not x[var]: continue
                    if set(x[var]) != set(y[var]): return "step %d: %s is stored for different nodes or elements" % (i + 1, var)
                    tol = self.tolerance(s, var, a, what, i)
                    w = (0, None)
                    for k, v in x[var].items():
                        if any(p != p for p in v) and var.startswith("AVG"): continue       # known: collapsed elements
                        e = max(abs(p - q) for p, q in zip(v, y[var][k]))
                        if not e <= w[0]: w = (e, k)
                        if e != e: break
                    if not w[0] <= tol: return "step %d: %s of %s is %s instead of %s (tolerance %g)" % (i + 1, var, w[1], y[var][w[1]], x[var][w[1]], tol)
        if len(a["M"]) != len(b["M"]): return "%d rows of monitors instead of %d" % (len(b["M"]), len(a["M"]))
        for x, y in zip(a["M"], b["M"]):
            if x[:3] != y[:3] or len(x) != len(y): return "monitors: %s instead of %s" % (y, x)
            for k, (r, p, st) in enumerate(s["monitors"]):
                tol = 1e-3 * (max([1e-3] + [abs(c) for i in range(len(a["N"])) for f in (a["N"][i], a["E"][i]) for v, d in f.items() if v == p.split("_X")[0] for t in d.values() for c in t]))
                if st == "NORM": tol *= math.sqrt(len(a["regions"]["ALL_ELEMENTS"][0]) if "ALL_ELEMENTS" in a["regions"] else 1000)
                if not abs(x[3 + k] - y[3 + k]) <= tol: return "monitor: %s of %s on %s is %g instead of %g" % (st, p, r, y[3 + k], x[3 + k])
        return None

    def tolerance(self, s, var, a, what, i):
        """relative to the largest value of the variable in the history; derived variables are relative to their source"""
        big = lambda w, v: max([abs(c) for f in a[w] for t in f.get(v, {}).values() for c in t if c == c] + [0])
        if s["physics"] == "HEAT": return 1e-4 * max(big(what, var), 1e-2 * big("N", "TEMPERATURE")) + 1e-6
        base = big("N", "DISPLACEMENT")
        if var == "DISPLACEMENT": return 1e-3 * base + 1e-7
        if "STRESS" in var: return 1e-3 * max([big(what, v) for v in a[what][0] if "STRESS" in v]) + 1e-4
        if "STRAIN" in var: return 1e-3 * max([big(what, v) for v in a[what][0] if "STRAIN" in v]) + 1e-7
        if var in ("VELOCITY", "ACCELERATION"): return 1e-3 * big(what, var) + 1e-3 * base / s["dt"] ** (1 if var[0] == "V" else 2)
        return 1e-3 * big(what, var) + 1e-6

    def shrink(self, s):
        def alt(**kw):
            t = copy.deepcopy(s)
            for a, x in kw.items(): (t["job"] if a in t["job"] else t)[a] = x
            return t
        j = s["job"]
        if j["p"]: yield alt(p={})
        if j["threads"] > 1: yield alt(threads=1)
        if s["source"] == "import":
            for r in range(1, j["ranks"]): yield alt(ranks=r)
            if s["domains"] > 1: yield alt(domains=1)
        if s["source"] == "grid" and s["uniform"]:
            for k in range(s["dim"]):
                if s["gdomains"][k] > 1: yield alt(gdomains=[1 if x == k else y for x, y in enumerate(s["gdomains"])])
                if s["clusters"][k] > 1:
                    c = [1 if x == k else y for x, y in enumerate(s["clusters"])]
                    t = alt(clusters=c); t["job"]["ranks"] = math.prod(c)
                    yield t
        if len(s["steps"]) > 1: yield alt(steps=s["steps"][0])
        if s["nmat"] > 1: yield alt(nmat=1)
        for a, x in (("decomposer", "NONE"), ("method", "TOTAL_FETI"), ("dual", "IMPLICIT"), ("prec", "LUMPED"), ("popt", "DEFAULT"), ("solver", "PCG"), ("mode", "LINEAR"), ("writer", "MPI")):
            if s[a] != x: yield alt(**{a: x})

def merge(conds):
    """conditions of the same type are put to one block"""
    out = {}
    for c in conds:
        if c:
            k, v = c.split(" { ", 1)
            out.setdefault(k, []).append(v.rsplit("}", 1)[0])
    return " ".join("%s { %s }" % (k, " ".join(v)) for k, v in out.items())
