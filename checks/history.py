"""C12: history of transient analyses (stored results and monitors), C07: the same with the asynchronous output.

Analytic histories: 'uniform' (no boundary conditions, heat source: every node follows the scalar recursion of the
time integration scheme), 'linear' (linear in space and time, backward differences: exact for finite elements);
'free' (a jump on the boundary): statistics of monitors are compared with the stored results."""
import os, glob, random, copy, math
import framework as F, meshgen, formats
from formats import Bad
from imports import STUB
from solver import REAL, fexpr

ALPHA = {"CRANK_NICOLSON": .5, "GALERKIN": 2. / 3, "BACKWARD_DIFF": 1, "USER": .75}
STATS = ["MIN", "MAX", "AVG", "NORM", "ABSMIN", "ABSMAX"]
LABEL = {"AVG": "<AVERAGE>"}
HEAT = ["TEMPERATURE", "TEMPERATURE", "INITIAL_TEMPERATURE", "GRADIENT", "GRADIENT_X", "GRADIENT_Z", "FLUX", "FLUX_Y"]
MECHANICS = ["DISPLACEMENT", "DISPLACEMENT_X", "DISPLACEMENT_Z", "VELOCITY", "VELOCITY_Y", "ACCELERATION", "ACCELERATION_Z"]
STRESS = {k + x + n: d for x in ("STRESS", "STRAIN") for k, n, d in (("COMPONENT_", "", 6), ("VON_MISES_", "", 1), ("PRINCIPAL_", "_1ST", 1), ("PRINCIPAL_", "_2ND", 1), ("PRINCIPAL_", "_3RD", 1))}
ELEMENT = ("GRADIENT", "FLUX") + tuple(STRESS)
VARS = {"heat": {"TEMPERATURE": 1, "INITIAL_TEMPERATURE": 1, "GRADIENT": 3, "FLUX": 3},
        "fall": dict(STRESS, DISPLACEMENT=3, VELOCITY=3, ACCELERATION=3, CONTACT_FORCE=3, INITIAL_VELOCITY=3),
        "strain": dict(STRESS, DISPLACEMENT=3, CONTACT_FORCE=3, **{"AVG_" + v: d for v, d in STRESS.items()})}
TYPE = {1: "scalar", 3: "vector", 6: "tensor"}
PER_RANK = 24

def variable(prop): return prop[:-2] if prop[-2:] in ("_X", "_Y", "_Z") else prop

def stat(kind, v):
    if kind == "MIN": return min(v)
    if kind == "MAX": return max(v)
    if kind == "AVG": return math.fsum(v) / len(v)
    if kind == "NORM": return math.sqrt(math.fsum(x * x for x in v))
    if kind == "ABSMIN": return min(abs(x) for x in v)
    return max(abs(x) for x in v)

def eigenvalues(a):
    """of a symmetric matrix (xx, yy, zz, xy, xz, yz), descending (Jacobi)"""
    A = [[a[0], a[3], a[4]], [a[3], a[1], a[5]], [a[4], a[5], a[2]]]
    for _ in range(50):
        for p, q in ((0, 1), (0, 2), (1, 2)):
            if A[p][q] == 0: continue
            t = .5 * math.atan2(2 * A[p][q], A[q][q] - A[p][p])
            c, s = math.cos(t), math.sin(t)
            for k in range(3): A[k][p], A[k][q] = c * A[k][p] - s * A[k][q], s * A[k][p] + c * A[k][q]
            for k in range(3): A[p][k], A[q][k] = c * A[p][k] - s * A[q][k], s * A[p][k] + c * A[q][k]
    return sorted((A[k][k] for k in range(3)), reverse=True)

def stress(G, E, nu):
    """stress and strain of a constant displacement gradient (St. Venant-Kirchhoff), tensors = xx, yy, zz, xy, xz, yz"""
    F = [[G[i][j] + (i == j) for j in range(3)] for i in range(3)]
    e = lambda i, j: .5 * (sum(F[k][i] * F[k][j] for k in range(3)) - (i == j))
    lam, mu = E * nu / ((1 + nu) * (1 - 2 * nu)), E / (2 + 2 * nu)
    ee = [e(0, 0), e(1, 1), e(2, 2), e(0, 1), e(0, 2), e(1, 2)]
    ss = [2 * mu * x + (lam * sum(ee[:3]) if i < 3 else 0) for i, x in enumerate(ee)]
    out = {}
    for n, t in (("STRESS", ss), ("STRAIN", ee)):
        a = eigenvalues(t)
        out["COMPONENT_" + n] = tuple(t)
        out["VON_MISES_" + n] = (math.sqrt(.5 * ((a[0] - a[1]) ** 2 + (a[1] - a[2]) ** 2 + (a[2] - a[0]) ** 2)) / (1 + nu if n == "STRAIN" else 1),)
        for x, v in zip(("_1ST", "_2ND", "_3RD"), a): out["PRINCIPAL_" + n + x] = (v,)
    return out

def component(prop, vals):
    """values (tuples) of a variable -> values of a monitored property"""
    if prop[-2:] in ("_X", "_Y", "_Z"): return [v["XYZ".index(prop[-1])] for v in vals]
    return [v[0] if len(v) == 1 else math.sqrt(math.fsum(x * x for x in v)) for v in vals]

class History:
    TARGET, MAXRANKS, LEVEL = "espreso", 6, "exploration"
    BUDGET = {"quick": (1000, 60), "thorough": (10**9, 1200)}
    REAL, STUB = REAL, STUB
    ASSUME = ["at least 24 elements per process", "time steps are multiples of 1/64", "FETI converges to 1e-9; values are compared with relative tolerance 1e-4"]
    MODES = ["SYNC"]
    RULE = "scenario = random mesh x sequence of load steps and time integration schemes x storing frequencies, format, monitors x processes/threads/domains x schedule and fault profile; non-trivial = more than one process or thread and the interleaving was new"
    def gen(self, rng, i, tier):
        ranks, threads = rng.choice([1, 2, 3, 4, 5, 6]), rng.choice([1, 1, 2])
        kind = os.environ.get("KIND") or rng.choice(["uniform", "uniform", "linear", "linear", "free", "fall", "fall", "strain"])
        s = {"mseed": rng.getrandbits(40), "quadratic": rng.random() < .15, "kind": kind, "coef": [rng.choice([x / 4. for x in range(-12, 13) if x]) for _ in range(6)],
             "domains": rng.choice([1, 1, 2, 3]), "decomposer": rng.choice(["NONE", "METIS", "PARMETIS", "HILBERT_CURVE"]), "writer": rng.choice(["MPI", "MPI_COLLECTIVE"]),
             "fmt": rng.choice(["ENSIGHT", "ENSIGHT", "VTK_LEGACY"]), "mode": rng.choice(self.MODES), "stripe": rng.choice([64, 1000, 1048576]),
             "rfreq": rng.choice(["EVERY_SUBSTEP", "EVERY_SUBSTEP", "EVERY_NTH_SUBSTEP", "LAST_SUBSTEP", "NEVER"]), "mfreq": rng.choice(["EVERY_SUBSTEP", "EVERY_SUBSTEP", "EVERY_NTH_SUBSTEP", "LAST_SUBSTEP", "NEVER"]),
             "rnth": rng.choice([1, 2, 3]), "mnth": rng.choice([1, 2, 3]), "prec": rng.choice(["NONE", "LUMPED"]), "solver": rng.choice(["PCG", "orthogonalPCG"]), "dual": rng.choice(["IMPLICIT", "EXPLICIT"])}
        s["rhot"] = rng.choice([0., 0., .5, 2.]) if kind == "uniform" else 0.    # density changes in time
        if kind == "strain": s["quadratic"] = False   # CG need not converge for quadratic elasticity
        if kind in ("uniform", "fall") and ranks == 1: s["domains"] = max(2, s["domains"])   # FETI needs constraints
        if s["rfreq"] == "NEVER" and s["mfreq"] == "NEVER" or kind == "free": s["rfreq"] = "EVERY_SUBSTEP"
        steps = []
        for L in range(rng.choice([1, 1, 2, 3]) if kind != "strain" else 1):
            if kind == "strain": steps.append({"type": "S", "duration": rng.choice([1., 2., .5]), "u": [[rng.choice([-.25, -.1, 0, .05, .2, .4]) for _ in range(3)] for _ in range(3)]}); continue
            if L == 0 and kind in ("linear", "free") and rng.random() < .4: steps.append({"type": "S", "duration": rng.choice([1., 2., .5])}); continue
            m = "BACKWARD_DIFF" if kind == "linear" else rng.choice(list(ALPHA))
            dt = rng.choice([1, 2, 3, 8, 16, 64]) / 64.
            n = rng.randint(1, 5)
            steps.append({"type": "T", "method": m, "dt": dt, "n": n, "duration": n * dt + (0 if kind == "linear" else rng.choice([0, 0, dt / 4])), "g": rng.choice([-4., -1.5, 2., 3.25, 10.])})
            # unconditionally stable Newmark schemes only: 2 * delta >= alpha >= 1/2
            if kind == "fall": steps[-1].update(method="NEWMARK", dt=max(dt, .125), duration=max(dt, .125) * n, **dict(zip(("alpha", "delta"), rng.choice([(.5, .25), (.5, .25), (.5, .5), (.75, .5), (.75, .375)]))), a=[rng.choice([-4., 0, 1.5, 8.]) for _ in range(3)])
        s["steps"] = steps
        s["monitors"] = []
        col = 0
        for _ in range(rng.randint(1, 6)):
            col += rng.choice([1, 1, 1, 2])
            s["monitors"].append([col, rng.random(), rng.choice(MECHANICS if kind == "fall" else MECHANICS[:3] if kind == "strain" else HEAT), rng.choice(STATS)])
        while True:
            z = [rng.randint(1, 7), rng.randint(1, 6), rng.randint(1, 5)]
            n = z[0] * z[1] * z[2]
            if PER_RANK * ranks <= n <= 160: break
        s["size"] = z
        s["job"] = {"seed": rng.getrandbits(31), "ranks": ranks, "threads": threads, "ppn": rng.choice([1, 2, 64]), "args": ["espreso", "-c", "espreso.ecf"],
                    "p": F.schedule(rng, ranks, threads), "maxsteps": 50000000}
        return s

    def mesh(self, s):
        r = random.Random(s["mseed"])
        m = meshgen.build(r, quadratic=s["quadratic"], partition=True, size=s["size"], nnreg=(0, 2), nbreg=(0, 2))
        lo, hi = (tuple(f(p[d] for p in m.nodes.values()) for d in range(3)) for f in (min, max))
        m.nregions["XMIN"] = sorted(n for n, p in m.nodes.items() if p[0] == lo[0])
        faces = {}
        for _, code, v in m.elements:
            lin = next((a for a, b in meshgen.QUAD.items() if b == code), code)
            for f in meshgen.FACES[lin]: faces.setdefault(frozenset(v[x] for x in f), []).append((code, lin, v, f))
        out = set()
        for key, l in faces.items():
            if len(l) > 1: continue
            code, lin, v, f = l[0]
            out |= key
            if code != lin:
                for e, (a, b) in enumerate(meshgen.EDGES[lin]):
                    if a in f and b in f: out.add(v[len(v) - len(meshgen.EDGES[lin]) + e])
        m.nregions["OUTER"] = sorted(out)
        return m, r

    def regions(self, m):
        """name -> (kind, node ids, element ids)"""
        el = {e: v for e, _, v in m.elements}
        fa = {e: v for e, _, v in m.faces}
        g = {"ALL_ELEMENTS": ("E", sorted({n for v in el.values() for n in v}), sorted(el)), "ALL_NODES": ("N", sorted({n for v in el.values() for n in v}), None)}
        for name, ids in m.eregions.items(): g[name] = ("E", sorted({n for e in ids for n in el[e]}), sorted(ids))
        for name, ids in m.bregions.items(): g[name] = ("B", sorted({n for e in ids for n in fa[e]}), None)
        for name, ids in m.nregions.items(): g[name] = ("N", sorted(set(ids)), None)
        return {k: v for k, v in g.items() if v[1]}

    def monitors(self, s, reg):
        out = []
        for col, x, prop, st in s["monitors"]:
            names = sorted(r for r in reg if reg[r][0] == "E" or variable(prop) not in ELEMENT)
            out.append((col, names[int(x * len(names))], prop, st))
        return out

    def history(self, s):
        """rows (loadstep, substep, time, {node variable: p -> values}, {element variable: values}) of all solved substeps; None = not known"""
        c = s["coef"]; rows = []; start = 0.
        k = 1 + abs(int(c[5]))
        T0 = 20. + c[0]
        lin = lambda p: (T0 + c[1] * p[0] + c[2] * p[1] + c[3] * p[2],)
        grad = tuple(c[1:4])
        if s["kind"] == "fall": U, V, W = [0.] * 3, list(c[1:4]), [0.] * 3
        T = T0; shift = 0.
        def add(L, n, t, N, E): rows.append((L + 1, n, t, N if s["kind"] != "free" else None, {"GRADIENT": E, "FLUX": tuple(k * x for x in E)} if E and s["kind"] != "free" else None))
        for L, st in enumerate(s["steps"]):
            # the solution of the previous load step and Dirichlet conditions are a part of the initial temperature
            init = {"INITIAL_TEMPERATURE": lambda p: (T0,)} if s["kind"] == "uniform" else {"INITIAL_TEMPERATURE": lin} if L == 0 else {}
            if s["kind"] == "strain":
                G = st["u"]
                x = stress(G, 10. * k, .25)
                start += st["duration"]
                rows.append((L + 1, 1, start, dict({"AVG_" + v: (lambda p, x=x[v]: x) for v in x}, CONTACT_FORCE=lambda p: (0., 0., 0.), DISPLACEMENT=lambda p, G=G: tuple(sum(g * y for g, y in zip(r, p)) for r in G)), x))
                continue
            if st["type"] == "S":
                add(L, 1, st["duration"], dict(init, TEMPERATURE=lin), grad)
                start = st["duration"]
                continue
            dt = st["dt"]; Q = 0.
            for n in range(1, int(st["duration"] / dt + 1e-6) + 1):
                t = start + n * dt
                if s["kind"] == "fall":      # Newmark
                    g, d, a = st["alpha"], st["delta"], st["a"]
                    U = [u + dt * v + dt * dt * ((.5 - d) * w + d * x) for u, v, w, x in zip(U, V, W, a)]
                    V = [v + dt * ((1 - g) * w + g * x) for v, w, x in zip(V, W, a)]
                    W = a
                    add(L, n, t, {"DISPLACEMENT": lambda p, x=tuple(U): x, "VELOCITY": lambda p, x=tuple(V): x, "ACCELERATION": lambda p, x=tuple(W): x, "CONTACT_FORCE": lambda p: (0., 0., 0.), "INITIAL_VELOCITY": lambda p: tuple(c[1:4])}, None)
                    rows[-1] = rows[-1][:4] + ({v: (0.,) * d for v, d in STRESS.items()},)   # a rigid body
                elif s["kind"] == "uniform": # generalized trapezoidal rule
                    al = ALPHA[st["method"]]
                    x = T + dt * (al * st["g"] / (1 + s.get("rhot", 0.) * t) + (1 - al) * Q)
                    Q = (x - T) / (al * dt) - (1 - al) / al * Q
                    T = x
                    add(L, n, t, dict(init, TEMPERATURE=lambda p, x=x: (x,)), (0., 0., 0.))
                else:
                    d = shift + st["g"] * n * dt
                    add(L, n, t, dict(init, TEMPERATURE=lambda p, d=d: (lin(p)[0] + d,)), grad)
            shift += st["g"] * dt * st["n"]
            start += st["duration"]
        return rows

    def ecf(self, s, path, mon):
        c = s["coef"]
        cp, rho, k = 1 + abs(int(c[4])), 2, 1 + abs(int(c[5]))
        feti = "FETI { METHOD TOTAL_FETI; DUAL_OPERATOR %(dual)s; PRECONDITIONER %(prec)s; ITERATIVE_SOLVER %(solver)s; REGULARIZATION ANALYTIC; PRECISION 1E-9; MAX_ITERATIONS %(maxit)d; MAX_STAGNATION 500; }" % dict(s, maxit=20000 if s["kind"] in ("strain", "fall") else 2000)
        steps = ""; start = 0.; shift = 0.
        base = fexpr([20. + c[0], c[1], c[2], c[3]])
        for L, st in enumerate(s["steps"]):
            bc = ""
            if s["kind"] == "strain":
                bc = " ".join("%s %s;" % ("XYZ"[i], fexpr([0.] + r)) for i, r in enumerate(st["u"]))
                steps += "%d { DURATION_TIME %r; TYPE STEADY_STATE; MODE LINEAR; SOLVER FETI; %s DISPLACEMENT { OUTER { %s } } }\n" % (L + 1, st["duration"], feti, bc)
                continue
            if st["type"] == "S":
                steps += "%d { DURATION_TIME %r; TYPE STEADY_STATE; MODE LINEAR; SOLVER FETI; %s TEMPERATURE { OUTER %s; } }\n" % (L + 1, st["duration"], feti, base)
                start = st["duration"]
                continue
            if s["kind"] == "linear":
                g = st["g"]
                bc = "TEMPERATURE { OUTER %s + (%s) + (%s) * (TIME - %r); } HEAT_SOURCE { ALL_ELEMENTS %s; }" % (base, num(shift), num(g), start, num(g * rho * cp))
            if s["kind"] == "uniform": bc = "HEAT_SOURCE { ALL_ELEMENTS %s; }" % num(st["g"] * rho * cp)
            if s["kind"] == "free": bc = "TEMPERATURE { XMIN %s; }" % num(100. * st["g"])
            if s["kind"] == "fall":
                bc = "ACCELERATION { ALL_ELEMENTS { X %s; Y %s; Z %s; } }" % tuple(map(num, st["a"]))
                steps += "%d { DURATION_TIME %r; TYPE TRANSIENT; MODE LINEAR; SOLVER FETI; %s TRANSIENT_SOLVER { METHOD NEWMARK; ALPHA %r; DELTA %r; TIME_STEP %r; } %s }\n" % (L + 1, st["duration"], feti, st["alpha"], st["delta"], st["dt"], bc)
                start += st["duration"]
                continue
            alpha = "ALPHA %r;" % ALPHA["USER"] if st["method"] == "USER" else ""
            steps += "%d { DURATION_TIME %r; TYPE TRANSIENT; MODE LINEAR; SOLVER FETI; %s TRANSIENT_SOLVER { METHOD %s; %s TIME_STEP %r; } %s }\n" % (L + 1, st["duration"], feti, st["method"], alpha, st["dt"], bc)
            shift += st["g"] * st["dt"] * st["n"]
            start += st["duration"]
        init = num(20. + c[0]) if s["kind"] == "uniform" else base
        phys = ("PHYSICS HEAT_TRANSFER;\nHEAT_TRANSFER { LOAD_STEPS %d; MATERIALS { 1 { DENS %s; CP %d; THERMAL_CONDUCTIVITY { MODEL ISOTROPIC; KXX %d; } } } MATERIAL_SET { ALL_ELEMENTS 1; }"
                " INITIAL_TEMPERATURE { ALL_ELEMENTS %s; }\nLOAD_STEPS_SETTINGS {\n%s} }\n") % (len(s["steps"]), "%d * (1 + %r * TIME)" % (rho, s["rhot"]) if s.get("rhot") else "%d" % rho, cp, k, init, steps)
        if s["kind"] in ("fall", "strain"):
            phys = ("PHYSICS STRUCTURAL_MECHANICS;\nSTRUCTURAL_MECHANICS { LOAD_STEPS %d; MATERIALS { 1 { DENS %d; ELASTICITY_PROPERTIES { MATERIAL_MODEL KIRCHHOFF; MIXY 0.25; EX %d; } } } MATERIAL_SET { ALL_ELEMENTS 1; }"
                    " INITIAL_VELOCITY { ALL_ELEMENTS { X %s; Y %s; Z %s; } }\nLOAD_STEPS_SETTINGS {\n%s} }\n") % ((len(s["steps"]), rho, 10 * k) + tuple(map(num, c[1:4])) + (steps,))
        mons = "MONITORING { %s }" % " ".join("%d { REGION %s; STATISTICS %s; PROPERTY %s; }" % (col, r, st, p) for col, r, p, st in mon)
        return ("INPUT_TYPE EXTERNAL_FILE;\nINPUT { FORMAT ENSIGHT; PATH %s; KEEP_MATERIAL_SETS FALSE; DECOMPOSITION { PARALLEL_DECOMPOSER %s; DOMAINS %d; } }\n%s"
                "OUTPUT { FORMAT %s; MODE %s; WRITER %s; STRIPE_SIZE %d; STORE_RESULTS ALL; RESULTS_STORE_FREQUENCY %s; RESULTS_NTH_STEPPING %d; MONITORS_STORE_FREQUENCY %s; MONITORS_NTH_STEPPING %d;\n%s }\n"
                % (path, s["decomposer"], s["domains"], phys, s["fmt"], s["mode"], s["writer"], s["stripe"], s["rfreq"], s["rnth"], s["mfreq"], s["mnth"], mons)), k

    def run(self, s, ctx):
        m, r = self.mesh(s)
        j = s["job"]
        if len(m.elements) < PER_RANK * j["ranks"]:
            ctx.cover.append("out-of-domain"); return None
        reg = self.regions(m)
        mon = self.monitors(s, reg)
        k = []
        def prepare(d):
            path = formats.write_ensight(m, d + "/in", r)
            text, kk = self.ecf(s, path.replace(d + "/", ""), mon)
            k.append(kk)
            open(d + "/espreso.ecf", "w").write(text)
        res = ctx.sim(F.job(s), prepare)
        v = F.abnormal(res)
        if v: return v
        ctx.trivial = j["ranks"] * j["threads"] == 1
        ctx.cover += ["kind:" + s["kind"], "fmt:" + s["fmt"], "results:" + s["rfreq"], "monitors:" + s["mfreq"], "loadsteps:" + "".join(t["type"] for t in s["steps"]), "ranks:%d" % j["ranks"], "threads:%d" % j["threads"]]
        ctx.cover += ["method:" + t["method"] for t in s["steps"] if t["type"] == "T"] + (["monitor:%s:%s" % x[2:] for x in mon] if s["mfreq"] != "NEVER" else [])
        try:
            x = self.oracle(s, ctx, m, reg, mon, res["dir"], k[0])
        except Bad as e:
            return {"class": "output-malformed", "detail": str(e)[:300]}
        if x: return dict({"class": x[0], "detail": x[1][:300]}, **({"key": x[2]} if len(x) > 2 else {}))
        return None

    def oracle(self, s, ctx, m, reg, mon, d, k):
        last = d + "/results/last/"
        rows = self.history(s)
        ends = {x[0]: x[1] for x in rows}
        stored = lambda freq, nth: [x for x in rows if freq == "EVERY_SUBSTEP" or freq == "EVERY_NTH_SUBSTEP" and x[1] % nth == 0 or freq == "LAST_SUBSTEP" and ends[x[0]] == x[1]]
        short = lambda p: tuple(float("%g" % x) for x in p)   # VTK files contain 6 digits
        xyz2n = {short(p): n for n, p in m.nodes.items()}
        collapsed = {short(m.nodes[x]) for _, c, v in m.elements if not c.startswith("HEXA") for x in v}   # known finding: see below
        known = None
        key = lambda c, v: (c, frozenset(map(short, v)))
        elem = {e: (c, v) for e, c, v in m.elements}
        exact = s["kind"] != "free"
        scale = {}   # the largest value of each variable in the whole history
        for row in rows:
            for v, f in (row[3] or {}).items(): scale[v] = max([scale.get(v, 1.)] + [abs(x) for p in m.nodes.values() for x in f(p)])
        if s["kind"] == "strain":
            for v in scale:
                if v != "DISPLACEMENT": scale[v] = max(1., max(abs(x) for r in rows for t in r[4].values() for x in t) if "STRESS" in v else 0)
            for v in STRESS: scale[v] = scale["AVG_" + v]
        if s["kind"] == "fall":   # second differences of displacements
            dt = min(t["dt"] for t in s["steps"])
            scale.update({v: 10 * k * scale["DISPLACEMENT"] * 4 for v in STRESS})
            scale["VELOCITY"] += 3e-2 * scale["DISPLACEMENT"] / dt
            scale["ACCELERATION"] += 1e-1 * scale["DISPLACEMENT"] / dt / dt / .25
        for v in ELEMENT if s["kind"] not in ("fall", "strain") else []: scale[v] = scale.get("TEMPERATURE", 1.) * 10 * k
        # results
        want = stored(s["rfreq"], s["rnth"])
        data = []
        if want:
            data = self.read(s, last, [w[2] for w in want])
            for w, got in zip(want, data):
                where = "load step %d, substep %d, time %g, region " % w[:3]
                for name, X, groups, N, E in got:
                    if name not in reg: raise Bad("region %s is not in the mesh" % name)
                    if {xyz2n.get(short(p)) for p in X} != set(reg[name][1]): raise Bad("%s: stored nodes differ from the nodes of the region" % name)
                    for var in self.dims(s):
                        if var in ELEMENT and reg[name][0] == "E" and var not in E or var not in ELEMENT and var not in N: raise Bad("%s of %s is not stored" % (var, name))
                    nan = {short(p) for var in N if var.startswith("AVG_COMPONENT") for p, v in zip(X, N[var]) if not all(map(math.isfinite, v)) and short(p) in collapsed}
                    for var, f in (w[3] or {}).items():
                        for p, v in zip(X, N.get(var, [])):
                            if var.startswith("AVG") and short(p) in nan:
                                known = ("wrong-history", where + "%s: %s is %s instead of %s" % (name, var, v, f(p)), "AVG-NAN-COLLAPSED")
                                continue
                            if not all(abs(a - b) <= 1e-4 * scale[var] for a, b in zip(v, f(p))): return "wrong-history", where + "%s: %s is %s instead of %s" % (name, var, v, f(p))
                    for var, x in (w[4] or {}).items():
                        for v in E.get(var, []):
                            if not all(abs(a - b) <= 1e-4 * scale[var] for a, b in zip(v, x)): return "wrong-history", where + "%s: %s is %s instead of %s" % (name, var, v, x)
        elif glob.glob(last + "PREPOSTDATA/*.0*") or s["fmt"] != "ENSIGHT" and glob.glob(last + "PREPOSTDATA/*"): return "wrong-history", "results are stored"
        # monitors
        want2 = stored(s["mfreq"], s["mnth"])
        emr = glob.glob(last + "*.emr")
        if s["mfreq"] == "NEVER":
            return ("wrong-history", "monitors are stored") if emr else known
        if len(emr) != 1: raise Bad("expected one file with monitors, found %d" % len(emr))
        L = [l for l in open(emr[0]).read().split("\n") if l.strip()]
        if len(L) < 3: raise Bad("monitors: incomplete header")
        cell = lambda l: [x.strip() for x in l.split(";")]
        n = max(x[0] for x in mon)
        for what, line, pick in (("region", L[0], lambda x: x[1]), ("property", L[1], lambda x: x[2]), ("statistics", L[2], lambda x: LABEL.get(x[3], "<%s>" % x[3]))):
            h = cell(line)
            if len(h) != n + 4: raise Bad("monitors: the line with %s has %d columns instead of %d" % (what, len(h) - 1, n + 3))
            for x in mon:
                if h[2 + x[0]] != pick(x): return "wrong-history", "monitors: %s in column %d is %r instead of %r" % (what, x[0], h[2 + x[0]], pick(x))
        got = [cell(l) for l in L[3:]]
        head = [(int(g[0]), int(g[1])) for g in got]
        if head != [w[:2] for w in want2]: return "wrong-history", "monitors contain rows %s instead of %s" % (head, [w[:2] for w in want2])
        for g, w in zip(got, want2):
            if abs(float(g[2]) - w[2]) > 1e-6: return "wrong-history", "monitors: time %s instead of %g" % (g[2], w[2])
            if len(g) != n + 4: raise Bad("monitors: a row with %d columns instead of %d" % (len(g) - 1, n + 3))
            for col, r, prop, st in mon:
                var = variable(prop)
                if var in ELEMENT:
                    if exact: vals = [w[4][var]] * len(reg[r][2])
                    else:
                        el = {}
                        for name, X, groups, N, E in data[rows.index(w)]:
                            if reg[name][0] == "E": el.update(zip((key(c, v) for c, v in groups), E[var]))
                        vals = [el[key(c, [m.nodes[x] for x in v])] for c, v in (elem[e] for e in reg[r][2])]
                elif exact:
                    if var not in w[3]: continue
                    vals = [w[3][var](m.nodes[x]) for x in reg[r][1]]
                else:
                    if var[0] == "I": continue
                    nodes = {}
                    for name, X, groups, N, E in data[rows.index(w)]: nodes.update(zip(map(short, X), N[var]))
                    vals = [nodes[short(m.nodes[x])] for x in reg[r][1]]
                ref = max(scale.get(var, 1.) if exact else 0, max(abs(x) for v in vals for x in v))
                e = stat(st, component(prop, vals))
                v = float(g[2 + col])
                if st == "NORM": ref *= math.sqrt(len(vals))
                if st == "AVG" and var in ELEMENT and abs(v - e) > 2e-4 * ref and abs(v - e * len(vals) / len(reg[r][1])) <= 2e-4 * ref:
                    known = ("wrong-monitor", "load step %d, substep %d: %s of %s on %s is %g instead of %g" % (w[:2] + (st, prop, r, v, e)), "AVG-ELEMENTS-BY-NODES")
                    continue
                if not abs(v - e) <= 2e-4 * ref: return "wrong-monitor", "load step %d, substep %d: %s of %s on %s is %g instead of %g" % (w[:2] + (st, prop, r, v, e))
        return known

    def dims(self, s): return VARS.get(s["kind"], VARS["heat"])

    def read(self, s, last, times):
        """for every time: [(region, coordinates, elements, node data, element data)]"""
        dims = self.dims(s)
        out = []
        if s["fmt"] == "ENSIGHT":
            case = glob.glob(last + "*.case")
            if len(case) != 1: raise Bad("expected one case file, found %d" % len(case))
            c = formats.read_case(case[0])
            if len(c["times"]) != len(times) or any(abs(a - b) > 1e-4 * max(1, abs(b)) for a, b in zip(c["times"], times)): raise Bad("case file: times %s instead of %s" % (c["times"], times))
            parts = formats.read_ensight_geo(last + c["model"])
            miss = [v for v in dims if v not in c["vars"]]
            if miss: raise Bad("case file: %s is not listed" % miss[0])
            eparts = [p if p[2] and formats.DIM[p[2][0][0]] == 3 else (p[0], p[1], []) for p in parts]
            for i in range(len(times)):
                V = {}
                for v, (kind, per, f) in c["vars"].items():
                    if v not in dims: continue
                    if per != ("element" if v in ELEMENT else "node") or kind != TYPE[dims[v]]: raise Bad("case file: %s is %s per %s" % (v, kind, per))
                    if not os.path.exists(last + f.replace("****", "%04d" % (i + 1))): raise Bad("%s of step %d is missing" % (v, i + 1))
                    V[v] = formats.read_ensight_var(last + f.replace("****", "%04d" % (i + 1)), parts if per == "node" else eparts, dims[v], per)
                row = []
                for name, X, groups in parts:
                    if any(name not in V[v] for v in V if v not in ELEMENT): raise Bad("data of %s are not stored" % name)
                    els = [(code, tuple(X[n] for n in e)) for code, es in groups for e in es]
                    if name != "SURFACE": row.append((name, X, els, {v: V[v][name] for v in V if v not in ELEMENT and name in V[v]}, {v: V[v][name] for v in V if v in ELEMENT and name in V[v]}))
                out.append(row)
        else:
            for t in times:
                row = []
                fs = glob.glob(last + "PREPOSTDATA/*.%f.vtk" % t)
                if not fs: raise Bad("VTK: time %g is not stored" % t)
                for f in sorted(fs):
                    name = os.path.basename(f)[:-len(".%f.vtk" % t)].split(".", 1)[1]
                    if name == "SURFACE": continue
                    X, _, D = formats.read_vtk(f)
                    for x in (D["POINT"], D["CELL"]):
                        for v in x:
                            if dims.get(v) == 6:
                                if any(t[a] != t[b] and t[a] == t[a] for t in x[v] for a, b in ((1, 3), (2, 6), (5, 7))): raise Bad("VTK: %s is not symmetric" % v)
                                x[v] = [(t[0], t[4], t[8], t[1], t[2], t[5]) for t in x[v]]
                    row.append((name, X, [(code, tuple(X[n] for n in e)) for code, e in D["CELLS"]], D["POINT"], D["CELL"]))
                out.append(row)
            n = len({os.path.basename(f).rsplit(".", 3)[-3] + "." + os.path.basename(f).rsplit(".", 3)[-2] for f in glob.glob(last + "PREPOSTDATA/*.vtk")})
            if n != len(times): raise Bad("VTK: %d times are stored instead of %d" % (n, len(times)))
        return out

    def shrink(self, s):
        def alt(**kw):
            t = copy.deepcopy(s)
            for a, x in kw.items(): (t["job"] if a in t["job"] else t)[a] = x
            return t
        j = s["job"]
        if j["p"]: yield alt(p={})
        if j["threads"] > 1: yield alt(threads=1)
        for r in range(1, j["ranks"]): yield alt(ranks=r)
        for n in range(1, len(s["steps"])): yield alt(steps=s["steps"][:n])
        for n in range(len(s["monitors"])): yield alt(monitors=[s["monitors"][n]])
        for a, x in (("quadratic", False), ("decomposer", "NONE"), ("writer", "MPI"), ("stripe", 1048576), ("domains", 1), ("fmt", "ENSIGHT"), ("rfreq", "EVERY_SUBSTEP"), ("mfreq", "EVERY_SUBSTEP"), ("prec", "NONE"), ("solver", "PCG"), ("dual", "IMPLICIT")):
            if s[a] != x: yield alt(**{a: x})

def num(x): return repr(float(x)) if x >= 0 else "(0 - %r)" % float(-x)

class C12(History):
    ID = "C12"

class C07(History):
    ID = "C07"
    MODES = ["PTHREAD"]
