"""C14: contact with rigid walls and between bodies.

wall: an elastic body is pressed to a rigid wall; no node may be behind the wall, contact forces push the body from the wall, results
do not depend on the parallel setup, and, without Poisson effect and other loads, they are the analytic ones.
mortar: bodies with different meshes are glued; a field that is linear across the interface has to be solved exactly."""
import os, math, random, copy, re
import framework as F, formats
from formats import Bad
from invariance import C11, SIZE, SIDES, E3, STATS, merge
from history import num

class C14(C11):
    ID = "C14"
    ASSUME = ["SMALBE converges to 1e-8 (with ALPHAM 1.9: with the default 2, the limit of its theory, it can cycle); fields are compared with relative tolerance", "walls parallel to sides of the body"]
    RULE = "scenario = body, mesh, wall, loads (or two glued bodies with different meshes) x setup (processes, threads, domains, preconditioner) x schedule; non-trivial = more than one process, thread or domain and the interleaving was new"

    def gen(self, rng, i, tier):
        v = lambda *a: rng.choice(a)
        kind = os.environ.get("KIND") or v("wall", "wall", "sphere", "mortar")
        ranks, threads = v(1, 2, 2, 3, 4, 4, 6) if kind != "mortar" else 2, v(1, 1, 2, 3)
        s = {"kind": kind, "source": "grid", "physics": "ELAST", "mode": "LINEAR", "steps": "S", "dim": 3, "nmat": 1, "dt": 1., "method": "TOTAL_FETI", "dual": v("IMPLICIT", "EXPLICIT"), "prec": v("NONE", "LUMPED", "DIRICHLET"), "popt": v("DEFAULT", "WITH_FACTORS", "FULL"),
             "solver": "SMALBE", "writer": v("MPI", "MPI_COLLECTIVE"), "decomposer": v("NONE", "METIS", "PARMETIS"), "domains": v(1, 2, 3)}
        if kind != "mortar":
            s["etype"] = v(*E3[:7])
            quad = s["etype"] in ("HEXA20", "TETRA10")
            s["uniform"] = rng.random() < .75
            while True:
                c = [rng.randint(1, ranks) for _ in range(3)]
                if math.prod(c) == ranks: break
            while True:
                g = [v(1, 1, 2) for _ in range(3)]
                e = [rng.randint(2, 4) for _ in range(3)]
                if s["prec"] == "DIRICHLET": e = [max(3, x) for x in e]
                if math.prod(c) * math.prod(g) * math.prod(e) <= (100 if quad else 300): break
                if rng.random() < .05: g = [1, 1, 1]; s["prec"] = "LUMPED" if s["prec"] == "DIRICHLET" else s["prec"]
                if rng.random() < .05: c = [ranks, 1, 1]
            s.update(clusters=c, gdomains=g, gelements=e)
            if not s["uniform"] and s["prec"] == "DIRICHLET": s["prec"] = "LUMPED"
            s["side"] = v(*SIDES)
            s["walls"] = [[s["side"], v(0., .05, .03), v(.1, .2)]]
            s["sphere"] = None
            if kind == "sphere":
                k = "XYZ".index(s["side"][0])
                R, off = v(.5, 1., 3.), v(0., .02, .04)
                c = [x * rng.uniform(.2, .8) for x in SIZE]
                c[k] = (SIZE[k] + R + off) if s["side"][1] == "1" else -R - off
                s["walls"], s["sphere"] = [], [R, off, v(.02, .1, .5), c]
                if rng.random() < .4: s["tube"] = v(*[a for a in range(3) if a != k])
            elif rng.random() < .3: s["walls"].append([v(*[x for x in SIDES if x[0] != s["side"][0]]), v(0., .01, .005), v(.1, .2)])
            s["analytic"] = kind == "wall" and rng.random() < .4 and not quad and len(s["walls"]) == 1
            s["press"] = num(v(.02, .06, .1)) if s["analytic"] else "%r + %r * %s" % (v(.04, .08), v(.01, .02, -.01), v("COORDINATE_X", "COORDINATE_Y", "COORDINATE_Z"))
            a = "XYZ".index(s["side"][0])
            L = []
            if not s["analytic"]:
                others = [x for x in SIDES if x[0] != s["side"][0]]
                L.append(v("", "PRESSURE { %s { PRESSURE %s; DIRECTION { %s } } }" % (v(*others), v("5", "4 * COORDINATE_X"), " ".join("%s %s;" % (x, v(0.5, 1)) for x in "XYZ"))))
                L.append(v("", "ACCELERATION { ALL_ELEMENTS { %s } }" % " ".join("%s %s;" % (x, v("3", "0", "(0 - 2)")) for x in "XYZ")))
            sign = "(0 - 1) * " if s["side"][1] == "0" else ""
            opp = s["side"][0] + "10"[int(s["side"][1])]
            s["bc"] = merge(["DISPLACEMENT { %s { %s } }" % (opp, " ".join("%s %s;" % (x, "%s(%s)" % (sign, s["press"]) if k == a else "0") for k, x in enumerate("XYZ")))] + L)
            s["materials"] = ["DENS 1; ELASTICITY_PROPERTIES { MATERIAL_MODEL KIRCHHOFF; MIXY %s; EX 1000; }" % (0. if s["analytic"] else v(.2, .3))]
            s["monitors"] = [[v("ALL_ELEMENTS", s["side"]), v("DISPLACEMENT", "DISPLACEMENT_X", "DISPLACEMENT_Z"), v(*STATS)] for _ in range(2)]
        if kind == "mortar": ranks, threads = self.tower(s, rng)
        s["job"] = {"seed": rng.getrandbits(31), "ranks": ranks, "threads": threads, "ppn": v(1, 2, 64), "args": ["espreso", "-c", "espreso.ecf"], "p": F.schedule(rng, ranks, threads), "maxsteps": 50000000}
        return s

    def tower(self, s, rng):
        """two bodies with different meshes glued by mortar constraints"""
        v = lambda *a: rng.choice(a)
        s["source"], s["axis"], s["analytic"] = "tower", v(0, 1, 2), rng.random() < .6
        s["physics"] = v("HEAT", "ELAST")
        s["solver"], s["popt"] = "PCG", v("DEFAULT", "WITH_FACTORS")
        while True:
            g = []
            for k in range(2):
                c, d = [v(1, 1, 1, 2) for _ in range(3)], [v(1, 1, 2) for _ in range(3)]
                e = [v(2, 2, 3, 4) for _ in range(3)]
                if s["prec"] == "DIRICHLET": e = [max(3, x) for x in e]
                g.append({"etype": v("HEXA8", "TETRA4", "PRISMA6", "PYRAMID5"), "c": c, "d": d, "e": e})
            if all(math.prod(x["c"]) * math.prod(x["d"]) * math.prod(x["e"]) <= 150 for x in g) and sum(math.prod(x["c"]) for x in g) <= 6 and any(a * b * c != x * y * z for k, (a, b, c, x, y, z) in enumerate(zip(*[x[k] for x in g for k in "cde"])) if k != s["axis"]): break
            if rng.random() < .05 and s["prec"] == "DIRICHLET": s["prec"] = "LUMPED"
        for k in range(2): g[k]["start"] = [0. if s["analytic"] or k == 0 or a == s["axis"] else v(.1, -.2, .25) for a in range(3)]
        s["grids"] = g
        s["etype"] = g[0]["etype"] + "-" + g[1]["etype"]
        s["K"] = [v(1., 10., 50.), v(1., 10., 50.)] if s["physics"] == "HEAT" else [v(1000., 100.), v(1000., 300.)]
        s["top"] = v(10., -20.) if s["physics"] == "HEAT" else v(.05, -.1)
        if s["physics"] == "HEAT":
            s["materials"] = ["DENS 1; CP 1; THERMAL_CONDUCTIVITY { MODEL ISOTROPIC; KXX %r; }" % x for x in s["K"]]
            s["bc"] = merge(["TEMPERATURE { LO 0; HI %s; }" % num(s["top"])] + ([] if s["analytic"] else [v("HEAT_SOURCE { ALL_ELEMENTS 100; }", "HEAT_SOURCE { UP 20 * COORDINATE_X; }")]))
        else:
            s["materials"] = ["DENS 1; ELASTICITY_PROPERTIES { MATERIAL_MODEL KIRCHHOFF; MIXY %r; EX %r; }" % (0. if s["analytic"] else .3, x) for x in s["K"]]
            s["bc"] = merge(["DISPLACEMENT { LO { X 0; Y 0; Z 0; } HI { %s } }" % " ".join("%s %s;" % (x, num(s["top"]) if k == s["axis"] else "0") for k, x in enumerate("XYZ"))] + ([] if s["analytic"] else [v("ACCELERATION { ALL_ELEMENTS { X 3; Y 1; Z (0 - 2); } }", "ACCELERATION { UP { X 0; Y 0 - 3; Z 1; } }")]))
        s["refranks"] = 2
        s["nmat"], s["uniform"], s["behaviour"] = 2, True, ""
        s["monitors"] = [[v("ALL_ELEMENTS", "DOWN", "UP"), "TEMPERATURE" if s["physics"] == "HEAT" else v("DISPLACEMENT", "DISPLACEMENT_X", "DISPLACEMENT_Z"), v(*STATS)] for _ in range(2)]
        return sum(math.prod(x["c"]) for x in g), v(1, 2, 3)

    def key(self, s):
        return (lambda p: tuple(round(x * 1000) for x in p)) if s["kind"] == "mortar" else C11.key(self, s)

    def matset(self, s):
        return [("DOWN", 1), ("UP", 2)] if s["kind"] == "mortar" else C11.matset(self, s)

    def input(self, s, ref):
        a, grids = s["axis"], ""
        box = lambda lo, hi: " ".join("<%g , %g>" % ((lo, hi) if k == a else (-1, 3)) for k in range(3))
        for k, g in enumerate(s["grids"]):
            c, d, e = ([1, 1, 1], [1, 1, 1], [x * y * z for x, y, z in zip(g["c"], g["d"], g["e"])]) if ref else (g["c"], g["d"], g["e"])
            grids += "%d { %s LENGTH_X 1; LENGTH_Y 1; LENGTH_Z 1; NODES { %s %s; } ELEMENTS { %s %s; } ELEMENT_TYPE %s; BLOCKS_X 1; BLOCKS_Y 1; BLOCKS_Z 1; %s }\n" % (
                k, " ".join("START_%s %r;" % ("XYZ"[i], x) for i, x in enumerate(g["start"]) if x), ("LO", "HI")[k], box(2 * k, 2 * k), ("DOWN", "UP")[k], box(k, k + 1), g["etype"],
                " ".join("%s_%s %d;" % (n, "XYZ"[i], x[i]) for n, x in (("CLUSTERS", c), ("DOMAINS", d), ("ELEMENTS", e)) for i in range(3)))
        return "INPUT_TYPE GENERATOR;\nINPUT { CONTACT_INTERFACES { GENERAL { DETECTION ALL_BODIES; CRITERION BOUND; } } }\nGENERATOR { SHAPE GRID_TOWER; UNIFORM_DOMAINS FALSE; GRID_TOWER { DIRECTION %s; GRIDS {\n%s } } }\n" % ("XYZ"[a], grids)

    def ecf(self, s, path, ref):
        x = C11.ecf(self, dict(s, behaviour=""), path, ref)
        if s["kind"] == "mortar":
            return self.input(s, ref) + x[x.index("PHYSICS"):]
        o = "LUMPED" if ref else s["prec"]
        a, b = x.index("FETI { METHOD"), x.index("MAX_STAGNATION 2000; }") + 22
        x = x[:a] + "FETI { METHOD TOTAL_FETI; DUAL_OPERATOR %s; PRECONDITIONER %s; PROJECTOR ORTHOGONAL; PROJECTOR_OPT %s; ITERATIVE_SOLVER SMALBE; REGULARIZATION ANALYTIC; PRECISION 1E-8; PRECISION_IN 1E-8; ALPHAM 1.9; MAX_ITERATIONS 5000; }" % ("IMPLICIT" if ref else s["dual"], o, "DEFAULT" if ref else s["popt"]) + x[b:]
        wall = ""
        for side, h, gap in s["walls"]:
            k, hi = "XYZ".index(side[0]), int(side[1])
            n = [0, 0, 0]; n[k] = -1 if hi else 1
            p = [.5, .5, .5]; p[k] = SIZE[k] + h if hi else -h
            wall += "%s { GAP %r; NORMAL { %s } POINT { %s } } " % (side, gap, " ".join("%s %d;" % (a, y) for a, y in zip("XYZ", n)), " ".join("%s %r;" % (a, y) for a, y in zip("XYZ", p)))
        if wall: wall = "FIXED_WALL { %s}" % wall
        if s["sphere"]:
            R, off, d, c = s["sphere"]
            if s.get("tube") is not None: wall = "FIXED_TUBE { %s { GAP %r; RADIUS %r; CENTER { %s } DIRECTION { %s } } }" % (s["side"], off + d, R, " ".join("%s %r;" % (a, y) for a, y in zip("XYZ", c)), " ".join("%s %d;" % (a, k == s["tube"]) for k, a in enumerate("XYZ")))
            else: wall = "FIXED_SPHERE { %s { GAP %r; RADIUS %r; CENTER { %s } } }" % (s["side"], R + off + d, R, " ".join("%s %r;" % (a, y) for a, y in zip("XYZ", c)))
        return x.replace(s["bc"], s["bc"] + " " + wall)

    def compare(self, s, a, b):
        for what, x in (("reference", a), ("setup", b)):
            e = self.physics(s, x)
            if e: return what + ": " + e
        # multipliers live on one side of the interface, the order of bodies is up to the decomposition
        if s["kind"] == "mortar" and not s["analytic"] and a["contact"][:2] != b["contact"][:2]: return None
        return C11.compare(self, s, a, b)

    def patch(self, s, x):
        """fields that are linear in both bodies are solved exactly"""
        a, (k1, k2) = s["axis"], s["K"]
        var = "TEMPERATURE" if s["physics"] == "HEAT" else "DISPLACEMENT"
        mid = s["top"] * k2 / (k1 + k2)         # flux continuity: k1 * mid = k2 * (top - mid)
        for (r, p), u in sorted(x["N"][0][var].items()):
            if r not in ("UP", "DOWN"): continue
            z = p[a] / 1000.
            e = mid * z if r == "DOWN" else mid + (s["top"] - mid) * (z - 1)
            e = [e] if s["physics"] == "HEAT" else [e if k == a else 0 for k in range(3)]
            if not max(abs(b - c) for b, c in zip(u, e)) <= 1e-3 * abs(s["top"]): return "%s: %s of %s is %s instead of %s" % (r, var, p, u, e)

    def contacts(self, s, D):
        """for nodes: list of obstacles (direction to the obstacle, distance)"""
        n = [4 * math.prod(y[k] for y in (s["clusters"], s["gdomains"], s["gelements"])) / SIZE[k] for k in range(3)]
        out = {}
        for r, p in D:
            for side, h, gap in s["walls"]:
                if r != side: continue
                d = [0, 0, 0]; d["XYZ".index(side[0])] = 1 if side[1] == "1" else -1
                out.setdefault(p, []).append((d, h))
            if s["sphere"] and r == s["side"]:
                R, off, gap, c = s["sphere"]
                d = [a - b / m for a, b, m in zip(c, p, n)]
                if s.get("tube") is not None: d[s["tube"]] = 0
                l = math.sqrt(sum(a * a for a in d))
                if abs(l - R - off - gap) < 1e-6: out[p] = None         # border of the gap
                elif l < R + off + gap and s.get("tube") is not None:
                    d = [0, 0, 0]; d["XYZ".index(s["side"][0])] = 1 if s["side"][1] == "1" else -1
                    out[p] = [(d, l - R)]
                elif l < R + off + gap: out[p] = [([a / l for a in d], l - R)]
        return out

    def read(self, s, d):
        x = C11.read(self, s, d)
        if s["kind"] == "mortar":
            l = open(d + "/out.log", errors="replace").read().split("CONTACT INTERFACES ")
            l = l[1].split("\n") if len(l) == 2 else []
            n = [y.split() for y in l[1:] if re.match(r"^ +[A-Z_]+ : +[A-Z_]+ *$", y)]
            a = [y.split() for y in l[1:] if re.match(r"^ +\d+ +[\d.]+ : +\d+ +[\d.]+ *$", y)]
            if len(n) != 1 or len(a) != 1: raise Bad("no contact interface of two bodies: %s %s" % (n, a))
            x["contact"] = (n[0][0], n[0][2], float(a[0][1]), float(a[0][4]))
        return x

    def physics(self, s, x):
        if s["kind"] == "mortar":
            g, e = [y["start"] for y in s["grids"]], 1.
            for k in range(3):
                if k != s["axis"]: e *= min(g[0][k], g[1][k]) + 1 - max(g[0][k], g[1][k])
            c = x["contact"]
            if sorted(c[:2]) != ["DOWN", "UP"] or not max(abs(c[2] - e), abs(c[3] - e)) <= 1e-5: return "contact interface %s has area %g and %g instead of %g" % (c + (e,))
            return self.patch(s, x) if s["analytic"] else None
        D, C = x["N"][0]["DISPLACEMENT"], x["N"][0]["CONTACT_FORCE"]
        big = max(abs(c) for f in C.values() for c in f) if C else 0
        eps, feps = 5e-6, 1e-3 * (1 + big)
        dot = lambda a, b: sum(p * q for p, q in zip(a, b))
        con = self.contacts(s, D)
        for (r, p), u in sorted(D.items()):
            f = C.get((r, p))
            if f is None: return "no CONTACT_FORCE at %s" % (p,)
            if con.get(p, 0) is None: continue
            for d, h in con.get(p, []):
                gap = h - dot(u, d)
                if not gap >= -eps: return "node %s is %g behind the obstacle" % (p, -gap)
                q = dot(f, d)
                f = [a - q * b for a, b in zip(f, d)]
                if not q >= -feps: return "the obstacle pulls the node %s: %s" % (p, C[r, p])
                if gap > 20 * eps and not q <= feps: return "node %s is %g from the obstacle, but its contact force is %s" % (p, gap, C[r, p])
            if not max(map(abs, f)) <= feps: return "contact force of the node %s is %s, %s has no obstacle" % (p, C[r, p], f)
        if s["analytic"]:
            k, hi, h = "XYZ".index(s["side"][0]), int(s["side"][1]), s["walls"][0][1]
            sgn = 1 if hi else -1
            L, area, p = SIZE[k], math.prod(y for a, y in enumerate(SIZE) if a != k), float(s["press"])
            n = 4 * math.prod(y[k] for y in (s["clusters"], s["gdomains"], s["gelements"])) / L
            for (r, q), u in sorted(D.items()):
                z = q[k] / n; z = L - z if hi else z
                e = [0, 0, 0]; e[k] = sgn * (h + (p - h) * z / L if p > h else p)
                if not max(abs(a - b) for a, b in zip(e, u)) <= 1e-3 * .1: return "displacement of %s is %s instead of %s" % (q, u, e)
            F, e = sum(f[k] * sgn for (r, q), f in C.items() if r == s["side"]), 1000. * max(0, p - h) / L * area
            if not abs(F - e) <= 1e-3 * (e + 10): return "contact force is %g instead of %g" % (F, e)
        return None

    def tolerance(self, s, var, a, what, i):
        if var in ("REACTION_FORCES", "CONTACT_FORCE"): return C11.tolerance(self, s, var, a, what, i) + 1e-4
        return C11.tolerance(self, s, var, a, what, i)
