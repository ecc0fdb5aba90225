"""C06: the stored database is the mesh, C09: the decomposition is a partition of the mesh.

Oracle: the generated mesh (written to the input database by an independent writer); stored files are
read by independent readers.
"""
import os, glob, random, struct, copy, collections
import framework as F, meshgen, formats
from formats import Bad
from imports import STUB, REAL, PER_RANK, size_for

def outer_faces(m):
    """node sets (with mid-points) of faces that belong to one element only: {frozenset of corners: (corners, all nodes)}"""
    cnt = collections.defaultdict(list)
    for _, code, v in m.elements:
        lin = next((a for a, b in meshgen.QUAD.items() if b == code), code)
        mids = {frozenset((v[a], v[b])): v[meshgen.NODES[lin] + i] for i, (a, b) in enumerate(meshgen.EDGES[lin])} if lin != code else {}
        for f in meshgen.FACES[lin]:
            c = [v[x] for x in f]
            al = set(c) | {mids[frozenset((c[i], c[(i + 1) % len(c)]))] for i in range(len(c)) if mids}
            cnt[frozenset(c)].append((c, al))
    return {k: l[0] for k, l in cnt.items() if len(l) == 1}

def area(*p):
    def tri(a, b, c):
        u, w = [b[i] - a[i] for i in range(3)], [c[i] - a[i] for i in range(3)]
        n = (u[1] * w[2] - u[2] * w[1], u[2] * w[0] - u[0] * w[2], u[0] * w[1] - u[1] * w[0])
        return (n[0] ** 2 + n[1] ** 2 + n[2] ** 2) ** .5 / 2
    return sum(tri(p[0], p[i], p[i + 1]) for i in range(1, len(p) - 1))

def check_stl(path, m):
    f = formats.Buf(path)
    f.desc()
    n, = f.ints(1)
    if len(f.b) != 84 + 50 * n: raise Bad("STL: %d triangles are announced, the size of the file is %d" % (n, len(f.b)))
    faces = outer_faces(m)
    of = {}
    bynode = collections.defaultdict(set)
    for k, (c, al) in faces.items():
        for x in al: bynode[m.nodes[x]].add(k)
    covered, edges, seen = collections.defaultdict(float), collections.Counter(), set()
    for i in range(n):
        t = struct.unpack_from("<12f", f.b, 84 + 50 * i)
        P = [t[3:6], t[6:9], t[9:12]]
        k = frozenset(P)
        if len(k) != 3 or k in seen: raise Bad("STL: triangle %s is degenerated or stored twice" % (sorted(P),))
        seen.add(k)
        on = bynode[P[0]] & bynode[P[1]] & bynode[P[2]]
        if len(on) != 1: raise Bad("STL: triangle %s is not a part of the surface" % (sorted(P),))
        covered[next(iter(on))] += area(*P)
        for a, b in ((0, 1), (1, 2), (2, 0)): edges[frozenset((P[a], P[b]))] += 1
    for k, (c, al) in faces.items():
        a = area(*[m.nodes[x] for x in c])
        if abs(covered[k] - a) > 1e-4 * a: raise Bad("STL: a face at %s is covered by %g of %g" % (m.nodes[c[0]], covered[k], a))
    bad = [e for e, x in edges.items() if x != 2]
    if bad: raise Bad("STL: the surface is not closed at %s" % (sorted(bad[0]),))

def read_netgen(path):
    try: t = open(path).read().split()
    except OSError: raise Bad("missing output file")
    p = 0
    def take(f):
        nonlocal p
        if p >= len(t): raise Bad("Netgen: truncated")
        try: x = f(t[p])
        except ValueError: raise Bad("Netgen: number expected, %r found" % t[p])
        p += 1
        return x
    X = [tuple(take(float) for _ in range(3)) for _ in range(take(int))]
    if len(set(X)) != len(X): raise Bad("Netgen: a node is stored twice")
    out = []
    for k, code in ((4, "TETRA4"), (3, "TRIANGLE3")):
        reg = collections.defaultdict(list)
        for _ in range(take(int)):
            r = take(int)
            v = [take(int) for _ in range(k)]
            if min(v) < 1 or max(v) > len(X): raise Bad("Netgen: an element refers to a node that does not exist")
            reg[r].append((code, tuple(X[i - 1] for i in v)))
        out.append(reg)
    if p != len(t): raise Bad("Netgen: %d numbers behind the end" % (len(t) - p))
    return X, out

FCODE = {3: "TRIANGLE3", 4: "SQUARE4", 6: "TRIANGLE6", 8: "SQUARE8"}

def is_surface(els, m):
    """None if the elements are exactly the outer faces of the mesh"""
    got = collections.Counter((c, frozenset(v)) for c, v in els)
    want = collections.Counter((FCODE[len(al)], frozenset(m.nodes[x] for x in al)) for _, al in outer_faces(m).values())
    if got == want: return None
    x = list((got - want) or (want - got))[0]
    return "the region of the whole surface has %d elements instead of %d, e.g. %s: %s" % (sum(got.values()), sum(want.values()), "extra" if got - want else "missing", (x[0], sorted(x[1])))

def implicit(got, want, m):
    """regions that are created by the library: their content is given by the mesh"""
    if "NAMELESS_ELEMENT_SET" not in want: got.pop("NAMELESS_ELEMENT_SET", None)
    if "SURFACE" not in want and "SURFACE" in got:
        x = is_surface(got.pop("SURFACE")[1], m)
        if x: raise Bad(x)
    return got

class Output:
    TARGET, MAXRANKS, LEVEL = "mesio", 6, "exploration"
    BUDGET = {"quick": (2000, 45), "thorough": (10**9, 1200)}
    REAL, STUB = REAL, STUB
    ASSUME = ["at least 24 volume elements per process", "coordinates are representable exactly in the output format"]
    def base(self, rng):
        ranks, threads = rng.choice([1, 2, 3, 4, 5, 6]), rng.choice([1, 1, 2, 3])
        s = {"mseed": rng.getrandbits(40), "size": size_for(rng, ranks), "quadratic": rng.random() < .3, "writer": rng.choice(["MPI", "MPI_COLLECTIVE"]),
             "stripe": rng.choice([1, 7, 64, 100, 512, 1024, 4096, 1048576]), "writers": rng.choice([ranks, ranks, rng.randint(1, ranks)]), "decomposer": rng.choice(["NONE", "HILBERT_CURVE", "METIS", "PARMETIS"])}
        s["job"] = {"seed": rng.getrandbits(31), "ranks": ranks, "threads": threads, "ppn": rng.choice([1, 2, 64]), "args": ["mesio", "-c", "espreso.ecf"],
                    "p": F.schedule(rng, ranks, threads), "maxsteps": 20000000}
        return s
    def build(self, s):
        r = random.Random(s["mseed"])
        kinds = ["tetra"] if s.get("fmt") == "NETGEN" else ["hex", "prism", "pyramid", "tetra", "mixed"]
        m = meshgen.build(r, kinds=kinds, quadratic=s["quadratic"], partition=True, size=s["size"], unit=8.0, nbreg=(0, 3), nnreg=(0, 2))
        if s.get("carve"): meshgen.carve(m, r, s["carve"])
        return m, r
    def ecf(self, s, path, out, dec=""):
        return ("INPUT { FORMAT ENSIGHT; PATH %s; KEEP_MATERIAL_SETS FALSE; THIRD_PARTY_SCALABILITY_LIMIT %d; CONVERT_DATABASE %s; DECOMPOSITION { PARALLEL_DECOMPOSER %s; %s } }\nOUTPUT { WRITER %s; STRIPE_SIZE %d; %s }\n"
                % (path, s["writers"], s.get("convert", "TRUE"), s["decomposer"], dec, s["writer"], s["stripe"], out))
    def shrink(self, s):
        def alt(**kw):
            t = copy.deepcopy(s)
            for a, x in kw.items(): (t["job"] if a in t["job"] else t)[a] = x
            t["writers"] = min(t["writers"], t["job"]["ranks"])
            return t
        j = s["job"]
        if j["p"]: yield alt(p={})
        if j["threads"] > 1: yield alt(threads=1)
        for r in range(1, j["ranks"]): yield alt(ranks=r)
        for a, x in (("quadratic", False), ("decomposer", "NONE"), ("writer", "MPI"), ("stripe", 1048576), ("domains", 1), ("force", False), ("septype", False), ("sepreg", False)):
            if a in s and s[a] != x: yield alt(**{a: x})
        if s["writers"] != j["ranks"]: yield alt(writers=j["ranks"])
        if s.get("stale"): yield alt(stale=None)

class C06(Output):
    ID = "C06"
    RULE = "scenario = random mesh x output format x writer, stripe, number of writers x processes/threads x decomposer x schedule and fault profile; non-trivial = more than one process or thread and the interleaving was new"
    def gen(self, rng, i, tier):
        s = self.base(rng)
        s["fmt"] = rng.choice(["ENSIGHT", "VTK_LEGACY", "VTK_LEGACY", "STL_SURFACE", "NETGEN"])
        if s["fmt"] == "NETGEN": s["quadratic"] = False
        if s["fmt"] == "STL_SURFACE": s["quadratic"] = False
        if rng.random() < .15: s["stale"] = rng.getrandbits(40)   # files of a previous run are in the output directory
        return s
    def run(self, s, ctx):
        m, r = self.build(s)
        j = s["job"]
        def prepare(d):
            path = formats.write_ensight(m, d + "/in", r)
            open(d + "/espreso.ecf", "w").write(self.ecf(s, path.replace(d + "/", ""), "FORMAT %s;" % s["fmt"]))
        if s.get("stale"):
            old = self.build(dict(s, mseed=s["stale"]))
            def before(d): open(d + "/espreso.ecf", "w").write(self.ecf(s, formats.write_ensight(old[0], d + "/in", old[1]).replace(d + "/", ""), "FORMAT %s;" % s["fmt"]))
            ctx.sim(F.job(s, p={}), before, name="r")
        res = ctx.sim(F.job(s), prepare, name="r", keep=bool(s.get("stale")))
        if len(m.elements) < PER_RANK * j["ranks"]:
            ctx.cover.append("out-of-domain"); return None
        v = F.abnormal(res)
        if v: return v
        want = formats.canonical(m)
        def one(pat):
            g = glob.glob(res["dir"] + "/results/last/**/" + pat, recursive=True)
            if len(g) != 1: raise Bad("expected one %s, found %d" % (pat, len(g)))
            return g[0]
        try:
            if s["fmt"] == "ENSIGHT":
                x = formats.diff(implicit(formats.canonical_parts(formats.read_ensight_geo(one("*.geo")), 3), want, m), want)
                case = formats.read_case(one("*.case"))
                if not x and (not case["model"] or not os.path.exists(os.path.join(os.path.dirname(one("*.case")), case["model"]))): x = "the case file refers to geometry %s" % case["model"]
            elif s["fmt"] == "VTK_LEGACY":
                got = {}
                for name in [os.path.basename(f) for f in glob.glob(res["dir"] + "/results/last/*.vtk")]:
                    region = name[:-4].split(".", 1)[1]
                    X, groups, _ = formats.read_vtk(res["dir"] + "/results/last/" + name)
                    got.update(formats.canonical_parts([(region, X, groups)], 3))
                if s.get("stale"): got = {k: v for k, v in got.items() if k in want or k not in formats.canonical(old[0])}
                x = formats.diff(implicit(got, want, m), want)
            elif s["fmt"] == "STL_SURFACE":
                x = check_stl(one("*.stl"), m)
            else:
                X, (els, faces) = read_netgen(one("*.mesh"))
                if set(X) != set(m.nodes.values()): raise Bad("Netgen: %d nodes are stored instead of %d" % (len(X), len(m.nodes)))
                # regions are numbered, their order is the order of the database
                got = {"E%d" % i: ("E", sorted(l)) for i, l in els.items()}
                got.update({"B%d" % i: ("B", sorted(l)) for i, l in faces.items()})
                w = {"E%d" % (i + 1): want[n] for i, n in enumerate(m.eregions)}
                w.update({"B%d" % (i + 1): want[n] for i, n in enumerate(m.bregions)})
                extra = "B%d" % (len(m.bregions) + 1)
                x = extra in got and is_surface(got.pop(extra)[1], m) or formats.diff(got, w)
        except Bad as e:
            return {"class": "output-malformed", "detail": "%s: %s" % (s["fmt"], e)}
        if x: return {"class": "output-differs", "detail": "%s: %s" % (s["fmt"], x[:300])}
        ctx.trivial = j["ranks"] * j["threads"] == 1
        ctx.cover += ["fmt:" + s["fmt"], "writer:" + s["writer"], "stripe:%d" % s["stripe"], "decomposer:" + s["decomposer"], "ranks:%d" % j["ranks"], "threads:%d" % j["threads"],
                      "writers<ranks" if s["writers"] < j["ranks"] else "writers=ranks", "quadratic" if s["quadratic"] else "linear"]
        return None


def components(nodes, edges):
    comp = {}
    for n in nodes:
        if n in comp: continue
        comp[n] = n
        stack = [n]
        while stack:
            for k in edges.get(stack.pop(), ()):
                if k not in comp:
                    comp[k] = n
                    stack.append(k)
    return comp

class C09(Output):
    ID = "C09"
    RULE = "scenario = random mesh (with holes, more bodies, bodies touching at nodes or edges) x decomposers and their options x processes/threads x schedule and fault profile; non-trivial = more than one process or domain and the interleaving was new"
    def gen(self, rng, i, tier):
        s = self.base(rng)
        s["fmt"] = rng.choice(["ENSIGHT", "ENSIGHT", "VTK_LEGACY"])
        s["carve"] = rng.choice([0, .9, .7, .5])
        s["domains"] = rng.choice([0, 1, 2, 3, 4, 6])
        s["force"], s["sepreg"], s["septype"], s["sepmat"] = (rng.random() < .3 for _ in range(4))
        s["seq"] = rng.choice(["METIS", "METIS", "METIS", "NONE"])
        return s
    def run(self, s, ctx):
        m, r = self.build(s)
        j = s["job"]
        dec = "SEQUENTIAL_DECOMPOSER %s; DOMAINS %d; FORCE_CONTINUITY %d; SEPARATE_REGIONS %d; SEPARATE_ETYPES %d; SEPARATE_MATERIALS %d;" % (s["seq"], s["domains"], s["force"], s["sepreg"], s["septype"], s["sepmat"])
        def prepare(d):
            path = formats.write_ensight(m, d + "/in", r)
            open(d + "/espreso.ecf", "w").write(self.ecf(s, path.replace(d + "/", ""), "FORMAT %s; STORE_DECOMPOSITION 1;" % s["fmt"], dec))
        if len(m.elements) < PER_RANK * j["ranks"]:
            ctx.cover.append("out-of-domain"); return None
        res = ctx.sim(F.job(s), prepare)
        v = F.abnormal(res)
        if v: return v
        try:
            x = self.oracle(s, ctx, m, res)
        except Bad as e:
            return {"class": "output-malformed", "detail": "%s: %s" % (s["fmt"], e)}
        if x: return {"class": "decomposition", "detail": x[:300]}
        ctx.trivial = j["ranks"] == 1 and s["domains"] < 2
        ctx.cover += ["fmt:" + s["fmt"], "decomposer:" + s["decomposer"], "sequential:" + s["seq"], "ranks:%d" % j["ranks"], "threads:%d" % j["threads"], "domains:%d" % s["domains"]]
        ctx.cover += [k for k in ("force", "sepreg", "septype", "sepmat", "quadratic", "carve") if s[k]]
        return None
    def oracle(self, s, ctx, m, res):
        last = res["dir"] + "/results/last/"
        names = ["DOMAIN", "CLUSTER", "MPI"] + (["BODY"] if s["fmt"] == "ENSIGHT" else [])
        val, region = {}, {}
        def put(key, reg, vals):
            vals = tuple(vals)
            if any(x != int(x) for x in vals): raise Bad("decomposition is not an integer: %s" % (vals,))
            if val.setdefault(key, vals) != vals: raise Bad("element %s has different decomposition in two regions" % (key,))
            region.setdefault(key, set()).add(reg)
        if s["fmt"] == "ENSIGHT":
            geo = glob.glob(last + "**/*.geo", recursive=True)
            if len(geo) != 1: raise Bad("expected one geometry, found %d" % len(geo))
            parts = formats.read_ensight_geo(geo[0])
            V = {}
            for n in names:
                f = glob.glob(last + "**/" + n, recursive=True)
                if len(f) != 1: raise Bad("expected one file %s, found %d" % (n, len(f)))
                eparts = [p if formats.DIM.get(p[2][0][0] if p[2] else "", 0) == 3 else (p[0], p[1], []) for p in parts]
                V[n] = formats.read_ensight_var(f[0], eparts, 1, "element")
            for name, X, groups in parts:
                if not groups or formats.DIM[groups[0][0]] != 3: continue
                for k in names:
                    if name not in V[k]: raise Bad("%s: no values of %s" % (k, name))
                els = [(code, tuple(X[n] for n in e)) for code, es in groups for e in es]
                for i, e in enumerate(els): put(e, name, (V[k][name][i][0] for k in names))
        else:
            for f in glob.glob(last + "*.vtk"):
                X, groups, data = formats.read_vtk(f)
                if not data["CELLS"] or formats.DIM[data["CELLS"][0][0]] != 3: continue
                for k in names:
                    if k not in data["CELL"]: raise Bad("%s is not stored in %s" % (k, os.path.basename(f)))
                for i, (code, e) in enumerate(data["CELLS"]): put((code, tuple(X[n] for n in e)), os.path.basename(f), (data["CELL"][k][i][0] for k in names))
        want = {(c, tuple(m.nodes[x] for x in v)) for _, c, v in m.elements}
        if set(val) != want: return "%d elements have a decomposition, the mesh has %d elements" % (len(val), len(want))
        E = list(val)
        dom, clu, mpi = ({e: int(val[e][k]) for e in E} for k in range(3))
        ranks = s["job"]["ranks"]
        if set(mpi.values()) != set(range(ranks)): return "elements are owned by processes %s, %d are running" % (sorted(set(mpi.values())), ranks)
        def inside(a, b, what, ordered=True):
            up = {}
            for e in E:
                if up.setdefault(a[e], b[e]) != b[e]: raise Bad("%s: %d is divided among %d and %d" % (what, a[e], up[a[e]], b[e]))
            ids = sorted(up)
            if ids != list(range(len(ids))): raise Bad("%s: ids are not contiguous: %s" % (what, ids[:20]))
            if ordered and [up[i] for i in ids] != sorted(up.values()): raise Bad("%s: ids are not ordered by processes" % what)
            return up
        dm = inside(dom, mpi, "domains")
        inside(dom, clu, "domains in clusters", False)
        inside(clu, mpi, "clusters")
        # adjacency through faces
        byface = collections.defaultdict(list)
        for e in E:
            lin = next((a for a, b in meshgen.QUAD.items() if b == e[0]), e[0])
            for f in meshgen.FACES[lin]: byface[frozenset(e[1][x] for x in f)].append(e)
        adj, dadj = collections.defaultdict(set), collections.defaultdict(set)
        for l in byface.values():
            if len(l) > 2: raise Bad("the generated mesh has a face with %d elements" % len(l))
            if len(l) == 2:
                a, b = l
                adj[a].add(b); adj[b].add(a)
                if mpi[a] == mpi[b] and dom[a] != dom[b]:
                    dadj[dom[a]].add(dom[b]); dadj[dom[b]].add(dom[a])
        # clusters are connected components of domains of a process
        comp = components(sorted(dm), dadj)
        cl = {}
        for e in E: cl[dom[e]] = clu[e]
        for d in comp:
            if cl[d] != cl[comp[d]]: return "domains %d and %d are connected, but in clusters %d and %d" % (d, comp[d], cl[d], cl[comp[d]])
        if len(set(comp.values())) != len(set(cl.values())): return "%d clusters are stored, domains have %d connected components" % (len(set(cl.values())), len(set(comp.values())))
        ctx.cover.append("clusters>ranks" if len(set(cl.values())) > ranks else "clusters=ranks")
        # bodies are connected components of the mesh
        if len(names) == 4:
            body = {e: int(val[e][3]) for e in E}
            comp = components(E, adj)
            n = len(set(comp.values()))
            for e in E:
                if body[e] != body[comp[e]]: return "two connected elements are in bodies %d and %d" % (body[e], body[comp[e]])
            if set(body.values()) != set(range(n)): return "%d bodies are stored, the mesh has %d connected components" % (len(set(body.values())), n)
            ctx.cover.append("bodies:%d" % min(n, 5))
        if s["sepreg"]:
            r = {}
            for e in E:
                if r.setdefault(dom[e], region[e]) != region[e]: return "domain %d is not separated by regions" % dom[e]
        # a domain never joins parts of a process that are not connected
        sadj = {e: [k for k in adj[e] if mpi[k] == mpi[e] and (not s["sepreg"] or region[k] == region[e])] for e in E}
        comp = components(E, sadj)
        per = collections.defaultdict(set)
        for e in E: per[dom[e]].add(comp[e])
        for d in per:
            if len(per[d]) > 1: return "domain %d joins %d parts of the mesh that are not connected" % (d, len(per[d]))
        # number of domains
        req = s["domains"] or s["job"]["threads"]
        parts = collections.defaultdict(set); cnt = collections.Counter(dm.values())
        for e in E: parts[mpi[e]].add(comp[e])
        for k in range(ranks):
            ctx.cover.append("D%+d" % (cnt[k] - (req if s["seq"] != "NONE" else 1)) if len(parts[k]) == 1 else "DP%+d" % min(9, cnt[k] - req))
        return None
