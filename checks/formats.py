"""Writers of every input database format (from a truth mesh) and readers of every output database
format (into canonical form).  Written from the format definitions, not from espreso's code."""
import os, struct, re
from meshgen import NODES, DIM

ENS = dict(POINT1="point", LINE2="bar2", LINE3="bar3", TRIANGLE3="tria3", TRIANGLE6="tria6", SQUARE4="quad4", SQUARE8="quad8",
           TETRA4="tetra4", TETRA10="tetra10", PYRAMID5="pyramid5", PYRAMID13="pyramid13", PRISMA6="penta6", PRISMA15="penta15",
           HEXA8="hexa8", HEXA20="hexa20")
UNENS = {v: k for k, v in ENS.items()}
VTK = dict(POINT1=1, LINE2=3, LINE3=21, TRIANGLE3=5, TRIANGLE6=22, SQUARE4=9, SQUARE8=23, TETRA4=10, TETRA10=24,
           PYRAMID5=14, PYRAMID13=27, PRISMA6=13, PRISMA15=26, HEXA8=12, HEXA20=25)
UNVTK = {v: k for k, v in VTK.items()}


class Bad(Exception):
    """an output database is malformed"""


# ---------------------------------------------------------------------------------------- truth
def parts_of(m, partition_elements=True):
    """[(name, dim, [(code, nodes)...])] the regions as parts with geometry of their own"""
    el = {e[0]: e for e in m.elements}
    fc = {f[0]: f for f in m.faces}
    out = []
    for n, ids in m.eregions.items(): out.append((n, m.dim, [(el[i][1], el[i][2]) for i in ids]))
    for n, ids in m.bregions.items(): out.append((n, m.dim - 1, [(fc[i][1], fc[i][2]) for i in ids]))
    for n, ids in m.nregions.items(): out.append((n, 0, [("POINT1", [i]) for i in ids]))
    return out


def canonical(m, eregions=None, bregions=None, nregions=None):
    """canonical form {region: (kind, sorted list of elements as (code, coordinates...))}"""
    el = {e[0]: e for e in m.elements}
    fc = {f[0]: f for f in m.faces}
    c = {}
    X = m.nodes
    for n, ids in (m.eregions if eregions is None else eregions).items():
        c[n] = ("E", sorted((el[i][1], tuple(X[k] for k in el[i][2])) for i in ids))
    for n, ids in (m.bregions if bregions is None else bregions).items():
        c[n] = ("B", sorted((fc[i][1], tuple(X[k] for k in fc[i][2])) for i in ids))
    for n, ids in (m.nregions if nregions is None else nregions).items():
        c[n] = ("N", sorted(X[i] for i in set(ids)))
    return c


# --------------------------------------------------------------------------------------- writers
def fnum(x, rng=None):
    """a decimal form that reads back exactly"""
    s = repr(float(x))
    if rng is None: return s
    r = rng.random()
    if r < .3 and x == int(x): return str(int(x))
    if r < .6: return "%.10e" % x
    return s


def write_vtk(m, path, rng, crlf=False):
    """one file per region: <path>/m.<region>.vtk"""
    os.makedirs(path, exist_ok=True)
    for name, dim, cells in parts_of(m):
        used = []
        seen = {}
        for _, v in cells:
            for n in v:
                if n not in seen: seen[n] = len(used); used.append(n)
        if rng.random() < .5:
            rng.shuffle(used); seen = {n: i for i, n in enumerate(used)}
        L = ["# vtk DataFile Version 2.0", "generated", "ASCII", "DATASET UNSTRUCTURED_GRID"]
        if rng.random() < .3: L.append("")
        L.append("POINTS %d float" % len(used))
        for n in used: L.append(" ".join(fnum(x, rng) for x in m.nodes[n]))
        if rng.random() < .3: L.append("")
        L.append("CELLS %d %d" % (len(cells), sum(len(v) + 1 for _, v in cells)))
        for _, v in cells: L.append("%d %s" % (len(v), " ".join(str(seen[n]) for n in v)))
        if rng.random() < .3: L.append("")
        L.append("CELL_TYPES %d" % len(cells))
        for c, _ in cells: L.append(str(VTK[c]))
        if rng.random() < .2:
            L.append("CELL_DATA %d" % len(cells)); L.append("SCALARS s float 1"); L.append("LOOKUP_TABLE default")
            for _ in cells: L.append("1.5")
        with open(os.path.join(path, "m.%s.vtk" % name), "wb") as f:
            f.write((("\r\n" if crlf else "\n").join(L) + "\n").encode())
    return os.path.join(path, "m.*.vtk")


def _local(m, cells, rng):
    used, seen = [], {}
    for _, v in cells:
        for n in v:
            if n not in seen: seen[n] = len(used); used.append(n)
    if rng.random() < .5:
        rng.shuffle(used); seen = {n: i for i, n in enumerate(used)}
    return used, seen


def write_ensight(m, path, rng, ascii=False, ids=False):
    os.makedirs(path, exist_ok=True)
    with open(os.path.join(path, "m.case"), "w") as f:
        f.write("FORMAT\ntype: ensight gold\n\nGEOMETRY\nmodel: m.geo\n\nVARIABLE\n")
    parts = parts_of(m)
    nid, eid = ids and rng.random() < .5, ids and rng.random() < .5
    if ascii:
        L = ["geometry", "generated", "node id " + ("given" if nid else rng.choice(["off", "assign"])), "element id " + ("given" if eid else rng.choice(["off", "assign"]))]
        for p, (name, dim, cells) in enumerate(parts):
            used, seen = _local(m, cells, rng)
            L += ["part", "%10d" % (p + 1), name, "coordinates", "%10d" % len(used)]
            if nid: L += ["%10d" % n for n in used]
            for d in range(3): L += ["%12.5E" % m.nodes[n][d] for n in used]
            for code in _codes(cells, rng):
                es = [v for c, v in cells if c == code]
                L += [ENS[code], "%10d" % len(es)]
                if eid: L += ["%10d" % (i + 1) for i in range(len(es))]
                for v in es: L.append("".join("%10d" % (seen[n] + 1) for n in v))
        with open(os.path.join(path, "m.geo"), "wb") as f: f.write(("\n".join(L) + "\n").encode())
    else:
        B = bytearray()
        def d(s): B.extend(s.encode()[:79].ljust(80, b"\0"))
        def i(*v): B.extend(struct.pack("<%di" % len(v), *v))
        d("C Binary"); d("geometry"); d("generated")
        d("node id " + ("given" if nid else rng.choice(["off", "assign"])))
        d("element id " + ("given" if eid else rng.choice(["off", "assign"])))
        for p, (name, dim, cells) in enumerate(parts):
            used, seen = _local(m, cells, rng)
            d("part"); i(p + 1); d(name); d("coordinates"); i(len(used))
            if nid: i(*used)
            for k in range(3): B.extend(struct.pack("<%df" % len(used), *[m.nodes[n][k] for n in used]))
            for code in _codes(cells, rng):
                es = [v for c, v in cells if c == code]
                d(ENS[code]); i(len(es))
                if eid: i(*range(1, len(es) + 1))
                for v in es: i(*[seen[n] + 1 for n in v])
        with open(os.path.join(path, "m.geo"), "wb") as f: f.write(B)
    return os.path.join(path, "m.case")


def _codes(cells, rng):
    codes = sorted(set(c for c, _ in cells))
    rng.shuffle(codes)
    return codes


def write_netgen(m, path, rng):
    """tetrahedra and surface triangles; regions are numbered"""
    os.makedirs(path, exist_ok=True)
    ids = {n: i + 1 for i, n in enumerate(m.norder)}
    ereg = {}
    for r, (name, l) in enumerate(m.eregions.items()):
        for e in l: ereg[e] = r + 1
    breg = {}
    for r, (name, l) in enumerate(m.bregions.items()):
        for e in l: breg[e] = r + 1
    L = [str(len(ids))]
    for n in m.norder: L.append(" ".join(fnum(x) for x in m.nodes[n]))
    L.append(str(len(m.elements)))
    for e in m.elements: L.append("%d %s" % (ereg[e[0]], " ".join(str(ids[n]) for n in e[2])))
    L.append(str(len(m.faces)))
    for e in m.faces: L.append("%d %s" % (breg[e[0]], " ".join(str(ids[n]) for n in e[2])))
    f = os.path.join(path, "m.neu")
    with open(f, "wb") as o: o.write(("\n".join(L) + "\n").encode())
    return f


def netgen_truth(m):
    return canonical(m, {"ELEMENTS_%d" % (i + 1): v for i, v in enumerate(m.eregions.values())},
                     {"BOUNDARY_%d" % (i + 1): v for i, v in enumerate(m.bregions.values())}, {})


NEPER_T = dict(TETRA4=4, HEXA8=5, PRISMA6=6, TETRA10=11, HEXA20=17, PRISMA15=18, TRIANGLE3=2, SQUARE4=3, TRIANGLE6=9, SQUARE8=16)
# gmsh position of each VTK-ordered node
GMSH = dict(TETRA10=[0, 1, 2, 3, 4, 5, 6, 7, 9, 8],
            HEXA20=[0, 1, 2, 3, 4, 5, 6, 7, 8, 11, 13, 9, 16, 18, 19, 17, 10, 12, 14, 15],
            PRISMA15=[0, 1, 2, 3, 4, 5, 6, 9, 7, 12, 14, 13, 8, 10, 11])


def write_neper(m, path, rng):
    """cells (polyhedra) are numbered, groups of cells are the element regions"""
    os.makedirs(path, exist_ok=True)
    m.groups = [rng.randint(1, max(1, len(m.eregions) - 1)) for _ in m.eregions]
    reg = {}
    for r, (name, l) in enumerate(m.eregions.items()):
        for e in l: reg[e] = r + 1
    L = ["$MeshFormat", "2.2 0 8", "$EndMeshFormat", "$MeshVersion", "2.2.1", "$EndMeshVersion", "$Nodes", str(len(m.nodes))]
    for n in m.norder: L.append("%d %s" % (n, " ".join("%.12f" % x for x in m.nodes[n])))
    L += ["$EndNodes", "$Elements", str(len(m.faces) + len(m.elements))]
    for e in m.faces: L.append("%d %d 3 1 1 0 %s" % (e[0], NEPER_T[e[1]], " ".join(map(str, e[2]))))
    for e in m.elements:
        v = e[2]
        if e[1] in GMSH:
            g = [0] * len(v)
            for i, p in enumerate(GMSH[e[1]]): g[p] = v[i]
            v = g
        L.append("%d %d 3 %d %d 0 %s" % (e[0], NEPER_T[e[1]], reg[e[0]], reg[e[0]], " ".join(map(str, v))))
    L += ["$EndElements", "$NSets", str(len(m.nregions))]
    for name, l in m.nregions.items(): L += [name, str(len(l))] + [str(x) for x in l]
    L += ["$EndNSets", "$Fasets", "0", "$EndFasets", "$PhysicalNames", "1", "0 1 ver1", "$EndPhysicalNames",
          "$ElsetOrientations", "%d rodrigues:active" % len(m.eregions)]
    for i in range(len(m.eregions)): L.append("%d    0.919953402851    1.412193625247   -0.358468593221" % (i + 1))
    L += ["$EndElsetOrientations", "$Groups", "elset", str(len(m.eregions))]
    for i in range(len(m.eregions)): L.append("%d %d" % (i + 1, m.groups[i]))
    L += ["$EndGroups"]
    f = os.path.join(path, "m.msh")
    with open(f, "wb") as o: o.write(("\n".join(L) + "\n").encode())
    return f


def neper_truth(m):
    g = {}
    for i, v in enumerate(m.eregions.values()): g.setdefault("GROUP_%d" % m.groups[i], []).extend(v)
    return canonical(m, g, {}, None)


def _solid(code, v):
    """the (possibly degenerated) node list of a solid element"""
    if code == "HEXA8": return v
    if code == "PRISMA6": return [v[0], v[1], v[2], v[2], v[3], v[4], v[5], v[5]]
    if code == "PYRAMID5": return [v[0], v[1], v[2], v[3]] + [v[4]] * 4
    if code == "TETRA4": return [v[0], v[1], v[2], v[2]] + [v[3]] * 4
    if code == "HEXA20": return v
    if code == "PRISMA15":
        c, e = v[:6], v[6:]
        return [c[0], c[1], c[2], c[2], c[3], c[4], c[5], c[5], e[0], e[1], c[2], e[2], e[3], e[4], c[5], e[5], e[6], e[7], e[8], e[8]]
    if code == "PYRAMID13":
        c, e = v[:5], v[5:]
        return c[:4] + [c[4]] * 4 + e[:4] + [c[4]] * 4 + e[4:8]
    if code == "TETRA10":
        c, e = v[:4], v[4:]
        return [c[0], c[1], c[2], c[2]] + [c[3]] * 4 + [e[0], e[1], c[2], e[2]] + [c[3]] * 4 + [e[3], e[4], e[5], e[5]]
    raise KeyError(code)


def _shell(code, v):
    if code in ("SQUARE4", "SQUARE8"): return v
    if code == "TRIANGLE3": return [v[0], v[1], v[2], v[2]]
    if code == "TRIANGLE6": return [v[0], v[1], v[2], v[2], v[3], v[4], v[2], v[5]]
    raise KeyError(code)


def write_cdb(m, path, rng, crlf=False, style=None):
    os.makedirs(path, exist_ok=True)
    quad = any(NODES[e[1]] in (10, 13, 15, 20) for e in m.elements)
    W = 9
    L = ["/COM,ANSYS RELEASE 19.2    BUILD 19.2", "/PREP7", "/NOPR", "/TITLE,generated", "*IF,_CDRDOFF,EQ,1,THEN", "_CDRDOFF= ", "*ENDIF"]
    tets = set(e[1] for e in m.elements)
    direct = not quad and tets == {"TETRA4"} and rng.random() < .5
    direct10 = quad and tets == {"TETRA10"} and rng.random() < .5
    t = 285 if direct else 187 if direct10 else 186 if quad else 185
    L.append("et,1,%d" % t)
    L.append("et,2,%d" % (154))
    hdr = rng.choice(["upper", "lower"])
    U = (lambda s: s.upper()) if hdr == "upper" else (lambda s: s.lower())
    L.append(U("nblock") + ",3,,%d" % len(m.nodes))
    L.append("(3i%d,6e20.13)" % W)
    for n in m.norder:
        x = list(m.nodes[n])
        while len(x) > 1 and x[-1] == 0 and rng.random() < .0: x.pop()
        L.append("%*d%*d%*d" % (W, n, W, 0, W, 0) + "".join("%20.13E" % c for c in x))
    L.append(rng.choice(["N,R5.3,LOC,       -1,", "n,r5.3,loc,       -1,"]))
    L.append(U("eblock") + ",19," + U("solid") + ",,%d" % len(m.elements))
    L.append("(19i%d)" % W)
    for e in m.elements:
        v = e[2] if (direct or direct10) else _solid(e[1], e[2])
        head = [1, 1, 1, 1, 0, 0, 0, 0, len(v), 0, e[0]]
        L.append("".join("%*d" % (W, k) for k in head + v[:8]))
        if len(v) > 8: L.append("".join("%*d" % (W, k) for k in v[8:]))
    L.append("%*d" % (W, -1))
    if m.faces:
        L.append(U("eblock") + ",10,,,%d" % len(m.faces))
        L.append("(15i%d)" % W)
        for e in m.faces:
            v = _shell(e[1], e[2])
            L.append("".join("%*d" % (W, k) for k in [e[0], 2, 2, 2, 0] + v))
        L.append("%*d" % (W, -1))
    def cm(name, kind, ids):
        ids = sorted(ids)
        items = []
        i = 0
        while i < len(ids):
            j = i
            while j + 1 < len(ids) and ids[j + 1] == ids[j] + 1: j += 1
            items.append(ids[i])
            if j > i:
                items.append(-ids[j]) if j > i + 1 or rng.random() < .5 else items.append(ids[j])
            i = j + 1
        L.append(U("cmblock") + "," + name.ljust(8) + "," + kind + "," + "%8d" % len(items))
        L.append("(8i10)")
        for k in range(0, len(items), 8): L.append("".join("%10d" % x for x in items[k:k + 8]))
    cms = [(n, "ELEM", l) for n, l in m.eregions.items()] + [(n, "ELEM", l) for n, l in m.bregions.items()] + [(n, "NODE", l) for n, l in m.nregions.items()]
    rng.shuffle(cms)
    for n, k, l in cms: cm(n, U(k), l)
    L += ["", "EXTOPT,ATTR,      0,      0,      0", "/GO", "FINISH"]
    f = os.path.join(path, "m.cdb")
    with open(f, "wb") as o: o.write((("\r\n" if crlf else "\n").join(L) + ("\r\n" if crlf else "\n")).encode())
    return f


# --------------------------------------------------------------------------------------- readers
def _f32(x):
    return struct.unpack("<f", struct.pack("<f", x))[0]


class Buf:
    def __init__(self, path):
        try: self.b = open(path, "rb").read()
        except OSError as e: raise Bad("missing output file: %s" % os.path.basename(path))
        self.o = 0; self.name = os.path.basename(path)
    def desc(self):
        if self.o + 80 > len(self.b): raise Bad("%s: truncated at %d" % (self.name, self.o))
        s = self.b[self.o:self.o + 80]; self.o += 80
        t = s.split(b"\0")[0]
        if s.rstrip(b"\0") != t: raise Bad("%s: garbage after description %r" % (self.name, s))
        return t.decode("latin1")
    def ints(self, n):
        if n < 0 or self.o + 4 * n > len(self.b): raise Bad("%s: truncated (%d ints at %d of %d)" % (self.name, n, self.o, len(self.b)))
        r = struct.unpack_from("<%di" % n, self.b, self.o); self.o += 4 * n
        return r
    def floats(self, n):
        if n < 0 or self.o + 4 * n > len(self.b): raise Bad("%s: truncated (%d floats at %d of %d)" % (self.name, n, self.o, len(self.b)))
        r = struct.unpack_from("<%df" % n, self.b, self.o); self.o += 4 * n
        return r
    def end(self): return self.o >= len(self.b)


def read_ensight_geo(path):
    """[(name, coords [(x,y,z)], [(code, [[local node indices]])])]"""
    f = Buf(path)
    if f.desc() != "C Binary": raise Bad(f.name + ": no 'C Binary' header")
    f.desc(); f.desc()
    if not f.desc().startswith("node id"): raise Bad(f.name + ": node id line")
    if not f.desc().startswith("element id"): raise Bad(f.name + ": element id line")
    parts = []
    number = 0
    while not f.end():
        d = f.desc()
        if d == "part":
            number += 1
            n, = f.ints(1)
            if n != number: raise Bad("%s: part number %d, expected %d" % (f.name, n, number))
            name = f.desc()
            if f.desc() != "coordinates": raise Bad(f.name + ": coordinates expected")
            n, = f.ints(1)
            x, y, z = f.floats(n), f.floats(n), f.floats(n)
            parts.append((name, list(zip(x, y, z)), []))
        elif d in UNENS and parts:
            n, = f.ints(1)
            k = NODES[UNENS[d]]
            v = f.ints(n * k)
            if n and (min(v) < 1 or max(v) > len(parts[-1][1])): raise Bad("%s: part %s: %s refers to a node that does not exist" % (f.name, parts[-1][0], d))
            parts[-1][2].append((UNENS[d], [[q - 1 for q in v[i * k:i * k + k]] for i in range(n)]))
        else:
            raise Bad("%s: unexpected record %r at %d" % (f.name, d, f.o - 80))
    return parts


def canonical_parts(parts, dim):
    c = {}
    for name, X, groups in parts:
        if name in c: raise Bad("part %s stored twice" % name)
        if len(set(X)) != len(X): raise Bad("part %s: a node is stored twice" % name)
        els = [(code, tuple(X[n] for n in v)) for code, es in groups for v in es]
        used = set(n for code, es in groups for v in es for n in v)
        if len(used) != len(X): raise Bad("part %s: %d stored nodes are not used by any element" % (name, len(X) - len(used)))
        kinds = set(DIM[c_] for c_, _ in els)
        if kinds == {0} or (not els and not X): c[name] = ("N", sorted(p[0] for _, p in els))
        elif kinds == {dim}: c[name] = ("E", sorted(els))
        elif kinds == {dim - 1}: c[name] = ("B", sorted(els))
        elif not els: c[name] = ("?", [])
        else: raise Bad("part %s mixes dimensions %s" % (name, sorted(kinds)))
    return c


def read_vtk(path):
    try: t = open(path).read()
    except OSError: raise Bad("missing output file: %s" % os.path.basename(path))
    except UnicodeDecodeError: raise Bad("%s: not a text file" % os.path.basename(path))
    nm = os.path.basename(path)
    L = t.split("\n")
    if not L[0].startswith("# vtk DataFile"): raise Bad(nm + ": no VTK header")
    if len(L) < 4 or L[2].strip() != "ASCII" or not L[3].startswith("DATASET UNSTRUCTURED_GRID"): raise Bad(nm + ": header")
    tok = "\n".join(L[4:]).split()
    p = 0
    def need(w):
        nonlocal p
        if p >= len(tok) or tok[p] != w: raise Bad("%s: %s expected, %r found" % (nm, w, tok[p] if p < len(tok) else "EOF"))
        p += 1
    def num(f=int):
        nonlocal p
        if p >= len(tok): raise Bad("%s: truncated" % nm)
        try: v = f(tok[p])
        except ValueError: raise Bad("%s: number expected, %r found" % (nm, tok[p]))
        p += 1
        return v
    need("POINTS"); n = num(); p += 1
    X = [(num(float), num(float), num(float)) for _ in range(n)]
    need("CELLS"); ne = num(); total = num()
    start = p
    cells = []
    for _ in range(ne):
        k = num()
        cells.append([num() for _ in range(k)])
    if p - start != total: raise Bad("%s: CELLS announces %d numbers, %d stored" % (nm, total, p - start))
    need("CELL_TYPES"); nt = num()
    if nt != ne: raise Bad("%s: %d cell types for %d cells" % (nm, nt, ne))
    types = [num() for _ in range(ne)]
    groups = {}
    for c, v in zip(types, cells):
        if c not in UNVTK or NODES[UNVTK[c]] != len(v): raise Bad("%s: cell type %d with %d nodes" % (nm, c, len(v)))
        if min(v) < 0 or max(v) >= n: raise Bad("%s: a cell refers to a node that does not exist" % nm)
        groups.setdefault(UNVTK[c], []).append(v)
    data = {"CELL": {}, "POINT": {}, "CELLS": [(UNVTK[c], v) for c, v in zip(types, cells)]}
    mode, cnt = None, 0
    while p < len(tok):
        if tok[p] in ("CELL_DATA", "POINT_DATA"):
            mode = tok[p][:-5]; p += 1; cnt = num()
            if cnt != (ne if mode == "CELL" else n): raise Bad("%s: %s_DATA for %d items" % (nm, mode, cnt))
        elif tok[p] == "SCALARS":
            name = tok[p + 1]; p += 3
            comp = 1
            if tok[p] != "LOOKUP_TABLE": comp = num()
            need("LOOKUP_TABLE"); p += 1
            data[mode][name] = [tuple(num(float) for _ in range(comp)) for _ in range(cnt)]
        elif tok[p] == "VECTORS":
            name = tok[p + 1]; p += 3
            data[mode][name] = [tuple(num(float) for _ in range(3)) for _ in range(cnt)]
        elif tok[p] == "TENSORS":
            name = tok[p + 1]; p += 3
            data[mode][name] = [tuple(num(float) for _ in range(9)) for _ in range(cnt)]
        else: raise Bad("%s: unexpected %r" % (nm, tok[p]))
    return X, sorted(groups.items()), data


def diff(got, want, what="", tol=None):
    """first difference between canonical forms, or None"""
    for name in sorted(set(got) | set(want)):
        if name not in want: return "%sregion %s is stored but not in the database" % (what, name)
        if name not in got: return "%sregion %s is missing" % (what, name)
        g, w = got[name], want[name]
        if g[0] == "?" and not w[1]: continue
        if g[1] == w[1] and (g[0] == w[0] or not w[1]): continue
        gs, ws = sorted(g[1]), sorted(w[1])
        missing = [x for x in ws if x not in set(gs)][:1]
        extra = [x for x in gs if x not in set(ws)][:1]
        return "%sregion %s: %d items stored, %d expected%s%s" % (what, name, len(gs), len(ws), "; e.g. missing %s" % (missing[0],) if missing else "", "; e.g. extra %s" % (extra[0],) if extra else "")
    return None


def read_ensight_var(path, parts, dim, per="node"):
    """values of a variable: {part name: [tuple per node (or element, in the order of the geometry)]}"""
    f = Buf(path)
    f.desc()
    out = {}
    for i, (name, X, groups) in enumerate(parts):
        if f.end(): break
        d = f.desc()
        if d != "part": raise Bad("%s: 'part' expected, found %r" % (f.name, d))
        n, = f.ints(1)
        if not 1 <= n <= len(parts): raise Bad("%s: part number %d" % (f.name, n))
        name, X, groups = parts[n - 1]
        if name in out: raise Bad("%s: part %s stored twice" % (f.name, name))
        if per == "node":
            if f.desc() != "coordinates": raise Bad(f.name + ": 'coordinates' expected")
            cols = [f.floats(len(X)) for _ in range(dim)]
            out[name] = list(zip(*cols))
        else:
            vals = []
            for code, es in groups:
                if f.desc() != ENS[code]: raise Bad("%s: '%s' expected" % (f.name, ENS[code]))
                cols = [f.floats(len(es)) for _ in range(dim)]
                vals += list(zip(*cols))
            out[name] = vals
    if not f.end(): raise Bad("%s: %d bytes behind the last part" % (f.name, len(f.b) - f.o))
    return out


def read_case(path):
    try: L = open(path).read().split("\n")
    except OSError: raise Bad("missing case file")
    c = {"model": None, "vars": {}, "times": [], "steps": None}
    sec = None
    it = iter(L)
    intimes = False
    for l in it:
        l = l.strip()
        if intimes:
            c["times"] += [float(x) for x in l.split()]
            continue
        if l.startswith("model:"): c["model"] = l.split(":")[1].strip()
        if " per node:" in l or " per element:" in l:
            kind, rest = l.split(":", 1)
            w = rest.split()
            if len(w) == 3: c["vars"][w[1]] = (kind.split()[0], kind.split()[-1], w[2])
            if len(w) == 2: c["vars"][w[0]] = (kind.split()[0], kind.split()[-1], w[1])
        if l.startswith("number of steps:"): c["steps"] = int(l.split(":")[1])
        if l.startswith("time values:"): intimes = True
    if c["steps"] is not None and c["steps"] != len(c["times"]): raise Bad("case file: number of steps %d, %d time values" % (c["steps"], len(c["times"])))
    return c
