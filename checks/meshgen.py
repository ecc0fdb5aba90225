"""Random meshes (the ground truth) and writers of every supported input database format.

A mesh keeps nodes {id: (x, y, z)} (coordinates are multiples of 1/64, hence exact in float32
and in the decimal notation used), elements [(id, code, [node ids])] with espreso element codes,
element regions, boundary (face) regions and node regions.  Everything is a function of the
random.Random instance given.
"""
import struct, math

NODES = dict(POINT1=1, LINE2=2, TRIANGLE3=3, SQUARE4=4, TETRA4=4, PYRAMID5=5, PRISMA6=6, HEXA8=8,
             LINE3=3, TRIANGLE6=6, SQUARE8=8, TETRA10=10, PYRAMID13=13, PRISMA15=15, HEXA20=20)
DIM = dict(POINT1=0, LINE2=1, LINE3=1, TRIANGLE3=2, TRIANGLE6=2, SQUARE4=2, SQUARE8=2,
           TETRA4=3, TETRA10=3, PYRAMID5=3, PYRAMID13=3, PRISMA6=3, PRISMA15=3, HEXA8=3, HEXA20=3)
QUAD = dict(LINE2="LINE3", TRIANGLE3="TRIANGLE6", SQUARE4="SQUARE8", TETRA4="TETRA10", PYRAMID5="PYRAMID13", PRISMA6="PRISMA15", HEXA8="HEXA20")
# edges in the order of mid-side nodes (VTK convention, which espreso uses)
EDGES = dict(
    LINE2=[(0, 1)],
    TRIANGLE3=[(0, 1), (1, 2), (2, 0)],
    SQUARE4=[(0, 1), (1, 2), (2, 3), (3, 0)],
    TETRA4=[(0, 1), (1, 2), (2, 0), (0, 3), (1, 3), (2, 3)],
    PYRAMID5=[(0, 1), (1, 2), (2, 3), (3, 0), (0, 4), (1, 4), (2, 4), (3, 4)],
    PRISMA6=[(0, 1), (1, 2), (2, 0), (3, 4), (4, 5), (5, 3), (0, 3), (1, 4), (2, 5)],
    HEXA8=[(0, 1), (1, 2), (2, 3), (3, 0), (4, 5), (5, 6), (6, 7), (7, 4), (0, 4), (1, 5), (2, 6), (3, 7)])
FACES = dict(
    TRIANGLE3=[(0, 1), (1, 2), (2, 0)],
    SQUARE4=[(0, 1), (1, 2), (2, 3), (3, 0)],
    TETRA4=[(0, 1, 3), (1, 2, 3), (2, 0, 3), (2, 1, 0)],
    PYRAMID5=[(3, 2, 1, 0), (0, 1, 4), (1, 2, 4), (2, 3, 4), (3, 0, 4)],
    PRISMA6=[(0, 1, 4, 3), (1, 2, 5, 4), (2, 0, 3, 5), (2, 1, 0), (3, 4, 5)],
    HEXA8=[(0, 1, 5, 4), (3, 2, 1, 0), (4, 5, 6, 7), (7, 6, 2, 3), (1, 2, 6, 5), (3, 0, 4, 7)])
FCODE = {2: "LINE2", 3: "TRIANGLE3", 4: "SQUARE4"}


class Mesh:
    def __init__(self):
        self.dim = 3
        self.nodes = {}       # id -> (x, y, z)
        self.elements = []    # (id, code, [nodes]) volume elements
        self.faces = []       # (id, code, [nodes]) boundary elements
        self.eregions = {}    # name -> [element ids]
        self.bregions = {}    # name -> [face ids]
        self.nregions = {}    # name -> [node ids]
        self.norder = []      # order in which nodes are written

    def xyz(self, n):
        return self.nodes[n]


def build(rng, kinds=("hex", "prism", "pyramid", "tetra", "mixed"), quadratic=False, size=None, dim=3,
          ids="contiguous", nereg=(1, 3), nbreg=(0, 2), nnreg=(0, 2), partition=False, unit=64.0):
    """partition: element regions are disjoint and cover all elements (formats where a region is a part)"""
    m = Mesh()
    m.dim = dim
    kind = rng.choice(list(kinds))
    nx, ny, nz = size or (rng.randint(1, 4), rng.randint(1, 4), rng.randint(1, 4))
    if dim == 2: nz = 0
    hx, hy, hz = (rng.choice([8, 16, 32, 64, 96] if unit == 64 else [2, 4, 8]) for _ in range(3))
    ox, oy, oz = (rng.randint(-int(unit), int(unit)) for _ in range(3))
    pts = {}          # key -> provisional index
    xyz = []
    def grid(i, j, k):    # indices in half cells so mid-side nodes have a place
        key = (i, j, k)
        if key not in pts:
            pts[key] = len(xyz)
            xyz.append(((ox + i * hx) / unit, (oy + j * hy) / unit, (oz + k * hz) / unit if dim == 3 else 0.0))
        return pts[key]
    mids = {}
    def mid(a, b):
        key = (min(a, b), max(a, b))
        if key not in mids:
            mids[key] = len(xyz)
            xyz.append(tuple((xyz[a][d] + xyz[b][d]) / 2 for d in range(3)))
        return mids[key]
    cells = []
    columns = {}
    if dim == 3:
        for k in range(nz):
            for j in range(ny):
                for i in range(nx):
                    v = [grid(4*i, 4*j, 4*k), grid(4*i+4, 4*j, 4*k), grid(4*i+4, 4*j+4, 4*k), grid(4*i, 4*j+4, 4*k),
                         grid(4*i, 4*j, 4*k+4), grid(4*i+4, 4*j, 4*k+4), grid(4*i+4, 4*j+4, 4*k+4), grid(4*i, 4*j+4, 4*k+4)]
                    kk = kind
                    if kind == "mixed":
                        col = columns.setdefault((i, j), rng.choice(["prism", "cell"]))
                        kk = "prism" if col == "prism" else rng.choice(["hex", "pyramid"])
                    if kk == "hex":
                        cells.append(("HEXA8", v))
                    elif kk == "prism":
                        cells.append(("PRISMA6", [v[0], v[1], v[2], v[4], v[5], v[6]]))
                        cells.append(("PRISMA6", [v[0], v[2], v[3], v[4], v[6], v[7]]))
                    elif kk == "pyramid":
                        c = grid(4*i+2, 4*j+2, 4*k+2)
                        for f in ((0, 1, 2, 3), (5, 4, 7, 6), (0, 4, 5, 1), (1, 5, 6, 2), (2, 6, 7, 3), (3, 7, 4, 0)):
                            cells.append(("PYRAMID5", [v[x] for x in f] + [c]))
                    else:
                        for p in ((0, 1, 2, 6), (0, 2, 3, 6), (0, 3, 7, 6), (0, 7, 4, 6), (0, 4, 5, 6), (0, 5, 1, 6)):
                            cells.append(("TETRA4", [v[x] for x in p]))
    else:
        for j in range(ny):
            for i in range(nx):
                v = [grid(4*i, 4*j, 0), grid(4*i+4, 4*j, 0), grid(4*i+4, 4*j+4, 0), grid(4*i, 4*j+4, 0)]
                kk = kind if kind in ("hex", "tetra") else rng.choice(["hex", "tetra"])
                if kk == "hex":
                    cells.append(("SQUARE4", v))
                else:
                    cells.append(("TRIANGLE3", [v[0], v[1], v[2]]))
                    cells.append(("TRIANGLE3", [v[0], v[2], v[3]]))
    # boundary faces: those used once
    count = {}
    for code, v in cells:
        for f in FACES[code]:
            count.setdefault(frozenset(v[x] for x in f), []).append([v[x] for x in f])
    outer = [fs[0] for fs in count.values() if len(fs) == 1]
    used_faces = []
    sides = []
    lim = [(min(p[d] for p in xyz), max(p[d] for p in xyz)) for d in range(3)]
    for d in range(3 if dim == 3 else 2):
        for s in (0, 1):
            sides.append([f for f in outer if all(xyz[n][d] == lim[d][s] for n in f)])
    def quad(code, v):
        if not quadratic: return code, list(v)
        return QUAD[code], list(v) + [mid(v[a], v[b]) for a, b in EDGES[code]]
    vol = [quad(c, v) for c, v in cells]
    nb = rng.randint(*nbreg)
    fcells, fregs = [], {}
    for b in range(nb):
        s = rng.choice(sides)
        part = s if rng.random() < .5 else rng.sample(s, rng.randint(1, len(s)))
        lst = []
        for f in part:
            key = frozenset(f)
            if any(k == key for k, _ in used_faces): continue
            lst.append(len(fcells)); fcells.append(quad(FCODE[len(f)], f)); used_faces.append((key, 0))
        if lst: fregs["SURF%d" % b] = lst
    # numbering
    n = len(xyz)
    if ids == "contiguous":
        nid = list(range(1, n + 1))
    elif ids == "sparse":
        nid = sorted(rng.sample(range(1, 5 * n + 10), n))
    perm = list(range(n)); rng.shuffle(perm)
    label = {p: nid[i] for i, p in enumerate(perm)} if rng.random() < .7 else {p: nid[p] for p in range(n)}
    for p in range(n): m.nodes[label[p]] = xyz[p]
    m.norder = sorted(m.nodes)
    ne = len(vol) + len(fcells)
    eids = list(range(1, ne + 1)) if ids == "contiguous" else sorted(rng.sample(range(1, 4 * ne + 10), ne))
    order = list(range(len(vol))); rng.shuffle(order)
    for i, o in enumerate(order):
        c, v = vol[o]
        m.elements.append((eids[i], c, [label[x] for x in v]))
    for i, (c, v) in enumerate(fcells):
        m.faces.append((eids[len(vol) + i], c, [label[x] for x in v]))
    for name, lst in fregs.items():
        m.bregions[name] = [m.faces[i][0] for i in lst]
    all_e = [e[0] for e in m.elements]
    k = rng.randint(*nereg)
    if partition:
        k = max(1, min(k, len(all_e)))
        cut = sorted(rng.sample(range(1, len(all_e)), k - 1)) if k > 1 else []
        cut = [0] + cut + [len(all_e)]
        for i in range(k): m.eregions["BODY%d" % i] = all_e[cut[i]:cut[i+1]]
    else:
        for i in range(k):
            m.eregions["BODY%d" % i] = sorted(rng.sample(all_e, rng.randint(1, len(all_e))))
    usednodes = sorted(m.nodes)
    for i in range(rng.randint(*nnreg)):
        m.nregions["NODES%d" % i] = sorted(rng.sample(usednodes, rng.randint(1, len(usednodes))))
    return m


def carve(m, rng, keep):
    """removes a random part of elements: more bodies, bodies that share only nodes or edges, holes"""
    cells = [e for e in m.elements]
    if rng.random() < .5:      # a slab along a random direction disappears
        d = rng.randrange(m.dim)
        mean = lambda e: sum(m.nodes[n][d] for n in e[2]) / len(e[2])
        vals = sorted(set(round(mean(e), 6) for e in cells))
        w = max(1, int(len(vals) * (1 - keep) / 2))
        a = rng.randrange(len(vals))
        gone = set(vals[a:a + w])
        left = [e for e in cells if round(mean(e), 6) not in gone]
    else:
        left = [e for e in cells if rng.random() < keep]
    if len(left) < 4: return m
    m.elements = left
    ids = set(e[0] for e in left)
    count = {}
    for _, code, v in left:
        lin = next((a for a, b in QUAD.items() if b == code), code)
        for f in FACES[lin]: 
            k = frozenset(v[x] for x in f)
            count[k] = count.get(k, 0) + 1
    corners = dict(TRIANGLE3=3, SQUARE4=4, TRIANGLE6=3, SQUARE8=4, LINE2=2, LINE3=2)
    m.faces = [f for f in m.faces if frozenset(f[2][:corners[f[1]]]) in count]
    fids = set(f[0] for f in m.faces)
    nodes = set(n for e in left for n in e[2])
    m.nodes = {n: x for n, x in m.nodes.items() if n in nodes}
    m.norder = [n for n in m.norder if n in nodes]
    for reg, ok in ((m.eregions, ids), (m.bregions, fids), (m.nregions, nodes)):
        for k in list(reg):
            reg[k] = [i for i in reg[k] if i in ok]
            if not reg[k]: del reg[k]
    return m


# ---------------------------------------------------------------------------------------------
def f12(x):
    return "%12.5E" % x   # EnSight ASCII
