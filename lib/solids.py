"""Closed, conforming triangle meshes from small JSON specs, plus STL writing and
the reference rotation.  Triangles are (3,3) float arrays wound outward."""
import math
import zlib
import random

import numpy as np


# ---------------------------------------------------------------- rotations
def rot_z(deg):
    a = math.radians(deg)
    c, s = math.cos(a), math.sin(a)
    return np.array([[c, -s, 0], [s, c, 0], [0, 0, 1.0]])


def view_matrix(ang, azm):
    """Column-vector rotation for view=[ang,azm] (degrees): first turn by ang
    counter-clockwise about z, then tip by azm about the page's x axis so that
    the old +z moves towards +y on the page."""
    b = math.radians(azm)
    c, s = math.cos(b), math.sin(b)
    tip = np.array([[1, 0, 0], [0, c, s], [0, -s, c]], float)
    return tip @ rot_z(ang)


NAMED = {
    # page (x, y, towards the viewer) in terms of model x, y, z
    "X+": np.array([[0, 1, 0], [0, 0, 1], [1, 0, 0]], float),
    "X-": np.array([[0, -1, 0], [0, 0, 1], [-1, 0, 0]], float),
    "Y+": np.array([[-1, 0, 0], [0, 0, 1], [0, 1, 0]], float),
    "Y-": np.array([[1, 0, 0], [0, 0, 1], [0, -1, 0]], float),
    "Z+": np.eye(3),
    "Z-": np.array([[1, 0, 0], [0, -1, 0], [0, 0, -1]], float),
}


def view_of(v):
    """v: None, name or [ang, azm]."""
    if v is None:
        return np.eye(3)
    if isinstance(v, str):
        return NAMED[v]
    return view_matrix(f32(v[0]), f32(v[1]))


def f32(x):
    return float(np.float32(x))


def num(x):
    """A script number token (the language has no exponents), in one of the ways to write it."""
    if isinstance(x, int):
        return respell(str(x))
    s = "%.6f" % x
    s = s.rstrip("0")
    return respell(s if not s.endswith(".") else s + "0")


def respell(s):
    k = zlib.crc32(s.encode()) % 10
    sign, a = (s[0], s[1:]) if s[0] in "+-" else ("", s)
    if k == 0 and a.startswith("0."):
        a = a[1:]
    elif k == 1 and a.endswith(".0"):
        a = a[:-1]
    elif k == 2:
        a = "00" + a
    elif k == 3 and "." in a:
        a += "00"
    if not sign and zlib.crc32(b"+" + s.encode()) % 8 == 0:
        sign = "+"
    return sign + a


def pt(p):
    return "[" + ",".join(num(c) for c in p) + "]"


def ptval(p):
    """The double-precision value the script's point has."""
    return np.array([f32(num(c)) for c in p])


def euler(r):
    a, b, c = r
    return rot_z(c) @ view_matrix(a, b)


# ---------------------------------------------------------------- builders
def _orient(tris):
    return [np.array(t, float) for t in tris]


def hull(points):
    from scipy.spatial import ConvexHull, QhullError
    P = np.array(points, float)
    try:
        h = ConvexHull(P)
    except (QhullError, ValueError):
        return None
    out = []
    for s, eq in zip(h.simplices, h.equations):
        a, b, c = P[s]
        n = np.cross(b - a, c - a)
        if np.linalg.norm(n) < 1e-9:
            return None
        out.append(np.array([a, b, c] if n @ eq[:3] > 0 else [a, c, b]))
    return out


_FACES = {  # axis, side -> corner offsets, counter-clockwise seen from outside
    (0, 1): [(1, 0, 0), (1, 1, 0), (1, 1, 1), (1, 0, 1)],
    (0, 0): [(0, 0, 0), (0, 0, 1), (0, 1, 1), (0, 1, 0)],
    (1, 1): [(0, 1, 0), (0, 1, 1), (1, 1, 1), (1, 1, 0)],
    (1, 0): [(0, 0, 0), (1, 0, 0), (1, 0, 1), (0, 0, 1)],
    (2, 1): [(0, 0, 1), (1, 0, 1), (1, 1, 1), (0, 1, 1)],
    (2, 0): [(0, 0, 0), (0, 1, 0), (1, 1, 0), (1, 0, 0)],
}


def _voxel_bad(cells):
    """A cell that is part of a non-manifold edge or vertex, or None."""
    S = set(cells)
    for (x, y, z) in sorted(S):
        for d in ((1, 1, 0), (1, -1, 0), (1, 0, 1), (1, 0, -1), (0, 1, 1), (0, 1, -1)):
            o = (x + d[0], y + d[1], z + d[2])
            if o in S:
                ax = [i for i in range(3) if d[i]]
                n1 = list((x, y, z))
                n1[ax[0]] += d[ax[0]]
                n2 = list((x, y, z))
                n2[ax[1]] += d[ax[1]]
                if tuple(n1) not in S and tuple(n2) not in S:
                    return o
        for dx in (1, -1):
            for dy in (1, -1):
                for dz in (1, -1):
                    o = (x + dx, y + dy, z + dz)
                    if o not in S:
                        continue
                    # connected through face steps inside the 2x2x2 block?
                    blk = {(x + a, y + b, z + c) for a in (0, dx) for b in (0, dy) for c in (0, dz)} & S
                    seen, st = set(), [(x, y, z)]
                    while st:
                        p = st.pop()
                        if p in seen:
                            continue
                        seen.add(p)
                        for q in blk:
                            if sum(abs(q[i] - p[i]) for i in range(3)) == 1:
                                st.append(q)
                    if o not in seen:
                        return o
                    # the complement must be connected as well
    # complement check around each vertex
    return None


def _voxel_bad_compl(cells, lo, hi):
    S = set(cells)
    E = {(x, y, z) for x in range(lo - 1, hi + 2) for y in range(lo - 1, hi + 2)
         for z in range(lo - 1, hi + 2)} - S
    for (x, y, z) in sorted(S):
        for dx in (1, -1):
            for dy in (1, -1):
                for dz in (1, -1):
                    blk = [(x + a, y + b, z + c) for a in (0, dx) for b in (0, dy) for c in (0, dz)]
                    emp = {p for p in blk if p in E}
                    if not emp:
                        continue
                    st, seen = [next(iter(sorted(emp)))], set()
                    while st:
                        p = st.pop()
                        if p in seen:
                            continue
                        seen.add(p)
                        for q in emp:
                            if sum(abs(q[i] - p[i]) for i in range(3)) == 1:
                                st.append(q)
                    if len(seen) != len(emp):
                        return (x, y, z)
    return None


def voxels(cells, xs, ys, zs, diag=0):
    """cells: list of [i,j,k]; xs.. coordinates of grid planes."""
    S = {tuple(c) for c in cells}
    n = max(len(xs), len(ys), len(zs)) - 1
    S = {c for c in S if c[0] < len(xs) - 1 and c[1] < len(ys) - 1 and c[2] < len(zs) - 1}
    while True:
        b = _voxel_bad(S) or _voxel_bad_compl(S, 0, n)
        if b is None:
            break
        S.discard(b)
    out = []
    g = (xs, ys, zs)
    for c in sorted(S):
        for (ax, side), corners in _FACES.items():
            o = list(c)
            o[ax] += 1 if side else -1
            if tuple(o) in S:
                continue
            q = [np.array([g[i][c[i] + k[i]] for i in range(3)], float) for k in corners]
            k = (diag >> (sum(c) % 8)) & 1
            q = q[k:] + q[:k]
            out.append(np.array([q[0], q[1], q[2]]))
            out.append(np.array([q[0], q[2], q[3]]))
    return out


def prism(poly, h, z0=0.0):
    """Extrude a star-shaped (about the origin) polygon given as (angle, radius)
    pairs in increasing angle; fan triangulation about the centre."""
    pts = [(r * math.cos(math.radians(a)), r * math.sin(math.radians(a))) for a, r in poly]
    n = len(pts)
    out = []
    for i in range(n):
        a, b = pts[i], pts[(i + 1) % n]
        if a[0] * b[1] - a[1] * b[0] <= 1e-3:
            return None  # not star-shaped about the origin
        A0, B0, A1, B1 = (*a, z0), (*b, z0), (*a, z0 + h), (*b, z0 + h)
        out.append([(0, 0, z0 + h), A1, B1])
        out.append([(0, 0, z0), B0, A0])
        out.append([A0, B0, B1])
        out.append([A0, B1, A1])
    return _orient(out)


def plate(n, r, c, half, h, phase=0.0, z0=0.0):
    """Square plate [-half,half]^2 with an n-gon through hole at c."""
    sq = [(-half, -half), (half, -half), (half, half), (-half, half)]
    hp = [(c[0] + r * math.cos(math.radians(phase) + 2 * math.pi * i / n),
           c[1] + r * math.sin(math.radians(phase) + 2 * math.pi * i / n)) for i in range(n)]

    def owner(p):
        a = math.atan2(p[1] - c[1], p[0] - c[0])
        cut = [math.atan2(s[1] - c[1], s[0] - c[0]) for s in sq]
        # corner whose direction is the nearest one
        d = [abs((a - t + math.pi) % (2 * math.pi) - math.pi) for t in cut]
        return int(np.argmin(d))
    own = [owner(p) for p in hp]

    def P(p, z):
        return (p[0], p[1], z)
    T = []
    t, b = z0 + h, z0
    for i in range(n):
        j = (i + 1) % n
        p, q = hp[i], hp[j]
        k = own[i]
        T.append([P(p, t), P(sq[k], t), P(q, t)])
        T.append([P(p, b), P(q, b), P(sq[k], b)])
        while k != own[j]:
            k2 = (k + 1) % 4
            T.append([P(sq[k], t), P(sq[k2], t), P(q, t)])
            T.append([P(sq[k], b), P(q, b), P(sq[k2], b)])
            k = k2
        T.append([P(p, b), P(p, t), P(q, t)])
        T.append([P(p, b), P(q, t), P(q, b)])
    for f in T:  # a corner hidden behind the hole's own outline: not a valid mesh
        (ax, ay, az), (bx, by, bz), (qx, qy, qz) = f
        if az == bz == qz:
            area = (bx - ax) * (qy - ay) - (by - ay) * (qx - ax)
            if (area if az == t else -area) <= 1e-6:
                return None
    for i in range(4):
        s, s2 = sq[i], sq[(i + 1) % 4]
        T.append([P(s, b), P(s2, b), P(s2, t)])
        T.append([P(s, b), P(s2, t), P(s, t)])
    return _orient(T)


def terrain(hts, dx, dy, base):
    """Height field hts[i][j] over a grid with a flat base below it."""
    ni, nj = len(hts), len(hts[0])

    def V(i, j, top):
        return (i * dx, j * dy, hts[i][j] if top else base)
    T = []
    for i in range(ni - 1):
        for j in range(nj - 1):
            for top in (True, False):
                a, b, c, d = V(i, j, top), V(i + 1, j, top), V(i + 1, j + 1, top), V(i, j + 1, top)
                tr = [[a, b, c], [a, c, d]]
                if not top:
                    tr = [t[::-1] for t in tr]
                T += tr

    def wall(p, q):  # p->q with outside on the right
        T.append([V(*p, False), V(*q, False), V(*q, True)])
        T.append([V(*p, False), V(*q, True), V(*p, True)])
    for i in range(ni - 1):
        wall((i, 0), (i + 1, 0))
        wall((i + 1, nj - 1), (i, nj - 1))
    for j in range(nj - 1):
        wall((ni - 1, j), (ni - 1, j + 1))
        wall((0, j + 1), (0, j))
    return _orient(T)


def box(lo, hi):
    return voxels([[0, 0, 0]], [lo[0], hi[0]], [lo[1], hi[1]], [lo[2], hi[2]])


def roof(deg, length=6.0, half=4.0, depth=5.0, slant=0.0):
    """A prism along x whose two top faces meet at a ridge where the normals
    differ by `deg` degrees."""
    t = math.tan(math.radians(deg / 2.0))
    h = half * t
    x0, x1 = 0.0, length
    A = [(x, y, z) for x in (x0, x1) for (y, z) in ((-half, 0), (half, 0), (slant, h + 0))]
    # cross-section: (-half,0) (half,0) ridge; extended down to a box
    def sec(x):
        return [(x, -half, -depth), (x, half, -depth), (x, half, 0.0), (x, 0.0, h), (x, -half, 0.0)]
    p, q = sec(x0), sec(x1)
    T = []
    n = 5
    for i in range(n):
        j = (i + 1) % n
        T.append([p[i], q[i], q[j]])
        T.append([p[i], q[j], p[j]])
    for i in range(1, n - 1):
        T.append([p[0], p[i], p[i + 1]])
        T.append([q[0], q[i + 1], q[i]])
    T = _orient(T)
    # make sure it is wound outward
    if volume(T) < 0:
        T = [t[::-1].copy() for t in T]
    return T


def volume(T):
    return sum(float(np.dot(t[0], np.cross(t[1], t[2]))) for t in T) / 6


def build(spec):
    """spec -> list of triangles or None when degenerate."""
    k = spec["kind"]
    if k == "union":
        T = []
        for part, off in zip(spec["parts"], spec["offsets"]):
            t = build(part)
            if not t:
                return None
            T += [x + np.array(off, float) for x in t]
    elif k == "hull":
        T = hull(spec["points"])
    elif k == "voxels":
        T = voxels(spec["cells"], spec["xs"], spec["ys"], spec["zs"], spec.get("diag", 0))
    elif k == "prism":
        T = prism(spec["poly"], spec["h"], spec.get("z0", 0.0))
    elif k == "ngon":
        n = spec["n"]
        T = prism([(360.0 * i / n + spec.get("phase", 0), spec["r"]) for i in range(n)], spec["h"])
    elif k == "plate":
        T = plate(spec["n"], spec["r"], spec["c"], spec["half"], spec["h"], spec.get("phase", 0))
    elif k == "terrain":
        T = terrain(spec["hts"], spec["dx"], spec["dy"], spec["base"])
    elif k == "hills":      # a height field from a seed
        rnd = random.Random(spec["seed"])
        T = terrain([[rnd.randint(1, 24) / 3.0 for _ in range(spec["nj"])] for _ in range(spec["ni"])], 1.0, 1.0, -1.0)
    elif k == "cells":      # many voxels from a seed
        rnd, n = random.Random(spec["seed"]), spec["n"]
        T = voxels([[x, y, z] for x in range(n) for y in range(n) for z in range(n) if rnd.random() < spec["fill"]],
                   *[[float(i) for i in range(n + 1)]] * 3, diag=spec["seed"] & 255)
    elif k == "roof":
        T = roof(spec["deg"], spec.get("length", 6.0))
    else:
        raise ValueError(k)
    if not T:
        return None
    if spec.get("rot"):
        R = euler(spec["rot"])
        T = [t @ R.T for t in T]
    if spec.get("size"):
        T = [t * spec["size"] for t in T]
    return T


# ---------------------------------------------------------------- writing
def normal(t):
    n = np.cross(t[1] - t[0], t[2] - t[0])
    L = np.linalg.norm(n)
    return n / L if L else n


def fnum(x):
    return repr(float(x))


def stl(tris, name="part"):
    o = ["solid " + name]
    for t in tris:
        n = normal(t)
        if not np.any(n):
            n = np.array([0, 0, 1.0])
        o.append("  facet normal %s %s %s" % tuple(fnum(c) for c in n))
        o.append("    outer loop")
        for p in t:
            o.append("      vertex %s %s %s" % tuple(fnum(c) for c in p))
        o.append("    endloop")
        o.append("  endfacet")
    o.append("endsolid " + name)
    return "\n".join(o) + "\n"


def closed(T):
    """Every directed edge matched exactly once by its reverse."""
    from collections import Counter
    c = Counter()
    for t in T:
        v = [tuple(p) for p in t]
        for i in range(3):
            c[(v[i], v[(i + 1) % 3])] += 1
    return all(n == 1 and c.get((b, a)) == 1 for (a, b), n in c.items())
