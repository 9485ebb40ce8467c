"""C18: the drawing depends on the solid, not on how its mesh is written."""
import math
import random

import numpy as np
from hypothesis import strategies as st

import draw
import solids
import strat
from runner import Part

PROPERTY = "C18"
TECHNIQUE = "metamorphic property-based testing: random re-writings and in-plane subdivisions of random meshes; and two-facet hinges and roofs of random bend against the drawn-edge rule"
NOTE = "Rewritten meshes draw the same picture within 0.03pt; the crease rule is decided for bends further than 0.06 degrees from the threshold."
RULE = ("random closed solids in random views, written with facets shuffled, vertexes rotated or reversed, normals scaled, "
        "several solids and up to 8 in-plane subdivisions; hinges (two triangles) and roofs with bends from 0 to 175 degrees "
        "either way under random rotations. Non-trivial: the rewriting changed the file and at least 6 lines are drawn; for hinges, "
        "both facets face the viewer clearly.")
I = st.integers
TOL, SLACK = 0.03, 0.6
LIM = math.degrees(math.acos(0.98))


# ---------------------------------------------------------------- rewriting
def split_edge(T, rnd):
    """Insert the middle of an edge into both facets that share it."""
    i = rnd.randrange(len(T))
    k = rnd.randrange(3)
    p, q = T[i][k], T[i][(k + 1) % 3]
    m = (p + q) / 2
    if np.linalg.norm(p - q) < 1e-2:
        return T
    out = []
    for t in T:
        done = False
        for j in range(3):
            a, b, c = t[j], t[(j + 1) % 3], t[(j + 2) % 3]
            if (np.array_equal(a, p) and np.array_equal(b, q)) or (np.array_equal(a, q) and np.array_equal(b, p)):
                out.append(np.array([a, m, c]))
                out.append(np.array([m, b, c]))
                done = True
                break
        if not done:
            out.append(t)
    return out


def split_face(T, rnd):
    i = rnd.randrange(len(T))
    a, b, c = T[i]
    w = [rnd.randint(1, 4) for _ in range(3)]
    m = (a * w[0] + b * w[1] + c * w[2]) / sum(w)
    n = np.linalg.norm(np.cross(b - a, c - a))
    if n < 1e-2:
        return T
    return T[:i] + [np.array([a, b, m]), np.array([b, c, m]), np.array([c, a, m])] + T[i + 1:]


def write(T, how, rnd):
    T = list(T)
    nrm = [solids.normal(t) for t in T]
    order = list(range(len(T)))
    if "shuffle" in how:
        rnd.shuffle(order)
    o = ["solid a"]
    for n, i in enumerate(order):
        t = T[i]
        p = list(t)
        if "turn" in how:
            k = rnd.randrange(3)
            p = p[k:] + p[:k]
        if "reverse" in how and rnd.random() < .5:
            p = p[::-1]
        s = 10.0 ** rnd.choice([-9, -3, -2, -1, 0, 1, 2, 3, 9]) * rnd.choice([1, 0.3, 7]) if "normals" in how else 1.0
        if "normals" in how and rnd.random() < .3:
            j = np.round(nrm[i], rnd.choice([0, 1, 2, 3, 5]))
            if not np.any(j):
                j = nrm[i]
        else:
            j = nrm[i]
        o.append("facet normal %s %s %s" % tuple(solids.fnum(c * s) for c in j))
        o.append("outer loop")
        for q in p:
            o.append("vertex %s %s %s" % tuple(solids.fnum(c) for c in q))
        o += ["endloop", "endfacet"]
        if "solids" in how and rnd.random() < .2:
            o += ["endsolid a", "solid b%d" % n]
    return "\n".join(o + ["endsolid a"]) + "\n"


HOW = ["shuffle", "turn", "reverse", "normals", "solids"]


@st.composite
def rewrite_case(d):
    return {"solid": d(strat.solid_spec(2)), "view": d(strat.view()), "how": d(st.lists(st.sampled_from(HOW), unique=True, max_size=5)),
            "edges": d(I(0, 4)), "faces": d(I(0, 4)), "seed": d(I(0, 9999))}


def run_rewrite(c):
    T = solids.build(c["solid"])
    if not T or len(T) > 250:
        return False, ["degenerate"]
    rnd = random.Random(c["seed"])
    U = list(T)
    for _ in range(c["edges"]):
        U = split_edge(U, rnd)
    for _ in range(c["faces"]):
        U = split_face(U, rnd)
    # slivers make normals, and so what is drawn, a matter of rounding
    for t in U:
        e = [np.linalg.norm(t[i] - t[(i + 1) % 3]) for i in range(3)]
        if np.linalg.norm(np.cross(t[1] - t[0], t[2] - t[0])) < 1e-3 * max(e) ** 2:
            return False, ["sliver"]
    P = np.array(T).reshape(-1, 3)
    k = draw.scale_for(float(np.linalg.norm(P.max(0) - P.min(0))))
    src = 'load m="m.stl";page{draw m{scale=%d:%d;%s@[0,0];}}' % (k[0], k[1], draw.view_src(c["view"]))
    fa, fb = solids.stl(T), write(U, c["how"], rnd)
    A, B = draw.render1(src, {"m.stl": fa}), draw.render1(src, {"m.stl": fb})
    m = draw.drawing_diff(A.segs, B.segs, TOL, SLACK)
    if m:
        raise draw.Violation("the mesh and the same mesh rewritten (%s, %d edges and %d facets split): %s" % (
            ", ".join(c["how"]), c["edges"], c["faces"], m))
    lab = ["how:" + h for h in c["how"]]
    if len(U) > len(T):
        lab.append("subdivided")
    return (bool(c["how"]) or len(U) > len(T)) and len(A.segs) >= 6, lab


# ---------------------------------------------------------------- creases
@st.composite
def hinge_case(d):
    k = d(I(0, 3))
    if k == 0:
        bend = LIM + d(st.sampled_from([-1, 1])) * d(I(6, 300)) / 100.0
    elif k == 1:
        bend = d(I(0, 300)) / 10.0
    else:
        bend = float(d(I(0, 120)))
    return {"bend": bend, "valley": d(st.booleans()), "rot": d(st.tuples(strat.generic_angle, strat.generic_angle, strat.generic_angle).map(list)),
            "view": d(strat.view()), "w": [d(I(2, 12)) / 2.0 for _ in range(4)], "len": d(I(4, 20)) / 2.0,
            "seed": d(I(0, 999)), "tilt": [d(I(-300, 300)) / 10.0, d(I(-300, 300)) / 10.0], "two": d(st.booleans())}


def tri(h, w, off, side, bend):
    """A triangle on the hinge from (0,0,0) to (0,h,0)."""
    a = math.radians(bend)
    return np.array([[0, 0, 0], [0, h, 0], [side * w * math.cos(a), off, -w * math.sin(a)]])


def run_hinge(c):
    if abs(c["bend"] - LIM) < 0.06:
        return False, ["at the threshold"]
    s = -1 if c["valley"] else 1
    b = c["bend"] / 2 * s
    L = c["len"]
    A = tri(L, c["w"][0], L * c["w"][1] / 7, 1, b)
    B = tri(L, c["w"][2], L * c["w"][3] / 7, -1, b)
    A = A[[0, 2, 1]]        # counter-clockwise from above
    # tilt about the hinge and around, as seen on the page, then undo the view
    V = solids.view_of(c["view"])
    R = solids.view_matrix(0, c["tilt"][0]) @ np.array(
        [[math.cos(math.radians(c["tilt"][1])), 0, math.sin(math.radians(c["tilt"][1]))], [0, 1, 0],
         [-math.sin(math.radians(c["tilt"][1])), 0, math.cos(math.radians(c["tilt"][1]))]])
    R = solids.rot_z(c["rot"][0]) @ R
    page = [A @ R.T, B @ R.T]
    n = [solids.normal(t) for t in page]
    if min(x[2] for x in n) < 0.05:
        return False, ["one facet does not face the viewer"]
    T = [t @ V for t in page]       # V^T applied to columns
    # both facets must share bit-identical vertexes
    T[1] = np.array([T[0][0], T[0][2], T[1][2]]) if np.allclose(T[1][0], T[0][0]) else T[1]
    ang = math.degrees(math.acos(max(-1, min(1, float(n[0] @ n[1])))))
    if abs(ang - c["bend"]) > 1e-6:
        return False, ["degenerate"]
    rnd = random.Random(c["seed"])
    f = write(T, ["turn", "reverse", "normals", "shuffle"] + (["solids"] if c["two"] else []), rnd)
    Q = np.array(page)[:, :, :2]
    ext = float((Q.reshape(-1, 2).max(0) - Q.reshape(-1, 2).min(0)).max())
    k = draw.scale_for(ext)
    kk = 72.0 * k[0] / k[1]
    pg = draw.render1('load m="m.stl";page{draw m{scale=%d:%d;%s@[0,0];}}' % (k[0], k[1], draw.view_src(c["view"])), {"m.stl": f})
    mid = (Q.reshape(-1, 2).max(0) + Q.reshape(-1, 2).min(0)) / 2
    X = lambda p: (np.array(p) - mid) * kk + [draw.CX, draw.CY]
    edges = {}
    for t in Q:
        for i in range(3):
            a, e = t[i], t[(i + 1) % 3]
            key = tuple(sorted([tuple(np.round(a, 6)), tuple(np.round(e, 6))]))
            edges.setdefault(key, [X(a), X(e), 0])[2] += 1
    shared = [v for v in edges.values() if v[2] == 2]
    if len(shared) != 1 or len(edges) != 5:
        return False, ["degenerate"]
    for a, e, cnt in edges.values():
        P = np.array([a + (e - a) * t for t in np.linspace(0.1, 0.9, 9)])
        got = draw.covered(P, pg.segs, 0.02)
        if cnt == 1 and not got.all():
            raise draw.Violation("an edge with one visible facet is not drawn: %s to %s" % (a.tolist(), e.tolist()))
        if cnt == 2 and c["bend"] > LIM and not got.all():
            raise draw.Violation("an edge where the facets bend by %g degrees is not drawn" % c["bend"])
        if cnt == 2 and c["bend"] < LIM and got.any():
            raise draw.Violation("an edge where the facets bend by %g degrees is drawn" % c["bend"])
    want = np.array([[a, e] for a, e, cnt in edges.values() if cnt == 1 or c["bend"] > LIM])
    P, _ = draw.samples(pg.segs, 7, 0.05)
    if len(P) and not draw.covered(P, want, 0.02).all():
        raise draw.Violation("something is drawn that is not an edge")
    return True, ["valley" if c["valley"] else "ridge", "drawn" if c["bend"] > LIM else "not drawn"] + (
        ["near the threshold"] if abs(c["bend"] - LIM) < 1 else [])


@st.composite
def roof_case(d):
    b = LIM + d(I(6, 800)) / 100.0 * d(st.sampled_from([-1, 1])) if d(st.booleans()) else d(I(10, 1000)) / 10.0
    blade = d(I(0, 4)) == 0     # seen along the edge of a blade
    if blade:
        b = d(I(1000, 1750)) / 10.0
    return {"deg": b, "length": d(I(2, 24)) / 2.0, "view": [float(d(I(-89, 89))) + 90 * d(st.sampled_from([0, 2])), d(I(-200, 200)) / (100.0 if blade else 10.0)],
            "seed": d(I(0, 999))}


def run_roof(c):
    if abs(c["deg"] - LIM) < 0.06 or c["deg"] < 0.5:
        return False, ["at the threshold"]
    T = solids.roof(c["deg"], c["length"])
    V = solids.view_of(c["view"])
    # the two slopes
    up = [t for t in T if solids.normal(t)[2] > 0.01]
    if any((V @ solids.normal(t))[2] < 0.01 for t in up):
        return False, ["a slope does not face the viewer"]
    P = (np.array(T).reshape(-1, 3) @ V.T)[:, :2]
    k = draw.scale_for(float((P.max(0) - P.min(0)).max()))
    kk = 72.0 * k[0] / k[1]
    pg = draw.render1('load m="m.stl";page{draw m{scale=%d:%d;%s@[0,0];}}' % (k[0], k[1], draw.view_src(c["view"])),
                      {"m.stl": write(T, HOW, random.Random(c["seed"]))})
    h = max(t[:, 2].max() for t in T)
    r = [p for p in {tuple(v) for t in T for v in t} if abs(p[2] - h) < 1e-9]
    if len(r) != 2:
        return False, ["degenerate"]
    mid = (P.max(0) + P.min(0)) / 2
    a, b = [((V @ np.array(p))[:2] - mid) * kk + [draw.CX, draw.CY] for p in sorted(r)]
    if np.linalg.norm(a - b) < 5:
        return False, ["ridge seen end on"]
    S = np.array([a + (b - a) * t for t in np.linspace(0.1, 0.9, 9)])
    got = draw.covered(S, pg.segs, 0.02)
    if c["deg"] > LIM and not got.all():
        raise draw.Violation("a ridge of %g degrees is not drawn" % c["deg"])
    if c["deg"] < LIM and got.any():
        raise draw.Violation("a ridge of %g degrees is drawn" % c["deg"])
    return True, ["drawn" if c["deg"] > LIM else "not drawn"]


PARTS = [Part("rewrite", rewrite_case(), run_rewrite, 3000, 60000),
         Part("hinge", hinge_case(), run_hinge, 4000, 60000),
         Part("roof", roof_case(), run_roof, 1500, 30000)]
