"""C23: the point-selection helpers agree with their definitions."""
import math

import numpy as np
from hypothesis import strategies as st

import annot
import draw
import solids
import sut
from runner import Part

PROPERTY = "C23"
TECHNIQUE = "property-based testing: the selection helpers called directly on random point sets against brute-force validity predicates, and the circle fit against the circle the points were made on; and the same through rad on facets whose corners lie on a circle"
NOTE = "Distances agree within 1e-9 relative; circle centre and radius within 1e-7 of the radius (more for short arcs and far circles, by their conditioning)."
RULE = ("point sets of 0-40 points, and of up to 1500, (random, lattice with many ties, on circles, with repeated and almost repeated points), counts from -1 to beyond the size, "
        "targets on and off the points, inner and outer distances in any order; circles of radius 1e-3 to 1e5 at up to 1e5 from the origin, 3-60, or up to 1500, points on the whole "
        "circle or an arc of at least 20 degrees, in random order; collinear points. Non-trivial: at least 4 points and a result that is neither empty nor everything, or a circle.")
ASSUMPTIONS = ["points closer than 1e-5 of the size of the figure (its farthest coordinate), or at exactly the same distance and within a tenth of it, may count as one place"]
I = st.integers
F = lambda v: " ".join(repr(float(x)) for p in v for x in p)


def parse(s):
    v = [float(x) for x in s.split()]
    return [(v[i], v[i + 1]) for i in range(0, len(v) - 1, 2)]


@st.composite
def cloud(d):
    k = d(st.sampled_from(["random", "lattice", "circle", "dup"] * 5 + ["many"]))
    if k == "many":
        g = np.random.default_rng(d(I(0, 2 ** 32)))
        q = d(st.sampled_from([1, 10, 1000]))
        return (g.integers(-20 * q, 20 * q, (d(I(100, 1500)), 2)) / q).tolist()
    if k == "random":
        return d(st.lists(st.tuples(I(-9999, 9999), I(-9999, 9999)).map(lambda t: [t[0] / 100, t[1] / 100]), max_size=40))
    if k == "lattice":
        return [[float(a), float(b)] for a, b in d(st.lists(st.tuples(I(-4, 4), I(-4, 4)), max_size=40))]
    if k == "circle":
        n, r, c = d(I(3, 24)), d(I(1, 40)) / 4, [d(I(-20, 20)) / 2, d(I(-20, 20)) / 2]
        o = d(st.permutations(range(n)))
        return [[c[0] + r * math.cos(2 * math.pi * i / n), c[1] + r * math.sin(2 * math.pi * i / n)] for i in o]
    p = [[float(a) / 4, float(b) / 4] for a, b in d(st.lists(st.tuples(I(-40, 40), I(-40, 40)), min_size=1, max_size=12))]
    e = d(st.lists(st.tuples(I(0, 99), st.sampled_from([0.0, 0.0, 1e-13, -1e-14, 1e-3, 0.25])), max_size=20))
    q = [[p[i % len(p)][0] + v, p[i % len(p)][1] - v] for i, v in e]
    return d(st.permutations(p + q))


target = st.one_of(st.tuples(I(-50, 50), I(-50, 50)).map(lambda t: [t[0] / 4, t[1] / 4]),
                   st.tuples(I(-4, 4), I(-4, 4)).map(lambda t: [float(t[0]), float(t[1])]),
                   st.tuples(I(-9999, 9999), I(-9999, 9999), st.sampled_from([.01, .1, 10, 1e3])).map(lambda t: [t[0] * t[2], t[1] * t[2]]))


@st.composite
def closest_case(d):
    p = d(cloud())
    t = d(target)
    if p and d(I(0, 3)) == 0:
        t = list(d(st.sampled_from(p)))
    k = d(st.sampled_from([1.0, 1.0, 1.0, 1.0, 1e-3, 1e-6, 1e5]))
    return {"pts": [[x * k for x in q] for q in p], "n": d(I(-1, 6)) if d(I(0, 3)) else d(I(0, 45)), "to": [x * k for x in t]}


def run_closest(c):
    P, to, n = c["pts"], c["to"], c["n"]
    _, r = sut.unit("unit_sel").call("closest", F(P), str(n), F([to]))
    R = parse(r[0])
    D = lambda p: math.hypot(p[0] - to[0], p[1] - to[1])
    sep = lambda p, q: math.hypot(p[0] - q[0], p[1] - q[1])
    size = max([math.hypot(*p) for p in P], default=0)
    near = lambda p: 2e-5 * size
    eps = 1e-12 * (size + math.hypot(*to))
    tie = lambda p, q: abs(D(p) - D(q)) <= 1e-9 * D(p) + eps and sep(p, q) <= .1001 * D(p)
    one = lambda p, q: sep(p, q) <= near(p) or tie(p, q)
    if n < 1:
        if R:
            raise draw.Violation("asked for %d points, got %d" % (n, len(R)))
        return False, ["none asked"]
    if len(R) > n:
        raise draw.Violation("asked for %d points, got %d" % (n, len(R)))
    S = [tuple(p) for p in P]
    for p in R:
        if p not in S:
            raise draw.Violation("%r is not one of the points" % (p,))
    for i in range(len(R)):
        if i and D(R[i - 1]) > D(R[i]) * (1 + 1e-9) + eps:
            raise draw.Violation("not in order of distance: %r" % R)
        for j in range(i):
            if sep(R[i], R[j]) <= 1e-9 * size or R[i] == R[j]:
                raise draw.Violation("the same place twice: %r" % (R[i],))
    far = max([D(p) for p in R], default=-1)
    for p in S:
        if p in R or any(one(p, q) for q in R):
            continue
        if len(R) < n:
            # left out by one that was pushed out itself?  that one would be farther
            if not any(one(p, q) and q != p for q in S):
                raise draw.Violation("asked for %d points, got %d, without %r" % (n, len(R), p))
        elif D(p) < far * (1 - 1e-9) - eps and not any(one(p, q) and q != p for q in S):
            raise draw.Violation("%r is chosen, though %r is closer to %r" % (R[-1], p, to))
    return len(S) >= 4 and 0 < len(R) < len(S), ["some" if len(R) < len(S) else "all"]


@st.composite
def between_case(d):
    p = d(cloud())
    k = d(I(0, 4))
    lo, hi = d(I(0, 80)) / 4, d(I(0, 120)) / 4
    if k == 0:
        lo, hi = d(I(-20, 20)) / 4, d(I(-20, 20)) / 4
    elif k < 4:
        lo, hi = min(lo, hi), max(lo, hi)
    return {"pts": p, "min": lo, "max": hi, "to": d(target)}


def run_between(c):
    P, to, lo, hi = c["pts"], c["to"], c["min"], c["max"]
    _, r = sut.unit("unit_sel").call("between", F(P), "%r %r" % (lo, hi), F([to]))
    R = parse(r[0])
    if lo < 0 and hi > 0:
        return False, ["negative"]      # a distance is not negative; what the code does is its own affair
    i = 0
    for p in P:
        D = math.hypot(p[0] - to[0], p[1] - to[1])
        # exact on the borders only where the squares are exact
        exact = all(abs(v * 4) == int(abs(v * 4)) for v in (*p, *to))
        edge = min(abs(D - lo), abs(D - hi)) <= 1e-9 * (1 + D)
        inside = lo < D < hi
        if edge and exact:
            d2 = (p[0] - to[0]) ** 2 + (p[1] - to[1]) ** 2
            inside, edge = lo * lo < d2 < hi * hi and lo < hi, False
        if edge:
            if i < len(R) and R[i] == tuple(p):
                i += 1
            continue
        got = i < len(R) and R[i] == tuple(p)
        if got != inside and not (got and False):
            raise draw.Violation("points between %g and %g from %r: %r at %g should%s be chosen (in order): got %r" % (
                lo, hi, to, p, D, "" if inside else " not", R))
        i += got
    if i != len(R):
        raise draw.Violation("points between: unexpected %r" % (R[i:],))
    return len(P) >= 4 and 0 < len(R) < len(P), ["some" if R else "nothing"]


@st.composite
def circle_case(d):
    n = d(I(3, 60)) if d(st.booleans()) else d(st.sampled_from([3, 3, 4, 4, 5, 6, 6, 3, 5, 300, 1500]))
    e = d(I(-30, 50)) / 10.0
    span = d(st.sampled_from([360.0, 360.0, 180.0, 90.0, 45.0, 20.0]))
    far = d(st.sampled_from([0.0, 1.0, 1.0, 30.0, 1000.0]))
    if n > 60:
        g = np.random.default_rng(d(I(0, 2 ** 32)))
        a, o = sorted(g.choice(3600, n, replace=False).tolist()), g.permutation(n).tolist()
    else:
        a = sorted(d(st.lists(I(0, 3599), min_size=n, max_size=n, unique=True)))
        o = d(st.permutations(range(n)))
    return {"r": 10.0 ** e, "c": [d(I(-100, 100)) / 100 * far, d(I(-100, 100)) / 100 * far], "a": [a[i] for i in o], "span": span,
            "ph": float(d(I(0, 359)))}


def run_circle(c):
    r = c["r"]
    cx, cy = c["c"][0] * r, c["c"][1] * r
    ang = [math.radians(x / 3600 * c["span"] + c["ph"]) for x in c["a"]]
    P = [[cx + r * math.cos(t), cy + r * math.sin(t)] for t in ang]
    # how well the points determine the circle
    s = sorted(c["a"])
    A = np.array([[math.cos(t), math.sin(t), 1] for t in ang])
    cond = np.linalg.cond(A)
    if cond > 1e4:
        return False, ["ill-conditioned"]
    lim = r * (1e-7 + 1e-15 * cond ** 3 * (1 + math.hypot(*c["c"])) ** 1 * 100)
    _, x = sut.unit("unit_sel").call("circle", F(P))
    if x[0] != "1":
        raise draw.Violation("no circle through %d points of a circle" % len(P))
    g = [float(v) for v in x[1].split()]
    if not all(map(math.isfinite, g)) or max(abs(g[0] - cx), abs(g[1] - cy), abs(g[2] - r)) > lim:
        raise draw.Violation("points on the circle at %r with radius %r: found %r (limit %g)" % ([cx, cy], r, g, lim))
    return True, ["arc %g" % c["span"], "r 1e%d" % math.floor(math.log10(r)), "far" if math.hypot(*c["c"]) > 10 else "near"]


@st.composite
def nocircle_case(d):
    n = d(I(0, 8))
    return {"p": d(st.tuples(I(-40, 40), I(-40, 40)).map(list)), "u": d(st.tuples(I(-40, 40), I(-40, 40)).map(list)),
            "t": d(st.lists(I(-30, 30), min_size=n, max_size=n)), "q": d(st.sampled_from([1.0, 4.0, 10.0, 3.0]))}


def run_nocircle(c):
    P = [[(c["p"][i] + c["u"][i] * t) / c["q"] for i in (0, 1)] for t in c["t"]]
    _, x = sut.unit("unit_sel").call("circle", F(P))
    if x[0] != "0":
        g = x[1].split()
        raise draw.Violation("%d points %r on a line give the circle %r" % (len(P), P[:4], g))
    return len(P) >= 3, ["%d points" % min(len(P), 3)]


# ------------------------------------------------------- through the tool
@st.composite
def tool_case(d):
    """One facet: its corners are on exactly one circle."""
    a = d(st.lists(I(0, 359), min_size=3, max_size=3, unique=True))
    return {"a": a, "r": d(I(2, 60)) / 4, "c": [d(I(-400, 400)) / 4, d(I(-400, 400)) / 4], "to": d(target), "fn": d(st.booleans())}


def run_tool(c):
    a = sorted(c["a"])
    gap = [(a[(i + 1) % 3] - a[i]) % 360 for i in range(3)]
    if min(gap) < 25:
        return False, ["sliver"]
    m = np.array(c["c"])
    T = np.array([[*(m + c["r"] * np.array([math.cos(math.radians(t)), math.sin(math.radians(t))])), 0] for t in a])
    fr = annot.Frame({"view": None, "scale": [1, 10], "at": [0.0, 0.0], "solid": None})
    fr.files["e.stl"] = solids.stl([T])
    fr.model = True
    fr.o = fr.o - (T.max(0) + T.min(0))[:2] / 2 * fr.k
    D = np.linalg.norm(T[:, :2] - c["to"], axis=1)
    for i in range(3):
        for j in range(i):
            if abs(D[i] - D[j]) < 1e-6 and np.linalg.norm(T[i] - T[j]) < .11 * D[i] or np.linalg.norm(T[i] - T[j]) < 3e-5 * np.abs(T).max():
                return False, ["tie"]
    # the centre of the circle is as far from all of the corners
    pg = fr.render("rad(at=[0,0,0],dir=[1,0,0],center=%s);" % (("center(%s)" if c.get("fn") else "%s") % solids.pt([*c["to"], 0.0])))
    if len(pg.texts) != 1 or not annot.label_ok(pg.texts[0]["s"][1:], c["r"], 3, 1e-5):
        raise draw.Violation("the circle through the corners %s has radius %g, the label is %r" % (
            np.round(T, 3).tolist(), c["r"], [t["s"] for t in pg.texts]))
    return True, ["tool"]


PARTS = [Part("tool", tool_case(), run_tool, 1500, 30000),
         Part("closest", closest_case(), run_closest, 20000, 800000, needs="unit_sel"),
         Part("between", between_case(), run_between, 12000, 400000, needs="unit_sel"),
         Part("circle", circle_case(), run_circle, 15000, 300000, needs="unit_sel"),
         Part("nocircle", nocircle_case(), run_nocircle, 4000, 80000, needs="unit_sel")]
