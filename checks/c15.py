"""C15: a drawing has the requested scale and place."""
import numpy as np
from hypothesis import strategies as st

import draw
import gen
import solids
import strat
from runner import Part

PROPERTY = "C15"
TECHNIQUE = "property-based testing: the extent and place of random drawings against the projected model, and metamorphic changes of scale and @"
NOTE = "Extents and places agree within 0.02pt (plus six-digit rounding) for all generated solids, views, ratios and places."
RULE = ("random closed solids in random views, ratios a:b up to 5000:5000 and @ anywhere on the page and far off it; and the same drawing "
        "with annotations at two places, and without at two scales. Non-trivial: the ratio or place is not the default "
        "and the drawing has at least 6 lines.")
I = st.integers


@st.composite
def ratio(d):
    k = d(I(0, 3))
    if k == 0:
        return d(st.sampled_from(gen.SCALES))
    if k == 1:
        return [d(I(1, 12)), d(I(1, 12))]
    a, b = d(I(1, 5000)), d(I(1, 5000))
    # the limit of whole numbers is at 2^24
    m = d(st.sampled_from([1, 1, 1, 1000, 3355]))
    return [a * m, b * m]


loc = st.one_of(*[st.tuples(strat.dec(-6, 6, 3), strat.dec(-5, 5, 3)).map(list)] * 5, st.tuples(strat.dec(-120, 120, 3), strat.dec(-120, 120, 3)).map(list))


def place(at):
    return np.array([draw.CX + 72 * solids.f32(solids.num(at[0])), draw.CY + 72 * solids.f32(solids.num(at[1]))])


def script(T, v, r, at, dims=""):
    s = "" if r is None else "scale=%d:%d;" % tuple(r)
    a = "" if at is None else "@[%s,%s];" % (solids.num(at[0]), solids.num(at[1]))
    return draw.render1('load m="m.stl";page{draw m{%s%s%s%s}}' % (s, draw.view_src(v), a, dims), {"m.stl": solids.stl(T)})


@st.composite
def box_case(d):
    s = d(strat.solid_spec(2))
    return {"solid": s, "view": d(strat.view()), "scale": d(ratio()) if d(I(0, 4)) else None,
            "at": d(loc) if d(I(0, 4)) else None, "size": d(st.sampled_from([1.0, 1.0, 0.01, 1000.0]))}


def tol(*xs):
    return 0.02 + 2e-5 * max(abs(float(v)) for x in xs for v in np.ravel(x))


def run_box(c):
    T = solids.build(c["solid"])
    if not T or len(T) > 250:
        return False, ["degenerate"]
    T = [t * c["size"] for t in T]
    V = solids.view_of(c["view"])
    k = 72.0 if c["scale"] is None else 72.0 * c["scale"][0] / c["scale"][1]
    P = (np.array(T).reshape(-1, 3) @ V.T)[:, :2] * k
    lo, hi = P.min(0), P.max(0)
    if max(hi - lo) > 5e4 or max(hi - lo) < 1:
        return False, ["too large or too small"]
    pg = script(T, c["view"], c["scale"], c["at"])
    if len(pg.segs) == 0:
        raise draw.Violation("nothing is drawn")
    Q = pg.segs.reshape(-1, 2)
    l, h = Q.min(0), Q.max(0)
    e = tol(Q)
    if np.abs((h - l) - (hi - lo)).max() > 2 * e:
        raise draw.Violation("scale %r: the drawing measures %s points, should be %s" % (
            c["scale"], (h - l).tolist(), (hi - lo).tolist()))
    if c["at"] is not None:
        o = place(c["at"])
        if np.abs((h + l) / 2 - o).max() > 2 * e:
            raise draw.Violation("@%r: the middle of the drawing is at %s, should be at %s" % (
                c["at"], ((h + l) / 2).tolist(), o.tolist()))
    return (c["scale"] not in (None, [1, 1]) or c["at"] not in (None, [0.0, 0.0])) and len(pg.segs) >= 6, [
        "scale:" + ("none" if c["scale"] is None else "up" if c["scale"][0] > c["scale"][1] else "down"),
        "@" if c["at"] is not None else "no @"]


@st.composite
def move_case(d):
    v = d(strat.view())
    dims = d(st.lists(gen.dim(v, False, False), max_size=3))
    return {"solid": d(strat.solid_spec(1)), "view": v, "dims": dims, "a": d(loc), "b": d(loc), "scale": d(ratio()),
            "what": d(st.sampled_from(["@", "scale"])), "scale2": d(ratio())}


def shift(A, B, off, e):
    """A moved by off must be B, item by item."""
    if len(A.segs) != len(B.segs) or len(A.arcs) != len(B.arcs) or len(A.texts) != len(B.texts):
        raise draw.Violation("moving the drawing changes the number of lines, arcs or texts")
    if len(A.segs):
        d = np.abs(A.segs + off - B.segs).max()
        if d > e:
            raise draw.Violation("moving the drawing by %s moves a line %g points off" % (off.tolist(), d))
    for x, y in zip(A.arcs, B.arcs):
        if max(abs(x[0] + off[0] - y[0]), abs(x[1] + off[1] - y[1]), abs(x[2] - y[2])) > e or \
                max(abs(x[3] - y[3]), abs(x[4] - y[4])) > 1e-3:
            raise draw.Violation("moving the drawing by %s takes arc %r to %r" % (off.tolist(), x, y))
    for x, y in zip(A.texts, B.texts):
        if x["s"] != y["s"] or abs(x["cx"] + off[0] - y["cx"]) > e or abs(x["y"] + off[1] - y["y"]) > e:
            raise draw.Violation("moving the drawing by %s takes text %r to %r" % (off.tolist(), x, y))


def run_move(c):
    T = solids.build(c["solid"])
    if not T or len(T) > 200:
        return False, ["degenerate"]
    V = solids.view_of(c["view"])
    P = (np.array(T).reshape(-1, 3) @ V.T)[:, :2]
    ext = max(P.max(0) - P.min(0)) * 72

    def rr(r):  # keep drawings between 30 and 2000 points
        r = list(r)
        while ext * r[0] / r[1] > 2000:
            r[1] *= 2
        while ext * r[0] / r[1] < 30:
            r[0] *= 2
        return r
    r = rr(c["scale"])
    if c["what"] == "@":
        ds = "".join("".join(gen.dim_tokens(x)) for x in c["dims"])
        A, B = script(T, c["view"], r, c["a"], ds), script(T, c["view"], r, c["b"], ds)
        off = place(c["b"]) - place(c["a"])
        shift(A, B, off, tol(A.segs, B.segs) + (tol([a[:3] for a in A.arcs + B.arcs]) if A.arcs else 0) +
              (tol([[t["cx"], t["y"]] for t in A.texts + B.texts]) if A.texts else 0))
        return c["a"] != c["b"] and len(A.segs) >= 6, ["@"]
    r2 = rr(c["scale2"])
    A, B = script(T, c["view"], r, c["a"]), script(T, c["view"], r2, c["a"])
    f = (r2[0] / r2[1]) / (r[0] / r[1])
    o = place(c["a"])
    X = (A.segs - o) * f + o
    e = tol(B.segs) + tol(A.segs) * f
    m = draw.drawing_diff(X, B.segs, e, 0.6)
    if m:
        raise draw.Violation("scales %r and %r: %s" % (r, r2, m))
    return f != 1 and len(A.segs) >= 6, ["scale"]


PARTS = [Part("extent", box_case(), run_box, 4000, 80000),
         Part("change", move_case(), run_move, 3000, 60000)]
