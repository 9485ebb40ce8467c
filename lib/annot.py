"""What annotations must show: the reference model of dim and angle, on a page.

Frame: scale k (points per unit), origin o (page position of the model's page
origin), rotation V (column vectors)."""
import math

import numpy as np
from hypothesis import strategies as st

import draw
import gen
import solids
import strat

I = st.integers
EMPTY = {"e.stl": "solid e\nendsolid e\n"}


any_scale = st.one_of(gen.scale, gen.scale, st.tuples(I(1, 40), I(1, 400)).map(list), st.tuples(I(1, 9999), I(5000, 99999)).map(list))


@st.composite
def frame(d, models=True):
    """Scale, view, place and, sometimes, a model for the annotations to be on."""
    return {"view": d(strat.view()), "scale": d(any_scale), "at": d(st.tuples(strat.dec(-4, 4, 2), strat.dec(-3, 3, 2)).map(list)),
            "solid": d(strat.simple_spec()) if models and d(I(0, 3)) == 0 else None}


class Frame:
    def __init__(self, c):
        self.V = solids.view_of(c["view"])
        self.k = 72.0 if c["scale"] is None else 72.0 * c["scale"][0] / c["scale"][1]
        self.o = np.array([draw.CX + 72 * solids.f32(solids.num(c["at"][0])), draw.CY + 72 * solids.f32(solids.num(c["at"][1]))])
        T = solids.build(c["solid"]) if c.get("solid") else None
        self.files = dict(EMPTY)
        if T:
            P = (np.array(T).reshape(-1, 3) @ self.V.T)[:, :2]
            self.o = self.o - (P.max(0) + P.min(0)) / 2 * self.k
            self.files["e.stl"] = solids.stl(T)
        self.model = bool(T)
        self.head = ("" if c["scale"] is None else "scale=%d:%d;" % tuple(c["scale"])) + draw.view_src(c["view"]) + \
            "@[%s,%s];" % (solids.num(c["at"][0]), solids.num(c["at"][1]))

    def script(self, dims):
        return 'load m="e.stl";page{draw m{%s%s}}' % (self.head, dims)

    def render(self, dims):
        """Content with the model's own lines taken out."""
        pg = draw.render1(self.script(dims), self.files)
        if self.model:
            base = draw.render1(self.script(""), self.files)
            n = len(base.segs)
            A = [tuple(np.round(s.ravel(), 9)) for s in pg.segs]
            for s in base.segs:
                t = tuple(np.round(s.ravel(), 9))
                if t in A:
                    A.remove(t)
                else:
                    raise draw.Violation("the annotation changes the model's own lines")
            pg.segs = np.array(A, float).reshape(-1, 2, 2)
        return pg

    def rot(self, p):
        return self.V @ solids.ptval(p)

    def page(self, q):
        return np.array(q[:2]) * self.k + self.o

    def tol(self, *q):
        return 0.02 + 2e-5 * max([1.0] + [float(np.abs(np.ravel(v)).max()) for v in q if len(np.ravel(v))])


def dim_model(F, x):
    """-> dict: value, at (page), plus lines (page) or None when the layout is
    within rounding of a decision."""
    p = {n: F.rot(v) for n, v in x["p"].items()}
    d = p["dir"] / np.linalg.norm(p["dir"])
    f = p["at"] + d * d.dot(p["from"] - p["at"])
    t = p["at"] + d * d.dot(p["to"] - p["at"])
    L = t - f
    out = {"value": abs(float(d.dot(p["to"] - p["from"]))), "at": F.page(p["at"]), "lines": None,
           "tips": [F.page(f), F.page(t)]}
    n = math.hypot(L[0], L[1])
    if n < 1e-2:
        return out
    a = np.array([L[0], L[1]]) / n
    b = np.array([-a[1], a[0]])
    sg = []
    for q in ("from", "to"):
        s = float((p[q] - p["at"])[:2] @ b)
        sg.append((1,) if s > 1e-3 else (-1,) if s < -1e-3 else (1, -1))
    label = x.get("text") or "%.3f" % out["value"]
    w, h = 2.4 * len(label) + 1, 8 * .333 + 1
    gx = abs(w / a[0]) if abs(a[0]) > 1e-12 else math.inf
    gy = abs(h / a[1]) if abs(a[1]) > 1e-12 else math.inf
    gap = min(gx, gy)
    v = out["value"] * F.k
    out["fits"] = 2 * gap < v
    if abs(2 * gap - v) < 0.05 + 1e-3 * v :
        return out
    P = F.page
    at, pf, pt = P(p["at"]), P(f), P(t)
    if out["fits"]:
        ln = [(pf, at - a * gap), (at + a * gap, pt)]
        s = 1
    else:
        ln = [(pf, pf - a * 10), (pt, pt + a * 10)]
        s = -1
    for foot, q, g in ((pf, "from", sg[0]), (pt, "to", sg[1])):
        ln.append([(foot - b * 4 * v, P(p[q]) - b * 2 * v) for v in g])
    heads = []
    for c in (2, -2):
        heads.append((pf, pf + s * a * 6 + b * c))
        heads.append((pt, pt - s * a * 6 + b * c))
    out["dimline"], out["ext"], out["heads"] = ln[:2], ln[2:], heads
    out["lines"] = ln + heads
    return out


def match(want, got, e):
    """None, or the first wanted segment (or list of alternatives) that is
    missing from `got`, or one that is extra in it."""
    rest = [np.asarray(g) for g in got]
    for w in want:
        best, bi = None, None
        for a, b in (w if isinstance(w, list) else [w]):
            for i, g in enumerate(rest):
                dd = min(max(np.abs(g[0] - a).max(), np.abs(g[1] - b).max()),
                         max(np.abs(g[0] - b).max(), np.abs(g[1] - a).max()))
                if best is None or dd < best:
                    best, bi = dd, i
        if best is None or best > e:
            return "the line %s to %s is missing, nearest is %s" % (
                np.round(a, 3).tolist(), np.round(b, 3).tolist(), None if bi is None else np.round(rest[bi], 3).tolist())
        rest.pop(bi)
    if rest:
        return "an unexpected line %s" % np.round(rest[0], 3).tolist()
    return None


def angle_dirs(F, p):
    q = {n: F.rot(v) for n, v in p.items()}
    f = q["from_dir"] if "from_dir" in q else q["from_point"] - q["apex"]
    t = q["to_dir"] if "to_dir" in q else q["to_point"] - q["apex"]
    return q, f, t


def label_ok(s, value, places, lo_extra=1e-6):
    """Is s the value with `places` decimals (allowing rounding of a tie)?"""
    try:
        v = float(s)
    except ValueError:
        return False
    dot = s.find(".")
    if (len(s) - dot - 1 if dot >= 0 else 0) != places:
        return False
    return abs(v - value) <= 0.5 * 10 ** -places + lo_extra * (1 + abs(value))
