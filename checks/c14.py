"""C14: views are rigid rotations with the documented orientation."""
import math
import re

import numpy as np
from hypothesis import strategies as st

import draw
import gen
import solids
import strat
from runner import Part

PROPERTY = "C14"
TECHNIQUE = "metamorphic property-based testing: a view against the model and points rotated beforehand, named views and angles against each other, and projected points against the reference rotation"
NOTE = "Segments, arcs and labels agree to 0.03pt on all generated solids, annotations and views; annotations within rounding of a layout decision are left out."
RULE = ("random solids with 0-3 annotations in random views against the rotated solid and points in the default view; "
        "the same in named views against their angles and in angles a whole number of turns apart; and points of "
        "an empty model under random angles against the reference rotation. Non-trivial: the view is not the identity "
        "and the drawing has at least 6 lines (or, for points, at least 2 points).")
I = st.integers
TOL = 0.03


def fnum(x):
    return "%.9f" % x


def fpt(p):
    return "[" + ",".join(fnum(c) for c in p) + "]"


@st.composite
def annots(d, view):
    out = []
    for _ in range(d(I(0, 3))):
        x = d(gen.dim(view, False, False))
        x["fmt"] = None
        out.append(x)
    return out


def clear(x, V, k):
    """Is the annotation away from every layout decision?"""
    p = {n: V @ solids.ptval(v) for n, v in x["p"].items()}
    if x["k"] == "dim":
        d = p["dir"] / np.linalg.norm(p["dir"])
        f = p["at"] + d * d.dot(p["from"] - p["at"])
        t = p["at"] + d * d.dot(p["to"] - p["at"])
        L = t - f
        n = math.hypot(L[0], L[1])
        if n < 1e-2:
            return False
        a = np.array([L[0], L[1]]) / n
        b = np.array([-a[1], a[0]])
        for q in ("from", "to"):
            if abs((p[q] - p["at"])[:2] @ b) < 1e-3:
                return False
        val = np.linalg.norm(L)
        w, h = 2.4 * len("%.3f" % val) + 1, 8 * .333 + 1
        if min(abs(c) for c in a) < 1e-3:
            a = np.where(np.abs(a) < 1e-3, 1e-9, a)
        gap = min(abs(w / a[0]), abs(h / a[1]))
        return abs(2 * gap - val * k) > 0.05 and abs(abs(w / a[0]) - abs(h / a[1])) > 1e-3
    f = p["from_dir"] if "from_dir" in p else p["from_point"] - p["apex"]
    t = p["to_dir"] if "to_dir" in p else p["to_point"] - p["apex"]
    if np.linalg.norm(f) < 1e-2 or np.linalg.norm(t) < 1e-2 or np.linalg.norm(p["at"] - p["apex"]) < 1e-2:
        return False
    f, t = f / np.linalg.norm(f), t / np.linalg.norm(t)
    # the arc needs the directions on the page; keep them well away from the line of sight
    if math.hypot(f[0], f[1]) < 1e-2 or math.hypot(t[0], t[1]) < 1e-2:
        return False
    return abs(f[0] * t[1] - f[1] * t[0]) > 1e-3


def write(x, R=None):
    o = []
    for n, v in x["p"].items():
        o.append(n + "=" + (solids.pt(v) if R is None else fpt(R @ solids.ptval(v))))
    return "%s(%s);" % (x["k"], ",".join(o))


def same(A, B, what):
    m = draw.drawing_diff(A.segs, B.segs, TOL, 0.6) if len(A.segs) or len(B.segs) else None
    if m:
        raise draw.Violation("%s: %s" % (what, m))
    if len(A.arcs) != len(B.arcs) or len(A.texts) != len(B.texts):
        raise draw.Violation("%s: %d and %d arcs, %d and %d labels" % (
            what, len(A.arcs), len(B.arcs), len(A.texts), len(B.texts)))
    for a, b in zip(A.arcs, B.arcs):
        bad = max(abs(a[i] - b[i]) for i in range(3)) > TOL
        for i in (3, 4):
            dd = abs(a[i] - b[i]) % 360
            bad |= min(dd, 360 - dd) * math.pi / 180 * max(a[2], 1) > 0.1 and min(dd, 360 - dd) > 0.05
        if bad:
            raise draw.Violation("%s: arcs %r and %r" % (what, a, b))
    for a, b in zip(A.texts, B.texts):
        na, nb = re.sub(r"[-\d.]+", "#", a["s"]), re.sub(r"[-\d.]+", "#", b["s"])
        va, vb = [float(v) for v in re.findall(r"-?\d+\.?\d*", a["s"])], [float(v) for v in re.findall(r"-?\d+\.?\d*", b["s"])]
        lim = 0.11 if "deg" in a["s"] else 2.1e-3
        if na != nb or len(va) != len(vb) or any(abs(x - y) > lim for x, y in zip(va, vb)):
            raise draw.Violation("%s: labels %r and %r" % (what, a["s"], b["s"]))
        # labels of different length are centred differently
        if abs(a["cx"] - b["cx"]) > TOL or abs(a["y"] - b["y"]) > TOL:
            raise draw.Violation("%s: label %r at %r and %r" % (what, a["s"], (a["cx"], a["y"]), (b["cx"], b["y"])))


@st.composite
def rotated_case(d):
    v = d(strat.view())
    return {"solid": d(strat.solid_spec(2)), "view": v, "dims": d(annots(v)), "at": d(st.tuples(I(-2, 2), I(-2, 2)).map(list))}


def script(T, view, k, c, R=None):
    ds = "".join(write(x, R) for x in c["dims"])
    return draw.render1('load m="m.stl";page{draw m{scale=%d:%d;%s@[%d,%d];%s}}' % (
        k[0], k[1], draw.view_src(view), c["at"][0], c["at"][1], ds), {"m.stl": solids.stl(T)})


def prepare(c, views):
    T = solids.build(c["solid"])
    if not T or len(T) > 250:
        return None
    P = np.array(T).reshape(-1, 3)
    ext = float(np.linalg.norm(P.max(0) - P.min(0)))
    k = draw.scale_for(ext)
    c = dict(c, dims=[x for x in c["dims"] if all(clear(x, solids.view_of(v), 72.0 * k[0] / k[1]) for v in views)])
    return T, k, c


def run_rotated(c):
    p = prepare(c, [c["view"]])
    if p is None:
        return False, ["degenerate"]
    T, k, c = p
    V = solids.view_of(c["view"])
    A = script(T, c["view"], k, c)
    B = script([t @ V.T for t in T], None, k, c, V)
    same(A, B, "view %r against the rotated model" % (c["view"],))
    return not np.allclose(V, np.eye(3)) and len(A.segs) >= 6, ["named" if isinstance(c["view"], str) else "angles",
                                                               "annotations:%d" % len(c["dims"])]


ANG = {"Z+": [0.0, 0.0], "Y-": [0.0, 90.0], "X-": [90.0, 90.0], "Y+": [180.0, 90.0], "X+": [-90.0, 90.0], "Z-": [0.0, 180.0]}


@st.composite
def equal_case(d):
    k = d(I(0, 1))
    if k:
        n = d(st.sampled_from(strat.NAMES))
        a, b = n, ANG[n]
    else:
        a = d(st.tuples(I(-720, 720), I(-720, 720)).map(lambda t: [t[0] / 2, t[1] / 2]))
        b = list(a)
    b = [b[0] + 360.0 * d(I(-3, 3)), b[1] + 360.0 * d(I(-3, 3))]
    return {"solid": d(strat.solid_spec(1)), "a": a, "b": b, "dims": d(annots(a)), "at": [0, 0]}


def run_equal(c):
    p = prepare(c, [c["a"]])
    if p is None:
        return False, ["degenerate"]
    T, k, c = p
    A, B = script(T, c["a"], k, c), script(T, c["b"], k, c)
    same(A, B, "view %r against %r" % (c["a"], c["b"]))
    return c["a"] != c["b"] and len(A.segs) >= 6, ["named" if isinstance(c["a"], str) else "angles"]


@st.composite
def points_case(d):
    return {"view": d(strat.view()), "pts": d(st.lists(strat.point(), min_size=1, max_size=8)), "at": d(gen.loc), "scale": d(gen.scale)}


def run_points(c):
    k = 72.0 if c["scale"] is None else 72.0 * c["scale"][0] / c["scale"][1]
    at = c["at"] or [0.0, 0.0]
    o = [draw.CX + 72 * solids.f32(solids.num(at[0])), draw.CY + 72 * solids.f32(solids.num(at[1]))]
    src = "%s%s@[%s,%s];" % ("" if c["scale"] is None else "scale=%d:%d;" % tuple(c["scale"]), draw.view_src(c["view"]),
                             solids.num(at[0]), solids.num(at[1]))
    for p in c["pts"]:
        src += "dim(at=%s,dir=[1,0,0],from=[0,0,0],to=[1,0,0]);" % solids.pt(p)
    pg = draw.render1('load m="e.stl";page{draw m{%s}}' % src, {"m.stl": "", "e.stl": "solid e\nendsolid e\n"})
    V = solids.view_of(c["view"])
    if len(pg.texts) != len(c["pts"]):
        raise draw.Violation("labels are missing")
    for p, t in zip(c["pts"], pg.texts):
        q = V @ solids.ptval(p) * k
        x, y = o[0] + q[0], o[1] + q[1]
        lim = 0.02 + 1e-5 * (abs(x) + abs(y) + k * 20)
        if abs(t["anchor"][0] - x) > lim or abs(t["anchor"][1] - y) > lim:
            raise draw.Violation("view %r: the point %r is shown at %r, should be at %r" % (
                c["view"], p, t["anchor"], (x, y)))
    return not np.allclose(V, np.eye(3)) and len(c["pts"]) >= 2, ["named" if isinstance(c["view"], str) else "angles"]


PARTS = [Part("points", points_case(), run_points, 2500, 60000),
         Part("rotated", rotated_case(), run_rotated, 2500, 60000),
         Part("equal", equal_case(), run_equal, 1500, 40000)]
