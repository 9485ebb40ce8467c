"""C20: an angle annotation states and marks the true angle."""
import math

import numpy as np
from hypothesis import strategies as st

import annot
import draw
import solids
import strat
import sut
from runner import Part

PROPERTY = "C20"
TECHNIQUE = "property-based testing: random angles under random scale, view and place against a reference model of label and arc; metamorphic exchange of sides and of points for directions; directions coinciding on the page must be refused"
NOTE = "Labels agree to their last digit (0.05 degrees at 0 and 180, where the cosine is flat), arcs within 0.02pt (plus six-digit rounding); directions within 1e-4 rad of each other or of opposite on the page are not judged."
RULE = ("random directions or points and apexes, also nearly parallel, opposite, at right angles and along the line of sight, on an empty "
        "or random model with random scale, view and place; pairs of directions built to coincide on the page; and pairs a few units in the last place from the same or opposite. "
        "Non-trivial: an arc of at least 1 point radius is drawn (or, for coinciding directions, the angle is refused, for nearly coinciding ones it is accepted).")
I = st.integers


@st.composite
def sides(d):
    k = d(I(0, 5))
    f = d(strat.any_dir)
    if k == 0:
        f = d(st.sampled_from([[1.0, 0.0, 0.0], [0.0, 1.0, 0.0], [0.0, 0.0, 1.0], [1.0, 1.0, 0.0], [1.0, 1.0, 1.0]]))
        t = d(st.sampled_from([[0.0, 1.0, 0.0], [-1.0, 0.0, 0.0], [1.0, 1.0, 0.0], [0.0, -2.0, 0.0], [0.0, 1.0, -1.0], [-1.0, -1.0, 0.1], [2.0, 0.01, 0.0]]))
    elif k == 1:    # nearly the same or nearly opposite
        s = d(st.sampled_from([1.0, -1.0, 2.0, -0.5]))
        e = d(st.sampled_from([0.1, 0.02, 0.5, 0.005, 0.002]))
        j = d(st.tuples(I(-9, 9), I(-9, 9), I(-9, 9)))
        t = [round(x * s + e * y / 9, 6) for x, y in zip(f, j)]
    else:
        t = d(strat.any_dir)
    return f, t


@st.composite
def angle(d):
    f, t = d(sides())
    p = {"at": d(strat.point()), "apex": d(strat.point())}
    if d(I(0, 3)) == 0:
        p["apex"] = [0.0, 0.0, 0.0]
    size = max(1.0, *(abs(x) for a in p.values() for x in a))
    for n, v, w in (("from", f, t), ("to", t, f)):
        if d(st.booleans()):
            p[n + "_point"] = [p["apex"][i] + v[i] for i in range(3)]
        else:
            p[n + "_dir"] = v
    return p


@st.composite
def case(d):
    return dict(d(annot.frame()), dims=d(st.lists(angle(), min_size=1, max_size=2)), swap=d(st.booleans()),
                order=d(st.booleans()), prec=d(st.sampled_from([None, None, 4, 8, 12])))


def src(p, rev=False, prec=None):
    n = list(p)[::-1] if rev else list(p)
    return "angle(%s%s);" % (",".join("%s=%s" % (k, solids.pt(p[k])) for k in n), "" if prec is None else ',fmt="%%.%df"' % prec)


def usable(F, p):
    """(f, t) unit directions in the page frame, or None when not judged."""
    q, f, t = annot.angle_dirs(F, p)
    nf, nt = np.linalg.norm(f), np.linalg.norm(t)
    if nf < (1e-2 if "from_point" in p else 1e-6) or nt < (1e-2 if "to_point" in p else 1e-6):
        return None
    f, t = f / nf, t / nt
    pf, pt = math.hypot(f[0], f[1]), math.hypot(t[0], t[1])
    if pf < 1e-2 or pt < 1e-2 or abs(f[0] * t[1] - f[1] * t[0]) / (pf * pt) < 1e-4 or \
            abs(f[0] * t[1] - f[1] * t[0]) < 1e-5:
        return None
    return q, f, t


def angdiff(a, b):
    d = abs(a - b) % 360
    return min(d, 360 - d)


def check_arc(F, p, q, f, t, arc):
    r = float(np.linalg.norm(q["at"] - q["apex"])) * F.k
    c = F.page(q["apex"])
    e = F.tol(c, [r])
    if abs(arc[0] - c[0]) > e or abs(arc[1] - c[1]) > e:
        raise draw.Violation("%s: the arc is centred at %r, should be at %r" % (src(p), arc[:2], c.tolist()))
    if abs(arc[2] - r) > e:
        raise draw.Violation("%s: the arc's radius is %g, should be %g" % (src(p), arc[2], r))
    s, n = math.degrees(math.atan2(f[1], f[0])), math.degrees(math.atan2(t[1], t[0]))
    if (n - s) % 360 > 180:
        s, n = n, s
    # single precision script numbers matter for short projections
    lim = 0.01 + 1e-4 / min(math.hypot(f[0], f[1]), math.hypot(t[0], t[1]))
    if angdiff(arc[3], s) > lim or angdiff(arc[4], n) > lim:
        raise draw.Violation("%s: the arc runs from %g to %g degrees, should be from %g to %g" % (src(p), arc[3], arc[4], s, n))
    if not (arc[4] - arc[3]) % 360 < 180:
        raise draw.Violation("%s: the arc sweeps %g degrees" % (src(p), (arc[4] - arc[3]) % 360))
    return r > 1


def lines(F, p, q, f, t):
    """[(start, end)] of the extension lines, [(start, ends, tolerance)] of the arrow heads."""
    l = float(np.linalg.norm(q["at"] - q["apex"]))
    ext, heads = [], []
    size = max(1.0, *(abs(x) for a in p.values() for x in a))
    for n, v, w in (("from", f, t), ("to", t, f)):
        a = q.get(n + "_point", q["apex"])
        ext.append((F.page(a + v * 2 / F.k), F.page(q["apex"] + v * (l + 4 / F.k))))
        h = q["apex"] + v * l
        s = w - v * float(v @ w)            # square to the side, towards the other
        sin = np.linalg.norm(s)
        # how far the numbers of the script determine it
        er = sum(2e-7 * size / max(1e-9, np.linalg.norm(q[m + "_point"] - q["apex"])) if m + "_point" in p else 1e-9 for m in ("from", "to")) / sin
        heads.append((F.page(h), [F.page(h + (s / sin * 6 + v * z) / F.k) for z in (2, -2)] if er < .02 else [None] * 2, 10 * er))
    return ext, heads


def check_lines(F, todo, segs):
    """Extension lines and heads of all angles are there, and nothing else."""
    rest = [np.asarray(s) for s in segs]

    def take(what, score, e):
        b = min(range(len(rest)), key=lambda i: score(rest[i])) if rest else None
        if b is None or score(rest[b]) > e:
            raise draw.Violation("%s is missing, nearest is %s" % (what, None if b is None else np.round(rest[b], 3).tolist()))
        rest.pop(b)
    for p, (ext, heads) in todo:
        for a, b in ext:
            e = F.tol(a, b) + 2e-6 * F.k * max(1.0, *(abs(x) for v in p.values() for x in v))
            take("%s: the extension line %s to %s" % (src(p), np.round(a, 3).tolist(), np.round(b, 3).tolist()),
                 lambda s: min(max(np.abs(s[0] - a).max(), np.abs(s[1] - b).max()),
                               max(np.abs(s[1] - a).max(), np.abs(s[0] - b).max())), e)
    for p, (ext, heads) in todo:
        for h, ends, er in heads:
            for x in ends:
                e = F.tol(h) + er + 2e-6 * F.k * max(1.0, *(abs(x) for v in p.values() for x in v))
                take("%s: a line of the arrow head at %s%s" % (src(p), np.round(h, 3).tolist(), "" if x is None else " to %s" % np.round(x, 3).tolist()),
                     (lambda s: min(max(np.abs(s[i] - h).max(), np.abs(s[1 - i] - x).max()) for i in (0, 1))) if x is not None else
                     lambda s: min(np.abs(s[i] - h).max() + max(0.0, np.linalg.norm(s[1] - s[0]) - 7) for i in (0, 1)), e)
    if rest:
        raise draw.Violation("an unexpected line %s" % np.round(rest[0], 3).tolist())


def check_label(F, p, q, f, t, tx, prec=None):
    m = re_label(tx["s"], prec or 1)
    if m is None:
        raise draw.Violation("%s: the label is %r" % (src(p), tx["s"]))
    cos = max(-1.0, min(1.0, float(f @ t)))
    ang = math.degrees(math.atan2(np.linalg.norm(np.cross(f, t)), cos))
    lim = 0.0501 + 1e-5 + (0.001 if 1 < ang < 179 else 0.05)
    if prec is not None:
        # as exact as the cosine is
        size = max(1.0, *(abs(x) for v in p.values() for x in v))
        cond = size / min(1.0, *(float(np.linalg.norm(np.subtract(p[k], p["apex"]) if k.endswith("point") else [1.0])) for k in p if k[0] in "ft"))
        lim = 0.6 * 10.0 ** -prec + 1e-9 + math.degrees(1e-13 * cond / max(math.sin(math.radians(ang)), 1e-7))
    if abs(m - ang) > lim:
        raise draw.Violation("%s: the label is %r, the angle is %.12f" % (src(p, False, prec), tx["s"], ang))
    at = F.page(q["at"])
    e = F.tol(at)
    if abs(tx["cx"] - at[0]) > e or abs(tx["anchor"][1] - at[1]) > e:
        raise draw.Violation("%s: the label is centred at %r, should be at %r" % (src(p), (tx["cx"], tx["anchor"][1]), at.tolist()))


def re_label(s, prec=1):
    import re
    m = re.fullmatch(r"(\d+\.\d{%d}) deg" % prec, s)
    return float(m.group(1)) if m else None


def swapped(p):
    o = {}
    for k, v in p.items():
        o[k.replace("from", "#").replace("to", "from").replace("#", "to")] = v
    return o


def run(c):
    F = annot.Frame(c)
    dims, U = [], []
    for p in c["dims"]:
        u = usable(F, p)
        if u is not None:
            dims.append(p)
            U.append(u)
    if not dims:
        return False, ["not judged"]
    prec = c.get("prec")
    pg = F.render("".join(src(p, False, prec) for p in dims))
    if len(pg.texts) != len(dims) or len(pg.arcs) != len(dims):
        raise draw.Violation("%d angles give %d labels and %d arcs" % (len(dims), len(pg.texts), len(pg.arcs)))
    nt, lab = False, []
    for p, (q, f, t), tx, arc in zip(dims, U, pg.texts, pg.arcs):
        check_label(F, p, q, f, t, tx, prec)
        nt |= check_arc(F, p, q, f, t, arc)
        a = math.degrees(math.acos(max(-1, min(1, float(f @ t)))))
        lab.append("near 0 or 180" if a < 2 or a > 178 else "obtuse" if a > 90 else "acute")
    check_lines(F, [(p, lines(F, p, *u)) for p, u in zip(dims, U)], pg.segs)
    # exchanging the sides
    ps = [swapped(p) if c["swap"] else p for p in dims]
    if c["swap"] or c["order"]:
        p2 = F.render("".join(src(p, c["order"], prec) for p in ps))
        if prec is not None and len(p2.texts) == len(dims):
            for p, (q, f, t), tx in zip(dims, U, p2.texts):
                check_label(F, p, q, f, t, tx, prec)
        elif [t["s"] for t in p2.texts] != [t["s"] for t in pg.texts]:
            raise draw.Violation("exchanging from and to changes the labels: %r and %r" % (
                [t["s"] for t in pg.texts], [t["s"] for t in p2.texts]))
        for a, b in zip(pg.arcs, p2.arcs):
            if max(abs(x - y) for x, y in zip(a, b)) > 1e-3 * (1 + max(map(abs, a))):
                raise draw.Violation("exchanging from and to changes the arc: %r and %r" % (a, b))
        lab.append("exchanged")
    return nt, lab + sorted({k for p in dims for k in p if k[0] in "ft"})


@st.composite
def coincide(d):
    v = d(st.one_of(st.none(), st.sampled_from(strat.NAMES)))
    f = d(st.tuples(I(-9, 9), I(-9, 9), I(-9, 9)).map(list).filter(any))
    m = d(st.sampled_from([1.0, 2.0, 3.0, 0.5, 7.0, 5.0, 1.5]))
    sight = d(I(-9, 9)) if v is not None or d(st.booleans()) else 0
    ang = d(strat.view(True)) if sight == 0 and d(st.booleans()) else None
    return {"view": ang or v, "f": f, "m": m, "sight": 0 if ang else sight, "apex": d(strat.point()),
            "points": d(st.tuples(st.booleans(), st.booleans()).map(list)), "swap": d(st.booleans()),
            "scale": None, "at": [0.0, 0.0]}


def run_coincide(c):
    F = annot.Frame(c)
    f = np.array(c["f"], float)
    t = f * c["m"] + np.round(F.V.T @ np.array([0, 0, 1.0])) * c["sight"] if not isinstance(c["view"], list) else f * c["m"]
    p = {"at": [1.0, 2.0, 3.0], "apex": c["apex"]}
    q = [round(x) for x in c["apex"]]
    if any(c["points"]):
        p["apex"] = [float(x) for x in q]       # so that point minus apex is exact
    for n, v, pt in (("from", f, c["points"][0]), ("to", t, c["points"][1])):
        v = [float(x) for x in v]
        if pt:
            if any(x != int(x) for x in v):
                return False, ["not exact"]
            p[n + "_point"] = [q[i] + v[i] for i in range(3)]
        else:
            p[n + "_dir"] = v
    if c["swap"]:
        p = swapped(p)
    w = F.V @ f
    u = F.V @ t
    if np.linalg.norm(t) < 0.05 or math.hypot(w[0], w[1]) < 1e-2 or math.hypot(u[0], u[1]) < 1e-3:
        return False, ["seen end on"]
    try:
        draw.refused(F.script(src(p)), F.files)
    except draw.Violation as e:
        raise draw.Violation("%s, view %r: %s, though the directions coincide on the page" % (src(p), c["view"], e))
    return True, ["same direction" if c["sight"] == 0 else "different in depth only"]


@st.composite
def nearly(d):
    f = d(st.one_of(st.tuples(I(-9, 9), I(-9, 9), I(-9, 9)).map(list).filter(any), st.sampled_from([[1, 0, 0], [3, 0, 1], [0, 2, 0], [-5, 0, 0]])))
    i = d(I(0, 2))
    if d(st.booleans()) and sum(map(bool, f)) > 1:
        f[i] = 0
    return {"view": d(st.one_of(st.none(), strat.view())), "f": f,
            "m": d(st.sampled_from([1.0, 2.0, 3.0, -1.0, -3.0, 0.5, 7.0, 10.0])), "i": i, "n": d(I(1, 4)), "e": d(st.sampled_from([3e-6, 1e-6, 3e-7, 1e-7, -1e-7, -3e-7, -1e-6, 2e-8, 1e-8, 3e-9])),
            "swap": d(st.booleans()), "scale": None, "at": [0.0, 0.0]}


def run_nearly(c):
    """Directions a few units in the last place from the same or the opposite one."""
    F = annot.Frame(c)
    t = np.float32(c["f"]) * np.float32(c["m"])
    for _ in range(c["n"]):
        t[c["i"]] = np.nextafter(t[c["i"]], np.float32(99))
    if abs(t[c["i"]]) < 0.1:
        t[c["i"]] = np.float32(c["n"] * c["e"])
    p = {"at": [1.0, 2.0, 3.0], "apex": [0.0, 0.0, 0.0], "from_dir": [float(x) for x in c["f"]], "to_dir": [float(x) for x in t]}
    if c["swap"]:
        p = swapped(p)
    text = "angle(%s);" % ",".join("%s=[%s]" % (k, ",".join("%.12f" % x for x in v)) for k, v in p.items())
    r, x = sut.worker().run(F.script(text), F.files, draw.QUIET)
    draw.crashed(r)
    if not x.ret:
        return False, ["refused"]
    pg = draw.render1(F.script(text), F.files)
    if len(pg.texts) != 1 or re_label(pg.texts[0]["s"]) is None or \
            abs(re_label(pg.texts[0]["s"]) - (0 if c["m"] > 0 else 180)) > 0.1:
        raise draw.Violation("%s: the label is %r" % (text, [t["s"] for t in pg.texts]))
    w = (pg.arcs[0][4] - pg.arcs[0][3]) % 360 if len(pg.arcs) == 1 else math.inf
    pf, pt = [float(np.hypot(*(F.V @ np.array(p[k]))[:2]) / np.linalg.norm(p[k])) for k in ("from_dir", "to_dir")]
    if w > 180.5 or min(pf, pt) > 1e-2 and abs(w - (0 if c["m"] > 0 else 180)) > 0.5:
        raise draw.Violation("%s: the arc sweeps %r degrees" % (text, w))
    return True, ["same" if c["m"] > 0 else "opposite"]


PARTS = [Part("angles", case(), run, 6000, 150000), Part("coincide", coincide(), run_coincide, 2000, 40000),
         Part("nearly", nearly(), run_nearly, 1000, 20000)]
