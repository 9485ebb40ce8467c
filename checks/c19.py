"""C19: a linear dimension states and marks the true distance."""
import numpy as np
from hypothesis import strategies as st

import annot
import draw
import gen
import solids
import strat
from runner import Part

PROPERTY = "C19"
TECHNIQUE = "property-based testing: random dimensions under random scale, view and place against a reference model of the label and its lines; metamorphic invariance of the label"
NOTE = "Labels agree to their last digit and every line within 0.02pt (plus six-digit rounding); layout within rounding of fits/does not fit, or of the side of an extension line, is not judged."
RULE = ("1-3 dimensions with random points (also far from and on top of each other) on an empty or random model, random scale, "
        "view and place, with and without a fmt that makes the label long; axis-aligned ones whose lines meet the label's box sideways, lengthways and near its corner. "
        "Non-trivial: the marked length on the page is over 1 point.")
I = st.integers


@st.composite
def pts(d):
    k = d(I(0, 4))
    if k == 0:      # near the fits / does not fit border
        s = d(I(1, 60)) / 10.0
        a = d(strat.point(4))
        dr = d(st.sampled_from([[1.0, 0.0, 0.0], [0.0, 1.0, 0.0], [1.0, 1.0, 0.0], [1.0, 0.1, 0.0], [0.3, -1.0, 0.0], [2.0, 1.0, 0.0]]))
        n = float(np.linalg.norm(dr))
        m = [round(a[i] + dr[i] / n * s / 2, 4) for i in range(3)]
        b = [round(a[i] - dr[i] / n * s / 2, 4) for i in range(3)]
        o = d(strat.point(2))
        return {"at": [a[i] + o[i] for i in range(3)], "dir": dr, "from": m, "to": b}
    if k == 1:      # ordinary drawing practice: along an axis, offset across it
        ax, of = d(I(0, 2)), d(I(0, 2))
        f, t = d(strat.point()), d(strat.point())
        at = [(f[i] + t[i]) / 2 for i in range(3)]
        at[of] += d(I(-6, 6)) / 2.0
        dr = [0.0, 0.0, 0.0]
        dr[ax] = d(st.sampled_from([1.0, -1.0, 2.5]))
        return {"at": at, "dir": dr, "from": f, "to": t}
    big = d(st.sampled_from([9, 9, 90, 90, 999, 9999]))
    return {"at": d(strat.point(big)), "dir": d(strat.any_dir), "from": d(strat.point(big)), "to": d(strat.point(big))}


# (before the number, decimals, after it): the label's length decides the layout
fmts = st.one_of(st.none(), st.none(), st.tuples(
    st.sampled_from(["", "L", "length: ", "(", "a length, overall, of "]), st.sampled_from([0, 1, 2, 3, 4, 5, 6, 9, 11]),
    st.sampled_from(["", " mm", "in.", " (2x)", " before machining to size", " x" * 20])).map(list))


@st.composite
def case(d):
    ds = d(st.lists(pts(), min_size=1, max_size=3))
    return dict(d(annot.frame()), dims=ds, fmt=d(st.lists(fmts, min_size=len(ds), max_size=len(ds))))


def src(p, fmt=None):
    n = list(p)
    return "dim(%s%s);" % (",".join("%s=%s" % (k, solids.pt(p[k])) for k in n),
                           "" if fmt is None else ",fmt=%s" % gen.literal("%s%%.%df%s" % tuple(fmt)))


def run(c):
    F = annot.Frame(c)
    fm = c.get("fmt") or [None] * len(c["dims"])
    pg = F.render("".join(src(p, f) for p, f in zip(c["dims"], fm)))
    if len(pg.texts) != len(c["dims"]) or pg.arcs:
        raise draw.Violation("%d dimensions give %d labels" % (len(c["dims"]), len(pg.texts)))
    lab, nt = [], False
    want, judged = [], True
    for p, f, t in zip(c["dims"], fm, pg.texts):
        m = annot.dim_model(F, {"p": p, "text": t["s"]})
        a, n, b = f or ("", 3, "")
        exact = 1e-12 * (1 + max(abs(x) for v in p.values() for x in v)) / (1 + m["value"])
        if not (t["s"].startswith(a) and t["s"].endswith(b) and annot.label_ok(t["s"][len(a):len(t["s"]) - len(b)], m["value"], n, exact)):
            raise draw.Violation("%s: the label is %r, the distance is %.13g" % (src(p, f), t["s"], m["value"]))
        e = F.tol(m["at"])
        if abs(t["cx"] - m["at"][0]) > e or abs(t["anchor"][1] - m["at"][1]) > e:
            raise draw.Violation("%s: the label is centred at %r, should be at %r" % (src(p), (t["cx"], t["anchor"][1]), m["at"].tolist()))
        if m["lines"] is None:
            judged = False
            continue
        want += m["lines"]
        nt = nt or np.linalg.norm(m["tips"][0] - m["tips"][1]) > 1
        lab.append("fits" if m["fits"] else "does not fit")
    if judged:
        r = annot.match(want, pg.segs, F.tol(np.array([v[0] if isinstance(v, list) else v for v in want]), pg.segs))
        if r:
            raise draw.Violation("%s: %s" % (" ".join(src(p, f) for p, f in zip(c["dims"], fm)), r))
    else:
        lab.append("layout not judged")
    return nt and judged, lab + ["on a model" if F.model else "alone"]


@st.composite
def same_case(d):
    """One dimension in several frames: the label must not change."""
    return {"p": d(pts()), "frames": d(st.lists(annot.frame(False), min_size=2, max_size=3)), "swap": d(st.booleans()),
            "flip": d(st.booleans()), "mul": d(I(1, 40)) / 4.0}


def run_same(c):
    S = []
    for i, f in enumerate(c["frames"]):
        p = dict(c["p"])
        if i and c["swap"]:
            p["from"], p["to"] = p["to"], p["from"]
        if i and max(map(abs, p["dir"])) > 0.05:
            p["dir"] = [x * c["mul"] * (-1 if c["flip"] else 1) for x in p["dir"]]
        pg = annot.Frame(f).render(src(p))
        if len(pg.texts) != 1:
            raise draw.Violation("a dimension gives %d labels" % len(pg.texts))
        S.append(float(pg.texts[0]["s"]))
    # a value on the border of two labels may go either way; directions are
    # single precision numbers, so multiples of one are not quite parallel
    reach = max(abs(x) for n in ("from", "to", "at") for x in c["p"][n])
    if max(S) - min(S) > 1.01e-3 + 1e-6 * reach:
        raise draw.Violation("%s: labels %r in different frames" % (src(c["p"]), S))
    return max(S) > 0, ["swapped" if c["swap"] else "", "flipped" if c["flip"] else ""]


PARTS = [Part("dims", case(), run, 6000, 150000), Part("same", same_case(), run_same, 2500, 50000)]
