"""C22: near() and center() pick the right point."""
import math

import numpy as np
from hypothesis import strategies as st

import annot
import c21
import draw
import gen
import solids
import strat
import sut
from runner import Part

PROPERTY = "C22"
TECHNIQUE = "property-based testing: labels placed and measured at near() and center() of random points, nested, against brute-force selection over the visible facets' vertexes; and against scripts with the points written out"
NOTE = "Points agree within 0.02pt on the page (plus six-digit rounding); selections where two vertexes are within 1e-4 of a tie are not judged."
RULE = ("random solids (of up to 1300 facets) and plates with holes in random views, expressions near(), center() of points nested up to 3 deep as the place of a "
        "label and as the ends of measured lengths; near() of a vertex itself as the end of a measured length; and models on which the function must fail (empty, too few or collinear vertexes), with the "
        "function on a line of its own. Non-trivial: the function's argument is not already a vertex and at least 4 vertexes are visible, "
        "or the failure is reported.")
I = st.integers


@st.composite
def expr(d, names=("near", "center")):
    n = [d(st.sampled_from(names)) for _ in range(d(I(1, 3)))]
    return {"f": n, "p": d(st.one_of(strat.point(7), strat.point(7), strat.point(7), st.tuples(strat.point(9), st.sampled_from([100.0, 1e4, 1e6])).map(lambda t: [x * t[1] for x in t[0]]))), "snap": d(I(0, 3)) == 0, "pick": d(I(0, 999))}


@st.composite
def case(d):
    c = {"view": d(strat.view()), "scale": d(gen.scale), "at": d(st.tuples(strat.dec(-4, 4, 2), strat.dec(-3, 3, 2)).map(list)),
         "e": d(st.lists(expr(), min_size=1, max_size=3)), "n": d(I(0, 99))}
    k = d(I(0, 3))
    if k == 0:
        c["part"] = d(c21.part())
        c["off"] = d(strat.point(6))
    else:
        c["solid"] = d(strat.large_spec() if d(I(0, 19)) == 0 else strat.solid_spec(2))
    return c


TIE = 1e-4


class Ambiguous(Exception):
    pass


def visible(T, V):
    """Distinct page positions of the visible facets' vertexes."""
    page = [t @ V.T for t in T]
    f = []
    for t in page:
        z = solids.normal(t)[2]
        if abs(z) < 1e-5:
            if z and abs(z) > 1e-12:
                raise Ambiguous()
            continue
        if z > 0:
            f.append(t)
    if not f:
        return np.zeros((0, 2))
    P = np.array(f).reshape(-1, 3)[:, :2]
    out = np.zeros((len(P), 2))
    n = 0
    for p in P:
        if not n or np.abs(out[:n] - p).max(1).min() >= 1e-7:
            out[n] = p
            n += 1
    return out[:n]


def fit(pts):
    """Least-squares circle as the tool's; Ambiguous when it is ill-conditioned."""
    c0 = pts.mean(0)
    q = pts - c0
    s = np.abs(q).max()
    if s < 1e-9:
        raise Ambiguous()
    q = q / s
    A = np.c_[q, np.full(len(q), 0.5)]
    if np.linalg.cond(A) > 300:
        raise Ambiguous()
    r = np.linalg.lstsq(A, (q ** 2).sum(1) / 2, rcond=None)[0]
    return r[:2] * s + c0, math.sqrt(max(0, r[2] + r[0] ** 2 + r[1] ** 2)) * s


def nearest(vis, q):
    D = np.linalg.norm(vis - q, axis=1)
    o = np.argsort(D)
    if len(o) > 1 and D[o[1]] - D[o[0]] < TIE:
        raise Ambiguous()
    return vis[o[0]]


def centre(vis, q):
    if len(vis) < 4:
        raise Ambiguous()
    D = np.linalg.norm(vis - q, axis=1)
    o = np.argsort(D)
    if D[o[3]] - D[o[2]] < TIE:
        # a tie does not matter when it is between points of one circle
        for x in range(3, len(o)):
            if D[o[x]] - D[o[2]] > TIE:
                break
            c, r = fit(vis[o[:3]])
            if abs(np.linalg.norm(vis[o[x]] - c) - r) > 1e-6:
                raise Ambiguous()
    # points (nearly) as far and within a tenth of that of each other may count as one
    for i in range(3):
        for j in range(i + 1, len(o)):
            if D[o[j]] - D[o[i]] > TIE:
                break
            if np.linalg.norm(vis[o[i]] - vis[o[j]]) < .11 * D[o[i]]:
                raise Ambiguous()
    c, r = fit(vis[o[:3]])
    z = np.linalg.norm(vis - c, axis=1)
    if (np.abs(np.abs(z / r - 1) - .1) < 1e-3).any():
        raise Ambiguous()
    m = np.abs(z / r - 1) < .1
    c, r = fit(vis[m])
    # vertexes that are on no common circle have no well-defined centre
    if np.abs(np.linalg.norm(vis[m] - c, axis=1) / r - 1).max() > 1e-6:
        raise Ambiguous()
    return c


def evaluate(e, vis, q):
    for f in reversed(e["f"]):
        q = nearest(vis, q) if f == "near" else centre(vis, q)
        if not np.isfinite(q).all() or np.abs(q).max() > 1e3:
            raise Ambiguous()
    return q


def source(e, p):
    return "(".join(e["f"]) + "(" + solids.pt(p) + ")" * len(e["f"])


def model_of(c):
    V = solids.view_of(c["view"])
    if "part" in c:
        T, _ = c21.build(c["part"])
        if not T:
            return None
        return [(t + np.array(c["off"])) @ V for t in T], V
    T = solids.build(c["solid"])
    if not T or len(T) > 1300:
        return None
    return T, V


def run(c):
    r = model_of(c)
    if r is None:
        return False, ["degenerate"]
    T, V = r
    F = annot.Frame({"view": c["view"], "scale": c["scale"], "at": c["at"], "solid": None})
    F.files["e.stl"] = solids.stl(T)
    P = (np.array(T).reshape(-1, 3) @ V.T)[:, :2]
    F.o = F.o - (P.max(0) + P.min(0)) / 2 * F.k
    F.model = True
    try:
        vis = visible(T, V)
    except Ambiguous:
        return False, ["ambiguous"]
    dims, want, lab, nt = "", [], [], False
    for e in c["e"]:
        p = e["p"]
        if e["snap"]:   # exactly a vertex of the model, possibly a hidden one
            v = np.array(T).reshape(-1, 3)
            p = [float("%.6f" % x) for x in v[e["pick"] % len(v)]]
        q0 = (V @ solids.ptval(p))[:2]
        try:
            q = evaluate(e, vis, q0)
        except Ambiguous:
            lab.append("ambiguous")
            continue
        s = source(e, p)
        k = c["n"] % 3
        if k == 0:          # where it is
            dims += "dim(at=%s,dir=[1,2,3],from=[0,0,0],to=[1,0,0]);" % s
            want.append(("at", q, s))
        elif k == 1:        # how far it is, along two directions on the page
            for ax in (0, 1):
                u = V.T @ np.eye(3)[ax]
                dims += "dim(at=[0,0,0],dir=%s,from=%s,to=%s,fmt=\"%%.6f\");" % (
                    solids.pt(u), solids.pt(V.T @ [-100.0, -100.0, 0]), s)
                want.append(("len", abs(float(q[ax]) + 100), s))
        else:               # as the apex of an angle
            a, b = V.T @ [1.0, 0.25, 0], V.T @ [0.0, 1.0, 0.5]
            dims += "angle(at=[0.5,0.25,100],apex=%s,from_dir=%s,to_dir=%s);" % (s, solids.pt(a), solids.pt(b))
            want.append(("arc", q, s))
        lab.append("/".join(e["f"]))
        nt |= len(vis) >= 4 and np.linalg.norm(q - q0) > 1e-3
    if not want:
        return False, lab
    pg = F.render(dims)
    if len(pg.texts) != len(want):
        raise draw.Violation("%d annotations give %d labels" % (len(want), len(pg.texts)))
    arcs = list(pg.arcs)
    for (k, q, s), t in zip(want, pg.texts):
        if k == "len":
            if abs(float(t["s"]) - q) > 5e-4:
                raise draw.Violation("%s is measured at %s, should be at %.6f" % (s, t["s"], q))
            continue
        x = F.page(q)
        e = F.tol(x) + 1e-4 * F.k
        if k == "at":
            g = (t["cx"], t["anchor"][1])
        else:
            g = arcs.pop(0)[:2] if arcs else (math.inf, 0)
        if abs(g[0] - x[0]) > e or abs(g[1] - x[1]) > e:
            raise draw.Violation("view %r: %s is shown at %r, should be at %s" % (c["view"], s, g, np.round(x, 4).tolist()))
    return nt, lab


# ---------------------------------------------------------------- exact vertexes
eighth = I(-40, 40).map(lambda n: n / 8.0)


@st.composite
def exact_case(d):
    t = st.lists(st.tuples(eighth, eighth, eighth).map(list), min_size=3, max_size=3)
    return {"t": d(st.lists(t, min_size=1, max_size=6)), "pick": d(I(0, 99)), "view": d(st.sampled_from([None, "X+", "X-", "Y+", "Y-", "Z+", "Z-"])),
            "dir": d(strat.any_dir), "from": d(st.tuples(eighth, eighth, eighth).map(list)), "nest": d(I(1, 3)), "swap": d(st.booleans()),
            "scale": d(gen.scale)}


def run_exact(c):
    """near() of a vertex of a visible facet is that vertex, depth included."""
    V = solids.view_of(c["view"])
    T = [np.array(t) for t in c["t"]]
    T = [t for t in T if np.abs(np.cross(t[1] - t[0], t[2] - t[0])).max() > 1e-3]
    vis = [t for t in T if (V @ np.cross(t[1] - t[0], t[2] - t[0]))[2] > 1e-6 * np.abs(np.cross(t[1] - t[0], t[2] - t[0])).max()]
    if not vis or max(map(abs, c["dir"])) < 1e-3:
        return False, ["nothing visible"]
    v = vis[c["pick"] // 3 % len(vis)][c["pick"] % 3]
    e = "near(" * c["nest"] + solids.pt(v) + ")" * c["nest"]
    F = annot.Frame({"view": c["view"], "scale": c["scale"], "at": [0, 0], "solid": None})
    F.files["e.stl"] = solids.stl(T)
    ends = (e, solids.pt(c["from"]))
    pg = draw.render1(F.script("dim(at=[0,0,0],dir=%s,from=%s,to=%s,fmt=\"%%.6f\");" % ((solids.pt(c["dir"]),) + (ends if c["swap"] else ends[::-1]))), F.files)
    d = solids.ptval(c["dir"])
    want = abs(float((np.array(v) - c["from"]) @ d / np.linalg.norm(d)))
    if len(pg.texts) != 1 or abs(float(pg.texts[0]["s"]) - want) > 2e-5:
        raise draw.Violation("view %r: the vertex %s is measured at %r, should be %.6f" % (c["view"], e, [t["s"] for t in pg.texts], want))
    return abs((V @ np.array(v))[2]) > 0.1 and abs((V @ d)[2]) > 1e-2 * np.linalg.norm(d), ["nested %d" % c["nest"]]


# ---------------------------------------------------------------- failures
@st.composite
def fail_case(d):
    k = d(st.sampled_from(["empty", "hidden", "two", "collinear", "unknown"]))
    return {"k": k, "f": d(st.sampled_from(["near", "center"])), "outer": d(st.lists(st.sampled_from(["near", "center"]), max_size=2)),
            "p": d(strat.point()), "in": d(st.sampled_from(["at", "from", "to", "apex", "from_point", "to_point", "center"])),
            "pad": d(I(0, 5)),
            "row": d(st.tuples(st.tuples(strat.coord(), strat.coord()).map(list), st.sampled_from(
                [[1.0, 0.0], [0.0, 1.0], [0.3, 0.0], [0.3, 0.4], [-0.7, 0.1], [0.013, 0.007], [1.0, -3.0]])).map(list)), "view": d(st.sampled_from([None, "Z+"])), "name": d(st.sampled_from(["far", "Near", "centre", "nearest", "n"]))}


def facets(T):
    return solids.stl([np.array(t, float) for t in T])


def run_fail(c):
    f = c["f"]
    if c["k"] == "empty":
        stl = "solid e\nendsolid e\n"
    elif c["k"] == "hidden":    # all facets face away
        stl = facets([[[0, 0, 0], [0, 1, 0], [1, 0, 0]], [[0, 0, 0], [0, 2, 1], [2, 0, 1]]])
    elif c["k"] in ("two", "collinear"):
        # in a line on the page: one facet facing the viewer gives three points in
        # general position, so use a row of vertexes on one side of a tall one
        if f != "center":
            return False, ["near always succeeds here"]
        a, u = np.array(c["row"][0]), np.array(c["row"][1])
        row = [[*(a + u * i), 0.0] for i in range(6)]
        T = [[row[i], row[i + 1], [a[0] - u[1] * 200, a[1] + u[0] * 200, 0.0]] for i in range(5)]
        stl = facets(T)
    else:
        stl = facets([[[0, 0, 0], [1, 0, 0], [0, 1, 0]]])
    p = c["p"]
    if c["k"] in ("two", "collinear"):
        x = min(max(p[0], 0.0), 5.0)
        p = [float(a[0] + u[0] * x), float(a[1] + u[1] * x), p[2]]
    if c["k"] == "unknown":
        f = c["name"]
    outer = c["outer"] if c["k"] not in ("two", "collinear") else []
    e = solids.pt(p)
    line = "".join(o + "(" for o in outer)
    ex = line + "\n" + f + "(" + e + ")" + ")" * len(outer)
    kind = {"at": "dim", "from": "dim", "to": "dim", "center": "dia"}.get(c["in"], "angle")
    props = {"dim": {"at": "[1,1,0]", "dir": "[1,0,0]", "from": "[0,0,0]", "to": "[2,0,0]"},
             "angle": {"at": "[1,1,0]", "apex": "[0,0,0]", "from_point": "[3,0,0]", "to_point": "[0,3,0]"},
             "dia": {"at": "[1,1,0]", "dir": "[1,0,0]", "center": "[0,0,0]"}}[kind]
    props[c["in"]] = ex
    src = "load m=\"m.stl\";\npage {\n" + "\n" * c["pad"] + "draw m {\n%s@[0,0];\n%s(%s);\n}}\n" % (
        draw.view_src(c["view"]), kind, ",\n".join("%s=%s" % kv for kv in props.items()))
    ln = src[:src.index("\n" + f + "(") + 1].count("\n") + 1
    # dia gives up on a model with fewer than three points before it looks at center=
    lines = {ln}
    if outer:
        lines.add(ln - 1)      # center() may fail before its argument is looked at
    if kind == "dia" and c["k"] in ("empty", "hidden"):
        lines.add(src[:src.index("dia(")].count("\n") + 1)
    x = draw.refused(src, {"m.stl": stl})
    got = sut.diagnostics(x.err) + sut.parse_errors(x.err)
    if not any(l in lines for l, m, fn in got):
        raise draw.Violation("%s fails without a message at line %d: %r" % (f, ln, x.err[:400]))
    return True, [c["k"] + " " + (f if c["k"] != "unknown" else "")]


PARTS = [Part("pick", case(), run, 6000, 120000), Part("exact", exact_case(), run_exact, 1500, 30000), Part("fail", fail_case(), run_fail, 1500, 20000)]
