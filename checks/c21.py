"""C21: diameter and radius annotations state and mark the true circle."""
import math

import numpy as np
from hypothesis import strategies as st

import annot
import draw
import gen
import solids
import strat
from runner import Part

PROPERTY = "C21"
TECHNIQUE = "property-based testing: dia and rad on round holes and rims of random plates and prisms seen face-on, against the true circle"
NOTE = "Labels agree to their last digit, arrow tips and leader ends within 0.02pt (plus six-digit rounding)."
RULE = ("plates with an n-gon hole (n from 3 to 24, off centre, random phase) and rings (a hole and a rim), lying in a random plane and seen face-on "
        "from a named view or from angles, with center= a random point whose three closest vertexes on the page belong to one circle, "
        "at random scale and place. Non-trivial: the label is shown and the circle is over 2 points across.")
I = st.integers


def ring(n, r, m, big, h, phase=0.0):
    """A disc of m corners with a hole of n corners around the same axis: strips
    between the two circles by merging angles."""
    a = [phase + 360.0 * i / n for i in range(n)]
    b = [360.0 * i / m for i in range(m)]
    P = lambda q, rr, z: np.array([rr * math.cos(math.radians(q % 360)), rr * math.sin(math.radians(q % 360)), z])
    i = j = 0
    T = []
    # start both at their smallest angle >= 0
    a = sorted(x % 360 for x in a)
    b = sorted(x % 360 for x in b)
    A = a + [a[0] + 360]
    B = b + [b[0] + 360]
    while i < n or j < m:
        if j >= m or (i < n and A[i + 1] <= B[j + 1]):
            t = [P(A[i], r, h), P(B[j], big, h), P(A[i + 1], r, h)]
            i += 1
        else:
            t = [P(A[i], r, h), P(B[j], big, h), P(B[j + 1], big, h)]
            j += 1
        T.append(np.array(t))
        T.append(np.array([t[0] * [1, 1, 0], t[2] * [1, 1, 0], t[1] * [1, 1, 0]]))
    for k in range(n):
        p, q = P(A[k], r, 0), P(A[k + 1], r, 0)
        u, v = P(A[k], r, h), P(A[k + 1], r, h)
        T += [np.array([p, u, v]), np.array([p, v, q])]
    for k in range(m):
        p, q = P(B[k], big, 0), P(B[k + 1], big, 0)
        u, v = P(B[k], big, h), P(B[k + 1], big, h)
        T += [np.array([p, q, v]), np.array([p, v, u])]
    return T


@st.composite
def part(d):
    """-> spec; the circle(s) lie in planes across z."""
    if d(I(0, 2)):
        s = d(strat.plate_spec(3, 24))
        return s
    n, m = d(I(3, 20)), d(I(5, 24))
    r = d(I(4, 12)) / 4.0
    return {"kind": "ring", "n": n, "r": r, "m": m, "R": r * d(st.sampled_from([2.0, 1.5, 3.0])) / math.cos(math.pi / m),
            "h": d(I(1, 8)) / 2.0, "phase": float(d(I(0, 90)))}


def build(s):
    """-> triangles, [(centre, radius, points)]"""
    if s["kind"] == "ring":
        T = ring(s["n"], s["r"], s["m"], s["R"], s["h"], s["phase"])
        if any(np.linalg.norm(np.cross(t[1] - t[0], t[2] - t[0])) < 1e-4 for t in T):
            return None, None
        circ = [(np.zeros(2), s["r"]), (np.zeros(2), s["R"])]
    else:
        T = solids.build(s)
        circ = [(np.array(s["c"], float), s["r"])]
    return T, circ


@st.composite
def case(d):
    v = d(st.one_of(st.none(), st.sampled_from(strat.NAMES), st.tuples(strat.generic_angle, st.sampled_from([0.0, 180.0])).map(list),
                    st.tuples(strat.generic_angle, strat.generic_angle).map(list), st.tuples(strat.angle, strat.angle).map(list)))
    ann = []
    for _ in range(d(I(1, 2))):
        ann.append({"k": d(st.sampled_from(["dia", "rad"])), "which": d(I(0, 1)), "polar": [d(I(0, 35)) * 10.0 + 1, d(I(0, 30)) / 10.0],
                    "at": d(strat.point(6)), "dir": d(strat.any_dir), "depth": float(d(st.one_of(I(-9, 9), I(-9, 9), I(-50000, 50000)))),
                    "fn": d(st.sampled_from(["", "", "", "near", "center"]))})
    return {"part": d(part()), "view": v, "off": d(st.sampled_from([strat.point(6), strat.point(6), strat.point(999)]).flatmap(lambda x: x)), "scale": d(gen.scale), "at": d(st.tuples(strat.dec(-4, 4, 2), strat.dec(-3, 3, 2)).map(list)),
            "ann": ann, "flip": d(st.booleans())}


def setup(c):
    T, circ = build(c["part"])
    if not T:
        return None
    V = solids.view_of(c["view"])
    off = np.array(c["off"], float)
    if c["flip"]:   # turned over, seen from below
        X = np.diag([1.0, -1.0, -1.0])
        T = [t @ X.T for t in T]
        circ = [(m * [1, -1], r) for m, r in circ]
    # on the page the part is as built, moved by `off`
    page = [t + off for t in T]
    model = [t @ V for t in page]
    circ = [(m + off[:2], r) for m, r in circ]
    front = [t for t in page if solids.normal(t)[2] > 1e-6]
    vis = np.unique(np.round(np.array(front).reshape(-1, 3)[:, :2], 7), axis=0)
    P = np.array(page).reshape(-1, 3)[:, :2]
    F = annot.Frame({"view": c["view"], "scale": c["scale"], "at": c["at"], "solid": None})
    F.files["e.stl"] = solids.stl(model)
    F.model = True
    F.o = F.o - (P.max(0) + P.min(0)) / 2 * F.k
    return F, circ, vis, V


def members(vis, circ):
    d = np.linalg.norm(vis - circ[0], axis=1)
    return np.abs(d - circ[1]) < 1e-4


def apart(q, g):
    """distance of a point from a segment"""
    d = g[1] - g[0]
    n = float(d @ d)
    return float(np.linalg.norm(q - g[0] - d * (min(1, max(0, (q - g[0]) @ d / n)) if n else 0)))


def touch(g, h, e):
    return min(apart(g[0], h), apart(g[1], h), apart(h[0], g), apart(h[1], g)) < e


def run(c):
    r = setup(c)
    if r is None:
        return False, ["degenerate"]
    F, circ, vis, V = r
    dims, want, lab = "", [], []
    for a in c["ann"]:
        m, R = circ[a["which"] % len(circ)]
        q = m + a["polar"][1] * R * np.array([math.cos(math.radians(a["polar"][0])), math.sin(math.radians(a["polar"][0]))])
        p3 = V.T @ np.array([q[0], q[1], a["depth"]])
        p3 = [float("%.6f" % x) for x in p3]
        q = (V @ solids.ptval(p3))[:2]
        fn = a["fn"]
        D = np.sort(np.linalg.norm(vis - q, axis=1))
        o = np.argsort(np.linalg.norm(vis - q, axis=1))
        if fn == "near":        # the point becomes that vertex
            if D[1] - D[0] < 1e-3:
                continue
            q = vis[o[0]]
        elif fn == "center":
            in3 = [x for x in circ if members(vis[o[:3]], x).all()]
            if not in3 or D[3] - D[2] < 1e-3 and not members(vis[o[:4]], in3[0]).all():
                continue
            # center() fits the vertexes of this circle, if nothing else is about as far
            z = np.linalg.norm(vis - in3[0][0], axis=1)
            if (np.abs(z / in3[0][1] - 1) < .12).sum() != members(vis, in3[0]).sum():
                continue
            q = in3[0][0]
        D = np.sort(np.linalg.norm(vis - q, axis=1))
        o = np.argsort(np.linalg.norm(vis - q, axis=1))
        # points (nearly) as far and within a tenth of that of each other may count as one
        if any(D[j] - D[i] < 1e-4 and np.linalg.norm(vis[o[i]] - vis[o[j]]) < .11 * D[i]
               for i in range(3) for j in range(i + 1, min(len(o), i + 6))):
            lab.append("tie")
            continue
        # the three closest must be on one circle, clearly
        on = [x for x in circ if members(vis[o[:3]], x).all()]
        if not on:
            continue
        x = on[0]
        out = ~members(vis, x)
        if out.any() and np.linalg.norm(vis[out] - q, axis=1).min() - D[2] < 1e-3:
            continue
        z = np.linalg.norm(vis - x[0], axis=1)
        if ((np.abs(z / x[1] - 1) < .12) & out).any():
            continue        # a vertex of something else, about as far
        dr = V @ solids.ptval(a["dir"])
        if math.hypot(dr[0], dr[1]) < 0.01 * np.linalg.norm(dr):
            continue
        s = solids.pt(p3)
        dims += "%s(at=%s,dir=%s,center=%s);" % (a["k"], solids.pt(a["at"]), solids.pt(a["dir"]), "%s(%s)" % (fn, s) if fn else s)
        want.append((a["k"], x, dr[:2] / math.hypot(dr[0], dr[1]), F.page(F.rot(a["at"]))))
        lab += [a["k"], "hole" if x is circ[0] else "rim", fn or "point"]
    if not want:
        return False, ["not on a circle"]
    pg = F.render(dims)
    if len(pg.texts) != len(want):
        raise draw.Violation("%d annotations give %d labels" % (len(want), len(pg.texts)))
    segs = [tuple(map(tuple, s)) for s in pg.segs]
    rest = list(pg.segs)
    nt = False
    for (k, x, u, at), t in zip(want, pg.texts):
        val = x[1] * (2 if k == "dia" else 1)
        pre = "\xe9" if k == "dia" else "R"
        if t["s"][:1] != pre or not annot.label_ok(t["s"][1:], val, 3, 1e-5):
            raise draw.Violation("%s: the label is %r, should be %s%.3f" % (dims, t["s"], pre, val))
        d = 2e-5 * (np.abs(at).max() + abs(t["x"])) + 5e-3
        if not (-d <= t["x"] - at[0] <= 7.2 + d and 1.45 - d <= at[1] - t["y"] <= 3.25 + d):
            raise draw.Violation("%s: the label is at (%g,%g), not beside %s" % (dims, t["x"], t["y"], np.round(at, 3).tolist()))
        tips = [F.page(x[0] + u * x[1])] + ([F.page(x[0] - u * x[1])] if k == "dia" else [])
        n = np.array([-u[1], u[0]])
        e = F.tol(np.array(tips), at)
        for i, tip in enumerate(tips):
            s = 1 if i == 0 else -1
            for w in (2, -2):
                far = tip - 6 * s * u + n * w
                hit = [j for j, g in enumerate(rest) if max(np.abs(g[0] - tip).max(), np.abs(g[1] - far).max()) < e or
                       max(np.abs(g[1] - tip).max(), np.abs(g[0] - far).max()) < e]
                if not hit:
                    raise draw.Violation("%s: no arrow tip on the circle at %s" % (dims, np.round(tip, 3).tolist()))
                rest.pop(hit[0])
        nt |= x[1] * F.k > 1
    for (k, x, u, at) in want:
        a = F.page(x[0] + u * x[1])
        b = F.page(x[0] - u * x[1] if k == "dia" else x[0])
        e = F.tol(at, a, b)
        if not any(min(np.abs(g[0] - at).max(), np.abs(g[1] - at).max()) < e for g in rest):
            raise draw.Violation("%s: no leader ends at %s" % (dims, np.round(at, 3).tolist()))
        # the line from tip to tip (from the centre to the tip)
        L = np.linalg.norm(a - b)
        w = (a - b) / L
        on = [g for g in rest if max(abs((q - b) @ [-w[1], w[0]]) for q in g) < e]
        iv = sorted(sorted(float((q - b) @ w) for q in g) for g in on)
        end = 0.0
        for lo, hi in iv:
            if lo <= end + e:
                end = max(end, hi)
        if end < L - e:
            raise draw.Violation("%s: the line of the %s from %s reaches %.3f of %.3f to the tip" % (dims, k, np.round(b, 3).tolist(), end, L))
        # and on to at
        todo = [g for g in on if min((q - b) @ w for q in g) <= end + e and max((q - b) @ w for q in g) >= -e]
        left = list(rest)
        while todo:
            g = todo.pop()
            if min(np.abs(g[0] - at).max(), np.abs(g[1] - at).max()) < e:
                break
            near = [h for h in left if touch(g, h, e)]
            left = [h for h in left if not any(h is n for n in near)]
            todo += near
        else:
            raise draw.Violation("%s: the leader to %s does not start at the line of the %s" % (dims, np.round(at, 3).tolist(), k))
    return nt, lab + ["n=%d" % (c["part"]["n"] // 6 * 6), "view:" + ("named" if not isinstance(c["view"], list) else "angles")]


@st.composite
def along_case(d):
    """A dir that points straight at the reader, in a named view."""
    return {"case": d(case()), "view": d(st.sampled_from(strat.NAMES)), "len": d(st.sampled_from([1.0, -1.0, .25, 7.0, 1e-3, 1e6])), "k": d(st.sampled_from(["dia", "rad"]))}


def run_along(c):
    c0 = dict(c["case"], view=c["view"])
    r = setup(c0)
    if r is None:
        return False, ["degenerate"]
    F, circ, vis, V = r
    a = c0["ann"][0]
    s = solids.pt([float("%.6f" % x) for x in V.T @ np.array([circ[0][0][0], circ[0][0][1], 0])])
    dr = [0.0 if abs(x) < .5 else float(x) * c["len"] for x in V.T @ np.array([0.0, 0.0, 1.0])]
    sc = F.script("%s(at=%s,dir=%s,center=%s);" % (c["k"], solids.pt(a["at"]), solids.pt(dr), s))
    draw.refused(sc, F.files)
    return True, [c["k"], "view:" + c["view"]]


PARTS = [Part("circles", case(), run, 6000, 120000), Part("along", along_case(), run_along, 600, 10000)]
