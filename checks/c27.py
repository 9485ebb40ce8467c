"""C27: an edge minus its hidden spans is what gets drawn."""
import numpy as np
from hypothesis import strategies as st

import draw
import solids
import sut
from runner import Part

PROPERTY = "C27"
TECHNIQUE = "property-based testing: line generation called with random edges and hidden spans against the complement of a union of intervals; and the same through the tool with slats in front of an edge"
NOTE = "Drawn intervals equal the reference to 1e-9 of the edge for all generated cases (directly) and to 0.02pt (through the tool)."
RULE = ("1-6 edges anywhere in space, some beyond the visible count, each with 0-8 hidden spans sorted by their start, with ends from a small set of fractions "
        "so that they overlap, nest, touch, repeat and reach the ends; shown hidden or not. Through the tool: 1-7 slats at various heights over one edge. "
        "Non-trivial: an edge with at least two spans that are neither all nor nothing of it.")
I = st.integers
S = st.sampled_from


@st.composite
def spans(d, n, q):
    s = d(st.lists(st.tuples(I(0, q), I(0, q)).map(lambda t: [min(t), max(t)]), max_size=n))
    return sorted(s, key=lambda t: t[0])      # the order of equal starts is as it comes


@st.composite
def case(d):
    P = st.tuples(*[I(-400, 400)] * 3).map(lambda t: [x / 8 for x in t])
    q = d(st.sampled_from([8, 16, 16, 64, 30, 7]))
    many = d(S([8] * 9 + [70]))
    e = d(st.lists(st.tuples(P, P, spans(many, q)).map(list).filter(lambda t: sum(abs(a - b) for a, b in zip(t[0][:2], t[1][:2])) > .5), min_size=1, max_size=6))
    z = d(S([1, 1, 1, .01, .001, 1e4]))
    e = [[[x * z for x in a], [x * z for x in b], s] for a, b, s in e] * d(S([1] * 40 + [12, 12, 900]))
    return {"edges": e, "q": q, "unseen": len(e) - (d(I(0, len(e))) if d(I(0, 2)) == 0 else 0), "show": d(I(0, 3)) == 3,
            "minlen": d(S([0.0, 1e-9, 1e-6, 1e-3, .01, .3]))}


def complement(s):
    out, at = [], 0.0
    for a, b in sorted(s):
        if a > at:
            out.append((at, a))
        at = max(at, b)
    if at < 1:
        out.append((at, 1.0))
    return out


def merge(v, tiny):
    v = sorted(x for x in v if x[1] - x[0] > tiny)
    out = []
    for a, b in v:
        if out and a <= out[-1][1] + tiny:
            out[-1] = (out[-1][0], max(b, out[-1][1]))
        else:
            out.append((a, b))
    return out


def run(c):
    E = [(np.array(a, float), np.array(b, float), [(x / c["q"], y / c["q"]) for x, y in s]) for a, b, s in c["edges"]]
    flat = lambda *v: " ".join(repr(float(x)) for p in v for x in p)
    at = lambda e, t: e[0] + (e[1] - e[0]) * t if t < 1 else e[1]
    f = [" ".join(flat(at(e, a), at(e, b)) for a, b in e[2]) for e in E]
    _, r = sut.unit("unit_stl").call("genlines", "1" if c["show"] else "0", str(c["unseen"]), repr(c["minlen"]), flat(*[p for e in E for p in e[:2]]), *f)
    v = [float(x) for x in r[0].split()]
    L = [(np.array(v[i:i + 2]), np.array(v[i + 2:i + 4])) for i in range(0, len(v), 4)]
    nt = False
    k = 0
    for i, e in enumerate(E[:c["unseen"]]):
        s = [] if c["show"] else e[2]
        want = complement(s)
        full = merge(want, 1e-9)
        tail = None
        # the last part may be too short to draw
        if want and want[-1][1] > 1 - 1e-9 and (want[-1][1] - want[-1][0]) * np.linalg.norm(e[1] - e[0]) <= c["minlen"] * (1 + 1e-6):
            tail = want.pop()
        want = merge(want, 1e-9)
        o, u = e[0][:2], e[1][:2] - e[0][:2]
        n2 = u @ u
        big = max(np.abs(e[0]).max(), np.abs(e[1]).max())
        # take the lines that lie on this edge next in order
        got = []
        total = sum(b - a for a, b in want)
        left = total
        while k < len(L) and left > 1e-9:
            a, b = L[k]
            t0, t1 = (a - o) @ u / n2, (b - o) @ u / n2
            off = max(np.abs(o + u * t0 - a).max(), np.abs(o + u * t1 - b).max())
            if off > 2e-9 * big or not (-1e-9 < min(t0, t1) and max(t0, t1) < 1 + 1e-9):
                break
            got.append((min(t0, t1), max(t0, t1)))
            left -= abs(t1 - t0)
            k += 1
        if tail and k < len(L):
            t0, t1 = (L[k][0] - o) @ u / n2, (L[k][1] - o) @ u / n2
            if max(abs(t0 - tail[0]), abs(t1 - tail[1]), np.abs(o + u * t0 - L[k][0]).max() / big, np.abs(o + u * t1 - L[k][1]).max() / big) < 1e-9:
                got.append(tail)
                k += 1
                want = full
        # the rest are specks from rounding
        while k < len(L) and np.abs(L[k][1] - L[k][0]).max() < 2e-9 * big:
            k += 1
        m = merge(got, 1e-9)
        if len(m) != len(want) or any(abs(x - y) > 1e-8 for p, q in zip(m, want) for x, y in zip(p, q)) or sum(b - a for a, b in got) > sum(b - a for a, b in want) + 1e-7:
            raise draw.Violation("edge %d %s hidden on %r: drawn on %r, should be %r" % (
                i, np.array(e[:2]).tolist(), s, [tuple(round(float(x), 9) for x in p) for p in got], want))
        nt = nt or len(s) > 1 and 0 < total < 1
    if k != len(L):
        raise draw.Violation("an unexpected line %r" % np.array(L[k]).tolist())
    return nt, ["show" if c["show"] else "hide", "some unseen" if c["unseen"] < len(E) else "all"]


# ------------------------------------------------------- through the tool
@st.composite
def tool_case(d):
    n = d(I(1, 7))
    q = d(st.sampled_from([8, 12, 16]))
    s = d(st.lists(st.tuples(I(0, q), I(0, q), I(1, 9), st.booleans()).filter(lambda t: t[0] != t[1]).map(
        lambda t: [min(t[:2]), max(t[:2]), t[2], t[3]]), min_size=n, max_size=n))
    return {"s": s, "q": q, "len": d(st.sampled_from([4.0, 10.0, 7.0])), "rot": float(d(st.sampled_from([0, 0, 90, 37, 123, 211]))), "order": d(st.permutations(range(n)))}


def run_tool(c):
    """One edge of a triangle lies under slats (the slats of one height do not overlap)."""
    Ln = c["len"]
    S = []
    z = {}
    for a, b, h, w in c["s"]:
        # slats at one height must not overlap: raise until free
        while any(a < y and x < b for x, y in z.get(h, [])):
            h += 1
        z.setdefault(h, []).append((a, b))
        S.append((a / c["q"] * Ln, b / c["q"] * Ln, h, w))
    T = [np.array([[0, 0, 0], [Ln * .4, -3, 0], [Ln, 0, 0]], float)]
    for i in c["order"]:
        a, b, h, w = S[i]
        # no two slats share a border seen from above: their ends differ
        lo, hi = -.5 - .013 * i, .5 + .017 * i
        P = [np.array(p, float) for p in ((a, lo, h), (b, lo, h), (b, hi, h), (a, hi, h))]
        k = w
        T += [np.array([P[k], P[k + 1], P[k + 2]]), np.array([P[k], P[k + 2], P[(k + 3) % 4]])]
    R = solids.rot_z(c["rot"])
    T = [t @ R.T for t in T]
    k = 40.0 / Ln * 10
    src = 'load m="e.stl";page{draw m{@[0,0];scale=%d:72;}}' % round(k)
    k = float(round(k))
    pg = draw.render1(src, {"e.stl": solids.stl(T)})
    P = np.array(T).reshape(-1, 3)[:, :2]
    o = np.array([draw.CX, draw.CY]) - (P.max(0) + P.min(0)) / 2 * k
    a, u = o, R[:2, 0]
    n = np.array([-u[1], u[0]])
    got = []
    for g in pg.segs:
        if max(abs((g[0] - a) @ n), abs((g[1] - a) @ n)) < 5e-3 and abs((g[1] - g[0]) @ u) > 5e-3:
            t = sorted([(g[0] - a) @ u, (g[1] - a) @ u])
            got.append(tuple(t))
    want = [(x * Ln * k, y * Ln * k) for x, y in merge(complement([(x / Ln, y / Ln) for x, y, _, _ in S]), 1e-9)]
    m = merge(got, .02)
    if len(m) != len(want) or any(abs(x - y) > .02 for p, q in zip(m, want) for x, y in zip(p, q)):
        raise draw.Violation("an edge of %g under slats over %r: drawn on %r, should be %r" % (
            Ln * k, [(x * k, y * k) for x, y, _, _ in S], np.round(got, 3).tolist(), np.round(want, 3).tolist()))
    if sum(y - x for x, y in got) > sum(y - x for x, y in want) + .05:
        raise draw.Violation("parts of an edge are drawn twice: %r" % np.round(got, 3).tolist())
    t = sum(y - x for x, y in want)
    return len(S) > 1 and 0 < t, ["%d slats" % len(S), "all hidden" if not want else "%d parts" % min(3, len(want))]


PARTS = [Part("tool", tool_case(), run_tool, 2500, 60000),
         Part("lines", case(), run, 20000, 600000, needs="unit_stl")]
