"""C26: lines, arcs and texts are written to the page faithfully."""
import math

from hypothesis import strategies as st

import annot
import draw
import gen
import psi
import solids
import sut
from runner import Part

PROPERTY = "C26"
TECHNIQUE = "property-based testing: random lists of primitives written by the page functions and run through a PostScript interpreter; and texts, lines and labels through the tool"
NOTE = "All of them come back, in order, to six significant digits; trusts the interpreter in lib/psi.py."
RULE = ("up to 12 calls of 0-8 (sometimes repeated to over 1000) lines, arcs and texts (plain and centred) with coordinates from 1e-4 to 1e6 and either sign, integers, halves and zero, "
        "arc ends in either order within a turn, and strings of up to 500 characters over all bytes but NUL. Non-trivial: at least two primitives of different kinds.")
I = st.integers
S = st.sampled_from
co = st.one_of(I(-1000, 1000).map(float), I(-99999999, 99999999).map(lambda k: k / 1e5), S([0.0, 0.5, 99999.5, 100000.5, 1e-4, -1e-5, 123456.0, 1234567.0, 1e6, -0.25, 786.5]),
               st.tuples(I(1, 999999), I(-9, 3)).map(lambda t: t[0] * 10.0 ** t[1]), st.floats(-1e6, 1e6, allow_subnormal=False))
ang = st.one_of(I(-16, 16).map(lambda k: k * math.pi / 8), I(-628, 628).map(lambda k: k / 100), S([0.0, 2 * math.pi]))
rad = co.map(abs)
string = st.one_of(gen.words, st.text(st.one_of(S(list("()\\\r\n%$0123{}<>/")), st.characters(min_codepoint=1, max_codepoint=255)), max_size=12),
                   st.tuples(st.text(gen.text_char, min_size=1, max_size=5), I(2, 100)).map(lambda t: t[0] * t[1]))


@st.composite
def case(d):
    calls = []
    for _ in range(d(I(1, 12))):
        k = d(S(["lines", "arcs", "texts"]))
        n = d(I(0, 8)) if d(I(0, 3)) == 0 else d(I(1, 2))
        it = []
        for _ in range(n):
            if k == "lines":
                it.append([d(co), d(co), d(co), d(co)])
            elif k == "arcs":
                it.append([d(co), d(co), d(rad), d(ang), d(ang)])
            else:
                it.append([d(co), d(co), d(I(0, 1)), d(string)])
        calls.append([k, it * d(S([1] * 12 + [2, 40, 150]))])
    return {"src": d(gen.words), "calls": calls}


def six(x, y):
    """Is x, as read from the page, y to six significant digits?"""
    return abs(x - y) <= 5.01e-6 * 10 ** math.floor(math.log10(abs(y))) + 1e-15 * abs(y) if y else abs(x) < 1e-12


def run(c):
    u = sut.unit("unit_ps")
    _, h = u.call("doc", c["src"])
    f = []
    for k, it in c["calls"]:
        f += [k, str(len(it))]
        for x in it:
            if k == "texts":
                f += ["%r %r %d" % tuple(x[:3]), x[3]]
            else:
                f.append(" ".join(map(repr, x)))
    _, r = u.call("prims", *f)
    try:
        pages, _ = psi.interpret(h[0] + r[0] + "\nshowpage\n")
    except psi.PSError as e:
        raise draw.Violation("the page does not run: %s" % e)
    if len(pages) != 1:
        raise draw.Violation("%d pages, not one" % len(pages))
    pg = pages[0]
    L = [x for k, it in c["calls"] if k == "lines" for x in it]
    A = [x for k, it in c["calls"] if k == "arcs" for x in it]
    T = [x for k, it in c["calls"] if k == "texts" for x in it if x[3]]
    got = [(t, a) for t, a in zip(pg.texts, pg.anchors) if t[2]]
    for n, w, g in (("lines", L, pg.segs), ("arcs", A, pg.arcs), ("texts", T, got)):
        if len(w) != len(g):
            raise draw.Violation("%d %s give %d" % (len(w), n, len(g)))
    for w, g in zip(L, pg.segs):
        if not all(six(a, b) for a, b in zip((*g[0], *g[1]), w)):
            raise draw.Violation("the line %r is painted as %r" % (w, g))
    for w, g in zip(A, pg.arcs):
        if not all(six(a, b) for a, b in zip(g[:3], w[:3])):
            raise draw.Violation("the arc %r is painted as %r" % (w, g))
        s, e = math.degrees(w[3]), math.degrees(w[4])
        while e < s - 1e-3:
            e += 360
        t = (g[4] - g[3]) - (e - s)
        if abs((g[3] - s + 180) % 360 - 180) > 2e-3 or min(abs(t), abs(abs(t) - 360) if abs(e - s) < 4e-3 or abs(e - s - 360) < 4e-3 else 9) > 4e-3:
            raise draw.Violation("the arc from %g to %g degrees is painted from %g to %g" % (math.degrees(w[3]), math.degrees(w[4]), g[3], g[4]))
    for w, (g, a) in zip(T, got):
        if g[2] != w[3]:
            raise draw.Violation("the text %r is shown as %r" % (w[3], g[2]))
        x, y = g[0], g[1]
        if w[2]:
            x += psi.COURIER_ADV * g[3] * len(w[3]) / 2
            lo, hi = 1.5 * g[3] / 8, 3.2 * g[3] / 8
            if abs(x - w[0]) > 1e-6 + 6e-6 * abs(w[0]) or not lo - 6e-6 * abs(w[1]) <= w[1] - y <= hi + 6e-6 * abs(w[1]):
                raise draw.Violation("%r is centred at %r with its baseline at %g, should be at %r" % (w[3], x, y, w[:2]))
        elif not six(x, w[0]) or not six(y, w[1]):
            raise draw.Violation("%r starts at %r, should be %r" % (w[3], (x, y), w[:2]))
    n = (len(L) > 0) + (len(A) > 0) + (len(T) > 0)
    return n > 1 and len(L) + len(A) + len(T) > 1, [k for k, v in (("lines", L), ("arcs", A), ("texts", T)) if v]


# ------------------------------------------------------- through the tool
line = st.tuples(I(-40, 40), I(-30, 30), I(-40, 40), I(-30, 30)).map(lambda t: [x / 8 for x in t])
word = st.text(st.one_of(S(list("()\\%$0<>{}")), st.characters(min_codepoint=33, max_codepoint=126)), min_size=1, max_size=8)


@st.composite
def tool_case(d):
    return {"texts": d(st.lists(st.tuples(word, I(-400, 400), I(-300, 300)).map(list), max_size=5)),
            "angs": d(st.lists(st.tuples(I(0, 359), I(10, 170), st.one_of(I(1, 300), I(1, 300), I(300, 9000)), word, st.tuples(I(-20, 20), I(-20, 20)).map(list)).map(list), min_size=1, max_size=3)),
            "alt": d(I(0, 255))}


def run_tool(c):
    """Texts start at their place, an angle's arc runs counter-clockwise between its directions, its label is centred."""
    src = 'load m="e.stl";page{'
    for s, x, y in c["texts"]:
        src += "text[%s]{@[%s,%s];}" % (gen.literal(s, c["alt"]), solids.num(x / 100), solids.num(y / 100))
    src += "draw m{@[0,0];scale=1:1;"
    want = []
    for a, w, r, s, ap in c["angs"]:
        t, b = math.radians(a), math.radians(a + w)
        m = math.radians(a + w / 2)
        at = [ap[0] / 10 + r / 100 * math.cos(m), ap[1] / 10 + r / 100 * math.sin(m)]
        src += 'angle(apex=[%s,%s,0],at=[%.6f,%.6f,0],from_dir=[%.6f,%.6f,0],to_dir=[%.6f,%.6f,0],fmt=%s);' % (
            solids.num(ap[0] / 10), solids.num(ap[1] / 10), *at, math.cos(t), math.sin(t), math.cos(b), math.sin(b), gen.literal("%.0f" + s.replace("%", "%%"), c["alt"]))
        want.append((s, at, ap, r))
    src += "}}"
    pg = draw.render1(src, annot.EMPTY)
    n = len(c["texts"])
    if len(pg.texts) != n + len(want):
        raise draw.Violation("%d texts are shown, should be %d" % (len(pg.texts), n + len(want)))
    for (s, x, y), t in zip(c["texts"], pg.texts):
        ex, ey = draw.CX + 72 * solids.f32(solids.num(x / 100)), draw.CY + 72 * solids.f32(solids.num(y / 100))
        if t["s"] != s or abs(t["x"] - ex) > 2e-3 or abs(t["y"] - ey) > 2e-3:
            raise draw.Violation("%r at (%g,%g) is shown as %r at (%g,%g)" % (s, ex, ey, t["s"], t["x"], t["y"]))
    for (s, at, ap, r), (a, w, *_), t in zip(want, c["angs"], pg.texts[n:]):
        e = "%d%s deg" % (w, s)
        if t["s"] != e:
            raise draw.Violation("the label %r is shown as %r" % (e, t["s"]))
        X, Y = draw.CX + 72 * at[0], draw.CY + 72 * at[1]
        if abs(t["cx"] - X) > 5e-3 + 1.2e-5 * abs(X) or not 1.45 - 1.2e-5 * abs(Y) < Y - t["y"] < 3.25 + 1.2e-5 * abs(Y):
            raise draw.Violation("the label %r at (%g,%g) is centred at %g with its baseline at %g" % (e, X, Y, t["cx"], t["y"]))
    for (a, w, r, s, ap) in c["angs"]:
        cx, cy = draw.CX + 7.2 * ap[0], draw.CY + 7.2 * ap[1]
        for g in pg.arcs:
            if abs(g[0] - cx) < 5e-3 and abs(g[1] - cy) < 5e-3 and abs(g[2] - .72 * r) < 5e-3:
                lo = (g[3] - a + 180) % 360 - 180
                if lo > -.05 and lo + g[4] - g[3] < w + .05:
                    break
        else:
            near = [g for g in pg.arcs if math.hypot(g[0] - cx, g[1] - cy) < 5e-3]
            # a label wider than its arc leaves nothing of it
            if near or (len(s) + 6) * 4.8 + 4 < .72 * r * math.radians(w) / 2:
                raise draw.Violation("no arc of radius %g between %g and %g degrees around (%g,%g): %r" % (.72 * r, a, a + w, cx, cy, pg.arcs))
    return True, ["texts" if n else "no text", "%d arcs" % min(len(pg.arcs), 4)]


PARTS = [Part("tool", tool_case(), run_tool, 4000, 80000),
         Part("prims", case(), run, 12000, 300000, needs="unit_ps")]
