"""C25: fmt is one %f conversion and is honoured."""
import math
import re

import numpy as np
from hypothesis import strategies as st

import annot
import draw
import gen
import solids
import sut
from runner import Part

PROPERTY = "C25"
TECHNIQUE = "property-based testing: random formats from the grammar of one %f conversion, and formats off it, on all four annotations against C printf semantics"
NOTE = "Labels agree exactly for values that are exact, and to the last digit for angles and radii; length modifiers and positional arguments are not judged."
RULE = ("fmt of literal text (any bytes, %%, up to 300 characters), one %f with random flags, width (to 300) and precision (to 40) and more text, on dim, angle, dia and rad with values from 1e-3 to 1e6; "
        "refused ones: other conversions, '*', none, two, a bare or unfinished %, spaces or signs in the wrong place. "
        "Non-trivial: accepted with a flag, width, precision or literal text; or refused.")
I = st.integers
S = st.sampled_from
lit = st.one_of(st.just(""), st.just(""), st.text(st.one_of(st.characters(min_codepoint=32, max_codepoint=126), S(list("()\\%%x\n 0.f-$")), gen.text_char), max_size=6),
                st.tuples(st.text(gen.text_char, min_size=1, max_size=5), I(2, 60)).map(lambda t: t[0] * t[1])).map(
    lambda s: s.replace("%", "%%"))


@st.composite
def conv(d, kind="f"):
    fl = "".join(d(st.lists(S(list("-+ #0")), max_size=4)))
    w = d(S(["", "", "", str(d(I(1, 30))), str(d(I(31, 300)))]))
    p = d(S(["", "", ".", ".%d" % d(I(0, 6)), ".%d" % d(I(0, 6)), ".%d" % d(I(7, 40))]))
    return "%" + fl + w + p + kind


@st.composite
def good(d):
    return d(lit) + d(conv()) + d(lit)


@st.composite
def bad(d):
    k = d(I(0, 5))
    if k == 0:
        return d(lit) + d(conv(d(S(list("dieEFgGaAcsxXoupnvkQ"))))) + d(lit)
    if k == 1:
        return d(lit) + d(S(["", "%%f", "%%", "f", "%%.3f"]))
    if k == 2:
        return d(lit) + d(conv()) + d(lit) + d(conv(d(S(list("fffdsg"))))) + d(lit)
    if k == 3:
        return d(lit) + d(S(["%*f", "%.*f", "%-*.3f", "%5*f", "%'f", "%_f", "%,f", "%!f", "%5-f", "%5 f", "%.3+f", "%.3.f", "%..f", "%.3 f", "%5.3-f"])) + d(lit)
    if k == 4:
        return d(good()) + d(S(["%", "%5", "%.3", "%-", "% "]))
    return d(S(["%", "%5", "%.", "%-", "% ", "%(f", "%\\f", "%\nf", "%;f"]))


ANG = [45.0, 90.0, 30.0, 120.0, 10.0, 7.5, 150.0]
num = st.one_of(I(1, 64).map(lambda k: k / 8), I(1, 1000000).map(float), I(1, 999).map(lambda k: k / 1024), I(1, 9999999).map(lambda k: k / 1000))


@st.composite
def case(d):
    return {"k": d(S(["dim", "angle", "dia", "rad"])), "v": d(num), "ang": d(S(ANG)), "neg": d(st.booleans()),
            "fmt": d(st.one_of(st.tuples(st.just(1), good()), st.tuples(st.just(1), good()), st.tuples(st.just(0), bad()), st.just((2, "")))), "alt": d(I(0, 255)),
            "pos": d(I(0, 3)), "nl": d(st.lists(I(0, 2), min_size=5, max_size=5))}


def run(c):
    ok, fmt = c["fmt"]
    v, files = c["v"], dict(annot.EMPTY)
    if c["k"] == "dim":
        # exact: coordinates are held in single precision
        v = solids.f32(v)
        p = ["at=[0,0,0]", "dir=[1,0,0]", "from=[0,1,0]", "to=[%s,2,0]" % "%.10f" % (-v if c["neg"] else v)]
        pre, post, places = "", "", 3
    elif c["k"] == "angle":
        v = c["ang"]
        t = math.radians(v)
        p = ["at=[3,1,0]", "apex=[0,0,0]", "from_dir=[1,0,0]", "to_dir=[%.7f,%.7f,0]" % (math.cos(t), math.sin(t))]
        pre, post, places = "", " deg", 1
    else:
        r = v / 2 if c["k"] == "dia" else v     # in double precision
        T = np.array([[r, 0, 0], [0, r, 0], [-r, 0, 0]])
        files["e.stl"] = solids.stl([T])
        p = ["at=[0,0,0]", "dir=[1,0,0]", "center=[0,0,0]"]
        pre, post, places = ("\xe9" if c["k"] == "dia" else "R"), "", 3
    where = min(c["pos"], len(p))
    if ok != 2:
        p.insert(where, "fmt=" + gen.literal(fmt, c["alt"]))
    line, src = 2, 'load m="e.stl";page{draw m{\n%s(' % c["k"]
    for i, q in enumerate(p):
        n = c["nl"][i % 5]
        src += "\n" * n + q + ("," if i + 1 < len(p) else "")
        line += n
        if i == where and ok != 2:
            at = line
    src += ");}}"
    if ok == 0:
        x = draw.refused(src, files)
        got = {l for l, _, _ in sut.diagnostics(x.err)}
        if at not in got:
            raise draw.Violation("fmt %r on line %d: messages name the lines %s: %r" % (fmt, at, sorted(got), x.err[-300:]))
        return True, [c["k"], "refused"]
    pg = draw.render1(src, files)
    f = fmt if ok == 1 else "%%.%df" % places
    e = v * (2e-6 if c["k"] == "angle" else 1e-12 if c["k"] != "dim" else 0)
    want = {pre + f % x + post for x in (v, v + e, v - e)}
    # an inexact value with many decimals: compare what is before them and the number
    got = [t["s"] for t in pg.texts]
    s = "".join(got) if got else ""
    if len(got) == 1 and s in want:
        pass
    elif len(got) == 1 and e and close(s, pre, f, post, v, e):
        pass
    else:
        raise draw.Violation("%s with fmt %r, value %r: the label is %r, should be %r" % (c["k"], f if ok == 1 else None, v, got, pre + f % v + post))
    return ok == 2 or fmt != "%f", [c["k"], "default" if ok == 2 else "text" if not fmt.startswith("%") or not fmt.endswith("f") else "bare"]


def close(got, pre, fmt, post, v, e):
    """Is got the label for some value within e of v?"""
    m = re.fullmatch(r"((?:[^%]|%%)*)(%[-+ #0]*[0-9]*(?:\.([0-9]*))?f)((?:[^%]|%%)*)", fmt, re.S)
    a, b = pre + m[1].replace("%%", "%"), m[4].replace("%%", "%") + post
    if not (got.startswith(a) and got.endswith(b) and len(got) > len(a) + len(b)):
        return False
    n = got[len(a):len(got) - len(b)]
    try:
        x = float(n)
    except ValueError:
        return False
    places = 6 if m[3] is None else int(m[3] or 0)
    return abs(x - v) <= e + 0.5000001 * 10.0 ** -places and m[2] % x == n


PARTS = [Part("fmt", case(), run, 14000, 300000)]
