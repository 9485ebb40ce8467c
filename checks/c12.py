"""C12: STL reading."""
import math
import re

import numpy as np
from hypothesis import strategies as st

import draw
import gen
import solids
import sut
from runner import Part

PROPERTY = "C12"
TARGETS = ["worker", "unit_stl"]
TECHNIQUE = "property-based testing: random STL texts and single-line corruptions against an exact reference reader; coordinates also read back through dimension labels"
NOTE = "Vertex sets equal bit for bit on all generated files, every generated corruption refused; the reader is called directly and through whole scripts."
RULE = ("files of 0-8 facets in 1-3 solids with random number notations, indentation, solid names, missing normals; "
        "one in eight has the same facets up to 300 times more; half of the cases get one corruption (junk line, missing or extra vertex, malformed number, a line changed in one place, dropped or cut "
        "lines). Non-trivial: at least two different notations, or a corruption.")
I = st.integers


@st.composite
def number(d):
    """(text, value)"""
    form = d(I(0, 7))
    if form == 0:
        s = str(d(I(-999, 999)))
    elif form == 1:
        s = "%d.%s" % (d(I(0, 99)), d(st.text("0123456789", max_size=17)))
    elif form == 2:
        s = "." + d(st.text("0123456789", min_size=1, max_size=17))
    elif form == 3:
        s = "%d." % d(I(0, 9999))
    elif form == 4:
        s = repr(d(st.floats(-1e3, 1e3, allow_nan=False).filter(lambda x: x == 0 or abs(x) > 1e-30)))
    elif form == 5:
        s = "%.*f" % (d(I(0, 18)), d(st.floats(0, 100)))
    else:
        m = d(st.one_of(st.just("1"), st.text("0123456789", min_size=1, max_size=4),
                        st.builds("{}.{}".format, I(0, 99), st.text("0123456789", max_size=8)),
                        st.floats(0.1, 10).map(repr)))
        s = m + d(st.sampled_from("eE")) + d(st.sampled_from(["", "+", "-"])) + d(
            st.sampled_from(["0", "1", "2", "5", "02", "12", "003"]))
    if s[0] not in "+-":
        s = d(st.sampled_from(["", "", "", "+", "-", "-"])) + s
    return s


@st.composite
def small(d):
    v = d(I(-2000, 2000)) / 100
    return d(st.sampled_from(["%.2f", "%+.3f", "%.4e", "%.17g", "%g", "%.12E", "%+.1f"])) % v


def sp(d):
    return " " * d(st.sampled_from([0, 0, 0, 1, 2, 4, 7]))


def sp1(d):
    return " " * d(st.sampled_from([1, 1, 1, 2, 5]))


# printable ASCII and tabs: what other bytes mean is up to the regular expression library
solid_name = st.text(st.one_of(st.characters(min_codepoint=32, max_codepoint=126), st.just("\t")),
                     max_size=14).map(lambda s: " " + s)
zero = st.sampled_from(["0", "0.0", "-0", "0e0", "+0.000", ".0", "0E+5"])
BADNUM = ["nan", "inf", "1e", "--1", "1.2.3", "0x10", "1,5", "", "e5", "1e5e5", "1-2", "+-3", "1e+", ".", "-", "1f",
          "E", "+", "1_0", "1e1.5"]
JUNK = ["", " ", "foo", "facet normal 1 2", "facet normal 1 2 3 4", "vertex 1 2", "vertex 1 2 3 4", "Vertex 1 2 3",
        "vertex1 2 3", "outerloop", "end loop", "endfacet x", "facet", "endfacets", "solidx", "// comment", "#",
        "\tvertex 1 2 3", "vertex 1 2 3\r", "vertex\t1 2 3", "vertex 1 2 3;", "\x00", "\xff\xfe", "loop", "x solid a",
        "facet normal 1 2 3 x", "outer  loop", "endsolidx", "vertex (1,2,3)", "facetnormal 0 0 1", "normal 0 0 1"]


@st.composite
def case(d):
    """{"lines": [...], "facets": [[normal texts, [vertex texts]*3, ...]]} with the
    line number each structure is on, so that corruptions can aim."""
    lines, kinds = [], []

    def put(kind, s):
        lines.append(s)
        kinds.append(kind)
    verts = []
    pool = d(st.lists(number(), min_size=2, max_size=12))
    N = st.one_of(st.sampled_from(pool), number())
    for _ in range(d(st.sampled_from([1, 1, 1, 2, 3]))):
        nm = d(st.one_of(st.just(""), solid_name))
        put("solid", sp(d) + "solid" + nm)
        for _ in range(d(I(0, 4))):
            zn = d(I(0, 5)) == 0
            n = [d(zero) if zn else d(N) for _ in range(3)]
            if not zn and all(float(x) == 0 for x in n):
                n[d(I(0, 2))] = "1e-3"
            put("facet", sp(d) + "facet normal" + sp1(d) + sp1(d).join(n) + sp(d))
            loops = d(I(0, 9)) > 0
            if loops:
                put("loop", sp(d) + "outer loop" + sp(d))
            for _ in range(3):
                v = [d(N) for _ in range(3)]
                put("vertex" if not zn else "zvertex", sp(d) + "vertex" + sp1(d) + sp1(d).join(v) + sp(d))
                if not zn:
                    verts.append([float(x) for x in v])
            if loops:
                put("loop", sp(d) + "endloop" + sp(d))
            put("endfacet" if not zn else "zendfacet", sp(d) + "endfacet" + sp(d))
        put("solid", sp(d) + "endsolid" + nm)
    bad, good = None, list(lines)
    if d(st.booleans()):
        k = d(I(0, 6))
        at = lambda *ks: [i for i, x in enumerate(kinds) if x in ks]

        def some(xs):
            return xs[d(I(0, len(xs) - 1))]
        if k == 0:
            lines.insert(d(I(0, len(lines))), d(st.sampled_from(JUNK)))
            # a blank piece at the very end is only the last line's end
            bad = "junk"
        elif k == 1 and at("vertex"):
            i = some(at("vertex"))
            del lines[i]
            bad = "vertex missing"
        elif k == 2 and at("vertex"):
            i = some(at("vertex"))
            lines.insert(i, lines[i])
            bad = "vertex too many"
        elif k == 3 and at("vertex", "facet", "zvertex"):
            i = some(at("vertex", "facet", "zvertex"))
            w = lines[i].split(" ")
            j = some([j for j, x in enumerate(w) if x and x not in ("facet", "normal", "vertex")])
            w[j] = d(st.sampled_from(BADNUM))
            lines[i] = " ".join(w)
            bad = "number"
        elif k == 4 and at("endfacet"):
            del lines[some(at("endfacet"))]
            bad = "endfacet missing"
        elif k == 5 and at("vertex"):
            i = some(at("vertex", "loop", "facet"))
            nxt = [x for x in kinds[i + 1:] if x in ("endfacet", "zendfacet", "facet")]
            if nxt and nxt[0] in ("endfacet", "zendfacet"):
                del lines[i + 1:]
                bad = "cut short"
        elif k == 6:
            # a line that is nearly right
            i = d(st.sampled_from([0, 0, -1] + list(range(len(lines)))))
            how = d(st.sampled_from(["\xef\xbb\xbf"] * (8 if i == 0 else 1) + ["\xff", "\t", "x", "-", "#", "//", "upper", "\r", "\t", ";", " x", "\x00", ","]))
            if how == "upper":
                lines[i] = lines[i].replace("solid", "Solid", 1) if kinds[i] == "solid" else lines[i].upper()
            elif kinds[i] == "solid" or d(st.booleans()):
                lines[i] = how + lines[i]
            else:
                lines[i] += how
            bad = "nearly right line"
    return {"lines": lines, "last": d(st.booleans()), "verts": verts, "bad": bad,
            "before": [d(st.sampled_from([1, 4, 30, 300])), good] if d(I(0, 7)) == 0 else None}


def content(c):
    # without the final newline an empty last line would not be a line
    nl = c["last"] or (c["lines"] and c["lines"][-1] == "")
    n, good = c.get("before") or (0, [])
    return ("\n".join(good) + "\n") * n + "\n".join(c["lines"]) + ("\n" if nl else "")


def forms(c):
    s = set()
    for l in c["lines"]:
        for w in l.split():
            if re.fullmatch(r"[-+.eE0-9]+", w):
                s.add(re.sub(r"\d+", "9", w))
    return s


def run(c):
    err, res = sut.unit("unit_stl").call("points", content(c))
    nt = bool(c["bad"]) or len(forms(c)) >= 2
    if c["bad"]:
        if res[0] != "0":
            raise draw.Violation("a file with a fault (%s) is read" % c["bad"])
        return nt, ["bad: " + c["bad"]]
    if res[0] != "1":
        raise draw.Violation("a good file is refused: %s" % err[:300])
    v = [float(x) + 0.0 for x in res[1].split()]
    got = sorted({tuple(v[i:i + 3]) for i in range(0, len(v), 3)})
    want = sorted({tuple(x + 0.0 for x in p) for p in c["verts"]})
    if got != want:
        raise draw.Violation("vertexes differ: only read %r, only written %r" % (
            sorted(set(got) - set(want))[:3], sorted(set(want) - set(got))[:3]))
    return nt, ["vertexes:%d" % (len(want) // 4 * 4)]


# ---------------------------------------------------------------- whole runs
@st.composite
def e2e_case(d):
    """Upward facing triangles; the page coordinates of each vertex found by
    near() are measured."""
    tri = []
    plane = st.one_of(small(), small(), number())
    for k in range(d(I(1, 3))):
        tri.append([x for _ in range(3) for x in (d(plane), d(plane), d(small()))])
    return {"tri": tri, "bad": d(st.sampled_from([None, None, None, "junk", "vertex", "number", "cut", "empty"])),
            "pre": d(I(0, 4)), "name": d(st.sampled_from(["m.stl", "a b.stl", "x(1).stl", "d/m.stl"]))}


def run_e2e(c):
    lines, verts = ["solid a"], []
    for t in c["tri"]:
        v = [[float(x) for x in t[i:i + 3]] for i in (0, 3, 6)]
        a = (v[1][0] - v[0][0]) * (v[2][1] - v[0][1]) - (v[1][1] - v[0][1]) * (v[2][0] - v[0][0])
        size = max(abs(x) for p in v for x in p)
        n = np.cross(np.subtract(v[1], v[0]), np.subtract(v[2], v[0]))
        if size > 1e4 or abs(a) < 1e-6 * (1 + size * size) or abs(n[2]) < 1e-6 * np.linalg.norm(n):
            return False, ["flat"]
        lines.append("facet normal %r %r %r" % tuple((n * np.sign(n[2])).tolist()))
        lines.append("outer loop")
        for i in (0, 3, 6):
            lines.append("vertex " + " ".join(t[i:i + 3]))
        lines += ["endloop", "endfacet"]
        verts += v
    lines.append("endsolid a")
    b = c["bad"]
    if b == "junk":
        lines.insert(3, "bogus")
    elif b == "vertex":
        del lines[4]
    elif b == "number":
        lines[4] = "vertex 1 2 3..4"
    elif b == "cut":
        del lines[5:]
    elif b == "empty":
        lines[2] = ""
    f = {c["name"]: "\n".join(lines) + "\n"}
    pre = "\n" * c["pre"]
    load = pre + "load m=%s;\n" % gen.literal(c["name"])
    if b:
        x = draw.refused(load + "page{ draw m { } }", f)
        ds = sut.diagnostics(x.err)
        if not any(l == c["pre"] + 1 and c["name"] in m for l, m, _ in ds):
            raise draw.Violation("the message for a bad model does not name it and the load's line: %r" % (x.err[:500],))
        return True, ["bad: " + b]
    dims = ""
    want = []
    for v in verts:
        at = [solids.f32(solids.num(float(np.float32(x)))) for x in v[:2]]
        mine = math.hypot(v[0] - at[0], v[1] - at[1])
        if any(p != v and math.hypot(p[0] - at[0], p[1] - at[1]) < mine + 1e-3 for p in verts):
            continue
        for i in range(2):  # near() stands for a place on the page: no depth
            e = [0.0, 0.0, 0.0]
            e[i] = 1.0
            dims += 'dim(at=[0,0,0],dir=%s,from=[0,0,0],to=near([%s,%s,0]),fmt="%%.15f");' % (
                solids.pt(e), solids.num(at[0]), solids.num(at[1]))
            want.append(abs(v[i]))
    pg = draw.render1(load + "page{ draw m { %s } }" % dims, f)
    got = [float(t["s"]) for t in pg.texts]
    if len(got) != len(want):
        raise draw.Violation("labels are missing")
    for g, w in zip(got, want):
        if abs(g - w) > 1e-13 * (1 + w):
            raise draw.Violation("a coordinate is %r, measured %r" % (w, g))
    return len(want) >= 3, ["coordinates:%d" % (len(want) // 6 * 6)]


PARTS = [Part("reader", case(), run, 6000, 120000, needs="unit_stl"),
         Part("runs", e2e_case(), run_e2e, 3000, 50000)]
