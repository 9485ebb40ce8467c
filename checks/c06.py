"""C06: every mistake is reported at its place, nothing else is."""
import numpy as np
from hypothesis import strategies as st

import draw
import gen
import seeds
import solids
import strat
import sut
from runner import Part

PROPERTY = "C06"
TECHNIQUE = "property-based testing: random scripts with injected mistakes at known lines against the set of reported lines"
NOTE = ("Reported lines equal the injected ones on all generated scripts with up to about 12 mistakes of 25 kinds; one mistake "
        "per statement, and a drawing's own properties and its annotations are not both at fault.")
RULE = ("scripts of loads, pages, drawings, texts and annotations, properties on one line or more of their own with random blank and comment "
        "lines, a quarter of them after up to 70000 other lines, each statement with or without a mistake. Non-trivial: at least two mistakes in different statements, "
        "or one mistake among at least four statements.")
I = st.integers
S = st.sampled_from

PT = st.one_of(strat.point(), strat.point()).map(lambda p: "[%s]" % ",".join(map(solids.num, p)))


class W:
    """Script lines being written, with what is expected of them."""

    def __init__(self, d):
        self.d, self.lines, self.n, self.bad = d, [], 0, []
        self.left = d(S([1, 1, 99]))        # how many more mistakes to make
        self.level = d(S(["page", "text"] + ["draw"] * 2 + ["note"] * 5)) if self.left == 1 else ""     # and where

    def may(self, level):
        return self.left > 0 and self.level in ("", level)

    def put(self, s):
        for _ in range(self.d(S([0, 0, 0, 0, 1, 2]))):
            self.lines.append(self.d(S(["", "  ", "// dim(at=1);", "//", "\t// } page"])))
        self.lines.append(self.d(S(["", "  ", "\t"])) + s)
        return len(self.lines)

    def head(self, *toks):
        """The tokens that begin a statement, on one line or several; the line of each."""
        out, cur = [], [toks[0]]
        for t in toks[1:] + (None,):
            if t is None or self.d(I(0, 5)) == 0:
                l = self.put(" ".join(cur))
                out += [l] * len(cur)
                cur = []
            cur.append(t)
        return out

    def prop(self, n, v, end):
        """A property on one line or several; the lines it is on."""
        if self.d(I(0, 3)):
            l = self.put((n + v if n == "@" else n + "=" + v) + end)
            return [l]
        parts = [n] + ([] if n == "@" else ["="]) + [v + end]
        k = self.d(I(0, len(parts) - 2))
        parts[k:k + 2] = [parts[k] + parts[k + 1]] if self.d(I(0, 1)) else parts[k:k + 2]
        a = [self.put(x) for x in parts]
        return list(range(a[0], a[-1] + 1))

    def fault(self, kind, req, allow):
        """One of the lines req must be reported; lines of allow may be."""
        self.left -= 1
        self.bad.append([kind, sorted(set(req)), sorted(set(req) | set(allow))])


def lines_of(at, target, kind):
    return sum(at[target][-1:] if kind == "dup" else at[target], [])


def value(d, typ):
    """Source of a value of another type than typ."""
    o = {"str": '"abc"', "pt": d(PT), "num": "7", "loc": "[1,2]", "scale": "1:2"}
    k = d(S([k for k in sorted(o) if k != typ]))
    return k, o[k]


UNKNOWN = ["foo", "Name", "scales", "ats", "views", "x", "from_dirs", "fmts"]


def annotation(d, w, empty):
    w.n += 1
    k = d(S(["dim", "angle", "dia", "rad"] if empty != "e" else ["dim", "angle"]))
    if k == "dim":
        p = {"at": d(PT), "dir": "[1,%s,0]" % d(I(-3, 3)), "from": d(PT), "to": d(PT)}
    elif k == "angle":
        p = {"at": d(PT), "apex": d(PT), d(S(["from_dir", "from_dir"])): "[1,0,%d]" % d(I(-2, 2)), "to_dir": "[%d,1,0]" % d(I(-2, 2))}
    else:
        p = {"at": d(PT), "dir": "[%d,1,0]" % d(I(-2, 2)), "center": "[%s,%s,1]" % (0.5 if empty == "h" else "%.1f" % (d(I(21, 25)) / 10), solids.num(d(I(-2, 2)) / 10))}
    if d(I(0, 2)) == 0:
        p["fmt"] = '"%.2f"'
    props = d(st.permutations(list(p.items())))
    kind = None
    target = None     # name of the property whose line must be reported; None: the statement's
    if w.may("note") and d(I(0, 3 if w.level else 1)) < (3 if w.level else 1):
        kind = d(S(["missing", "unknown", "dup", "type", "fmt", "fmttype", "func", "both", "zero", "flat", "near", "centre", "centre"]))
        req = [n for n in p if n != "fmt"]
        if kind == "missing":
            n = d(S(req + [""]))
            props = [x for x in props if x[0] != n] if n else []
        elif kind == "unknown":
            i = d(I(0, len(props)))
            v = value(d, "")
            props.insert(i, (d(S(UNKNOWN)), v[1]))
            target = props[i][0]
        elif kind == "dup":
            i = d(I(0, len(props)))
            n = d(S(sorted(p)))
            props.insert(i, (n, p[n]))
            target = n
        elif kind == "type":
            n = d(S(req))
            props = [(a, value(d, "pt")[1] if a == n else b) for a, b in props]
            target = n
        elif kind in ("fmt", "fmttype"):
            props = [x for x in props if x[0] != "fmt"]
            i = d(I(0, len(props)))
            props.insert(i, ("fmt", '"%s"' % d(S(["%d", "", "%f%f", "x", "%"])) if kind == "fmt" else value(d, "str")[1]))
            target = "fmt"
        elif kind == "func":
            n = d(S(req))
            props = [(a, "bogus(%s)" % b if a == n else b) for a, b in props]
            target = n
        elif kind == "both" and k == "angle":
            n = d(S(["from", "to"]))
            props.insert(d(I(0, len(props))), (n + "_point", d(PT)))
            target = (n + "_point", n + "_dir")
        elif kind == "zero" and k != "angle":
            props = [(a, "[0,0,0]" if a == "dir" else b) for a, b in props]
            target = "dir"
        elif kind == "zero":
            props = [(a, p["from_dir"] if a == "to_dir" else b) for a, b in props]
        elif kind == "flat" and k in ("dia", "rad"):
            props = [(a, "[0,0,%d]" % d(S([1, -3])) if a == "dir" else b) for a, b in props]
            target = "dir"
        elif kind == "flat" and k == "angle":       # a direction, or a point, at the apex on the page
            n = d(S(["from", "to"]))
            if d(st.booleans()):
                props = [(a, "[0,0,%d]" % d(S([1, -3])) if a == n + "_dir" else b) for a, b in props]
                target = n + "_dir"
            else:
                props = [(n + "_point", p["apex"]) if a == n + "_dir" else (a, b) for a, b in props]
                target = n + "_point"
        elif kind == "centre" and empty == "s":
            x = "[%.1f,%s,0]" % (d(I(81, 89)) / 10, solids.num(d(I(-3, 3)) / 10))
            n = "center" if k in ("dia", "rad") else d(S(req))
            props = [(a, (x if k in ("dia", "rad") and d(st.booleans()) else "center(%s)" % x) if a == n else b) for a, b in props]
            target = n
        elif kind in ("near", "centre") and empty == "e":
            n = d(S(req))
            props = [(a, ("near(%s)" if kind == "near" else "center(%s)") % b if a == n else b) for a, b in props]
            target = n
        else:
            kind = None
    first = w.head(k, "(")[0]
    at = {}
    for i, (n, v) in enumerate(props):
        at.setdefault(n, []).append(w.prop(n, v, "," if i + 1 < len(props) else ""))
    w.put(");")
    if kind:
        if target is None:
            w.fault(k + " " + kind, [first], [first])
        else:
            t = target if isinstance(target, tuple) else (target,)
            ls = [l for n in t for l in at[n]]
            if kind == "dup":
                ls = ls[-1:]  # the one that repeats the other
            ls = sum(ls, [])
            w.fault(k + " " + kind, ls + ([first] if kind in ("flat", "centre") else []), [first])
    return bool(kind)


def drawing(d, w, models):
    w.n += 1
    kind = d(S([None] * (3 if w.level else 12) + ["unknown", "dup", "scaletype", "scaleval", "viewname", "viewtype", "model"])) if w.may("draw") else None
    m = d(S(models))
    props = []
    if d(st.booleans()):
        props.append(["scale", "%d:%d" % (d(I(1, 9)), d(I(1, 9)))])
    if d(st.booleans()):
        props.append(["@", "[%d,%d]" % (d(I(-3, 3)), d(I(-3, 3)))])
    if d(st.booleans()):
        props.append(["view", d(S(['"Z+"', '"Z+"', "[0,0]"]))])
    target = None

    def setp(n, v):
        for x in props:
            if x[0] == n:
                x[1] = v
                return
        props.append([n, v])
    if kind == "unknown":
        props.append([d(S(UNKNOWN + ["name", "dir", "at"])), value(d, "")[1]])
        target = props[-1][0]
    elif kind == "dup":
        if not props:
            props.append(["scale", "1:1"])
        props.append(list(d(S(props))))
        target = props[-1][0]
    elif kind == "scaletype":
        setp("scale", value(d, "scale")[1])
        target = "scale"
    elif kind == "scaleval":
        setp("scale", d(S(["0:1", "1:0", "-1:2", "3:-4", "0:0"])))
        target = "scale"
    elif kind == "viewname":
        setp("view", d(S(['"x+"', '""', '"Z"', '"+Z"', '"Z+ "', '"W-"'])))
        target = "view"
    elif kind == "viewtype":
        setp("view", d(S(["[1,2,3]", "7", "1:2", "near([1,2,3])"])))
        target = "view"
    props = d(st.permutations(props))
    first, name, _ = w.head("draw", "nope" if kind == "model" else m, "{")
    at = {}
    body = [("p", x) for x in props]
    for _ in range(d(I(1, 4)) if not kind else d(I(0, 2))):
        body.insert(d(I(0, len(body))), ("a", None))
    for t, x in body:
        if t == "p":
            at.setdefault(x[0], []).append(w.prop(x[0], x[1], ";"))
        elif kind:
            good_annotation(d, w)
        else:
            annotation(d, w, m)
    w.put("}")
    if kind:
        w.fault("draw " + kind, lines_of(at, target, kind) if target else [first, name], [first, name])


def good_annotation(d, w):
    w.n += 1
    w.put("dim(at=%s,dir=[1,0,0]," % d(PT))
    w.put("from=%s,to=%s);" % (d(PT), d(PT)))


def textual(d, w):
    w.n += 1
    kind = d(S([None, None, None, "unknown", "dup"])) if w.may("text") else None
    props = [["@", "[1,2]"]] if d(st.booleans()) else []
    target = None
    if kind == "unknown":
        props.append([d(S(UNKNOWN + ["name", "scale"])), value(d, "")[1]])
        target = props[-1][0]
    elif kind == "dup":
        props = [["@", "[1,2]"], ["@", "[2,1]"]]
        target = "@"
    first = w.head("text", "[", '"a"', '"b"', "]", "{")[0]
    at = {}
    for x in d(st.permutations(props)):
        at.setdefault(x[0], []).append(w.prop(x[0], x[1], ";"))
    w.put("}")
    if kind:
        w.fault("text " + kind, lines_of(at, target, kind), [first])


def page(d, w, models):
    w.n += 1
    kind = d(S([None, None, None, "unknown", "dup", "type"])) if w.may("page") else None
    props = [["name", '"p"']] if d(st.booleans()) else []
    target = None
    if kind == "unknown":
        props.append([d(S(UNKNOWN + ["scale", "@"])), value(d, "")[1]])
        if props[-1][0] == "@":
            props[-1][1] = "[1,2]"
        target = props[-1][0]
    elif kind == "dup":
        props = [["name", '"p"'], ["name", '"q"']]
        target = "name"
    elif kind == "type":
        props = [["name", value(d, "str")[1]]]
        target = "name"
    first = w.head("page", "{")[0]
    at = {}
    body = [("p", x) for x in props]
    for _ in range(d(I(1, 3)) if not kind else d(I(0, 3))):
        body.insert(d(I(0, len(body))), (d(S(["d", "d", "t"])), None))
    for t, x in body:
        if t == "p":
            at.setdefault(x[0], []).append(w.prop(x[0], x[1], ";"))
        elif t == "d":
            drawing(d, w, models)
        else:
            textual(d, w)
    w.put("}")
    if kind:
        w.fault("page " + kind, lines_of(at, target, kind), [first])


# corners of a square around (2.3, 0), and farther off more of them on a line
STRIP = [[[2.3 + a, b, 0] for a, b in t] for t in ([(-1, -1), (1, -1), (1, 1)], [(-1, -1), (1, 1), (-1, 1)])] + \
    [[[x, 0, 0], [x + 1, 0, 0], [50 + x, 99, 0]] for x in (7, 8, 9, 10)]
FILES = {"strip.stl": solids.stl(np.array(STRIP, float)), "e.stl": seeds.MODELS["e.stl"], "hole.stl": seeds.MODELS["hole.stl"], "bad.stl": seeds.MODELS["bad.stl"]}


FILL = ["", "// page {", "page { }", 'page { text ["x"] { } }', "\t"]


@st.composite
def case(d):
    w = W(d)
    loads = d(I(0, 3)) == 0
    models = ["e", "h", "s"]
    todo = [("load", "e", "e.stl", None), ("load", "h", "hole.stl", None), ("load", "s", "strip.stl", None)]
    if loads:
        for i in range(d(I(1, 4))):
            k = d(S([None, "missing", "bad", "dup", "dup", "dir"])) if w.left > i - 4 else None
            todo.append(("load", d(S(["e", "h"])) if k == "dup" else "x%d" % i,
                         {"missing": "nope.stl", "bad": "bad.stl", "dir": "adir"}.get(k, "e.stl"), k))
    # repeated names: the later load is the one at fault
    for x in range(d(I(0, 3)) if not loads else d(I(0, 1))):
        todo.insert(d(I(0, len(todo))), ("page",))
    if not any(t[0] == "page" for t in todo):
        todo.append(("page",))
    for t in todo:
        if t[0] == "load":
            w.n += 1
            l = w.head("load", t[1], "=", gen.literal(t[2]), ";")[0]
            if t[3]:
                w.fault("load " + t[3], [l], [])
        elif loads:
            w.put("page { }")
        else:
            page(d, w, models)
    return {"pre": d(st.one_of(st.just([]), st.just([]), st.just([]), st.tuples(S(FILL), S([1, 10, 250, 5000, 70000])).map(list))),
            "script": "\n".join(w.lines) + "\n", "bad": w.bad, "n": w.n,
            "name": d(S(["in.script", "a/b c.s", "x", "s(1).txt", "/tmp/zz.s", "no:colon"[:2]]))}


def run(c):
    fill, k = c.get("pre") or ("", 0)
    if fill.startswith("page"):
        k = min(k, 250)
    r, x = sut.worker().run((fill + "\n") * k + c["script"], FILES, draw.QUIET, name=c["name"], dirs=["adir"])
    draw.crashed(r)
    if sut.parse_errors(x.err):
        raise draw.Violation("does not parse: %r" % (sut.parse_errors(x.err)[0],))
    ds = [(l - k, m, f) for l, m, f in sut.diagnostics(x.err)]
    lines = {l for l, _, _ in ds}
    if not c["bad"]:
        if not x.ret or ds:
            raise draw.Violation("no mistake, but reported: %r" % (ds[:3] or x.err[:300],))
        return False, ["good"]
    if x.ret or x.out:
        raise draw.Violation("accepted, or wrote output, despite %s" % c["bad"])
    for k, req, _ in c["bad"]:
        if not lines & set(req):
            raise draw.Violation("not reported: %s on line %s (reported %s)" % (k, req, sorted(lines)))
    allow = {l for b in c["bad"] for l in b[2]}
    if lines - allow:
        l = min(lines - allow)
        raise draw.Violation("reported on line %d, where nothing is wrong: %r" % (l, [m for a, m, _ in ds if a == l]))
    for l, m, f in ds:
        if f != c["name"]:
            raise draw.Violation("the message names %r, the script is %r" % (f, c["name"]))
    return len(c["bad"]) >= 2 or c["n"] >= 4, ["mistakes:%d" % min(len(c["bad"]), 12)] + sorted({b[0] for b in c["bad"]})


PARTS = [Part("mistakes", case(), run, 8000, 150000)]
