"""C13: looking up models."""
import posixpath

import numpy as np
from hypothesis import strategies as st

import draw
import gen
import solids
import sut
from runner import Part

PROPERTY = "C13"
TECHNIQUE = "property-based testing: random file placements, load paths and load statements against a reference lookup"
NOTE = "The right file is drawn, or exactly the right load statements are reported, in all generated configurations of up to 400 directories and 40 loads."
RULE = ("random placements of distinguishable (or broken, or empty) models in the current directory and 4 others, load paths of "
        "up to 5 entries, and up to 400 long missing ones ( empty entries, trailing slashes, absolute entries), 1-40 loads with "
        "plain, nested, dotted (also ..) and absolute names and repeated identifiers. Non-trivial: some name is found in more "
        "than one place, or found only along the path, or some load is at fault.")
I = st.integers
DIRS = [".", "q0", "q1", "q0/s", "q2", "q1/abs9"]
NAMES = ["m.stl", "n.stl", "s/m.stl", "./m.stl", "M.stl", "q1/m.stl", "m", "/CWD/q0/m.stl", "/CWD/m.stl",
         "/abs9/m.stl", "/abs9/n.stl", "m stl", "s/./n.stl", "/CWD/n.stl", "a,b.stl", "CWDREL/m.stl", "CWDREL/q0/m.stl",
         "../m.stl", "../m.stl", "../n.stl", "../q0/m.stl", "../q2/n.stl", "s/../m.stl", ".//m.stl", "../../m.stl", "q0/../m.stl", "/CWD/q0/../m.stl"]
ENTRIES = ["q0", "q1", "q2", "q0/s", "q0/", "./q1", "/CWD/q2", "/CWD/q1/", "nope", "", "", ".", "q0//s", " q0", "q"]


@st.composite
def case(d):
    files = d(st.lists(st.tuples(st.sampled_from(DIRS), st.sampled_from(["m.stl"] * 4 + ["n.stl"] * 4 + ["M.stl", "m", "a,b.stl"]),
                                 st.sampled_from([0] * 14 + [1, 2])), min_size=d(st.sampled_from([0, 4, 6])), max_size=10,
                       unique_by=lambda t: posixpath.normpath(t[0] + "/" + t[1])))
    loads = []
    for i in range(d(st.one_of(I(1, 5), I(1, 5), I(1, 5), I(1, 5), I(6, 40)))):
        m = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQ"[i] if d(I(0, 9)) else "a"
        loads.append([m, d(st.sampled_from(NAMES[:2] * 3 + NAMES + [f[1] for f in files] * 6))])
    return {"files": [list(f) for f in files],
            "more": d(st.one_of(st.just(0), st.just(0), st.just(0), I(1, 30), I(30, 400))), "where": d(I(0, 5)), "long": d(I(0, 200)),
            "path": d(st.lists(st.sampled_from(ENTRIES[:8] * 2 + ENTRIES), min_size=d(st.sampled_from([0, 2, 3])), max_size=5)),
            "loads": loads}


def run(c):
    w = sut.worker()
    cwd = w.cwd
    real = lambda s: s.replace("/CWD", cwd).replace("CWDREL", cwd[1:])
    tree, files = {}, {}
    for i, (d, n, broken) in enumerate(c["files"]):
        k = posixpath.normpath(d + "/" + n)
        tree[posixpath.join(cwd, k)] = (i, broken)
        files[k] = ["", "junk\n", ""][broken] if broken else solids.stl(solids.box([0, 0, 0], [0.2 * (i + 1), 1, 1]))
    dirs = {posixpath.normpath(posixpath.join(cwd, d)) for d in DIRS} | {cwd + "/q0", cwd + "/q1"}

    def exists(p):
        if p.endswith("/") or p.endswith("/."):
            return None
        p = posixpath.join(cwd, p)
        at = ""
        for x in p.split("/")[1:-1]:    # every directory on the way must be there
            at = posixpath.normpath(at + "/" + x)
            if at not in dirs and not (cwd + "/").startswith(at + "/") and at != "/":
                return None
        return tree.get(posixpath.normpath(p))
    # missing directories along the path change nothing
    k = c.get("where", 0)
    path = c["path"][:k] + ["no%d/%s" % (i, "x" * c.get("long", 0)) for i in range(c.get("more", 0))] + c["path"][k:]
    entries = ["."] + [real(e) for e in path if e and e[:2] != "no"]
    nt, want, bad, ids = False, [], set(), set()
    src = ""
    for i, (m, n) in enumerate(c["loads"]):
        src += "load %s=%s;\n" % (m, gen.literal(real(n)))
        hits = []
        if n[:1] == "/":
            hits = [x for x in [exists(real(n))] if x]
        else:
            for e in entries:
                x = exists(e + "/" + real(n))
                if x:
                    hits.append(x)
        if len({h[0] for h in hits}) > 1 or (hits and n[:1] != "/" and not exists("./" + n)):
            nt = True
        if m in ids:
            bad.add(i + 1)
        else:
            ids.add(m)
            if not hits or hits[0][1] == 1:
                bad.add(i + 1)
            else:
                want.append((m, 0 if hits[0][1] else 0.2 * (hits[0][0] + 1)))
    for m, _ in want:
        src += "page { draw %s { @[0,0]; } }\n" % m
    flags = dict(draw.QUIET, load_path=",".join(real(e) for e in path))
    r, x = w.run(src, files, flags, dirs=DIRS[1:])
    draw.crashed(r)
    lines = {l for l, _, _ in sut.diagnostics(x.err)}
    if bad:
        if x.ret:
            raise draw.Violation("accepted although lines %s are at fault" % sorted(bad))
        if lines != bad:
            raise draw.Violation("loads at fault on lines %s, reported %s: %r" % (sorted(bad), sorted(lines), x.err[:500]))
        return True, ["bad:%d of %d" % (len(bad), len(c["loads"]))]
    draw.must(r, x)
    pages = [draw.Content(p, draw.baseline()) for p in draw.pages_of(x.out)]
    for (m, wd), p in zip(want, pages):
        got = (p.segs[..., 0].max() - p.segs[..., 0].min()) / 72 if len(p.segs) else 0
        if abs(got - wd) > 0.01:
            raise draw.Violation("model %s is %g wide, should be %g: another file was read" % (m, got, wd))
    return nt, ["good:%d" % len(want)]


PARTS = [Part("lookups", case(), run, 8000, 150000)]
