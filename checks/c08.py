"""C08: the output is a PostScript program for the right pages."""
import re

from hypothesis import strategies as st

import c02
import draw
import gen
import lang
import psi
import seeds
import sut
from runner import Part

PROPERTY = "C08"
TECHNIQUE = "property-based testing: random documents and flag values, the output run by a PostScript interpreter that checks types, stacks and paths"
NOTE = "Every accepted document's output runs without error, with balanced stacks, the right pages in order and the right page size; trusts the interpreter in lib/psi.py for the operators it knows."
RULE = ("random valid documents, and accepted ones among documents with hostile values, under random --name, "
        "--timestamp, --number_pages and script file names over all bytes. Non-trivial: accepted with at least two "
        "primitives besides the furniture.")
I = st.integers
anychar = st.one_of(st.sampled_from(list("\n\r\f()\\%<>{}[]/\t\"'$01")), st.characters(min_codepoint=1, max_codepoint=255))
flagtext = st.one_of(st.just(""), st.text(anychar, max_size=12), st.text(anychar, max_size=60),
                     st.sampled_from(["\n)", "a\nquit", "%!PS", "\rstop", "(", "$0 $1 $9", "\x04", "\f1 0 div"]))


@st.composite
def flags(d):
    return {"name": d(flagtext), "timestamp": str(d(st.booleans())).lower(), "number_pages": str(d(st.booleans())).lower()}


@st.composite
def case(d):
    return {"doc": d(gen.document(max_pages=6, max_items=3, max_dims=3, min_pages=d(st.sampled_from([0, 1, 1])))), "flags": d(flags()), "marked": d(st.sampled_from([63, 63, 62, 61, 41, 0])),
            "script_name": d(st.one_of(st.just("in.script"), flagtext))}


def program(out, npages, marks=None):
    try:
        pages, it = psi.interpret(out)
    except psi.PSError as e:
        raise draw.Violation("not a PostScript program: %s" % e)
    if it.stack:
        raise draw.Violation("%d operands are left on the stack: %r" % (len(it.stack), it.stack[:5]))
    if len(it.dicts) != 2 or it.gsave:
        raise draw.Violation("the dictionary or graphics stack is not balanced")
    if it.page.segs or it.page.texts or it.page.arcs or it.g.path:
        raise draw.Violation("something is drawn after the last page")
    if it.unstarted:
        raise draw.Violation("%d lines are drawn from where a text ended" % it.unstarted)
    if len(pages) != npages:
        raise draw.Violation("%d page statements, %d pages" % (npages, len(pages)))
    for i, p in enumerate(pages):
        if tuple(p.size or ()) != (792, 612):
            raise draw.Violation("page %d has size %r" % (i + 1, p.size))
        if marks is not None and [t[2] for t in p.texts if re.fullmatch(r"PAGE-\d+", t[2])] != [m for m in [marks[i]] if m]:
            raise draw.Violation("page %d shows %r, should show %r" % (i + 1, [t[2] for t in p.texts], marks[i]))
    return pages


def prims(pages):
    return sum(len(p.segs) + len(p.arcs) + len(p.texts) for p in pages)


def run(c):
    doc = c["doc"]
    marks = ["PAGE-%d" % i if c["marked"] >> i & 1 else None for i in range(len(doc["pages"]))]
    doc = {"models": doc["models"], "pages": [
        {"name": p["name"], "items": p["items"] + ([{"t": "text", "s": [m], "at": [1.0, 1.0]}] if m else [])} for p, m in zip(doc["pages"], marks)]}
    r, x = sut.worker().run(gen.plain(gen.doc_tokens(doc)), gen.files_of(doc), c["flags"], name=c["script_name"])
    draw.must(r, x)
    pages = program(x.out, len(marks), marks)
    return prims(pages) >= 9 * len(pages) + 2 and len(pages) > 0, ["pages:%d" % len(pages), "odd name" if any(
        ch in "\n\r\f()\\" for ch in c["flags"]["name"] + c["script_name"]) else "plain name"]


@st.composite
def hostile_case(d):
    c = d(c02.hdoc())
    c["flags"] = d(flags())
    return c


def run_hostile(c):
    m = c["stl"]
    r, x = sut.worker().run(c["script"], {"m.stl": seeds.MODELS[m[1:]] if m[:1] == "@" else m}, c["flags"])
    draw.crashed(r)
    if not x.ret:
        if x.out:
            raise draw.Violation("refused, but wrote output")
        return False, ["refused"]
    try:
        npages = sum(t.k == "page" for t in lang.lex(c["script"]))
    except lang.Reject:
        return False, ["refused by the model"]
    pages = program(x.out, npages)
    return prims(pages) >= 9 * len(pages) + 2, ["accepted"]


PARTS = [Part("documents", case(), run, 2500, 60000),
         Part("hostile", hostile_case(), run_hostile, 3000, 60000)]
