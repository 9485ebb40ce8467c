"""C04: layout, comments and property order do not matter."""
import random

from hypothesis import strategies as st

import compare
import draw
import gen
import sut
from runner import Part

PROPERTY = "C04"
TECHNIQUE = "metamorphic property-based testing: random documents, re-laid-out, reordered and renamed, compared primitive by primitive"
NOTE = "Equal painted primitives (exact) for every generated document and rewriting; other rewritings are not covered."
RULE = ("random documents (1-2 models, 1-3 pages of drawings with annotations and texts), written twice: plainly, "
        "and with random white space, line ends and comments, properties shuffled within their statement, "
        "a few of the spaces and comments up to 70000 long, "
        "properties moved between annotations, loads moved anywhere and models renamed. Non-trivial: the plain "
        "form is accepted and draws something, and the other text differs in order, not only in white space.")
SEPS = ["", "", " ", "\n", "\t", "   ", "\r\n", "\n\n \n", "// x\n", "//\n", " // } ; page { \"\n", "// \\\n",
        "\n//// /*\n", "/" "/\xff(\n\t"]


LONG = [" " * 20000, "\n" * 3000, "//" + "x" * 70000 + "\n", "// y\n" * 700, "\t\r\n" * 100, "//" + "/" * 300 + "\r\n"]


def layout(tokens, rnd, far=False):
    o = [rnd.choice(SEPS)]
    for i, t in enumerate(tokens):
        if i:
            s = rnd.choice(SEPS)
            if far and rnd.randrange(len(tokens)) < 3:
                s = rnd.choice(LONG)
            if s == "" and gen.need_space(tokens[i - 1], t):
                s = rnd.choice([" ", "\n", "\t"])
            o.append(s)
        o.append(t)
    o.append(rnd.choice(SEPS + ["// end"]))
    return "".join(o)


@st.composite
def case(d):
    doc = d(gen.document())
    return {"doc": doc, "seed": d(st.integers(0, 10 ** 6)),
            "far": d(st.integers(0, 7)) == 0,
            "ids": d(st.one_of(st.lists(gen.ident, min_size=2, max_size=2, unique=True),
                               st.tuples(gen.ident, st.integers(1, 60)).map(lambda t: [t[0] * t[1] + "a", t[0] * t[1] + "b"])))}


def run(c):
    doc = c["doc"]
    files = gen.files_of(doc)
    a = gen.plain(gen.doc_tokens(doc))
    rnd = random.Random(c["seed"])
    d2 = dict(doc, models=[dict(m, id=c["ids"][i]) for i, m in enumerate(doc["models"])])
    t2 = gen.doc_tokens(d2, rnd)
    b = layout(t2, rnd, c.get("far"))
    w = sut.worker()
    pa = compare.painted(*w.run(a, files, draw.QUIET))
    pb = compare.painted(*w.run(b, files, draw.QUIET))
    m = compare.diff(pa, pb)
    if m:
        raise draw.Violation("%s\n--- first\n%s\n--- second\n%s" % (m, a, b))
    n = sum(sum(x.values()) for x in pa) if pa else 0
    return (pa is not None and n > 7 * len(pa) and gen.doc_tokens(doc) != t2), [
        "refused" if pa is None else "pages:%d" % len(pa)]


PARTS = [Part("documents", case(), run, 2000, 60000)]
