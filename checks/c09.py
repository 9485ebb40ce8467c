"""C09: a page is the sum of its parts."""
from collections import Counter

from hypothesis import strategies as st

import compare
import draw
import gen
import sut
from runner import Part

PROPERTY = "C09"
TECHNIQUE = "metamorphic property-based testing: whole documents against the union of their statements drawn alone"
NOTE = "Exact equality of painted primitives for every generated document; statements are taken apart down to single annotations."
RULE = ("random documents with up to 3 pages, 4 drawings or texts per page and 4 annotations per drawing; the whole "
        "document must paint, page by page, exactly the furniture plus what every drawing without annotations, "
        "every single annotation and every text paints when it is alone. Non-trivial: accepted and at least 3 parts. And documents of up to 14 pages "
        "and up to 60 times the same statements; there: accepted, and at least 4 pages or 250 things painted.")
flags = dict(draw.QUIET)
I = st.integers


@st.composite
def case(d):
    return {"doc": d(gen.document(max_models=2, max_pages=3, max_items=4, max_dims=4))}


@st.composite
def long_case(d):
    """Few different pages and statements, many times over."""
    doc = d(gen.document(max_models=2, max_pages=2, max_items=2, max_dims=2))
    n = len(doc["pages"])
    order = d(st.one_of(st.lists(I(0, n - 1), min_size=4, max_size=14), st.just([0])))
    return {"doc": doc, "order": order, "times": d(st.sampled_from([1, 2, 40])) if len(order) > 1 else d(I(10, 60))}


def alone(doc, name, items):
    used = sorted({it["m"] for it in items if it["t"] == "draw"})
    models = [doc["models"][i] for i in used]
    items = [dict(it, m=used.index(it["m"])) if it["t"] == "draw" else it for it in items]
    d = {"models": models, "pages": [{"name": name, "items": items}]}
    p = compare.painted(*sut.worker().run(gen.plain(gen.doc_tokens(d)), gen.files_of(d), flags))
    if p is None:
        return None
    if len(p) != 1:
        raise draw.Violation("one page statement gives %d pages" % len(p))
    return p[0]


def sums(doc, pg):
    """What the furniture, and what the statements of a page paint one by one; None if one is refused."""
    base = alone(doc, pg["name"], [])
    if base is None:
        raise draw.Violation("an empty page is refused")
    parts, failed, total = 0, False, Counter()
    for it in pg["items"]:
        if it["t"] == "draw":
            bare = dict(it, dims=[])
            b = alone(doc, pg["name"], [bare])
            if b is None:
                raise draw.Violation("a drawing without annotations is refused")
            b = b - base
            total += b
            parts += 1
            for dm in it["dims"]:
                x = alone(doc, pg["name"], [dict(it, dims=[dm])])
                parts += 1
                if x is None:
                    failed = True
                    continue
                if (base + b) - x:
                    raise draw.Violation("an annotation takes away from the drawing: %r" % (
                        list(((base + b) - x).elements())[:3],))
                total += x - base - b
        else:
            x = alone(doc, pg["name"], [it])
            parts += 1
            if x is None:
                raise draw.Violation("a text alone is refused")
            total += x - base
    return base, None if failed else total, parts


def judge(whole, expect):
    """The document paints the Counters in expect, or is refused with one of them None."""
    if None in expect:
        if whole is not None:
            raise draw.Violation("a document is accepted with a statement that alone is refused")
        return False
    if whole is not None and len(whole) != len(expect):
        raise draw.Violation("%d page statements give %d pages" % (len(expect), len(whole)))
    m = compare.diff(whole, expect)
    if m:
        raise draw.Violation("whole document against its parts: " + m)
    return True


def run(c):
    doc = c["doc"]
    whole = compare.painted(*sut.worker().run(gen.plain(gen.doc_tokens(doc)), gen.files_of(doc), flags))
    parts, expect = 0, []
    for pg in doc["pages"]:
        base, total, n = sums(doc, pg)
        expect.append(None if total is None else base + total)
        parts += n
    if not judge(whole, expect):
        return False, ["refused"]
    return parts >= 3, ["parts:%d" % min(parts // 3 * 3, 15), "pages:%d" % len(expect)]


def times(c, k):
    return Counter({x: n * k for x, n in c.items()})


def run_long(c):
    doc, k = c["doc"], c["times"]
    big = dict(doc, pages=[dict(doc["pages"][i], items=doc["pages"][i]["items"] * k) for i in c["order"]])
    whole = compare.painted(*sut.worker().run(gen.plain(gen.doc_tokens(big)), gen.files_of(big), flags))
    expect = [None if t is None else b + times(t, k) for b, t, _ in (sums(doc, p) for p in doc["pages"])]
    if not judge(whole, [expect[i] for i in c["order"]]):
        return False, ["refused"]
    n = max(sum(e.values()) for e in expect)
    return len(c["order"]) >= 4 or n > 250, ["%d+ pages" % (len(c["order"]) // 4 * 4),
                                             "up to %d painted" % (10 ** len(str(n)))]


PARTS = [Part("documents", case(), run, 1000, 30000), Part("long", long_case(), run_long, 250, 6000)]
