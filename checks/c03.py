"""C03: text fidelity."""
from hypothesis import strategies as st

import draw
import gen
import solids
import strat
from runner import Part

PROPERTY = "C03"
TECHNIQUE = "property-based testing: random string literals, output run through a PostScript interpreter and compared with the expected lines"
NOTE = ("Characters and positions agree for every generated text; trusts the PostScript interpreter in lib/psi.py "
        "(string syntax per the language reference).")
RULE = ("texts of 1-4 adjacent literals over all byte values (biased to quotes, backslashes, parentheses, line "
        "ends), optional escapes written either way, optional @; a third of them with lines of up to 17000 characters, 200 lines or 300 literals, some literals of up to 140000 characters. Non-trivial: at least one character that needs "
        "care (not alphanumeric or space) and at least two characters.")
I = st.integers
char = st.one_of(st.sampled_from(list("\n\n\\\"'?()%\r\t abnrtx0173<>{}[]/~")),
                 st.characters(min_codepoint=32, max_codepoint=126),
                 st.characters(min_codepoint=0, max_codepoint=255))
content = st.one_of(st.text(char, max_size=16), st.text(st.sampled_from(list("\\()nx\n\"")), max_size=10),
                    st.sampled_from(["\\n", "\\(", "(", ")", "a\n\nb", "\n", "\\351", "%d", "$0", "a\n", "\\\n"]))


@st.composite
def long(d):
    """Long lines, many lines, many literals."""
    n = d(st.one_of(I(1, 40), I(40, 1100)))
    s = d(st.lists(content.filter(bool), min_size=1, max_size=3))
    k = d(I(0, 3))
    if k == 3 and d(I(0, 7)) == 0:      # beyond any fixed buffer
        t = "".join(s) + "\n"
        return [t * (d(st.sampled_from([17000, 66000, 140000])) // len(t.encode("latin-1")) + 1), d(content)]
    if k == 0:
        return ["".join(s) * n]
    if k == 1:
        return ["".join(s).replace("\n", "") * n + "\n" + s[0]]
    if k == 2:
        return s * min(n, 300)
    return ["".join(s) + "\n" * min(n, 200) + s[0], d(content)]


@st.composite
def case(d):
    return {"s": d(st.one_of(st.lists(content, min_size=1, max_size=4), st.lists(content, min_size=1, max_size=4), long())), "alt": d(I(0, 255)),
            "at": d(st.one_of(gen.loc, st.tuples(strat.dec(-90, 90, 3), strat.dec(-90, 90, 3)).map(list))),
            "glue": d(st.booleans())}


def run(c):
    lits = [gen.literal(s, c["alt"]) for s in c["s"]]
    src = "page { text [%s] {%s} }" % (
        ("" if c["glue"] else "\n ").join(lits),
        "" if c["at"] is None else " @[%s,%s];" % (solids.num(c["at"][0]), solids.num(c["at"][1])))
    pg = draw.render1(src)
    x, y = 396.0, 306.0
    if c["at"] is not None:
        x += 72 * solids.f32(solids.num(c["at"][0]))
        y += 72 * solids.f32(solids.num(c["at"][1]))
    want = [(s, x, y - 12 * i) for i, s in enumerate("".join(c["s"]).split("\n")) if s]
    got = sorted(pg.texts, key=lambda t: -t["y"])
    if [t["s"] for t in got] != [w[0] for w in want]:
        raise draw.Violation("shows %r, should show %r" % ([t["s"] for t in got], [w[0] for w in want]))
    for t, (s, wx, wy) in zip(got, want):
        if abs(t["x"] - wx) > 1e-3 + 1e-5 * abs(wx) or abs(t["y"] - wy) > 1e-3 + 1e-5 * abs(wy):
            raise draw.Violation("%r is at (%g,%g), should be at (%g,%g)" % (s, t["x"], t["y"], wx, wy))
    if len(pg.segs) or pg.arcs:
        raise draw.Violation("text draws lines")
    j = "".join(c["s"])
    lab = ["lines:%d" % min(len(want), 5), "at" if c["at"] else "no @"]
    return len(j) > 1 and any(not (k.isalnum() or k == " ") for k in j), lab


PARTS = [Part("text", case(), run, 12000, 250000)]
