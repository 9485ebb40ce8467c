"""C24: parse errors are printed in one fixed form."""
import re

from hypothesis import strategies as st

import draw
import gen
import sut
from runner import Part

PROPERTY = "C24"
TECHNIQUE = "property-based testing: the error reporter called with random names, places and messages against a reference formatter, and the messages of scripts with a mistake at a known line"
NOTE = "Output is byte-identical to the reference for all generated calls (no NULs); through the tool, form, file name and line agree."
RULE = ("file name absent, or up to 8000 characters of any kind but NUL (biased to % sequences, colons, brackets, quotes, high bytes); message likewise; "
        "lines and columns over the whole int range, biased to equal lines. Non-trivial: a character that needs care in the name or message, "
        "or a number above 5 digits or below 0. Through the tool: a stray token after 0-6 lines of text items, after up to 99999 empty lines and 70000 blanks.")
I = st.integers
char = st.one_of(st.sampled_from(list("%:[], \\\"'\t{}()$0sdn*.")), st.characters(min_codepoint=32, max_codepoint=126),
                 st.characters(min_codepoint=1, max_codepoint=255))
text = st.one_of(st.text(char, max_size=40), st.tuples(st.text(char, min_size=1, max_size=20), I(1, 400)).map(lambda t: t[0] * t[1]), st.sampled_from(["", "%s", "%d%n", "%%", "a b.script", "\n", "x\ny", "a" * 300, "%1$s", "{}", "$0"]))
num = st.one_of(I(0, 200), I(0, 200), I(-2 ** 31, 2 ** 31 - 1), st.sampled_from([0, 1, -1, 2 ** 31 - 1, -2 ** 31, 99999, 100000, 1000000]))


@st.composite
def case(d):
    bl = d(num)
    return {"name": d(st.one_of(st.none(), text, text)), "bl": bl, "bc": d(num), "el": bl if d(I(0, 2)) else d(num), "ec": d(num),
            "msg": d(st.one_of(text, text, st.text(char, min_size=200, max_size=600)))}


def run(c):
    e, _ = sut.unit("unit_err").call("error", "0" if c["name"] is None else "1", c["name"] or "", *[str(c[k]) for k in ("bl", "bc", "el", "ec")], c["msg"])
    n = "??" if c["name"] is None else c["name"]
    if c["bl"] == c["el"]:
        want = "error %s:%d:[%d,%d]: %s\n" % (n, c["bl"], c["bc"], c["ec"], c["msg"])
    else:
        want = "error %s:%d:%d to %d:%d: %s\n" % (n, c["bl"], c["bc"], c["el"], c["ec"], c["msg"])
    if e != want:
        raise draw.Violation("prints %r, should print %r" % (e, want))
    odd = any(not (x.isalnum() or x == " ") for x in n + c["msg"]) or any(abs(c[k]) > 99999 or c[k] < 0 for k in ("bl", "bc", "el", "ec"))
    return odd, ["no name" if c["name"] is None else "name", "one line" if c["bl"] == c["el"] else "range", "long" if len(c["msg"]) > 150 else "short"]


FORM = re.compile(r"^error (.*):(\d+):(?:\[(\d+),(\d+)\]|(\d+) to (\d+):(\d+)): (.+)$", re.S)
BAD = ["page page { }", "draw m { }", "= ;", '"loose"', "] [", "page { 7 }", "page { text { } }", "load = ;", ";", "}", "load a b;"]
fname = st.text(st.one_of(st.sampled_from(list("% :[](){}+$'\"")), st.characters(min_codepoint=33, max_codepoint=126)), min_size=1, max_size=20).flatmap(
    lambda s: st.sampled_from([s, s, (s * 12)[:230]])).map(lambda s: s.replace("/", "_").lstrip("-.") or "x")


@st.composite
def tool_case(d):
    return {"lines": d(st.lists(st.sampled_from(["page { }", "// note", "", "page { text [\"a\"] { } }", "page {", "}"]).filter(lambda s: s not in ("page {", "}")), max_size=6)),
            "more": d(st.one_of(st.just(0), st.just(0), st.just(0), I(1, 3000), st.sampled_from([99999, 32767, 32768, 65535, 65536]))), "wide": d(st.one_of(st.just(0), st.just(0), I(1, 70000))),
            "bad": d(st.sampled_from(BAD)), "name": d(fname), "crlf": d(I(0, 5)) == 0}


def run_tool(c):
    src = "\n" * c["more"] + "\n".join(c["lines"] + [" " * c["wide"] + c["bad"]]) + "\n"
    r, x = sut.worker().run(src, {}, draw.QUIET, name=c["name"])
    draw.crashed(r)
    if x.ret:
        raise draw.Violation("accepted %r" % src[-300:])
    L = [l for l in x.err.split("\n") if l.startswith("error ")]
    if not L:
        raise draw.Violation("no message for %r: %r" % (src[-300:], x.err[-300:]))
    line = c["more"] + len(c["lines"]) + 1
    m = [FORM.match(l) for l in L]
    for l, g in zip(L, m):
        if not g:
            raise draw.Violation("not in the form: %r" % l)
        if g.group(1).split("/")[-1] != c["name"]:
            raise draw.Violation("names the file %r, should be %r" % (g.group(1), c["name"]))
        a = int(g.group(2))
        b = int(g.group(6)) if g.group(6) else a
        if g.group(5) and a == b:
            raise draw.Violation("a place on one line in the form of a range: %r" % l)
        if not a <= line <= b:
            raise draw.Violation("%r, the mistake is on line %d" % (l, line))
    return line > 1, ["bad " + c["bad"].split()[0]]


PARTS = [Part("tool", tool_case(), run_tool, 4000, 60000),
         Part("error", case(), run, 20000, 500000, needs="unit_err")]
