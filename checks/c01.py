"""C01: acceptance = grammar."""
from hypothesis import strategies as st

import draw
import gen
import lang
import sut
from runner import Part

PROPERTY = "C01"
TECHNIQUE = "property-based differential testing against a reference lexer and parser (grammar-derived scripts, token and character mutations)"
NOTE = ("Acceptance and error line agree with an independent recursive-descent recogniser on every generated "
        "script; trusts that recogniser and the sampling of mutations.")
RULE = ("token sequences derived from the grammar with random layout and comments; the same with 1-3 tokens "
        "deleted, duplicated, swapped, replaced or inserted, or cut off; and with 1-4 characters changed. Edits: at one place of a short script, each of about 110 "
        "tokens, each pair with one other, and any byte in a string, escape, comment or name, put in or in the place of one or two. Large: up to 40000 tokens, tokens "
        "of 40 kB, 70000 blanks or blank lines. "
        "Non-trivial: an accepted script of at least 12 tokens, or a rejected one whose fault is found after "
        "at least 5 tokens.")
ASSUMPTIONS = ["a fault at the end of the file may be put on any line from the last token's to the last"]

I = st.integers
S = st.sampled_from


@st.composite
def number(d):
    k = d(I(0, 9))
    if k < 4:
        return str(d(I(-99, 999)))
    if k < 7:
        return gen.num(d(I(-9999, 9999)) / 100)
    if k < 9:
        a = d(st.text("0123456789", max_size=5))
        return d(S(["", "", "+", "-"])) + a + (d(S([".", ""])) if a else ".") + d(st.text("0123456789", min_size=0 if a else 1, max_size=5))
    return d(S(["+1", "-1.", "+.5", "-.25", "0.", "00012", "1e", "123456789012345678901234567890",
                "340282346638528859811704183484516925440", "9" * 45, "0" * 60, "." + "0" * 50 + "1",
                "16777216", "16777217", "1.5", "-0"]))


@st.composite
def string(d):
    s = d(gen.words)
    return gen.literal(s, d(I(0, 255)))


ident = st.one_of(gen.ident, S(["near", "center", "name", "scale", "view", "at", "dir", "drawing", "pages",
                                "dims", "loadx", "Text", "radius", "_", "x1", "DIM"]))


@st.composite
def point(d, depth=2):
    if depth and d(I(0, 3)) == 0:
        return [d(ident), "("] + d(point(depth - 1)) + [")"]
    return ["[", d(number()), ",", d(number()), ",", d(number()), "]"]


@st.composite
def location(d):
    return ["[", d(number()), ",", d(number()), "]"]


@st.composite
def arg(d):
    k = d(I(0, 6))
    if k == 0:
        return ["@"] + d(location())
    o = [d(ident), "="]
    if k == 1:
        return o + d(st.lists(string(), min_size=1, max_size=3))
    if k == 2:
        return o + d(point())
    if k == 3:
        return o + [d(number())]
    if k == 4:
        return o + d(location())
    if k == 5:
        return o + [str(d(I(-20, 20))), ":", str(d(I(0, 300)))]
    return o + [d(number()), ":", d(number())]


def flat(xs):
    return [t for x in xs for t in x]


@st.composite
def annot(d):
    o = [d(S(["angle", "dia", "dim", "rad"])), "("]
    for i, a in enumerate(d(st.lists(arg(), max_size=4))):
        o += ([","] if i else []) + a
    return o + [")", ";"]


semi = arg().map(lambda a: a + [";"])


@st.composite
def part(d):
    k = d(I(0, 3))
    if k == 0:
        return d(semi)
    if k == 1:
        return ["draw", d(ident), "{"] + flat(d(st.lists(st.one_of(semi, annot()), max_size=4))) + ["}"]
    if k == 2:
        return ["text", "["] + d(st.lists(string(), min_size=1, max_size=3)) + ["]", "{"] + \
            flat(d(st.lists(semi, max_size=3))) + ["}"]
    return ["draw", d(ident), "{"] + d(annot()) + ["}"]


@st.composite
def sentence(d):
    o = []
    for _ in range(d(I(0, 4))):
        if d(I(0, 2)) == 0:
            o += ["load", d(ident), "=", d(string()), ";"]
        else:
            o += ["page", "{"] + flat(d(st.lists(part(), max_size=4))) + ["}"]
    return o


comment_body = st.text(st.characters(min_codepoint=1, max_codepoint=255).filter(lambda c: c != "\n"), max_size=8)
sep = st.one_of(S(["", "", " ", "\n", "\t", "  ", "\r\n", "\n\n"]),
                comment_body.map(lambda s: "//" + s + "\n"))
token = st.one_of(S(list("{}[]()=;:,@") + sorted(lang.KEYWORDS)), number(), string(), ident)


@st.composite
def script(d):
    t = d(sentence())
    mode = d(I(0, 9))
    if mode in (3, 4, 5, 6) and t:
        for _ in range(d(I(1, 2))):
            if not t:
                break
            i = d(I(0, len(t) - 1))
            k = d(I(0, 5))
            if k == 0:
                del t[i]
            elif k == 1:
                t.insert(i, t[i])
            elif k == 2:
                j = min(i + 1, len(t) - 1)
                t[i], t[j] = t[j], t[i]
            elif k == 3:
                t[i] = d(token)
            elif k == 4:
                t.insert(i, d(token))
            else:
                t = t[:i]
    dense = d(st.booleans())
    out = []
    for i, x in enumerate(t):
        if i:
            s = d(sep) if not dense or d(I(0, 5)) == 0 else ""
            if s == "" and gen.need_space(t[i - 1], x) and d(I(0, 15)):
                s = " "
            out.append(s)
        out.append(x)
    out.append(d(sep))
    s = "".join(out)
    if mode in (7, 8) and s:
        for _ in range(d(I(1, 3))):
            i = d(I(0, len(s)))
            k = d(I(0, 2))
            c = d(st.one_of(S(list("{}[]()=;:,@\"\\/\n .+-#$!&*'\f\v\0\x80\xff")),
                            st.characters(min_codepoint=0, max_codepoint=255)))
            s = s[:i] + (c if k else "") + s[i + (k != 1):]
    return {"script": s}


def run(c):
    src = c["script"]
    r, x = sut.worker().run(src, flags=draw.QUIET, name="the.script")
    draw.crashed(r)
    if x is None:
        raise draw.Violation("no result")
    want, p = lang.check(src)
    got = sut.parse_errors(x.err)
    if want is None:
        if got:
            raise draw.Violation("a script of the language is not accepted: %r" % (got[0],))
        if not x.ret and not sut.diagnostics(x.err):
            raise draw.Violation("a script of the language fails without saying why: %r" % x.err[-300:])
        return p.count >= 12, ["accepted", "statements:%d" % min(p.stmts, 4)]
    if x.ret:
        raise draw.Violation("accepted, but line %s has an error" % sorted(want))
    if x.out:
        raise draw.Violation("refused, but wrote output")
    if not got:
        raise draw.Violation("no error message for line %s: %r" % (sorted(want), x.err[-300:]))
    if got[0][0] not in want or got[0][2] != "the.script":
        raise draw.Violation("the error is reported at %s:%d, it is on line %s" % (
            got[0][2], got[0][0], sorted(want)))
    return p.count >= 5, ["rejected", "at:%s" % p.t.k]


# ------------------------------------------------------------------ every small edit of a script
# One token of each kind, so that all short insertions at a place can be tried.
ALPHABET = list("{}[]()=;:,@") + sorted(lang.KEYWORDS) + ["id", "3", '"s"']
ODD = ["Load", "PAGE", "pages", "page2", "/*c*/", "/", "#", "#c\n", "'s'", "1e5", "1.e", "0x10", "1.5e-3", "--1", "+-1",
       "1..2", ".", "-", "+", "*", "<", "$", "a-b", "a.b", "a:b", "[]", "()", "{}", '"', '"a\nb"', '"\\t"', '"\\0"', '"\\x41"',
       "\f", "\v", "\0", "\\", "\\\n", "!", "&&", "%", "~", "|", "?", "\xff", "\xe9", "3mm", "3 mm", "1,5", "1/2",
       "true", "include", "%%", "3%", "; ;", ", ,", "= =", ": 3", "; page { }", "= 3", "near", "1'", "1\"", "_", "._1", "1_000", "\"\"", "@ @"]


@st.composite
def edits(d):
    t = d(sentence().filter(lambda t: 1 <= len(t) <= 60))
    i = d(I(0, len(t)))
    # what follows a statement or closes one is few places of many: look there more often
    if d(I(0, 3)) == 0:
        i = d(S([j + 1 for j, x in enumerate(t) if x in ("}", ";", ")", "]")] or [i]))
    return {"tokens": t, "at": i, "drop": d(S([0, 0, 0, 1, 1, 2])),
            "pairs": d(S(ALPHABET)), "chars": d(st.lists(I(1, 255), min_size=4, max_size=8, unique=True))}


def one(src):
    """Does the tool agree with the reference on this script?"""
    x = sut.worker().run(src, flags=draw.QUIET, name="the.script")
    draw.crashed(x[0])
    x = x[1]
    want, p = lang.check(src)
    got = sut.parse_errors(x.err)
    if (want is None) != (not got) or (want is not None and (x.ret or got[0][0] not in want)):
        raise draw.Violation("%r: %s, but %s" % (
            src, "belongs to the language" if want is None else "has an error on line %s" % sorted(want),
            "error at line %d: %s" % (got[0][0], got[0][1]) if got else "is taken as a script"))
    return want is None


def run_edits(c):
    t, i = c["tokens"], c["at"]
    before, after = t[:i], t[i + c["drop"]:]
    n = 0
    for ins in [[]] + [[x] for x in ALPHABET + ODD] + [[c["pairs"], x] for x in ALPHABET] + [[x, c["pairs"]] for x in ALPHABET]:
        n += one(gen.plain(before + ins + after))
    # any byte: alone, in an escape, in a string, in a comment, in a name and after a number
    for b in c["chars"]:
        ch = chr(b)
        for x in (ch, '"\\%s"' % ch, '"a%sb"' % ch, "//%s }\n" % ch, "a%sb" % ch, "1%s" % ch, "page{text[\"\\%s\"]{}}" % ch):
            n += one(gen.plain(before + [x] + after))
    return len(t) >= 5, ["drop:%d" % c["drop"], "some inserts accepted" if n else "no insert accepted"]


# ------------------------------------------------------------------ long scripts
@st.composite
def large(d):
    u = d(sentence().filter(lambda t: 4 <= len(t) <= 60))
    n = d(S([200, 1000, 2000, 4000])) * 10 // len(u)
    k = d(I(0, 5))
    long_tok = d(S(["", "", "i" * 20000, '"%s"' % ("s" * 40000), "0" * 20000 + "7", '"%s"' % ('\\"' * 9000)]))
    tail = d(S([[], [], ["page", "{", "}"], ["load"], ["page", "{", "}", "}"], [";"], ["page", "{", "draw", "x", "{"], ["?"]]))
    return {"unit": u, "n": n, "sep": d(S([" ", "\n", "\r\n", " // c\n"])), "long": [long_tok] if long_tok else [],
            "blank": d(S([0, 0, 70000])), "tail": tail, "k": k}


def run_large(c):
    u = gen.plain(c["unit"])
    mid = c["long"]
    if mid and mid[0][0] == "i":
        mid = ["load"] + mid + ["=", '"x"', ";"]
    elif mid and mid[0][0] == '"':
        mid = ["page", "{", "name", "="] + mid + [";", "}"]
    elif mid:
        mid = ["page", "{", "name", "="] + mid + [";", "}"]
    src = c["sep"].join([u] * (c["n"] // 2) + [gen.plain(mid)] + [u] * (c["n"] // 2)) + \
        (" " * c["blank"] if c["k"] % 2 else "\n" * c["blank"]) + "\n" + gen.plain(c["tail"])
    one(src)
    return len(src) > 20000, ["over 64k" if len(src) > 65536 else "up to 64k"]


PARTS = [Part("edits", edits(), run_edits, 640, 16000),
         Part("large", large(), run_large, 160, 2000),
         Part("scripts", script(), run, 8000, 250000)]
