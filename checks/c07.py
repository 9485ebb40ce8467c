"""C07: each statement takes exactly its documented properties."""
from hypothesis import strategies as st

import draw
import gen
import seeds
import solids
import strat
import sut
from runner import Part

PROPERTY = "C07"
TECHNIQUE = "property-based testing: random property lists of every statement kind against a schema table"
NOTE = "Acceptance equals the schema's verdict for every generated combination of present, absent, repeated, unknown and wrongly typed properties."
RULE = ("one statement of each kind with a random multiset of its own, foreign and unknown properties, values of right "
        "and wrong types and unusable values, in random order. Non-trivial: the statement has at least one property; "
        "classes count how many are accepted and why the others are not.")
I = st.integers
S = st.sampled_from

pt = strat.point().map(lambda p: "[%s]" % ",".join(map(solids.num, p)))
nz = strat.nonzero_dir().map(lambda p: "[%s]" % ",".join(map(solids.num, p)))
near = pt.map(lambda p: "near(%s)" % p)
strs = S(['"a"', '""', '"X+"', '"a" "b"', '"%f"', '"1:2"', '"[1,2]"', '"near([0,0,0])"'])
nums = S(["1", "0", "-2.5", "72"])
locs = S(["[1,2]", "[0,0]", "[-1.5,3]", "[30,45]"])
ratios = S(["1:2", "1:1", "3:1"])
OTHER = {"str": strs, "pt": st.one_of(pt, near), "num": nums, "loc": locs, "ratio": ratios}


def other(*types):
    return st.one_of(*[OTHER[t] for t in sorted(OTHER) if t not in types])


GOOD_FMT = S(['"%f"', '"%.2f"', '"x%5.1fy"', '"%f%%"', '"%" ".1f"'])
BAD_FMT = S(['"%d"', '""', '"x"', '"%f%f"', '"%s"', '"%"', '"%5"'])
CENTER = S(["[0.5,0,0]", "[0.4,0.1,7]", "[0.6,0,1]", "center([0.5,0,0])"])
@st.composite
def near_name(d):
    """A view's name with one character changed, left out or put in."""
    n = d(S(strat.NAMES))
    i, c = d(I(0, 2)), d(S(list("XYZxyzW+- *0_")))
    return n[:i] + d(S(["", c])) + n[i + d(I(0, 1)):]


off_name = near_name().filter(lambda n: n not in strat.NAMES).map(lambda n: '"%s"' % n)
# property -> (good values, unusable or wrongly typed values)
P3 = (st.one_of(pt, pt, near), other("pt"))
FMT = (GOOD_FMT, st.one_of(other("str"), BAD_FMT, BAD_FMT))
SCHEMA = {
    "page": ({"name": (S(['"a"', '""', '"a" "b"', '"X+"']), other("str"))}, []),
    "draw": ({"scale": (S(["1:1", "1:2", "10:1", "3:7", "1000:999", "+2:+4", "2.0:1", "1000000:999999", "16777216:16777215", "3000000:1000000"]),
                        st.one_of(other("ratio"), S(["0:1", "1:0", "-1:1", "1:-3", "-1:-2", "1.5:1", "1:0.5", "0:0", "0.25:0.5"]))),
              "view": (st.one_of(S(['"%s"' % n for n in strat.NAMES] + ['"X" "+"']), locs),
                       st.one_of(other("loc", "str"), S(['"X"', '"x+"', '""', '"X+ "', '"Z+Z+"', '"[0,0]"', '"T-"', '"ISO"', '"iso"', '"top"', '"TOP"', '"front"', '"left"', '"XY"', '"X+Y+"', '"XYZ"', '"default"', '"none"', '"+X"', '"-Z"']), off_name, off_name)),
              "@": (locs, None)}, []),
    "text": ({"@": (locs, None)}, []),
    "dim": ({"at": P3, "dir": (nz, st.one_of(other("pt"), S(["[0,0,0]"]))), "from": P3, "to": P3, "fmt": FMT},
            [["at"], ["dir"], ["from"], ["to"]]),
    "angle": ({"at": P3, "apex": P3, "from_dir": (S(["[1,0,0]", "[2,0.25,1]", "[-3,0.5,0]"]), other("pt")),
               "from_point": (S(["[150,1,0]", "[190,2,3]"]), other("pt")),
               "to_dir": (S(["[0,1,0]", "[0.25,-3,2]", "[0.1,4,0]"]), other("pt")),
               "to_point": (S(["[1,150,0]", "[0,-170,3]"]), other("pt")), "fmt": FMT},
              [["at"], ["apex"], ["from_dir", "from_point"], ["to_dir", "to_point"]]),
    "dia": ({"at": P3, "dir": (S(["[1,0,0]", "[1,2,3]", "[0,-1,5]"]), st.one_of(other("pt"), S(["[0,0,0]", "[0,0,1]"]))),
             "center": (CENTER, other("pt")), "fmt": FMT}, [["at"], ["dir"], ["center"]]),
}
SCHEMA["rad"] = SCHEMA["dia"]
EXTRA = ["foo", "Name", "_", "fmt2", "scal"]
ALL = sorted({n for s in SCHEMA.values() for n in s[0]} | set(EXTRA))
FILES = {"hole.stl": seeds.MODELS["hole.stl"]}


@st.composite
def case(d):
    k = d(S(sorted(SCHEMA)))
    props, need = SCHEMA[k]
    out, why = [], []
    absent = d(I(0, 2)) == 0  # drop a needed property?
    drop = d(S(need)) if need and absent else None
    mode = d(S(["good"] * 4 + ["value", "value", "dup", "unknown", "foreign", "mixed"]))
    chosen = []
    for g in need:
        if g is drop:
            why.append("missing")
            continue
        if len(g) > 1 and d(I(0, 9)) == 0:
            chosen += g
            why.append("both")
        else:
            chosen.append(d(S(g)))
    opt = [n for n in sorted(props) if not any(n in g for g in need)]
    chosen += [n for n in opt if d(st.booleans())]
    bad1 = d(S(chosen)) if chosen and mode in ("value", "mixed") else None
    for n in chosen:
        g, b = props[n]
        if n == bad1 and b is not None:
            out.append([n, d(b)])
            why.append("value")
        else:
            out.append([n, d(g)])
    if mode in ("dup", "mixed") and chosen:
        n = d(S(chosen))
        out.append([n, d(props[n][0])])
        why.append("twice")
    if mode in ("unknown", "mixed"):
        out.append([d(S(EXTRA)), d(st.one_of(strs, nums, pt))])
        why.append("unknown")
    if mode == "foreign":
        n = d(S([x for x in ALL if x not in props]))
        out.append([n, d(locs if n == "@" else st.one_of(strs, nums, pt, locs, ratios))])
        why.append("unknown")
    out = d(st.permutations(out))
    return {"kind": k, "props": out, "why": sorted(set(why))}


def render(c):
    a = [("@" + v) if n == "@" else "%s=%s" % (n, v) for n, v in c["props"]]
    k = c["kind"]
    semi = "".join(x + "; " for x in a)
    load = 'load m="hole.stl"; '
    if k == "page":
        return "page { %s }" % semi
    if k == "draw":
        return load + "page { draw m { %s } }" % semi
    if k == "text":
        return 'page { text ["x"] { %s } }' % semi
    return load + "page { draw m { %s(%s); } }" % (k, ", ".join(a))


def run(c):
    src = render(c)
    r, x = sut.worker().run(src, FILES, draw.QUIET)
    draw.crashed(r)
    if not c["why"]:
        if not x.ret:
            raise draw.Violation("refused, though the schema allows it: %s\n%r" % (src, x.err[:400]))
    else:
        if x.ret:
            raise draw.Violation("accepted, though %s: %s" % (" and ".join(c["why"]), src))
        if x.out:
            raise draw.Violation("refused, but wrote output: %s" % src)
        if not sut.diagnostics(x.err) and not sut.parse_errors(x.err):
            raise draw.Violation("refused without a message: %s" % src)
    return bool(c["props"]), [c["kind"] + ": " + ("accepted" if not c["why"] else ", ".join(c["why"]))]


PARTS = [Part("statements", case(), run, 12000, 250000)]
