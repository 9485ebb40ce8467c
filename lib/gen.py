"""Random documents as JSON, and writing them as scripts.

document: {"models": [{"id", "file", "solid"}], "pages": [{"name", "items"}]}
item: {"t": "draw", "m": index, "scale", "view", "at", "dims"} or
      {"t": "text", "s": [literal contents], "at"}
dim:  {"k": "dim|angle|dia|rad", "p": {property: point}, "fmt"}
point: [x, y, z] or ["near"|"center", point]
"""
import math

import numpy as np
from hypothesis import strategies as st

import solids
import strat
from solids import num

I = st.integers
KEYWORDS = ["angle", "dia", "dim", "draw", "load", "page", "rad", "text"]

SCALES = [[1, 1], [1, 2], [2, 1], [1, 3], [3, 2], [1, 10], [2, 5], [1, 7], [5, 4], [1, 25]]
scale = st.one_of(st.none(), st.sampled_from(SCALES))
loc = st.one_of(st.none(), st.tuples(strat.dec(-5, 5, 2), strat.dec(-4, 4, 2)).map(list))
VALID_FMTS = ["%f", "%.0f", "%.1f", "%.2f", "%.6f", "%8.3f", "%-9.2f", "%+.2f", "%07.2f",
              "% .3f", "%#.0f", "%.3f mm", "d=%.2f", "(%.1f)", "%.1f%%", "~%.4f\\", "x %f y",
              "\xe9%.2f", "%.10f", "%12f|"]
ident = st.from_regex(r"[a-zA-Z_][a-zA-Z0-9_]{0,8}", fullmatch=True).filter(lambda s: s not in KEYWORDS)
text_char = st.one_of(
    st.sampled_from(list("abc XYZ 019 .,:;-+()[]{}<>/%\\\"'?\t@=")),
    st.characters(min_codepoint=32, max_codepoint=126),
    st.characters(min_codepoint=128, max_codepoint=255),
    st.characters(min_codepoint=1, max_codepoint=255))
words = st.text(st.one_of(st.characters(min_codepoint=32, max_codepoint=126), text_char), max_size=14)
names = st.one_of(words, words, words, st.text(text_char, max_size=100), words.map(lambda s: (s or "n") * 9))
# text that means something to PostScript or printf, around one conversion
fmt_text = st.one_of(st.text(st.sampled_from(list("()\\%<>0 \n\rd$")), max_size=8), st.text(text_char, max_size=8),
                     st.text(text_char, max_size=40),
                     st.tuples(st.text(text_char, min_size=1, max_size=8), st.integers(1, 14)).map(lambda t: t[0] * t[1])
                     ).map(lambda s: s.replace("%", "%%"))
wild_fmt = st.tuples(fmt_text, st.sampled_from(["%f", "%.0f", "%.2f", "%9.3f", "%-9.1f", "%+.1f"]), fmt_text).map("".join)
fmt = st.one_of(st.none(), st.none(), st.sampled_from(VALID_FMTS), wild_fmt)


def literal(s, alt=0):
    """Contents -> script string literal; `alt` bits pick optional escapes."""
    o, k = ['"'], 0
    for c in s:
        if c == "\n":
            o.append("\\n")
        elif c in "\\\"":
            o.append("\\" + c)
        elif c in "'?":
            o.append("\\" + c if alt >> (k % 8) & 1 else c)
            k += 1
        else:
            o.append(c)
    return "".join(o) + '"'


def spread(p):
    return [float(x) for x in p]


# ------------------------------------------------------------------ points
def point_expr(p):
    if isinstance(p[0], str):
        return [p[0], "("] + point_expr(p[1]) + [")"]
    return ["[", num(p[0]), ",", num(p[1]), ",", num(p[2]), "]"]


# ------------------------------------------------------------------ writing
def arg(name, value, alt=0):
    """Tokens for name = value."""
    if name == "@":
        return ["@", "[", num(value[0]), ",", num(value[1]), "]"]
    o = [name, "="]
    if isinstance(value, str):
        return o + [literal(value, alt)]
    if name == "scale":
        return o + [str(value[0]), ":", str(value[1])]
    if name == "view":
        return o + ["[", num(value[0]), ",", num(value[1]), "]"]
    return o + point_expr(value)


def perm(xs, rnd):
    xs = list(xs)
    if rnd is not None:
        rnd.shuffle(xs)
    return xs


def dim_tokens(d, rnd=None):
    props = list(d["p"].items())
    if d.get("fmt") is not None:
        props.append(("fmt", d["fmt"]))
    o = [d["k"], "("]
    for i, (n, v) in enumerate(perm(props, rnd)):
        o += ([","] if i else []) + arg(n, v)
    return o + [")", ";"]


def draw_args(it):
    return [(n, it[n]) for n in ("scale", "view") if it.get(n) is not None] + \
        ([("@", it["at"])] if it.get("at") is not None else [])


def item_tokens(it, models, rnd=None):
    if it["t"] == "text":
        o = ["text", "["] + [literal(s, it.get("alt", 0)) for s in it["s"]] + ["]", "{"]
        if it.get("at") is not None:
            o += arg("@", it["at"]) + [";"]
        return o + ["}"]
    o = ["draw", models[it["m"]]["id"], "{"]
    a = [arg(n, v) + [";"] for n, v in perm(draw_args(it), rnd)]
    dims = [dim_tokens(d, rnd) for d in it.get("dims", [])]
    # properties may sit anywhere between the annotations; annotations keep order
    parts = [("d", x) for x in dims]
    for x in a:
        k = rnd.randint(0, len(parts)) if rnd is not None else 0
        parts.insert(k, ("a", x))
    if rnd is None:
        parts = [("a", x) for x in a] + [("d", x) for x in dims]
    for _, x in parts:
        o += x
    return o + ["}"]


def page_tokens(pg, models, rnd=None):
    o = ["page", "{"]
    parts = [item_tokens(it, models, rnd) for it in pg["items"]]
    if pg.get("name") is not None:
        k = rnd.randint(0, len(parts)) if rnd is not None else 0
        parts.insert(k, arg("name", pg["name"]) + [";"])
    for x in parts:
        o += x
    return o + ["}"]


def load_tokens(m):
    return ["load", m["id"], "=", literal(m["file"]), ";"]


def doc_tokens(doc, rnd=None):
    loads = perm([load_tokens(m) for m in doc["models"]], rnd)
    pages = [page_tokens(p, doc["models"], rnd) for p in doc["pages"]]
    parts = list(pages)
    if rnd is None:
        parts = loads + parts
    else:
        for l in loads:
            parts.insert(rnd.randint(0, len(parts)), l)
    return [t for p in parts for t in p]


WORD = set("abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_.+-")


def need_space(a, b):
    """Do tokens a b merge (or change meaning) when written next to each other?"""
    x, y = a[-1], b[0]
    if x == '"' or y == '"':
        return False
    if x in WORD and y in WORD:
        return True
    return x == "/" or y == "/"


def plain(tokens):
    o = []
    for t in tokens:
        o.append(t)
        o.append("\n" if t in (";", "{", "}") else " ")
    return "".join(o)


def files_of(doc):
    out = {}
    for m in doc["models"]:
        if m["solid"] is None:
            out[m["file"]] = "solid e\nendsolid e\n"
        else:
            out[m["file"]] = solids.stl(solids.build(m["solid"]))
    return out


# ------------------------------------------------------------------ strategies
@st.composite
def model(draw, i, kinds=None):
    s = draw(kinds if kinds is not None else st.one_of(
        strat.hull_spec(4, 7), strat.voxel_spec(2, 3), strat.ngon_spec(),
        strat.plate_spec(8, 12), st.none()))
    if s is not None and not solids.build(s):
        s = {"kind": "voxels", "cells": [[0, 0, 0]], "xs": [0.0, 1.0], "ys": [0.0, 2.0], "zs": [0.0, 3.0]}
    return {"id": "m%d" % i, "file": "f%d.stl" % i, "solid": s}


def safe_angle(p, view):
    """The two directions are clearly not parallel on the page."""
    V = solids.view_of(view)
    ap = solids.ptval(p["apex"])
    f = solids.ptval(p["from_dir"]) if "from_dir" in p else solids.ptval(p["from_point"]) - ap
    t = solids.ptval(p["to_dir"]) if "to_dir" in p else solids.ptval(p["to_point"]) - ap
    f, t = V @ f, V @ t
    if np.linalg.norm(f) < 1e-3 or np.linalg.norm(t) < 1e-3:
        return False
    f, t = f / np.linalg.norm(f), t / np.linalg.norm(t)
    return abs(f[0] * t[1] - f[1] * t[0]) > 1e-3


@st.composite
def point_in(draw, view, fancy):
    p = draw(strat.point())
    if fancy and draw(I(0, 3)) == 0:
        p = ["near", p]
    return p


@st.composite
def dim(draw, view=None, fancy=False, circ=False):
    """An annotation that is valid in `view` on any model (with vertexes, if fancy)."""
    kinds = ["dim", "dim", "angle"] + (["dia", "rad"] if circ else [])
    k = draw(st.sampled_from(kinds))
    P = point_in(view, fancy)
    if k == "dim":
        p = {"at": draw(P), "dir": draw(strat.nonzero_dir()), "from": draw(P), "to": draw(P)}
    elif k == "angle":
        p = {"at": draw(strat.point()), "apex": draw(strat.point())}
        p[draw(st.sampled_from(["from_dir", "from_point"]))] = draw(strat.nonzero_dir())
        p[draw(st.sampled_from(["to_dir", "to_point"]))] = draw(strat.nonzero_dir())
        if not safe_angle(p, view):
            return {"k": "dim", "p": {"at": [0.0, 0.0, 0.0], "dir": [1.0, 0.0, 0.0],
                                      "from": [1.0, 2.0, 3.0], "to": p["apex"]}, "fmt": None}
    else:
        p = {"at": draw(P), "dir": draw(strat.nonzero_dir()), "center": draw(P)}
        V = solids.view_of(view)
        d = V @ solids.ptval(p["dir"])
        if math.hypot(d[0], d[1]) < 1e-3:
            p["dir"] = [float(x) for x in np.round(V.T @ np.array([1.0, 0.5, 0]), 3)]
    return {"k": k, "p": p, "fmt": draw(fmt)}


@st.composite
def draw_item(draw, models, max_dims=3, circ=False):
    m = draw(I(0, len(models) - 1))
    v = draw(strat.view())
    solid = models[m]["solid"]
    has = solid is not None
    ok_circ = circ and has and solid["kind"] in ("ngon", "plate") and not solid.get("rot") \
        and v in (None, "Z+", "Z-")
    dims = draw(st.lists(dim(v, has, ok_circ), max_size=max_dims))
    return {"t": "draw", "m": m, "scale": draw(scale), "view": v, "at": draw(loc), "dims": dims}


@st.composite
def text_item(draw):
    ls = draw(st.lists(st.one_of(words, words.map(lambda s: s + "\n" + s[::-1])), min_size=1, max_size=3))
    return {"t": "text", "s": ls, "at": draw(loc), "alt": draw(I(0, 255))}


@st.composite
def document(draw, max_models=2, max_pages=3, max_items=3, max_dims=3, circ=True, min_pages=1):
    n = draw(I(1, max_models))
    models = [draw(model(i)) for i in range(n)]
    pages = []
    for _ in range(draw(I(min_pages, max_pages))):
        items = draw(st.lists(st.one_of(draw_item(models, max_dims, circ), text_item()), max_size=max_items))
        pages.append({"name": draw(st.one_of(st.none(), names)), "items": items})
    return {"models": models, "pages": pages}
