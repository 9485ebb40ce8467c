"""Hypothesis strategies shared by the checks.  Everything drawn is JSON-able."""
from hypothesis import strategies as st

import solids

I = st.integers
NAMES = ["X+", "X-", "Y+", "Y-", "Z+", "Z-"]


def dec(lo, hi, places=2):
    """Decimal numbers as exact Python floats with few digits (shrinks well)."""
    k = 10 ** places
    return I(int(lo * k), int(hi * k)).map(lambda n: n / k)


def coord(m=9):
    return st.one_of(I(-m, m).map(float), dec(-m, m, 2), dec(-m, m, 1))


def point(m=9):
    return st.tuples(coord(m), coord(m), coord(m)).map(list)


def nonzero_dir(m=5):
    return point(m).filter(lambda p: max(abs(c) for c in p) > 0.05)


# a length as such must not matter: tiny and huge directions
any_dir = st.one_of(nonzero_dir(), nonzero_dir(), nonzero_dir(), st.tuples(I(-9, 9), I(-9, 9), I(-9, 9)).filter(any).flatmap(
    lambda p: I(-6, 6).map(lambda k: [round(x * 10.0 ** k, 6) for x in p])))


angle = st.one_of(dec(-360, 360, 1), I(-12, 12).map(lambda k: 30.0 * k),
                  I(-8, 8).map(lambda k: 45.0 * k), I(-360, 360).map(float),
                  dec(-1000, 1000, 1), dec(-360, 360, 4))
generic_angle = st.one_of(dec(-360, 360, 1), dec(-360, 360, 1), dec(-360, 360, 3), dec(-360, 360, 5))


def view(generic=False):
    if generic:
        return st.tuples(generic_angle, generic_angle).map(list)
    return st.one_of(st.tuples(generic_angle, generic_angle).map(list),
                     st.tuples(angle, angle).map(list),
                     st.sampled_from(NAMES), st.none())


@st.composite
def hull_spec(draw, lo=4, hi=14):
    pts = draw(st.lists(st.tuples(I(-20, 20), I(-20, 20), I(-20, 20)).map(list),
                        min_size=lo, max_size=hi, unique_by=tuple))
    return {"kind": "hull", "points": [[c / 4 for c in p] for p in pts]}


@st.composite
def voxel_spec(draw, n=3, max_cells=9, thin=False):
    k = draw(I(1, max_cells))
    cells = draw(st.lists(st.tuples(I(0, n - 1), I(0, n - 1), I(0, n - 1)).map(list),
                          min_size=k, max_size=k, unique_by=tuple))
    if draw(st.booleans()):
        cells.append([1, 1, 1])

    def planes():
        if draw(st.integers(0, 3)) == 0:
            return [float(i * 2) for i in range(n + 1)]
        d = draw(st.lists(I(2, 12), min_size=n, max_size=n))
        if thin and draw(st.integers(0, 3)) == 0:   # a thin layer
            d[draw(I(0, n - 1))] = draw(st.sampled_from([0.4, 0.04, 0.012, 0.002]))
        x, out = 0, [0.0]
        for s in d:
            x += s
            out.append(x / 4)
        return out
    return {"kind": "voxels", "cells": cells, "xs": planes(), "ys": planes(),
            "zs": planes(), "diag": draw(I(0, 255))}


@st.composite
def prism_spec(draw):
    n = draw(I(3, 9))
    step = 360.0 / n
    jig = draw(st.lists(I(-3, 3), min_size=n, max_size=n))
    rad = draw(st.lists(I(2, 12), min_size=n, max_size=n))
    poly = [[round(step * (i + j / 10.0), 4), r / 2.0] for i, (j, r) in enumerate(zip(jig, rad))]
    return {"kind": "prism", "poly": poly, "h": draw(I(1, 16)) / 2.0}


@st.composite
def ngon_spec(draw):
    return {"kind": "ngon", "n": draw(I(3, 40)), "r": draw(I(2, 16)) / 4.0,
            "h": draw(I(1, 16)) / 2.0, "phase": draw(I(0, 90)) * 1.0}


@st.composite
def plate_spec(draw, nmin=5, nmax=16):
    half = draw(I(12, 24)) / 4.0
    r = draw(I(2, 8)) / 4.0
    room = half - r - 0.5
    c = [draw(I(-4, 4)) / 4.0 * room * 0.9, draw(I(-4, 4)) / 4.0 * room * 0.9]
    return {"kind": "plate", "n": draw(I(nmin, nmax)), "r": r, "c": c, "half": half,
            "h": draw(I(1, 12)) / 2.0, "phase": draw(I(0, 90)) * 1.0}


@st.composite
def terrain_spec(draw):
    ni, nj = draw(I(2, 5)), draw(I(2, 5))
    h = draw(st.lists(st.lists(I(1, 24), min_size=nj, max_size=nj), min_size=ni, max_size=ni))
    return {"kind": "terrain", "hts": [[v / 3.0 for v in r] for r in h],
            "dx": draw(I(2, 8)) / 2.0, "dy": draw(I(2, 8)) / 2.0, "base": -1.0}


def simple_spec():
    return st.one_of(hull_spec(), voxel_spec(), prism_spec(), terrain_spec(),
                     plate_spec(), ngon_spec())


rot = st.one_of(st.none(), st.tuples(generic_angle, generic_angle, generic_angle).map(list))
# so that lines are nearly, but not, parallel
small_rot = st.one_of(st.tuples(dec(-1, 1, 2), st.just(0.0), st.just(0.0)).map(list),
                      st.tuples(dec(-1, 1, 2), dec(-1, 1, 2), dec(-1, 1, 2)).map(list))


@st.composite
def solid_spec(draw, parts=3):
    """One solid or several, disjoint by construction (stacked along an axis with
    gaps, so that they overlap on the page and hide each other)."""
    n = draw(I(1, parts))
    if n == 1:
        s = draw(simple_spec())
        s = dict(s)
        s["rot"] = draw(rot)
        return s
    out, offs, pos = [], [], 0.0
    ax = draw(I(0, 2))
    for _ in range(n):
        s = dict(draw(st.one_of(hull_spec(4, 8), voxel_spec(2, 4), prism_spec(),
                                plate_spec(5, 8), terrain_spec())))
        s["rot"] = draw(rot)
        T = solids.build(s)
        if not T:
            continue
        import numpy as np
        P = np.array(T).reshape(-1, 3)
        lo, hi = P.min(0), P.max(0)
        off = [draw(I(-8, 8)) / 4.0 for _ in range(3)]
        off[ax] = pos - lo[ax]
        pos += hi[ax] - lo[ax] + draw(I(1, 8)) / 4.0
        out.append(s)
        offs.append([float(o) for o in off])
    if not out:
        return {"kind": "voxels", "cells": [[0, 0, 0]], "xs": [0.0, 1.0],
                "ys": [0.0, 1.0], "zs": [0.0, 1.0]}
    return {"kind": "union", "parts": out, "offsets": offs,
            "rot": draw(rot)}


@st.composite
def fine_spec(draw):
    """Solids with little between them: thin layers, small gaps, lines that are
    nearly parallel; of all sizes."""
    n = draw(I(1, 3))
    out, offs, pos = [], [], 0.0
    ax = draw(st.sampled_from([0, 1, 2, 2, 2]))
    for _ in range(n):
        s = dict(draw(st.one_of(voxel_spec(2, 4, True), voxel_spec(3, 9, True), prism_spec(), hull_spec(4, 8), plate_spec(5, 8))))
        s["rot"] = draw(st.one_of(st.none(), small_rot, small_rot, rot))
        T = solids.build(s)
        if not T:
            continue
        P = [p for t in T for p in t]
        lo, hi = min(p[ax] for p in P), max(p[ax] for p in P)
        off = [draw(I(-8, 8)) / 4.0 for _ in range(3)]
        off[ax] = float(pos - lo)
        pos += float(hi - lo) + draw(st.sampled_from([0.25, 1.0, 0.05, 0.01, 0.002, 0.0005]))
        out.append(s)
        offs.append(off)
    if not out:
        return {"kind": "voxels", "cells": [[0, 0, 0]], "xs": [0.0, 1.0], "ys": [0.0, 1.0], "zs": [0.0, 1.0]}
    return {"kind": "union", "parts": out, "offsets": offs, "rot": draw(st.one_of(st.none(), st.none(), rot)),
            "size": draw(st.sampled_from([1, 1, 0.001, 0.01, 100.0, 25.4]))}


@st.composite
def large_spec(draw):
    k = draw(I(0, 4))
    if k == 0:
        s = {"kind": "hills", "ni": draw(st.one_of(I(6, 14), I(14, 20))), "nj": draw(st.one_of(I(6, 14), I(14, 20))), "seed": draw(I(0, 10 ** 6))}
    elif k == 1:
        s = {"kind": "cells", "n": draw(I(4, 8)), "seed": draw(I(0, 10 ** 6)), "fill": draw(st.sampled_from([0.2, 0.3, 0.4, 0.6]))}
    elif k == 2:
        s = {"kind": "ngon", "n": draw(I(60, 200)), "r": 5.0, "h": draw(I(1, 8)) / 2.0, "phase": 0.0}
    elif k == 3:
        s = {"kind": "plate", "n": draw(I(40, 120)), "r": 2.0, "c": [0.5, -0.25], "half": 5.0, "h": draw(I(1, 8)) / 2.0, "phase": 1.0}
    else:
        s = {"kind": "union", "parts": [{"kind": "cells", "n": draw(I(3, 4)), "seed": draw(I(0, 10 ** 6)), "fill": 0.5, "rot": draw(rot)}
                                        for _ in range(2)], "offsets": [[0.0, 0.0, 0.0], [1.0, 0.5, 12.0]]}
    s["rot"] = draw(rot)
    s["size"] = draw(st.sampled_from([1, 1, 25.4, 0.01]))
    return s


convex_spec = st.one_of(hull_spec(), ngon_spec(), hull_spec(6, 20))
