"""Cases and oracle shared by C16 and C17."""
import numpy as np
from hypothesis import strategies as st

import draw
import hlr
import solids
import strat


@st.composite
def case(d):
    return {"solid": d(strat.solid_spec()), "view": d(strat.view())}


@st.composite
def fine_case(d):
    return {"solid": d(strat.fine_spec()), "view": d(st.one_of(strat.view(), st.sampled_from(strat.NAMES), st.tuples(
        strat.dec(-1, 1, 2), strat.dec(-1, 1, 2)).map(list)))}


@st.composite
def large_case(d):
    return {"solid": d(strat.large_spec()), "view": d(strat.view())}


def setup(c):
    """-> (scene, segs in model units/page frame) or None when degenerate."""
    T = solids.build(c["solid"])
    if not T or len(T) > 2600:
        return None
    V = solids.view_of(c["view"])
    sc = hlr.Scene(T, V)
    ext = float(max(sc.hi - sc.lo))
    if ext < 1e-6:
        return None
    a, b = draw.scale_for(ext)
    s = "load m=\"m.stl\";\npage { draw m { scale=%d:%d; %s@[0,0]; } }" % (a, b, draw.view_src(c["view"]))
    pg = draw.render1(s, {"m.stl": solids.stl(T)})
    k = 72.0 * a / b
    off = np.array([draw.CX, draw.CY]) - (sc.lo + sc.hi) / 2 * k
    # a degenerate line (butt caps) paints nothing
    L = np.sqrt(((pg.segs[:, 1] - pg.segs[:, 0]) ** 2).sum(-1)) if len(pg.segs) else np.zeros(0)
    segs = (pg.segs[L > 0.01] - off) / k
    return T, sc, segs, k


def labels(c, T, sc, cst=None):
    out = ["kind:" + c["solid"]["kind"],
           "view:" + ("named" if not isinstance(c["view"], list) else "angles"),
           "facets:%d" % (len(T) // 40 * 40 if len(T) < 400 else len(T) // 400 * 400)]
    return out
