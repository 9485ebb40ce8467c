"""Run scripts and look at what they draw."""
import math
import zlib
from collections import Counter

import numpy as np

import psi
import sut
import solids

CX, CY = 396.0, 306.0


class Violation(Exception):
    pass


def must(resp, res):
    """The run completed, successfully, or Violation."""
    crashed(resp)
    if res is None or not res.ret:
        raise Violation("a valid script was refused: %r" % (res.err[:600] if res else resp.err[:600],))
    return res


def crashed(resp):
    if resp.timed_out:
        raise sut.Inconclusive("cpu limit")
    if not resp.clean:
        raise Violation("the run crashed (%s): %s" % (resp.status, resp.err[-600:]))


def pages_of(out):
    try:
        pages, it = psi.interpret(out)
    except psi.PSError as e:
        raise Violation("the output is not valid PostScript: %s" % e)
    return pages


QUIET = {"number_pages": "false", "timestamp": "false"}
_base = {}


def baseline():
    """Furniture of a page with no name, number or timestamp."""
    if "p" not in _base:
        r, x = sut.worker().run("page{}", flags=QUIET)
        must(r, x)
        ps = pages_of(x.out)
        if len(ps) != 1:
            raise Violation("an empty page does not give one page")
        _base["p"] = ps[0]
    return _base["p"]


class Content:
    """segs: (n,2,2) array; arcs: list; texts: list of (cx, y, str, x0, anchor)."""

    def __init__(self, page, base):
        c = Counter(base.segs)
        segs = []
        for s in page.segs:
            if c[s] > 0:
                c[s] -= 1
            else:
                segs.append(s)
        if +c:
            raise Violation("page furniture is missing: %r" % (list((+c))[:3],))
        self.segs = np.array(segs, float).reshape(-1, 2, 2)
        c = Counter(base.arcs)
        self.arcs = []
        for a in page.arcs:
            if c[a] > 0:
                c[a] -= 1
            else:
                self.arcs.append(a)
        c = Counter(base.texts)
        self.texts = []
        for t, a in zip(page.texts, page.anchors):
            if c[t] > 0:
                c[t] -= 1
            else:
                x, y, s, size = t
                w = psi.COURIER_ADV * size * len(s)
                self.texts.append(dict(x=x, y=y, s=s, cx=x + w / 2, w=w, anchor=a))


def render(script, files=None, flags=None, skip=0):
    """Successful run -> list of Content, one per page."""
    fl = dict(QUIET)
    fl.update(flags or {})
    r, x = sut.worker().run(script, files, fl)
    must(r, x)
    b = baseline()
    return [Content(p, b) for p in pages_of(x.out)[int(skip):]]


# What comes before in a script must not matter: half of the scripts get a page
# with one of these in front.
NOISE_STL = solids.stl(solids.box((-3.0, 1.0, -2.0), (2.0, 5.5, 0.5)))
NOISE = ["scale=3:2; @[1,-2]; dim(at=[0,3,0],dir=[1,0,0],from=near([-3,1,0]),to=near([2,5,0]));",
         "view=[30,200]; scale=1:7; angle(at=[1,1,0],apex=[0,0,0],from_dir=[1,0,0],to_dir=[0,1,0.5]);",
         'view="X-"; rad(at=[1,1,0],dir=[0,1,0],center=[0,3,1],fmt="%.1f");',
         'view="Y+"; @[2,2]; scale=2:1; dim(at=[0,0,3],dir=[1,0,0],from=[0,0,0],to=[5,0,0],fmt="%5.2fmm");',
         "", 'view="Z-"; dia(at=near([0,0,0]),dir=[1,1,0],center=center([0,3,0]),fmt="%.4f"); @[-3,0];']


def noise(script):
    h = zlib.crc32(script.encode("latin-1", "replace"))
    if h & 1:
        return ""
    return 'load zz_="zz_.stl";page{name="noise";draw zz_{%s}text["noise"]{@[1,1];}}' % NOISE[(h >> 1) % len(NOISE)]


def render1(script, files=None, flags=None):
    n = noise(script)
    if n:
        files = dict(files or {}, **{"zz_.stl": NOISE_STL})
    p = render(n + script, files, flags, bool(n))
    if len(p) != 1:
        raise Violation("expected one page, got %d" % len(p))
    return p[0]


def refused(script, files=None, flags=None):
    """Failing run -> its ScriptResult, or Violation if it was accepted."""
    fl = dict(QUIET)
    fl.update(flags or {})
    r, x = sut.worker().run(script, files, fl)
    crashed(r)
    if x.ret:
        raise Violation("accepted, should have been refused")
    if x.out:
        raise Violation("refused, but wrote %d bytes of output" % len(x.out))
    return x


def scale_for(extent, target=200.0):
    """A whole-number ratio a:b giving about `target` points for `extent`."""
    want = target / 72.0 / max(extent, 1e-9)
    if want >= 1:
        a, b = max(1, int(round(want))), 1
    else:
        a, b = 1, max(1, int(round(1 / want)))
    return a, b


def view_src(v):
    if v is None:
        return ""
    if isinstance(v, str):
        return 'view="%s"; ' % v
    return "view=[%s,%s]; " % (solids.num(v[0]), solids.num(v[1]))


# ------------------------------------------------------------ segment algebra
def point_seg_dist(P, S):
    """P (n,2), S (m,2,2) -> (n,m) distances, and parameters along S."""
    A = S[:, 0][None]
    d = (S[:, 1] - S[:, 0])[None]
    L = np.maximum((d ** 2).sum(-1), 1e-300)
    t = ((P[:, None] - A) * d).sum(-1) / L
    t = np.clip(t, 0, 1)
    q = A + d * t[..., None]
    return np.sqrt(((P[:, None] - q) ** 2).sum(-1)), t


def covered(P, S, tol):
    if len(S) == 0:
        return np.zeros(len(P), bool)
    D, _ = point_seg_dist(P, S)
    return D.min(1) <= tol


def samples(S, k=9, inset=0.0):
    """k points per segment, `inset` away from its ends where it is long enough."""
    if len(S) == 0:
        return np.zeros((0, 2)), np.zeros(0, int)
    L = np.sqrt(((S[:, 1] - S[:, 0]) ** 2).sum(-1))
    lo = np.where(L > 3 * inset, inset / np.maximum(L, 1e-300), 0.5)
    t = lo[:, None] + (1 - 2 * lo[:, None]) * np.linspace(0, 1, k)[None]
    P = S[:, None, 0] + (S[:, 1] - S[:, 0])[:, None] * t[..., None]
    return P.reshape(-1, 2), np.repeat(np.arange(len(S)), k)


def drawing_diff(A, B, tol, slack):
    """None if A and B cover each other up to `tol` sideways and `slack`
    (ends, tiny pieces) lengthways; otherwise a description."""
    for name, X, Y in (("first", A, B), ("second", B, A)):
        L = np.sqrt(((X[:, 1] - X[:, 0]) ** 2).sum(-1)) if len(X) else np.zeros(0)
        X2 = X[L > 2 * slack] if len(X) else X
        P, idx = samples(X2, 13, slack)
        c = covered(P, Y, tol)
        if not c.all():
            i = int(np.argmin(c))
            return "a point of the %s drawing is missing from the other: %s on segment %s" % (
                name, np.round(P[i], 4).tolist(), np.round(X2[idx[i]], 4).tolist())
    return None
