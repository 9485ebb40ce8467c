"""Reference for hidden-line removal: point-wise visibility with margins, by brute
force over all facets.  Nothing here follows the algorithm under test."""
import numpy as np

MIN_DOT = 0.98


class Scene:
    def __init__(self, tris, view):
        """tris: list of (3,3), wound outward; view: 3x3 column-vector rotation."""
        T = np.array(tris, float) @ view.T      # (n,3,3) in page frame
        self.T = T
        n = np.cross(T[:, 1] - T[:, 0], T[:, 2] - T[:, 0])
        self.area2 = n[:, 2]
        L = np.linalg.norm(n, axis=1)
        self.n = n / np.maximum(L, 1e-300)[:, None]
        self.eps = 1e-7
        self.front = self.n[:, 2] > self.eps
        self.amb = np.abs(self.n[:, 2]) <= self.eps
        P = T[..., :2].reshape(-1, 2)
        self.lo, self.hi = P.min(0), P.max(0)
        self.size = float(np.max(np.ptp(T.reshape(-1, 3), axis=0)))
        self._edges([tuple(map(tuple, t)) for t in np.array(tris, float).tolist()])

    def _edges(self, raw):
        E = {}
        for f, t in enumerate(raw):
            for i in range(3):
                a, b = t[i], t[(i + 1) % 3]
                k = (a, b) if a < b else (b, a)
                E.setdefault(k, []).append((f, i))
        ends, faces, allowed, required = [], [], [], []
        for k, fl in E.items():
            f0, i0 = fl[0]
            a, b = self.T[f0, i0], self.T[f0, (i0 + 1) % 3]
            fs = [f for f, _ in fl]
            fr = [f for f in fs if self.front[f]]
            am = [f for f in fs if self.amb[f]]
            if not fr and not am:
                continue
            al, rq = True, False
            if len(fs) == 2 and len(fr) == 2:
                d = float(self.n[fs[0]] @ self.n[fs[1]])
                if d >= MIN_DOT + 1e-6:
                    al = False
                rq = d < MIN_DOT - 1e-6
            elif len(fr) == 1 and not am:
                rq = True
            elif len(fr) == 1:
                rq = all(float(self.n[fr[0]] @ self.n[f]) < MIN_DOT - 1e-6 for f in am)
            ends.append((a, b))
            faces.append(fs)
            allowed.append(al)
            required.append(rq)
        self.E = np.array(ends).reshape(-1, 2, 3)
        self.Ef = faces
        self.allowed = np.array(allowed, bool)
        self.required = np.array(required, bool)

    def classify(self, P, edge_idx, m, g):
        """P (k,3) points on edges edge_idx (k,) -> array of 'v','h','?'."""
        occ = np.where(self.front | self.amb)[0]
        if len(P) == 0:
            return np.zeros(0, "U1")
        T = self.T[occ]
        A2 = self.area2[occ]
        Q = P[:, None, :2]
        dmin = np.full((len(P), len(occ)), np.inf)
        for i in range(3):
            a, b = T[:, i, :2], T[:, (i + 1) % 3, :2]
            d = b - a
            L = np.maximum(np.sqrt((d ** 2).sum(-1)), 1e-300)
            s = (d[None, :, 0] * (Q[..., 1] - a[None, :, 1]) -
                 d[None, :, 1] * (Q[..., 0] - a[None, :, 0])) / L[None]
            dmin = np.minimum(dmin, s)
        n = self.n[occ]
        with np.errstate(all="ignore"):
            zf = T[None, :, 0, 2] - ((Q[..., 0] - T[None, :, 0, 0]) * n[None, :, 0] +
                                     (Q[..., 1] - T[None, :, 0, 1]) * n[None, :, 1]) / n[None, :, 2]
            gap = zf - P[:, None, 2]
        clear = self.front[occ][None]
        hid = clear & (dmin > m) & (gap > g)
        # signed distances to the edge lines overestimate the distance outside
        # near corners only in the safe direction (more points count as outside
        # one edge line by more than m)
        vis = (dmin < -m) | (clear & (gap < -g))
        # facets of the edge itself cannot hide it
        pos = {f: i for i, f in enumerate(occ)}
        for k, e in enumerate(edge_idx):
            for f in self.Ef[e]:
                if f in pos:
                    hid[k, pos[f]] = False
                    vis[k, pos[f]] = True
        out = np.full(len(P), "?", "U1")
        out[vis.all(1)] = "v"
        out[hid.any(1)] = "h"
        return out


def check_soundness(sc, segs, tol, m, g, k=9):
    """segs (n,2,2) in model units, page frame. Returns (message|None, stats)."""
    import draw
    st = dict(points=0, clear=0)
    if len(segs) == 0:
        return None, st
    P, idx = draw.samples(segs, k, 0.0)
    # nudge the extreme samples inside
    E2 = sc.E[..., :2]
    al = np.where(sc.allowed)[0]
    if len(al) == 0:
        return "lines drawn but there is nothing to draw", st
    D, t = draw.point_seg_dist(P, E2[al])
    near = D <= tol
    st["points"] = len(P)
    bad = ~near.any(1)
    if bad.any():
        i = int(np.argmax(bad))
        return "point %s of line %s is on no edge of the solid" % (
            P[i].tolist(), segs[idx[i]].tolist()), st
    # candidates
    pi, ei = np.where(near)
    e = al[ei]
    L2 = np.sqrt(((E2[e, 1] - E2[e, 0]) ** 2).sum(-1))
    tt = t[pi, ei]
    Q = sc.E[e, 0] + (sc.E[e, 1] - sc.E[e, 0]) * tt[:, None]
    cls = sc.classify(Q, e, m, g)
    cls[L2 < 4 * m] = "?"
    ok = np.zeros(len(P), bool)
    np.logical_or.at(ok, pi, cls != "h")
    vis = np.zeros(len(P), bool)
    np.logical_or.at(vis, pi, cls == "v")
    st["clear"] = int(vis.sum())
    if not ok.all():
        i = int(np.argmin(ok))
        return "point %s of line %s is hidden by a facet" % (
            P[i].tolist(), segs[idx[i]].tolist()), st
    return None, st


def check_completeness(sc, segs, tol, m, g, k=13):
    import draw
    st = dict(points=0, clear=0, hidden=0, partial=0)
    rq = np.where(sc.required)[0]
    if len(rq) == 0:
        return None, st
    E = sc.E[rq]
    L2 = np.sqrt(((E[:, 1, :2] - E[:, 0, :2]) ** 2).sum(-1))
    keep = L2 > 6 * m
    rq, E, L2 = rq[keep], E[keep], L2[keep]
    if len(rq) == 0:
        return None, st
    lo = 2 * m / L2
    t = lo[:, None] + (1 - 2 * lo[:, None]) * np.linspace(0, 1, k)[None]
    P = (E[:, None, 0] + (E[:, 1] - E[:, 0])[:, None] * t[..., None]).reshape(-1, 3)
    idx = np.repeat(rq, k)
    cls = sc.classify(P, idx, m, g)
    st["points"] = len(P)
    st["clear"] = int((cls == "v").sum())
    st["hidden"] = int((cls == "h").sum())
    c2 = cls.reshape(len(rq), k)
    st["partial"] = int(((c2 == "v").any(1) & (c2 == "h").any(1)).sum())
    v = cls == "v"
    if not v.any():
        return None, st
    c = draw.covered(P[v][:, :2], segs, tol)
    if not c.all():
        i = int(np.argmin(c))
        return "point %s is visible on edge %s but no line covers it" % (
            P[v][i].tolist(), sc.E[idx[v][i]].tolist()), st
    return None, st
