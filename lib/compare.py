"""Exact comparison of what two runs paint."""
from collections import Counter

import draw


def prims(pages):
    """Per page: Counter of everything painted."""
    out = []
    for p in pages:
        c = Counter()
        for s in p.segs:
            c[("L",) + tuple(s)] += 1
        for a in p.arcs:
            c[("A",) + tuple(a)] += 1
        for t, a in zip(p.texts, p.anchors):
            c[("T",) + tuple(t)] += 1
        out.append(c)
    return out


def painted(resp, res):
    """None for a refused script, else the pages' Counters."""
    draw.crashed(resp)
    if not res.ret:
        if res.out:
            raise draw.Violation("refused, but wrote output")
        return None
    return prims(draw.pages_of(res.out))


def diff(a, b):
    if (a is None) != (b is None):
        return "one is accepted, the other refused"
    if a is None:
        return None
    if len(a) != len(b):
        return "%d and %d pages" % (len(a), len(b))
    for i, (x, y) in enumerate(zip(a, b)):
        if x != y:
            return "page %d: only in the first %r, only in the second %r" % (
                i + 1, sorted((x - y).elements(), key=str)[:3], sorted((y - x).elements(), key=str)[:3])
    return None
