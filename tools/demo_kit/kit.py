"""Helpers for demonstrations: run the tool, read what it paints."""
import math, os, re, subprocess, sys
BIN = sys.argv[1]
N = r"(-?[0-9.]+(?:e[-+]?[0-9]+)?)"


def run(script, files=None, *flags, name="in.script", quiet=True):
    """-> (exit status, output or None, messages)"""
    for k, v in (files or {}).items():
        if os.path.dirname(k):
            os.makedirs(os.path.dirname(k), exist_ok=True)
        with open(k, "w") as f:
            f.write(v)
    with open(name, "wb") as f:
        f.write(script.encode("latin-1") if isinstance(script, str) else script)
    if os.path.exists("out.ps"):
        os.unlink("out.ps")
    q = ["--timestamp=false", "--number_pages=false"] if quiet else []
    p = subprocess.run([BIN, "--script=" + name, "--output=out.ps"] + q + list(flags),
                       stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=60)
    out = None
    if os.path.exists("out.ps"):
        with open("out.ps", "rb") as f:
            out = f.read().decode("latin-1")
    return p.returncode, out, p.stderr.decode("latin-1")


def segs(out):
    return [tuple(map(float, m)) for m in re.findall("newpath %s %s moveto %s %s lineto stroke\n" % (N, N, N, N), out)]


def arcs(out):
    return [tuple(map(float, m)) for m in re.findall("newpath %s %s %s %s %s arc stroke" % (N, N, N, N, N), out)]


def texts(out):
    """[(x, y, PostScript string body, centred)]"""
    return [(float(x), float(y), s, bool(c)) for x, y, s, c in re.findall(
        r"newpath %s %s moveto \(((?:[^()\\]|\\.|\\\n)*)\) (CenterText )?show" % (N, N), out, re.S)]


def stl(tris):
    o = ["solid part"]
    for t in tris:
        a, b, c = t
        u = [b[i] - a[i] for i in range(3)]
        v = [c[i] - a[i] for i in range(3)]
        n = (u[1] * v[2] - u[2] * v[1], u[2] * v[0] - u[0] * v[2], u[0] * v[1] - u[1] * v[0])
        l = math.sqrt(sum(x * x for x in n)) or 1
        o.append("facet normal %r %r %r" % tuple(float(x / l) for x in n))
        o.append("outer loop")
        o += ["vertex %r %r %r" % tuple(map(float, p)) for p in t]
        o += ["endloop", "endfacet"]
    return "\n".join(o + ["endsolid part"]) + "\n"


def quad(a, b, c, d):
    return [(a, b, c), (a, c, d)]


def box(x0, y0, z0, x1, y1, z1):
    p = lambda x, y, z: (x1 if x else x0, y1 if y else y0, z1 if z else z0)
    return (quad(p(0, 0, 0), p(0, 1, 0), p(1, 1, 0), p(1, 0, 0)) + quad(p(0, 0, 1), p(1, 0, 1), p(1, 1, 1), p(0, 1, 1)) +
            quad(p(0, 0, 0), p(1, 0, 0), p(1, 0, 1), p(0, 0, 1)) + quad(p(0, 1, 0), p(0, 1, 1), p(1, 1, 1), p(1, 1, 0)) +
            quad(p(0, 0, 0), p(0, 0, 1), p(0, 1, 1), p(0, 1, 0)) + quad(p(1, 0, 0), p(1, 1, 0), p(1, 1, 1), p(1, 0, 1)))


EMPTY = {"e.stl": "solid e\nendsolid e\n"}


def check(ok, what):
    if not ok:
        print("FAILED: " + what)
        sys.exit(1)
    print("ok: " + what)
