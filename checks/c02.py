"""C02: no crash, no hang, clean results."""
import glob
import os
import random
import re
import shutil
import subprocess
import tempfile

from hypothesis import strategies as st

import c01
import draw
import gen
import seeds
import solids
import strat
import sut
from runner import Part

PROPERTY = "C02"
TARGETS = ["worker", "worker_san", "fuzz_run"]
TECHNIQUE = ("coverage-guided fuzzing (libFuzzer) and property-based testing under AddressSanitizer and "
             "UndefinedBehaviorSanitizer, whole runs in process")
NOTE = ("No sanitizer report, abort, hang, silent failure or non-finite output on all generated inputs; model "
        "coordinates between 1e-6 and 1e6, models up to 260 facets, texts and nesting up to 250000.")
RULE = ("libFuzzer over scripts, models and both (seeded and with a dictionary, fixed seeds and run counts); random "
        "documents with hostile values, token and character mutations over triangle soups; scripts and models in "
        "which one thing of some 45 kinds (nesting, a list, a token, a line) is made up to 250000 long. Non-trivial: fuzzed "
        "inputs that reached new code, documents that load a model and are accepted or fail after parsing, and "
        "inputs above 20 kB.")
ASSUMPTIONS = ["built with clang -O1 -fsanitize=address,undefined and the libre2/abseil of this machine",
               "coverage-guided runs are reproducible but for inputs near the time limit"]
I = st.integers
S = st.sampled_from
_san = None


def san():
    global _san
    if _san is None:
        _san = sut.Worker(sut.build.ensure(["worker_san"])["worker_san"])
    return _san


# ------------------------------------------------------------------ documents
soup_c = st.one_of(I(-2, 2).map(float), I(-2, 2).map(float), strat.dec(-3, 3, 1), S([1e-6, 1e6, -1e6, 1 / 3, 0.1 + 0.2, 1e-3]))


@st.composite
def soup(d):
    P = d(st.lists(st.tuples(soup_c, soup_c, soup_c).map(list), min_size=1, max_size=9))
    i = I(0, len(P) - 1)
    n = d(st.lists(st.tuples(i, i, i, S([[0, 0, 1], [0, 0, -1], [0, 0, 0], [1, 0, 0], [0, -1, 0.5], [1e-6, 0, 1], [5, 5, 5]])),
                   max_size=14))
    n = list(n)
    for _ in range(d(S([0, 0, 1, 2, 4])) if n else 0):  # edges right below or above a facet, from side to side
        f = d(S(n))
        q, dz = S([0, 0, 0, 0.25, 0.5, 0.5, 0.75]), d(S([-1, -1, -1, 1, 0, -1e-3]))
        for _ in range(2):
            k, t = d(I(0, 2)), d(q)
            u, v = P[f[k]], P[f[(k + 1) % 3]]
            P.append([u[i] + (v[i] - u[i]) * t for i in range(3)])
            P[-1][2] += dz
        n.insert(d(I(0, len(n))), (len(P) - 2, len(P) - 1, d(i), d(S([[0, 0, 1], [0, 0, -1]]))))
    o = ["solid s"]
    for a, b, c, v in n:
        o += ["facet normal %r %r %r" % tuple(v), "outer loop"]
        o += ["vertex %r %r %r" % tuple(P[k]) for k in (a, b, c)]
        o += ["endloop", "endfacet"]
    return "\n".join(o + ["endsolid s"]) + "\n"


hostile = st.one_of(I(-3, 3).map(str), strat.dec(-9, 9, 2).map(solids.num), strat.dec(-9, 9, 2).map(solids.num),
                    S(["0", "-0", "0.0000001", "-.0000000000000000000000000000000000000000001", "99999999",
                       "340282346638528859811704183484516925440", "-340282346638528859811704183484516925440",
                       "16777217", "1000000"]))


@st.composite
def hpoint(d, depth=3):
    if depth and d(I(0, 4)) == 0:
        return [d(S(["near"] * 12 + ["center"] * 4 + ["nope"])), "("] + d(hpoint(depth - 1)) + [")"]
    return ["[", d(hostile), ",", d(hostile), ",", d(hostile), "]"]


fmts = st.one_of(S(gen.VALID_FMTS), S(gen.VALID_FMTS), S(gen.VALID_FMTS), S(gen.VALID_FMTS), S(["", "%", "%d", "%n", "%s", "%f%f", "%.99f", "%300f", "%*f", "%.*f", "%$f", "%1$f",
                                       "%2$f", "%lf", "%Lf", "%e", "%g", "%a", "%v", "%99999999999f", "%.99999999999f", "%c", "%5",
                                       "%F", "%.f", "%-+ #09.3f"]), gen.words)


@st.composite
def hdim(d):
    k, need = d(S([("dim", ["at", "dir", "from", "to"]), ("angle", ["at", "apex", "from_dir", "to_dir"]),
                   ("angle", ["at", "apex", "from_point", "to_point"]), ("dia", ["at", "dir", "center"]),
                   ("rad", ["at", "dir", "center"])]))
    o, first = [k, "("], True
    for n in need:
        if d(I(0, 90)) == 0:
            continue
        o += ([] if first else [","]) + [n, "="] + d(hpoint())
        first = False
    if d(I(0, 2)) == 0:
        o += ([] if first else [","]) + ["fmt", "=", gen.literal(d(fmts))]
    return o + [")", ";"]


@st.composite
def hdoc(d):
    t = ["load", "m", "=", '"m.stl"', ";"]
    for _ in range(d(I(1, 2))):
        t += ["page", "{"]
        if d(I(0, 3)) == 0:
            t += ["name", "=", gen.literal(d(gen.words)), ";"]
        for _ in range(d(I(0, 3))):
            if d(I(0, 4)) == 0:
                t += ["text", "[", gen.literal(d(gen.words)), "]", "{"] + (
                    ["@", "[", d(hostile), ",", d(hostile), "]", ";"] if d(st.booleans()) else []) + ["}"]
                continue
            t += ["draw", d(S(["m"] * 39 + ["x"])), "{"]
            if d(st.booleans()):
                t += ["scale", "=", d(S(["1", "2", "3", "1000000", "16777216"] * 9 + ["0", "1.5"])), ":",
                      d(S(["1", "1", "7", "1000000", "2147483520"] * 9 + ["0", "-1"])), ";"]
            k = d(I(0, 3))
            if k == 1:
                t += ["view", "=", '"%s"' % d(S(strat.NAMES * 8 + ["W"])), ";"]
            elif k == 2:
                t += ["view", "=", "[", d(hostile), ",", d(hostile), "]", ";"]
            if d(I(0, 2)) == 0:
                t += ["@", "[", d(hostile), ",", d(hostile), "]", ";"]
            for x in d(st.lists(hdim(), max_size=4)):
                t += x
            t += ["}"]
        t += ["}"]
    for _ in range(d(S([0] * 9 + [1, 2]))):
        i = d(I(0, len(t) - 1))
        k = d(I(0, 2))
        if k == 0:
            del t[i]
        elif k == 1:
            t[i] = d(c01.token)
        else:
            t.insert(i, d(c01.token))
        t = t or ["page"]
    return {"script": gen.plain(t), "stl": d(st.one_of(soup(), S(sorted(seeds.MODELS)).map(lambda n: "@" + n)))}


def judge(r, x):
    draw.crashed(r)
    if x is None:
        raise draw.Violation("no result")
    if not x.ret:
        if x.out:
            raise draw.Violation("failure with output")
        if not sut.diagnostics(x.err) and not sut.parse_errors(x.err):
            raise draw.Violation("failure without a message: %r" % x.err[-300:])
        return bool(sut.diagnostics(x.err))
    draw.pages_of(x.out)  # raises on non-finite numbers
    bad = [m for _, m, f in sut.diagnostics(x.err) if f == "in.script"]
    if bad:
        raise draw.Violation("success, though it reports %r" % bad[0])
    return True


def run_doc(c):
    m = c["stl"]
    files = {"m.stl": seeds.MODELS[m[1:]] if m[:1] == "@" else m}
    r, x = san().run(c["script"], files, draw.QUIET)
    nt = judge(r, x)
    return nt, ["accepted" if x.ret else "refused", "soup" if m[:1] != "@" else m]


def run_bytes(c):
    r, x = san().run(c["script"], dict(seeds.MODELS), draw.QUIET)
    judge(r, x)
    return bool(x.ret) or bool(sut.diagnostics(x.err)), ["accepted" if x.ret else "refused"]


# ------------------------------------------------------------------ size and depth
BULK = {   # name: (script for size n, longest n, model for size n)
    "near": lambda n: dim("near(" * n + "[0,0,0]" + ")" * n),
    "center": lambda n: dim("center(" * (n // 4) + "[0,0,0]" + ")" * (n // 4)),
    "mixed": lambda n: dim("near(center(" * (n // 8) + "[1,0,0]" + "))" * (n // 8)),
    "unknown": lambda n: dim("near(" * (n // 2) + "nope(" * (n // 2) + "[0,0,0]" + ")" * (n // 2 * 2)),
    "unfinished": lambda n: dim("near(" * n),
    "too many )": lambda n: dim("near(" * n + "[0,0,0]" + ")" * (n + 1)),
    "properties": lambda n: "page { " + "".join("p%d = %d; " % (i, i) for i in range(n // 20)) + "}",
    "duplicates": lambda n: "page { draw m { " + "@[1,2]; " * (n // 20) + "} }",
    "annotation properties": lambda n: "page { draw m { dim(" + ",".join("p%d = near([0,0,0])" % i for i in range(n // 20)) + "); } }",
    "annotations": lambda n: "page { draw m { " + "dim(at=[0,0,0],dir=[1,0,0],from=[0,0,0],to=[1,0,0]); " * (n // 200) + "} }",
    "pages": lambda n: "page { } " * (n // 100),
    "texts": lambda n: "page { " + "text[\"a\"] { } " * (n // 100) + "}",
    "draws": lambda n: "page { " + "draw m { } " * (n // 500) + "}",
    "unknown draws": lambda n: "page { " + "draw x { } " * (n // 100) + "}",
    "loads": lambda n: "".join("load m%d = \"none%d\"; " % (i, i) for i in range(n // 100)),
    "again": lambda n: "load m = \"m.stl\"; " * (n // 100),
    "lines": lambda n: "page { text[\"" + "a\\n" * (n // 20) + "\"] { } }",
    "literals": lambda n: "page { text[" + "\"ab\" " * (n // 4) + "] { } }",
    "long literal": lambda n: "page { text[\"" + "x" * n + "\"] { } name = \"" + "(" * n + "\"; }",
    "escapes": lambda n: "page { text[\"" + "\\\\" * n + "\"] { } }",
    "open literal": lambda n: "page { text[\"" + "x" * n,
    "long name": lambda n: "load " + "m" * n + " = \"m.stl\"; page { draw " + "m" * n + " { } }",
    "long file": lambda n: "load a = \"" + "d/" * n + "\";",
    "long number": lambda n: "page { text[\"a\"] { @[0." + "0" * n + "1, " + "0" * n + "1]; } }",
    "too long number": lambda n: "page { text[\"a\"] { @[1" + "0" * n + ", 1]; } }",
    "long fmt": lambda n: dim("[0,0,0],fmt=\"" + "x" * n + "%f\""),
    "wide fmt": lambda n: dim("[0,0,0],fmt=\"%" + str(n) + ".3f\""),
    "precise fmt": lambda n: dim("[0,0,0],fmt=\"%." + str(n) + "f\""),
    "fmt without end": lambda n: dim("[0,0,0],fmt=\"" + "%%" * n + "\""),
    "fmt flags": lambda n: dim("[0,0,0],fmt=\"%" + "0" * n + "f\""),
    "comment": lambda n: "//" + "/" * n + "\npage { } //" + "x" * n,
    "blank": lambda n: "\n" * n + "page {" + " " * n + "}" + "\t" * n + "}",
    "braces": lambda n: "page { " * n,
    "brackets": lambda n: "[" * n,
    "wrong bytes": lambda n: "\x80" * n,
}
STL_BULK = {
    "none": lambda n: "",
    "blank solids": lambda n: "solid a\nendsolid a\n" * (n // 4),
    "long solid": lambda n: "solid " + "x" * n + "\n",
    "long line": lambda n: "facet normal " + "1" * n + "\n",
    "spaces": lambda n: " " * n + "solid\n" + " " * n + "endsolid\n",
    "vertexes": lambda n: "facet normal 0 0 1\n" + "vertex 1 2 3\n" * (n // 4) + "endfacet\n",
    "loose vertexes": lambda n: "vertex 1 2 3\n" * (n // 4),
    "flat facets": lambda n: "facet normal 0 0 0\nendfacet\n" * (n // 8),
    "one facet again": lambda n: TRI * (n // 1000),
    "same edge": lambda n: "".join(TRI.replace("0 1 0", "0 %d 1" % (i + 1)) for i in range(n // 5000)),
    "no end": lambda n: "facet normal 0 0 1\n",
    "long numbers": lambda n: TRI.replace("0 1 0", "0." + "0" * n + "1 1." + "5" * n + " 0"),
}
TRI = ("facet normal 0 0 1\nouter loop\nvertex 0 0 0\nvertex 1 0 0\nvertex 0 1 0\nendloop\nendfacet\n")


def dim(p):
    return "page { draw m { dim(dir=[1,0,0],from=[0,0,0],to=[1,0,0],at=" + p + "); } }"


@st.composite
def bulk(d):
    k = d(I(0, 2))
    nest = ["near", "center", "mixed", "unknown", "unfinished"]
    return {"script": d(S(sorted(BULK) + nest * 3)), "model": "none" if k else d(S(sorted(STL_BULK))),
            "n": d(st.one_of(I(20, 53).map(lambda k: int(10 ** (k / 10))), S([100000, 250000, 250000]))), "load": d(S([0, 1, 1, 1])), "san": d(S([0, 0, 1]))}


def run_bulk(c):
    n = c["n"]
    src = ('load m="m.stl";\n' if c["load"] else "") + BULK[c["script"]](n)
    m = STL_BULK[c["model"]](n) if c["model"] != "none" else seeds.MODELS["hole.stl"]
    r, x = (san() if c["san"] else sut.worker()).run(src, {"m.stl": m}, draw.QUIET)
    judge(r, x)
    return len(src) + len(m) > 20000, ["script:" + c["script"], "model:" + c["model"], "accepted" if x.ret else "refused"]


# ------------------------------------------------------------------ libFuzzer
MODES = ["script", "stl", "both"]


def setup_dir(mode):
    d = tempfile.mkdtemp(prefix="c02-")
    os.mkdir(d + "/corpus")
    for k, v in seeds.MODELS.items():
        with open(d + "/" + k, "w") as fh:
            fh.write(v)
    with open(d + "/dict", "w") as fh:
        for w in seeds.DICT:
            fh.write('"%s"\n' % w)
    items = {"script": seeds.SCRIPTS, "stl": seeds.STLS,
             "both": [s.replace("cube.stl", "m.stl").replace("hole.stl", "m.stl") + "\n====\n" + seeds.STLS[i % len(seeds.STLS)]
                      for i, s in enumerate(seeds.SCRIPTS)]}[mode]
    for i, s in enumerate(items):
        with open(d + "/corpus/s%03d" % i, "wb") as fh:
            fh.write(s.encode("latin-1"))
    return d


def fuzz_cmd(d, *args):
    return [sut.build.ensure(["fuzz_run"])["fuzz_run"], "-max_len=4096", "-timeout=100", "-rss_limit_mb=3000",
            "-artifact_prefix=" + d + "/art-", "-print_final_stats=1"] + list(args)


def as_nobody(d):
    return sut.unprivileged(sut.build.ensure(["fuzz_run"])["fuzz_run"], d)


def fuzz(tier, seed, idx, stats, t_end):
    import time
    mode = MODES[idx % 3]
    d = setup_dir(mode)
    env = dict(os.environ, FUZZ_MODE=mode)
    try:
        runs, cap = (5000, 60) if tier == "quick" else (10 ** 8, 420)
        n0 = set(os.listdir(d + "/corpus"))
        p = subprocess.run(fuzz_cmd(d, "-seed=%d" % (seed * 100 + idx + 1), "-runs=%d" % runs, "-max_total_time=%d" % cap,
                                    "-dict=" + d + "/dict", "-reload=0", d + "/corpus"), cwd=d, env=env,
                           stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, **as_nobody(d))
        err = p.stderr.decode("latin-1")
        m = re.search(r"stat::number_of_executed_units: (\d+)", err)
        stats.evals += int(m.group(1)) if m else 0
        for f in sorted(set(os.listdir(d + "/corpus")) - n0):
            stats.distinct.add(mode + "/" + f)
            if len(stats.samples) < 1:
                with open(d + "/corpus/" + f, "rb") as fh:
                    stats.samples.append({"mode": mode, "input": fh.read(600).decode("latin-1")})
        stats.labels["mode:" + mode] = stats.evals
        arts = sorted(glob.glob(d + "/art-*"))
        if arts:
            small = arts[0]
            if "timeout" not in small and "oom" not in small:  # libFuzzer's own shrinking
                subprocess.run(fuzz_cmd(d, "-minimize_crash=1", "-runs=2000", "-max_total_time=30",
                                        "-exact_artifact_path=" + d + "/min", small), cwd=d, env=env,
                               stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, **as_nobody(d))
                if os.path.exists(d + "/min"):
                    small = d + "/min"
            with open(small, "rb") as fh:
                data = fh.read()
            case = {"mode": mode, "input": data.decode("latin-1")}
            try:
                run_fuzz(case)
            except draw.Violation as e:
                e.case = case
                raise
    finally:
        shutil.rmtree(d, ignore_errors=True)


fuzz.parallel = True


def run_fuzz(c):
    d = setup_dir(c["mode"])
    try:
        with open(d + "/in", "wb") as fh:
            fh.write(c["input"].encode("latin-1"))
        p = subprocess.run(fuzz_cmd(d, d + "/in"), cwd=d, env=dict(os.environ, FUZZ_MODE=c["mode"]),
                           stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, **as_nobody(d))
        if p.returncode:
            e = p.stderr.decode("latin-1")
            m = re.search(r"(ORACLE: .*|ERROR: .*|.*runtime error: .*|.*Check failed.*)", e)
            raise draw.Violation("mode %s, exit status %d: %s" % (c["mode"], p.returncode, m.group(1) if m else e[-600:]))
        return True, []
    finally:
        shutil.rmtree(d, ignore_errors=True)


PARTS = [Part("documents", hdoc(), run_doc, 2500, 60000),
         Part("scripts", c01.script(), run_bytes, 1500, 30000),
         Part("size", bulk(), run_bulk, 400, 6000),
         Part("fuzz", None, run_fuzz, 1, 1, custom=fuzz)]
