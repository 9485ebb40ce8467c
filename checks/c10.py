"""C10: determinism, no state left behind."""
import os
import random
import re
import shutil
import subprocess
import tempfile

from hypothesis import strategies as st

import c02
import draw
import gen
import sut
from runner import Part

PROPERTY = "C10"
TARGETS = ["worker", "worker_san", "cli"]
TECHNIQUE = "property-based testing over run histories: the same script in fresh processes and after random other runs, compared byte by byte"
NOTE = ("Byte equality of output, messages and status on every generated history; time stamps are masked where they "
        "are documented to be.")
RULE = ("histories of 3-8 runs of 2-4 different scripts (random documents, some broken by deleting, repeating or "
        "replacing a token, or with a fault in a model) in one process, partly one built with AddressSanitizer, half of them with models of the same file names but other contents, each result compared with that of a fresh process; and the command run "
        "twice in separate processes. Non-trivial: the history has at least one failing and one succeeding run, or "
        "(command) the document paints something.")
STAMP = re.compile(r"\d{4}-\d\d-\d\d \d\d:\d\d:\d\d")


@st.composite
def entry(d):
    doc = d(gen.document(max_pages=2, max_items=2, max_dims=2))
    return {"doc": doc, "break": d(st.one_of(st.none(), st.tuples(
        st.integers(0, 3), st.integers(0, 10 ** 4)).map(list))),
        "stl": d(st.one_of(st.none(), st.none(), st.none(), st.tuples(
            st.integers(0, 3), st.integers(0, 10 ** 4)).map(list)))}


@st.composite
def case(d):
    es = d(st.lists(entry(), min_size=2, max_size=3))
    return {"scripts": es, "order": d(st.lists(st.integers(0, len(es) - 1), min_size=3, max_size=7)),
            "stamp": d(st.booleans()), "number": d(st.booleans()), "shared": d(st.booleans())}


def source(e, i):
    t = gen.doc_tokens(e["doc"])
    if e["break"] and t:
        k, n = e["break"]
        rnd = random.Random(n)
        p = rnd.randrange(len(t))
        if k == 0:
            del t[p]
        elif k == 1:
            t.insert(p, t[p])
        elif k == 2:
            t[p] = rnd.choice(["[", "}", "dim", "nope", "7", '"%d"', "near", "zz", "="])
        else:  # a semantic fault
            c = [j for j, x in enumerate(t) if x in ("dir", "at", "from", "draw", "view", "scale", "apex")]
            if c:
                p = rnd.choice(c)
                t[p + (t[p] == "draw")] = "other"
    return gen.plain(t)


def models(e):
    """The models' files, one of them possibly with a fault."""
    f = gen.files_of(e["doc"])
    if e.get("stl"):
        k, n = e["stl"]
        rnd = random.Random(n)
        name = rnd.choice(sorted(f))
        ls = f[name].split("\n")[:-1]
        p = rnd.randrange(len(ls))
        if k == 0:
            del ls[p]
        elif k == 1:
            ls.insert(p, ls[p])
        elif k == 2:
            ls[p] = "nonsense" + " 1" * rnd.randrange(4)
        else:
            ls = ls[:p]
        f[name] = "".join(l + "\n" for l in ls)
    return f


def rename(files, src, i):
    """Give every script its own model files."""
    out = {}
    for k, v in files.items():
        n = "s%d_%s" % (i, k)
        src = src.replace('"%s"' % k, '"%s"' % n)
        out[n] = v
    return out, src


def norm(x):
    return (x.ret, STAMP.sub("<time>", x.out), STAMP.sub("<time>", x.err))


def run(c, worker=sut.worker):
    flags = {"timestamp": str(c["stamp"]).lower(), "number_pages": str(c["number"]).lower()}
    w = worker()
    srcs, files = [], []
    for i, e in enumerate(c["scripts"]):
        f, s = models(e), source(e, i)
        if not c["shared"]:
            f, s = rename(f, s, i)
        srcs.append(s)
        files.append([("file", k, v) for k, v in f.items()])
    fresh = []
    fields = [("flag", k, v) for k, v in flags.items()]
    for s, f in zip(srcs, files):
        r = w.request(fields + f + [("script", "in.script", s)])
        draw.crashed(r)
        fresh.append(norm(r.results[0]))
    for i in c["order"]:    # a shared model file changes between the runs
        fields += files[i] + [("script", "in.script", srcs[i])]
    r = w.request(fields)
    draw.crashed(r)
    if len(r.results) != len(c["order"]):
        raise draw.Violation("runs are missing")
    for pos, (i, x) in enumerate(zip(c["order"], r.results)):
        got = norm(x)
        for what, a, b in zip(("status", "output", "messages"), fresh[i], got):
            if a != b:
                raise draw.Violation("run %d of the history %s: %s differs from that of a fresh process\n%r\n%r" % (
                    pos, c["order"], what, a if what != "output" else a[:1500], b if what != "output" else b[:1500]))
        n = len(STAMP.findall(x.out))
        pages = x.out.count("showpage")
    rets = {fresh[i][0] for i in c["order"]}
    return rets == {True, False}, ["fail+ok" if len(rets) == 2 else "all %s" % rets.pop(),
                                   "stamp" if c["stamp"] else "no stamp",
                                   "same file names" if c["shared"] else "own file names"]


@st.composite
def cli_case(d):
    return {"e": d(entry()), "stamp": d(st.booleans())}


def run_cli(c):
    src = source(c["e"], 0)
    d = tempfile.mkdtemp(prefix="c10-")
    try:
        with open(d + "/in.script", "wb") as fh:
            fh.write(src.encode("latin-1"))
        for k, v in models(c["e"]).items():
            with open(d + "/" + k, "w") as fh:
                fh.write(v)
        res = []
        for pad in ("x", "y" * 3000):
            env = {"PATH": os.environ["PATH"], "PAD": pad, "TZ": "UTC"}
            cli = sut.build.ensure(["cli"])["cli"]
            p = subprocess.run([cli, "--script=in.script", "--output=o.ps",
                                "--timestamp=%s" % str(c["stamp"]).lower()], cwd=d, env=env, timeout=60,
                               stdout=subprocess.PIPE, stderr=subprocess.PIPE, **sut.unprivileged(cli, d))
            out = b""
            if os.path.exists(d + "/o.ps"):
                with open(d + "/o.ps", "rb") as fh:
                    out = fh.read()
                os.unlink(d + "/o.ps")
            res.append((p.returncode, STAMP.sub("<time>", out.decode("latin-1")),
                        STAMP.sub("<time>", p.stderr.decode("latin-1"))))
        for what, a, b in zip(("status", "output", "messages"), *res):
            if a != b:
                raise draw.Violation("two processes: %s differs\n%r\n%r" % (what, a, b))
        return res[0][0] == 0 and res[0][1].count("newpath") > 3, ["exit %d" % res[0][0]]
    except subprocess.TimeoutExpired:
        raise sut.Inconclusive("time out")
    finally:
        shutil.rmtree(d, ignore_errors=True)


PARTS = [Part("histories", case(), run, 1200, 25000),
         Part("sanitized", case(), lambda c: run(c, c02.san), 300, 5000),
         Part("processes", cli_case(), run_cli, 600, 8000)]
