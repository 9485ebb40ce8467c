"""C11: page furniture."""
import datetime
import os
import re
import shutil
import subprocess
import tempfile

from hypothesis import strategies as st

import draw
import gen
import solids
import sut
from runner import Part

PROPERTY = "C11"
TECHNIQUE = "property-based testing: random page names, page counts and flags, output run through a PostScript interpreter and compared with the expected furniture"
NOTE = "Exact furniture (to 0.01pt) on all generated pages; the time stamp is only checked to be a current date and time."
RULE = ("1-12 pages (now and then up to 280) with and without names over all byte values, both flags on and off, optionally with texts and a drawing on the "
        "page. Some runs are of the command itself, each flag absent or spelled in one of ten ways. Non-trivial: more than one page, or a name with a character that is not alphanumeric, and a header or "
        "a name to show.")
I = st.integers
STAMP = r"(\d{4})-(\d\d)-(\d\d) (\d\d):(\d\d):(\d\d)"
namechar = st.one_of(st.characters(min_codepoint=32, max_codepoint=126), st.sampled_from(list("()\\\"'?%\xe9\xff\t ")),
                     st.characters(min_codepoint=1, max_codepoint=255))
name = st.one_of(st.none(), st.text(namechar, max_size=30), st.text(namechar, max_size=120),
                 st.tuples(st.text(namechar, min_size=1, max_size=9), I(1, 20)).map(lambda t: t[0] * t[1]))


@st.composite
def case(d):
    return {"names": d(st.lists(name, min_size=1, max_size=d(st.sampled_from([2, 4, 6, 12])))),
            "times": d(st.sampled_from([1] * 60 + [12, 40, 140])),  # how often the pages are repeated
            "stamp": d(st.booleans()), "number": d(st.booleans()),
            # texts on each page in turn, and pages with a drawing
            "text": d(st.lists(st.sampled_from([0, 0, 1, 1, 2, 3, 5, 7, 9, 20]), min_size=1, max_size=4)),
            "draw": d(st.one_of(st.just([0]), st.lists(I(0, 4), min_size=1, max_size=4)))}


BOX = solids.stl(solids.box((0.0, 0.0, 0.0), (1.0, 1.0, 1.0)))
DRAWINGS = ["", "draw m { @[0,0]; }", 'draw m { @[0,0]; scale=2:1; dim(at=[0,0,0],dir=[1,0,0],from=[1,0,0],to=[2,0,0],fmt="<>%.0f"); }',
            'draw m { @[0,0]; view="Z-"; angle(at=[1,1,0],apex=[0,0,0],from_dir=[1,0,0],to_dir=[0,1,0],fmt="<>%.0f"); }',
            'draw m { @[0,0]; scale=1:3; dim(at=[0,0,0],dir=[0,1,0],from=[1,0,0],to=[2,0,0],fmt="<>%.0f"); }']


def near(a, b, tol=0.011):
    return all(abs(x - y) <= tol for x, y in zip(a, b))


def run(c):
    src = 'load m="m.stl";\n'
    loose = []
    c = dict(c, names=(c["names"] * c.get("times", 1))[:280])
    for i, n in enumerate(c["names"]):
        k, f = c["text"][i % len(c["text"])], c["draw"][i % len(c["draw"])]
        loose.append((k, f))
        src += "page { %s %s %s }\n" % ("" if n is None else "name=%s;" % gen.literal(n),
                                        'text ["body"] { @[1,1]; }' * k, DRAWINGS[f])
    flags = {"timestamp": str(c["stamp"]).lower(), "number_pages": str(c["number"]).lower()}
    r, x = sut.worker().run(src, {"m.stl": BOX}, flags)
    draw.must(r, x)
    return judge(c, loose, draw.pages_of(x.out))


def judge(c, loose, pages):
    if len(pages) != len(c["names"]):
        raise draw.Violation("%d pages for %d page statements" % (len(pages), len(c["names"])))
    for i, (p, n) in enumerate(zip(pages, c["names"])):
        def bad(what):
            raise draw.Violation("page %d of %d, name %r: %s\nlines %r\ntexts %r" % (
                i + 1, len(pages), n, what, p.segs, p.texts))
        n = n or ""
        segs = [tuple(s[0]) + tuple(s[1]) for s in p.segs]

        def take(a, b):
            for k, s in enumerate(segs):
                if near(s, a + b) or near(s, b + a):
                    del segs[k]
                    return True
            return False
        c4 = [(5, 5), (5, 607), (787, 607), (787, 5)]
        for k in range(4):
            if not take(c4[k], c4[(k + 1) % 4]):
                bad("the border is not complete")
        tx = 784 - 4.8 * len(n)
        got = [take((tx - 3, 5), (tx - 3, 16)), take((tx - 3, 16), (787, 16))]
        if not all(got) and n:
            bad("the title is not set off by its lines")
        k, f = loose[i]
        inside = [all(150 < s[j] < 650 for j in (0, 2)) and all(150 < s[j] < 500 for j in (1, 3)) for s in segs]
        if f and not any(inside):
            bad("the drawing is gone")
        if f:   # what the drawing paints is not judged here, but it is all in the middle
            segs = [s for s, m in zip(segs, inside) if not m]
        if segs or len(p.arcs) != (f == 3):
            bad("lines that do not belong there: %r" % (segs,))
        texts = [t for t in p.texts if t[2]]

        def taket(tx, ty, s):
            for k, t in enumerate(texts):
                if near(t[:2], (tx, ty), 0.011) and (re.fullmatch(s, t[2]) if hasattr(s, "pattern") else t[2] == s):
                    return texts.pop(k)
            return None

        def taket2():
            for j, t in enumerate(texts):
                if t[2].startswith("<>") and 150 < t[0] < 650 and 150 < t[1] < 500:
                    return texts.pop(j)
            return None
        if n and not taket(tx, 8, n):
            bad("the title is not shown at (%g,8)" % tx)
        for _ in range(k):
            if not taket(396 + 72, 306 + 72, "body"):
                bad("a text is gone")
        if f > 1:
            if not taket2():
                bad("the label is gone")
        parts = ([STAMP] if c["stamp"] else []) + (
            [r"page %d of %d" % (i + 1, len(pages))] if c["number"] else [])
        if parts:
            pat = re.compile(" ".join(parts), re.S)
            t = taket(7, 7, pat)
            if not t:
                bad("no header %r at (7,7)" % pat.pattern)
            if c["stamp"]:
                g = [int(v) for v in re.match(STAMP, t[2]).groups()]
                try:
                    w = datetime.datetime(g[0], g[1], g[2], g[3], g[4], g[5])
                except ValueError:
                    bad("the time stamp is no time")
                if abs((w - datetime.datetime.utcnow()).total_seconds()) > 36 * 3600:
                    bad("the time stamp is not the time")
        if texts:
            bad("texts that do not belong there: %r" % (texts,))
    nt = (len(pages) > 1 or any(ch for ch in (c["names"][0] or "") if not ch.isalnum())) and (
        c["stamp"] or c["number"] or any(c["names"]))
    return bool(nt), ["pages:%d" % len(pages), "stamp:%s number:%s" % (c["stamp"], c["number"])]


# --------------------------------------------------------- the command itself
ON = ["--%s", "--%s=true", "--%s=1", "-%s", "--%s=yes"]
OFF = ["--no%s", "--%s=false", "--%s=0", "-no%s", "--%s=no"]


@st.composite
def command_case(d):
    fl = lambda: d(st.one_of(st.none(), st.tuples(st.booleans(), I(0, 4)).map(list)))
    return {"names": d(st.lists(st.one_of(st.none(), st.text("abc(\\", max_size=6)), min_size=1, max_size=3)), "ts": fl(), "np": fl(), "first": d(st.booleans())}


def run_command(c):
    src = "".join("page { %s }\n" % ("" if n is None else "name=%s;" % gen.literal(n)) for n in c["names"])
    args = []
    for k, n in (("ts", "timestamp"), ("np", "number_pages")):
        if c[k] is not None:
            args.append((ON if c[k][0] else OFF)[c[k][1]] % n)
    d = tempfile.mkdtemp(prefix="verif-c11-")
    try:
        with open(d + "/in.script", "w", encoding="latin-1") as fh:
            fh.write(src)
        cli = sut.build.ensure(["cli"])["cli"]
        io = ["--script=in.script", "--output=o.ps"]
        try:
            p = subprocess.run([cli] + (args + io if c["first"] else io + args), cwd=d, env={"TZ": "UTC", "PATH": os.environ["PATH"]}, timeout=60,
                               stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, **sut.unprivileged(cli, d))
        except subprocess.TimeoutExpired:
            raise sut.Inconclusive("timeout")
        if p.returncode != 0:
            raise draw.Violation("%s: exit status %d: %r" % (args, p.returncode, p.stderr[-300:]))
        with open(d + "/o.ps", encoding="latin-1", newline="") as fh:
            pages = draw.pages_of(fh.read())
    finally:
        shutil.rmtree(d, ignore_errors=True)
    if len(pages) != len(c["names"]):
        raise draw.Violation("%d pages for %d page statements" % (len(pages), len(c["names"])))
    on = lambda k: c[k] is None or c[k][0]
    judge(dict(c, stamp=on("ts"), number=on("np")), [(0, 0)] * len(pages), pages)
    return True, ["ts:%s np:%s" % (c["ts"] and c["ts"][0], c["np"] and c["np"][0])]


PARTS = [Part("furniture", case(), run, 4000, 80000), Part("command", command_case(), run_command, 400, 6000)]
TARGETS = ["worker", "cli"]
