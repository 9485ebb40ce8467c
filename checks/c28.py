"""C28: the document says what it was made from, and has one pen and one font."""
import os
import re
import shutil
import subprocess
import tempfile

from hypothesis import strategies as st

import c08
import c11
import draw
import gen
import psi
import sut
from runner import Part

PROPERTY = "C28"
TECHNIQUE = "property-based testing: random documents, --name values and script names, output run through a PostScript interpreter that records line widths and fonts, comments compared with what was given"
NOTE = "Comments agree character by character, widths and fonts exactly, for every generated document; the time is only checked to be a current date and time."
RULE = ("random valid documents of up to 6 pages under random --name and script file names over all bytes, and runs of the command itself on "
        "scripts in various directories. Non-trivial: at least two pages with lines and text, or a name that is not plain.")
I = st.integers
BLANK = str.maketrans("\n\r\f", "   ")


def comments(out):
    """The comment lines before anything else."""
    res = []
    for l in re.split(r"[\n\r\f]", out):
        if not l.strip():
            continue
        if not l.startswith("%"):
            break
        res.append(l)
    return res


def field(lines, key):
    """What the comments say after `key:`; its first mention counts."""
    for l in lines:
        m = re.match(r"%+ *" + key + r": ?(.*)", l, re.S)
        if m:
            return m[1]
    raise draw.Violation("no comment gives the %s: %r" % (key, lines))


def header(out, name, source):
    L = comments(out)
    for key, want in (("Name", name), ("Source", source)):
        got = field(L, key)
        if got != want.translate(BLANK):
            raise draw.Violation("the comments give %r as %s, should give %r" % (got, key, want))
    t = field(L, "Time")
    if not re.fullmatch(c11.STAMP, t):
        raise draw.Violation("the comments give %r as Time" % t)


def pens(out):
    pages, _ = psi.interpret(out)
    for i, p in enumerate(pages):
        if p.pens - {0.1}:
            raise draw.Violation("page %d has lines of widths %s" % (i + 1, sorted(p.pens)))
        if p.fonts - {("Courier", 8.0)}:
            raise draw.Violation("page %d has text in %s" % (i + 1, sorted(p.fonts)))
    return pages


def run(c):
    doc = c["doc"]
    r, x = sut.worker().run(gen.plain(gen.doc_tokens(doc)), gen.files_of(doc), c["flags"], name=c["script_name"])
    draw.must(r, x)
    header(x.out, c["flags"]["name"], c["script_name"])
    p = pens(x.out)
    odd = any(not k.isalnum() for k in c["flags"]["name"])
    return odd or sum(bool(q.fonts) and len(q.segs) > 6 for q in p) > 1, ["odd name" if odd else "plain name", "pages:%d" % len(p)]


# --------------------------------------------------------- the command itself
WHERE = ["in.script", "./in.script", "a/in.script", "a/../in.script", "a/b c/in.script", "CWD/in.script", "-x.script", "in%20.script", "$0.script", "a//in.script"]
argtext = st.text(st.one_of(st.sampled_from(list("\n\r\f()\\%$01 =,")), st.characters(min_codepoint=33, max_codepoint=126)), max_size=20)


@st.composite
def command_case(d):
    return {"where": d(st.sampled_from(WHERE)), "name": d(st.one_of(st.none(), argtext)), "pages": d(I(0, 3))}


def run_command(c):
    d = tempfile.mkdtemp(prefix="verif-c28-")
    try:
        os.makedirs(d + "/a/b c")
        f = c["where"].replace("CWD", d)
        with open(os.path.join(d, f), "w") as fh:
            fh.write("page { text [\"x\"] {} }\n" * c["pages"])
        cli = sut.build.ensure(["cli"])["cli"]
        a = [cli, "--script=" + f, "--output=o.ps"] + ([] if c["name"] is None else ["--name=" + c["name"]])
        try:
            p = subprocess.run(a, cwd=d, env={"TZ": "UTC", "PATH": os.environ["PATH"]}, timeout=60,
                               stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, **sut.unprivileged(cli, d))
        except subprocess.TimeoutExpired:
            raise sut.Inconclusive("timeout")
        if p.returncode != 0:
            raise draw.Violation("%s: exit status %d: %r" % (a[1:], p.returncode, p.stderr[-300:]))
        with open(d + "/o.ps", encoding="latin-1", newline="") as fh:
            out = fh.read()
    finally:
        shutil.rmtree(d, ignore_errors=True)
    header(out, c["name"] or "", f)
    pens(out)
    return True, [c["where"]]


PARTS = [Part("documents", c08.case(), run, 2500, 60000), Part("command", command_case(), run_command, 300, 5000)]
TARGETS = ["worker", "cli"]
