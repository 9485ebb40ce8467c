"""C05: all or nothing, and the exit status tells."""
import os
import re
import resource
import shutil
import subprocess
import tempfile

from hypothesis import strategies as st

import c10
import draw
import gen
import sut
from runner import Part

PROPERTY = "C05"
TARGETS = ["worker", "cli"]
TECHNIQUE = "property-based fault injection: the command run on random scripts with random output faults (LD_PRELOAD shim, size limits, no space at all), against the output of an undisturbed library run"
NOTE = "Exit status, output file and messages checked on every generated run; faults are short, interrupted and failing writes at any byte, failing close, size limits, unopenable outputs and outputs that take no byte."
RULE = ("random documents, half of them broken; the output file is new, or holds old content, or cannot be opened, or "
        "writing it fails at a random byte, is short or interrupted, or closing it fails. Non-trivial: the script is "
        "good and a fault or old content is there, or the script or model is bad.")
I = st.integers
STAMP = re.compile(rb"\d{4}-\d\d-\d\d \d\d:\d\d:\d\d")
mask = lambda b: STAMP.sub(b"<time>", b)


@st.composite
def case(d):
    doc = d(gen.document(max_pages=3, max_items=2, max_dims=2, max_models=1))
    if d(I(0, 3)) == 0:  # more than one buffer of output
        doc["pages"] = doc["pages"] * 12
    return {"e": {"doc": doc, "break": d(st.one_of(st.none(), st.none(), st.tuples(I(0, 3), I(0, 10 ** 4)).map(list)))},
            "old": d(st.sampled_from([None, None, 0, 10, 100000])),
            "fault": d(st.sampled_from(["", "", "short", "fail", "fail", "once", "eintr", "close", "limit", "limit", "full",
                                        "nodir", "isdir", "noscript", "scriptdir", "nomodel", "noopt", "noout", "noargs",
                                        "badflag"])),
            "at": d(I(0, 10 ** 6)), "k": d(st.sampled_from([1, 2, 7, 100, 4096, 8192])),
            "errno": d(st.sampled_from([5, 28, 27, 122])),
            "stamp": d(st.booleans())}


def run(c):
    src = c10.source(c["e"], 0)
    files = gen.files_of(c["e"]["doc"])
    flags = {"timestamp": str(c["stamp"]).lower()}
    f = c["fault"]
    if f == "nomodel":
        files.pop(sorted(files)[0])
    r, x = sut.worker().run(src, files, flags)
    draw.crashed(r)
    good, full = x.ret, mask(x.out.encode("latin-1"))
    size = len(x.out)
    cut = c["at"] % (size + 50) if size else c["at"] % 2000
    d = tempfile.mkdtemp(prefix="c05-")
    try:
        with open(d + "/in.script", "wb") as fh:
            fh.write(src.encode("latin-1"))
        for k, v in files.items():
            with open(d + "/" + k, "w") as fh:
                fh.write(v)
        out = d + "/o.ps"
        if c["old"] is not None:
            with open(out, "wb") as fh:
                fh.write(b"old " * (c["old"] // 4))
        script = "in.script"
        env = {"PATH": os.environ["PATH"], "TZ": "UTC"}
        fio = {}
        pre = None
        must_fail = False
        if f == "short":
            fio = {"FAULTIO_MAX": c["k"]}
        elif f in ("fail", "once"):
            fio = {"FAULTIO_AT": cut, "FAULTIO_ERRNO": c["errno"], "FAULTIO_ONCE": int(f == "once")}
        elif f == "eintr":
            fio = {"FAULTIO_EINTR": c["k"] % 5 + 1, "FAULTIO_MAX": c["k"] * 10}
        elif f == "close":
            fio = {"FAULTIO_CLOSE": c["errno"], "FAULTIO_MARK": d + "/closed"}
        elif f == "limit":
            def pre():
                import signal
                signal.signal(signal.SIGXFSZ, signal.SIG_IGN if c["k"] % 2 else signal.SIG_DFL)
                resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
                resource.setrlimit(resource.RLIMIT_FSIZE, (cut, cut))
        elif f == "full":
            # a full disk, without naming a system path: code under test may delete or replace its output file
            def pre():
                import signal
                signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
                resource.setrlimit(resource.RLIMIT_FSIZE, (0, 0))
        elif f == "nodir":
            out, must_fail = d + "/none/o.ps", True
        elif f == "isdir":
            os.mkdir(d + "/dir")
            out, must_fail = d + "/dir", True
        elif f == "noscript":
            script, must_fail = "other.script", True
        elif f == "scriptdir":
            os.mkdir(d + "/sdir")
            script = "sdir"
        args = ["--script=" + script, "--output=" + out, "--timestamp=" + flags["timestamp"]]
        if f in ("noopt", "noout", "noargs", "badflag"):
            must_fail = True
            if f == "badflag":
                args.append("--no_such_flag=1")
            else:
                args = {"noopt": args[1:], "noout": args[:1] + args[2:], "noargs": []}[f]
        if fio:
            env.update({k: str(v) for k, v in fio.items()})
            env.update(LD_PRELOAD=sut.build.preload(), FAULTIO_PATH=out)
        cli = sut.build.ensure(["cli"])["cli"]
        p = subprocess.run([cli] + args, cwd=d, env=env, timeout=60, preexec_fn=pre,
                           stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, **sut.unprivileged(cli, d))
        err = p.stderr.decode("latin-1")
        what = "exit status %d, %s, script is %s" % (p.returncode, f or "no fault", "good" if good else "bad")
        data = None
        if os.path.isfile(out):
            with open(out, "rb") as fh:
                data = fh.read()
        untouched = data == (b"old " * (c["old"] // 4) if c["old"] is not None else None)
        complete = good and data is not None and mask(data) == full
        if f == "scriptdir":  # an unreadable script: an error or, read as empty, no pages
            if p.returncode == 0 and b"showpage" in (data or b""):
                raise draw.Violation("a directory as script gives pages")
            return True, ["fault:" + f]
        if must_fail:
            if p.returncode == 0:
                raise draw.Violation("%s: succeeds" % what)
            if data and not untouched:
                raise draw.Violation("%s: leaves output" % what)
            return True, ["fault:" + f]
        if (p.returncode == 0) != complete and not (f == "close" and p.returncode != 0):
            raise draw.Violation("%s: the output file %s (%s of %d bytes)\n%s" % (
                what, "is complete" if complete else "is not complete", len(data) if data is not None else "none", size,
                err[:300]))
        # (the shim only sees the ways of closing it interposes)
        if f == "close" and good and p.returncode == 0 and os.path.exists(d + "/closed"):
            raise draw.Violation("%s: closing the output failed" % what)
        if not good:
            if data and not untouched:
                raise draw.Violation("%s: an erroneous script leaves %d bytes of output" % (what, len(data)))
            if not sut.diagnostics(err) and not sut.parse_errors(err):
                raise draw.Violation("%s: no message" % what)
        if not f and good and p.returncode != 0:
            raise draw.Violation("%s: fails" % what)
        if f in ("short", "eintr") and good and not complete and p.returncode == 0:
            raise draw.Violation("%s: incomplete" % what)
        return (not good) or bool(f) or c["old"] is not None, [
            "fault:" + (f or "none"), "good" if good else "bad", "exit %s" % ("0" if p.returncode == 0 else "non-zero")]
    except subprocess.TimeoutExpired:
        raise sut.Inconclusive("time out")
    finally:
        shutil.rmtree(d, ignore_errors=True)


PARTS = [Part("command", case(), run, 2500, 40000)]
