"""Client for the end-to-end worker (harness/worker.cc) and the unit server."""
import atexit
import os
import re
import shutil
import struct
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, os.path.join(VERIF, "harness"))
import build  # noqa: E402


class Inconclusive(Exception):
    """Resource limit or tooling trouble; never a violation."""


def _b(x):
    return x if isinstance(x, bytes) else x.encode("latin-1")


NOBODY = 65534
_drop = {}


def unprivileged(binary, *dirs):
    """Popen arguments that run `binary` as an unprivileged user who owns `dirs`: whatever the code under test does to
    files, it reaches nothing but its scratch files.  Nothing, where that is not possible."""
    if os.geteuid() != 0:
        return {}
    kw = {"user": NOBODY, "group": NOBODY, "extra_groups": []}
    if binary not in _drop:
        try:
            ok = subprocess.run(["test", "-x", binary], **kw).returncode == 0
        except (OSError, subprocess.SubprocessError, ValueError):
            ok = False
        _drop[binary] = ok
    if not _drop[binary]:
        return {}
    for d in dirs:
        os.chown(d, NOBODY, NOBODY)
        for root, ds, fs in os.walk(d):
            for n in ds + fs:
                os.chown(os.path.join(root, n), NOBODY, NOBODY, follow_symlinks=False)
    return kw


class ScriptResult:
    __slots__ = ("ret", "out", "err")

    def __init__(self, ret, out, err):
        self.ret, self.out, self.err = ret, out, err

    def __repr__(self):
        return "ScriptResult(ret=%r, out=%d bytes, err=%r)" % (
            self.ret, len(self.out), self.err[:500])


class Response:
    """status: 'exit N' / 'signal N'; results: list of ScriptResult (str, latin-1)."""

    def __init__(self, status, results, err):
        self.status, self.results, self.err = status, results, err

    @property
    def clean(self):
        return self.status == "exit 0"

    @property
    def timed_out(self):
        return self.status in ("signal 24", "signal 9")


class Worker:
    def __init__(self, path=None):
        self.path = path or build.ensure(["worker"])["worker"]
        self.p = None
        self.cwd = tempfile.mkdtemp(prefix="stl2ps-")
        atexit.register(self.close)

    def _start(self):
        env = {"PATH": os.environ.get("PATH", ""), "TZ": "UTC", "LC_ALL": "C"}
        self.p = subprocess.Popen([self.path], stdin=subprocess.PIPE,
                                  stdout=subprocess.PIPE, cwd=self.cwd, env=env,
                                  stderr=subprocess.DEVNULL, **unprivileged(self.path, self.cwd))

    def close(self):
        if self.p:
            try:
                self.p.stdin.close()
                self.p.wait(5)
            except Exception:
                self.p.kill()
            self.p = None
        if self.cwd:
            shutil.rmtree(self.cwd, ignore_errors=True)
            self.cwd = None

    def _rx(self, n):
        out = b""
        while len(out) < n:
            c = self.p.stdout.read(n - len(out))
            if not c:
                raise Inconclusive("worker died")
            out += c
        return out

    def request(self, fields):
        """fields: list of (tag, key, value)."""
        if self.p is None or self.p.poll() is not None:
            self._start()
        flat = [_b(x) for t in fields for x in t]
        msg = struct.pack("<I", len(flat)) + b"".join(
            struct.pack("<I", len(x)) + x for x in flat)
        try:
            self.p.stdin.write(msg)
            self.p.stdin.flush()
            n, = struct.unpack("<I", self._rx(4))
            resp = []
            for _ in range(n):
                l, = struct.unpack("<I", self._rx(4))
                resp.append(self._rx(l))
        except (BrokenPipeError, struct.error, OSError) as e:
            self.p = None
            raise Inconclusive("worker pipe: %r" % (e,))
        status, res, err = resp
        results = []
        off = 0
        while off < len(res):
            k, = struct.unpack_from("<I", res, off)
            off += 4
            rec = []
            for _ in range(k):
                l, = struct.unpack_from("<I", res, off)
                off += 4
                rec.append(res[off:off + l].decode("latin-1"))
                off += l
            results.append(ScriptResult(rec[0] == "1", rec[1], rec[2]))
        return Response(status.decode(), results, err.decode("latin-1"))

    def run(self, script, files=None, flags=None, name="in.script", dirs=()):
        """One script; returns (Response, ScriptResult or None)."""
        base = {"timestamp": "false"}
        base.update(flags or {})
        f = [("flag", k, v) for k, v in base.items()]
        f += [("dir", d, "") for d in dirs]
        f += [("file", k, v) for k, v in (files or {}).items()]
        f.append(("script", name, script))
        r = self.request(f)
        return r, (r.results[0] if r.results else None)


class UnitCrash(Exception):
    pass


class Unit:
    """Client for harness/unit_*.cc."""

    def __init__(self, target):
        self.path = build.ensure([target])[target]
        self.p = None

    def call(self, *fields):
        """-> (stderr, [results]); raises UnitCrash."""
        if self.p is None or self.p.poll() is not None:
            self.p = subprocess.Popen([self.path], stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                                      stderr=subprocess.DEVNULL,
                                      env={"PATH": os.environ.get("PATH", ""), "TZ": "UTC"},
                                      **unprivileged(self.path))
        flat = [_b(x) for x in fields]
        try:
            self.p.stdin.write(struct.pack("<I", len(flat)) + b"".join(
                struct.pack("<I", len(x)) + x for x in flat))
            self.p.stdin.flush()
            n, = struct.unpack("<I", self._rx(4))
            r = []
            for _ in range(n):
                l, = struct.unpack("<I", self._rx(4))
                r.append(self._rx(l).decode("latin-1"))
        except (BrokenPipeError, EOFError):
            rc = self.p.wait()
            self.p = None
            if rc in (-14, -9):
                raise Inconclusive("unit call timed out")
            raise UnitCrash("the call crashed (status %d)" % rc)
        return r[0], r[1:]

    def _rx(self, n):
        out = b""
        while len(out) < n:
            c = self.p.stdout.read(n - len(out))
            if not c:
                raise EOFError
            out += c
        return out


_units = {}


def unit(target):
    if target not in _units:
        _units[target] = Unit(target)
    return _units[target]


_worker = None


def worker():
    global _worker
    if _worker is None:
        _worker = Worker()
    return _worker


def fresh_worker():
    global _worker
    if _worker is not None:
        _worker.close()
        _worker = None
    for u in _units.values():
        if u.p is not None:
            u.p.kill()
            u.p.wait()
            u.p = None
    return worker()


# "file:line: message", optionally preceded by "(source.cc:NN) "
_DIAG = re.compile(r"^(?:\([^()]*:\d+\) )?(?P<file>[^:\n]*):(?P<line>\d+): (?P<msg>.*)$")
_PARSE = re.compile(r"^error (?P<file>[^:\n]*):(?P<line>\d+):(?:\[(?P<bc>\d+),(?P<ec>\d+)\]|(?P<bc2>\d+) to (?P<el>\d+):(?P<ec2>\d+)): (?P<msg>.*)$")


def diagnostics(err):
    """[(line, msg)] for semantic errors."""
    out = []
    for l in err.split("\n"):
        if l.startswith("error ") or re.match(r"^[IWEF] \S+:\d+\] ", l):
            continue
        m = _DIAG.match(l)
        if m:
            out.append((int(m.group("line")), m.group("msg"), m.group("file")))
    return out


def parse_errors(err):
    out = []
    for l in err.split("\n"):
        m = _PARSE.match(l)
        if m:
            out.append((int(m.group("line")), m.group("msg"), m.group("file")))
    return out
