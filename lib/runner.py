"""Runs a check: regression replays, then Hypothesis-driven generation in several
processes, shrinking, confirmation in fresh workers, evidence and exit status.

A check module defines
  PROPERTY   id
  RULE       text: how cases are made and when one is non-trivial
  PARTS      list of Part(name, strategy, run, quick, thorough, needs)
     run(case) returns (nontrivial: bool, labels: list[str]) or raises Violation
"""
import argparse
import hashlib
import importlib
import json
import os
import random
import subprocess
import sys
import tempfile
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
sys.path.insert(0, os.path.join(VERIF, "checks"))

import sut  # noqa: E402
from draw import Violation  # noqa: E402

PROCS = int(os.environ.get("VERIF_PROCS", "8"))
SHRINK = float(os.environ.get("VERIF_SHRINK", "60"))     # seconds


class Part:
    def __init__(self, name, strategy, run, quick, thorough, custom=None, needs=None):
        """needs: a unit_* target; the part is left out when the functions it
        calls do not exist in the tree in the shape it expects."""
        self.needs = needs
        self.name, self.strategy, self.run = name, strategy, run
        self.quick, self.thorough, self.custom = quick, thorough, custom


def case_key(part, case):
    return hashlib.sha1((part + json.dumps(case, sort_keys=True)).encode()).hexdigest()[:16]


def clip(o, n=2000):
    s = json.dumps(o)
    return o if len(s) <= n else s[:n] + "...(%d chars)" % len(s)


class Stats:
    def __init__(self):
        self.evals = 0
        self.inconclusive = 0
        self.distinct = set()
        self.labels = {}
        self.samples = []
        self.capped = False

    def dump(self):
        return dict(evals=self.evals, inconclusive=self.inconclusive,
                    distinct=sorted(self.distinct), labels=self.labels,
                    samples=self.samples, capped=self.capped)


def child(mod, tier, idx, seed, outfile, cap):
    import hypothesis
    from hypothesis import HealthCheck, Phase, settings
    t_end = time.time() + cap
    res = {"parts": {}, "fail": None, "error": None}
    for part in mod.PARTS:
        if part.needs and sut.build.ensure([part.needs])[part.needs] is None:
            continue
        n = part.quick if tier == "quick" else part.thorough
        n = (n + PROCS - 1) // PROCS
        st = Stats()
        found = {"case": None, "size": None, "msg": None, "t": None}
        if part.custom:
            if idx == 0 or getattr(part.custom, "parallel", False):
                try:
                    part.custom(tier, seed, idx, st, t_end)
                except Violation as e:
                    found.update(case=getattr(e, "case", None), msg=str(e))
                except sut.Inconclusive:
                    st.inconclusive += 1
        elif n:
            def body(case):
                now = time.time()
                if found["t"] is None and now > t_end:
                    st.capped = True
                    return
                if found["t"] is not None and now > found["t"] + SHRINK:
                    return  # enough shrinking
                shrinking = found["t"] is not None
                if not shrinking:
                    st.evals += 1
                try:
                    nt, labels = checked(part, case)
                except sut.Inconclusive:
                    st.inconclusive += 1
                    return
                except Violation as e:
                    sz = len(json.dumps(case))
                    if found["size"] is None or sz <= found["size"]:
                        found.update(case=case, size=sz, msg=str(e))
                    if found["t"] is None:
                        found["t"] = now
                    raise
                if not shrinking:
                    for l in labels:
                        st.labels[l] = st.labels.get(l, 0) + 1
                    if nt:
                        k = case_key(part.name, case)
                        if k not in st.distinct:
                            st.distinct.add(k)
                            if len(st.samples) < 2:
                                st.samples.append(clip(case))
            hs = int.from_bytes(hashlib.sha256(
                ("%s/%s/%s/%s" % (mod.PROPERTY, part.name, seed, idx)).encode()).digest()[:6], "big")
            f = hypothesis.seed(hs)(settings(
                max_examples=n, database=None, deadline=None, print_blob=False,
                phases=(Phase.generate, Phase.shrink), report_multiple_bugs=False,
                suppress_health_check=list(HealthCheck))(
                    hypothesis.given(part.strategy)(body)))
            try:
                f()
            except Violation:
                pass
            except Exception as e:  # flaky (Hypothesis) or harness error
                if found["case"] is None:
                    res["error"] = "".join(traceback.format_exception(e))[-3000:]
        res["parts"][part.name] = st.dump()
        if found["case"] is not None:
            res["fail"] = {"part": part.name, "case": found["case"], "msg": found["msg"]}
            break
        if res["error"]:
            break
    with open(outfile + ".tmp", "w") as fh:
        json.dump(res, fh)
    os.rename(outfile + ".tmp", outfile)


def checked(part, case):
    """part.run, where a crash of the code, or output the oracle can not make
    sense of, is a violation too."""
    try:
        return part.run(case)
    except sut.UnitCrash as e:
        raise Violation(str(e))
    except (ValueError, ArithmeticError, LookupError, TypeError, AttributeError, AssertionError) as e:
        if isinstance(e, (Violation, sut.Inconclusive)):
            raise
        t = traceback.extract_tb(e.__traceback__)[-1]
        raise Violation("output that makes no sense (%s: %s, at %s:%d)" % (
            type(e).__name__, e, os.path.basename(t.filename), t.lineno))


def part_by_name(mod, name):
    for p in mod.PARTS:
        if p.name == name:
            return p
    raise KeyError(name)


def replay_case(mod, part, case):
    """Returns message if the case violates, None if it holds."""
    sut.fresh_worker()
    p = part_by_name(mod, part)
    if p.needs and sut.build.ensure([p.needs])[p.needs] is None:
        return None
    try:
        checked(p, case)
        return None
    except Violation as e:
        return str(e)
    except sut.Inconclusive:
        return None


def known_findings(prop):
    """Lines 'finding: property=ID case=<file under regress/> <text>'."""
    out = {}
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            if l.startswith("finding: property=%s " % prop):
                w = l.split()
                c = [x[5:] for x in w if x.startswith("case=")]
                if c:
                    out[c[0]] = l[len("finding: "):].strip()
    return out


def main(argv=None):
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay")
    ap.add_argument("--child", type=int)
    ap.add_argument("--out")
    ap.add_argument("--scale", type=float, default=1.0)
    ap.add_argument("--no-evidence", action="store_true")
    a = ap.parse_args(argv)
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    mod = importlib.import_module(a.property.lower())
    if a.scale != 1.0:
        for p in mod.PARTS:
            p.quick, p.thorough = int(p.quick * a.scale), int(p.thorough * a.scale)
    cap = float(os.environ.get("VERIF_CAP", "0")) or (240 if a.tier == "quick" else 720)
    if a.child is not None:
        child(mod, a.tier, a.child, seed, a.out, cap)
        return 0
    t0 = time.time()
    try:
        need = getattr(mod, "TARGETS", ["worker"])
        sut.build.ensure(need)
    except sut.build.BuildError as e:
        sys.stderr.write("cannot build the code under test:\n%s\n" % e)
        return 2
    if a.replay:
        with open(a.replay) as fh:
            d = json.load(fh)
        m = replay_case(mod, d["part"], d["case"])
        if m is None:
            print("holds")
            return 0
        print(m)
        print("VIOLATION property=%s replay=%s" % (mod.PROPERTY, os.path.abspath(a.replay)))
        return 1

    violations = []     # (replay path, message)
    # 1. regressions
    rdir = os.path.join(VERIF, "regress", mod.PROPERTY)
    known = known_findings(mod.PROPERTY)
    nreg = 0
    if os.path.isdir(rdir):
        for fn in sorted(os.listdir(rdir)):
            if not fn.endswith(".json"):
                continue
            path = os.path.join(rdir, fn)
            with open(path) as fh:
                d = json.load(fh)
            nreg += 1
            m = replay_case(mod, d["part"], d["case"])
            rel = "regress/%s/%s" % (mod.PROPERTY, fn)
            if m is None:
                continue
            if rel in known:
                print("KNOWN-FINDING: %s" % known[rel])
                continue
            if all(replay_case(mod, d["part"], d["case"]) for _ in range(2)):
                violations.append((path, m))
    sut.fresh_worker().close()
    sut._worker = None

    # 2. search
    merged, fails, errors = {}, [], []
    if not violations:
        tmp = tempfile.mkdtemp(prefix="verif-")
        procs = []
        env = dict(os.environ, PYTHONHASHSEED="0", OMP_NUM_THREADS="1",
                   OPENBLAS_NUM_THREADS="1", VERIF_SEED=str(seed))
        for i in range(PROCS):
            out = os.path.join(tmp, "r%d.json" % i)
            procs.append((subprocess.Popen(
                [sys.executable, os.path.join(VERIF, "checks", "run.py"), a.property, "--tier", a.tier,
                 "--child", str(i), "--out", out, "--scale", str(a.scale)],
                env=env, stderr=subprocess.PIPE, stdout=subprocess.DEVNULL), out))
        for p, out in procs:
            _, err = p.communicate()
            if os.path.exists(out):
                with open(out) as fh:
                    r = json.load(fh)
                if r["error"]:
                    errors.append(r["error"])
                if r["fail"]:
                    fails.append(r["fail"])
                for name, s in r["parts"].items():
                    m = merged.setdefault(name, dict(evals=0, inconclusive=0, distinct=set(),
                                                     labels={}, samples=[], capped=False))
                    m["evals"] += s["evals"]
                    m["inconclusive"] += s["inconclusive"]
                    m["distinct"] |= set(s["distinct"])
                    m["samples"] += s["samples"]
                    m["capped"] |= s["capped"]
                    for k, v in s["labels"].items():
                        m["labels"][k] = m["labels"].get(k, 0) + v
            else:
                errors.append("child died: " + err.decode(errors="replace")[-2000:])
        import shutil
        shutil.rmtree(tmp, ignore_errors=True)
        fails.sort(key=lambda f: len(json.dumps(f["case"])))
        for f in fails:
            ok = part_by_name(mod, f["part"]).run is None or \
                all(replay_case(mod, f["part"], f["case"]) for _ in range(3))
            if not ok:
                sys.stderr.write("not counted, it did not reproduce in a fresh worker: %s %s\n" % (
                    f["msg"], json.dumps(f["case"])[:2000]))
                continue
            d = os.path.join(VERIF, "replays", mod.PROPERTY)
            os.makedirs(d, exist_ok=True)
            path = os.path.join(d, "%s-%s.json" % (f["part"], case_key(f["part"], f["case"])))
            with open(path, "w") as fh:
                json.dump({"property": mod.PROPERTY, "part": f["part"], "case": f["case"],
                           "message": f["msg"]}, fh, indent=1)
            violations.append((path, f["msg"]))
            break

    # 3. evidence
    cov = {
        "evaluations": sum(m["evals"] for m in merged.values()),
        "distinct_nontrivial": sum(len(m["distinct"]) for m in merged.values()),
        "rule": mod.RULE,
        "samples": [{"part": n, "case": c} for n, m in merged.items() for c in m["samples"][:3]] or
                   [{"note": "regression replays only"}],
        "regressions_replayed": nreg,
        "parts_left_out": [p.name for p in mod.PARTS if p.needs and p.name not in merged],
        "parts": {n: {"evaluations": m["evals"], "distinct_nontrivial": len(m["distinct"]),
                      "inconclusive": m["inconclusive"], "time_cap_hit": m["capped"],
                      "classes": dict(sorted(m["labels"].items(), key=lambda kv: -kv[1])[:40])}
                  for n, m in merged.items()},
    }
    ev = {"property": mod.PROPERTY, "tier": a.tier if a.tier in ("quick", "thorough") else "quick",
          "seed": seed, "level": "exploration", "coverage": cov,
          "assumptions": getattr(mod, "ASSUMPTIONS", []),
          "wall_s": round(time.time() - t0, 2), "violations": len(violations)}
    if not a.no_evidence:
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", mod.PROPERTY + ".json"), "w") as fh:
            json.dump(ev, fh, indent=1)
    for n, m in cov["parts"].items():
        print("%s/%s: %d cases, %d distinct non-trivial, %d inconclusive%s" % (
            mod.PROPERTY, n, m["evaluations"], m["distinct_nontrivial"], m["inconclusive"],
            " (time cap)" if m["time_cap_hit"] else ""))
        if os.environ.get("VERIF_LABELS"):
            print("   ", m["classes"])
    if violations:
        for p, m in violations:
            print(m)
            print("VIOLATION property=%s replay=%s" % (mod.PROPERTY, p))
        return 1
    if errors:
        sys.stderr.write("\n".join(errors) + "\n")
        return 2
    print("%s held (%.1fs)" % (mod.PROPERTY, time.time() - t0))
    return 0
