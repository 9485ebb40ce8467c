"""Automatic mutants: mutate.py list > LIST; mutate.py run LIST OUT JOBS SCALE [seed] [max]
Each mutant is run in a copy against every check (most successful first) until one reports it."""
import glob, json, os, random, re, shutil, subprocess, sys, threading, time
from concurrent.futures import ThreadPoolExecutor
R = "/repo/stl-to-ps/"
SKIP = re.compile(r"_test\.cc$|test_main|gen\.")
W = "/tmp/mut/w"
REL = {"stl-to-ps.cc": "C03 C05 C06 C07 C09 C10 C11 C13 C14 C15 C19 C20 C21 C22 C23 C25", "stl.cc": "C02 C09 C12 C14 C16 C17 C18 C22 C27", "ast": "C02 C03 C06 C07 C14 C22 C23",
       "parser": "C01 C02 C03 C04 C06 C07 C09 C24", "lexer": "C01 C02 C03 C04 C06 C07", "ps.": "C02 C03 C08 C09 C10 C11 C15 C26 C28", "stl-to-ps-main": "C01 C05 C06 C10 C11 C13", "center": "C21 C22 C23",
       "geo": "C14 C15 C16 C17 C18 C19 C20 C22 C23", "stl.h": "C16 C17 C18 C22 C27"}


def relevant(f):
    for k in sorted(REL, key=len, reverse=True):
        if f.startswith(k):
            return REL[k].split()
    return ["C%02d" % i for i in range(1, 28)]


def mutants():
    for p in sorted(glob.glob(R + "*.cc") + glob.glob(R + "*.h") + glob.glob(R + "*.y") + glob.glob(R + "*.l")):
        f = os.path.basename(p)
        if SKIP.search(f):
            continue
        L = open(p).read().split("\n")
        inc = False
        for i, l in enumerate(L):
            c = l.split("//")[0]
            if l.lstrip().startswith(("//", "#", "using ", "namespace", "*", "/*", "template", "%", "static_assert")) or not c.strip():
                continue
            seen = set()

            def m(n, why):
                if n != l and n not in seen:
                    seen.add(n)
                    return [(f, i, n, why)]
                return []
            stream = "<<" in c
            for a, bs in ((" < ", [" <= ", " > "]), (" <= ", [" < "]), (" > ", [" >= ", " < "]), (" >= ", [" > "]), (" == ", [" != "]), (" != ", [" == "]),
                          (" + ", [" - "]), (" - ", [" + "]), (" * ", [" / "]), (" / ", [" * "]), (" && ", [" || "]), (" || ", [" && "]),
                          (" += ", [" = ", " -= "]), (" -= ", [" += "]), ("std::max", ["std::min"]), ("std::min", ["std::max"]),
                          ("cos(", ["sin("]), ("sin(", ["cos("]), (".x()", [".y()"]), (".y()", [".x()"]), (".z()", [".y()"]),
                          ("true", ["false"]), ("false", ["true"]), ("continue;", ["break;", ";"]), ("break;", ["continue;"]),
                          ("++", ["--"]), ("begin()", ["rbegin()"]), ("front()", ["back()"]), ("back()", ["front()"]), ("minCoeff", ["maxCoeff"]),
                          ("maxCoeff", ["minCoeff"]), (".max", [".min"]), (".min", [".max"]), ("abs(", ["("]), ("(-", ["("]), (" -", [" "]), ("!", [""]), ("?", ["&& false ?", "|| true ?"])):
                for k in [x.start() for x in re.finditer(re.escape(a), c)]:
                    if a == "!" and c[k:k + 2] == "!=" or a == " -" and c[k:k + 3] in (" - ", " -="):
                        continue
                    for b in bs:
                        yield from m(l[:k] + b + l[k + len(a):], "%s ->%s" % (a, b))
            for x in re.finditer(r"(?<![\w.\"])(\d+\.\d*|\.\d+|\d+)(e-?\d+)?(?![\w\"])", c):
                v = x.group(0)
                for b in ([str(int(v) + 1), str(max(0, int(v) - 1))] if v.isdigit() else ["(%s*1.1)" % v, "(%s*2)" % v, "0.0"]):
                    yield from m(l[:x.start()] + b + l[x.end():], "%s -> %s" % (v, b))
            x = re.match(r"^(\s*)(?:\} else )?if \((.*)\)( \{| .*;)?$", c)
            if x and c.count("(") == c.count(")"):
                k = c.index("if (")
                e = c.rindex(")") if c.rstrip().endswith(("{", ")")) else None
                if e:
                    cond = c[k + 4:e]
                    yield from m(l[:k] + "if ((%s) && false)" % cond + l[e + 1:], "if never")
                    yield from m(l[:k] + "if ((%s) || true)" % cond + l[e + 1:], "if always")
            if c.rstrip().endswith(";") and c.count("(") == c.count(")") and c.count("{") == c.count("}") and i and (L[i - 1].split("//")[0].rstrip().endswith((";", "{", "}", ":", ")")) or not L[i - 1].strip()):
                s = c.strip()
                if not re.match(r"(return|break|continue|const |auto |using |typedef|friend|explicit|case)", s) and not re.match(r"[\w:<>,& *]+ \w+( = .*)?;$", s):
                    yield from m(" ;", "deleted")


def run(spec, out, jobs, scale, seed, lim):
    ms = [json.loads(l) for l in open(spec)]
    random.Random(seed).shuffle(ms)
    ms = ms[:lim]
    done = {l.split("\t")[0] for l in open(out)} if os.path.exists(out) else set()
    log = open(out, "a")
    score = {"C%02d" % i: 0 for i in range(1, 29)}
    byf = {}
    lock = threading.Lock()

    def one(a):
        f, i, n, why = a
        key = "%s:%d:%s" % (f, i + 1, why)
        if key in done:
            return
        D = "%s/%d" % (W, threading.get_ident() % 100000)
        shutil.rmtree(D, ignore_errors=True)
        os.makedirs(D)
        os.chmod(D, 0o755)
        subprocess.run("cp -a /repo %s/repo; mkdir %s/v; cp -a %s/{checks,lib,harness,shim,tools,MANIFEST.json,properties.jsonl,known_findings.txt} %s/v/" % (D, D, os.environ.get("SNAP", "/verif"), D), shell=True, executable="/bin/bash")
        p = D + "/repo/stl-to-ps/" + f
        L = open(p).read().split("\n")
        old, L[i] = L[i], n
        open(p, "w").write("\n".join(L))
        env = dict(os.environ, STL2PS_REPO=D + "/repo", VERIF_SEED="1", VERIF_TIER="quick", VERIF_PROCS="1", VERIF_SHRINK="0", VERIF_CAP="60", PATH="/tmp/brain/bin:" + os.environ["PATH"], CCACHE_DIR="/tmp/mut/cc",
                   CCACHE_BASEDIR=D, CCACHE_NOHASHDIR="1", CCACHE_NODIRECT="1", CCACHE_MAXSIZE="3G", CCACHE_SLOPPINESS="time_macros")
        t, res = time.time(), "SURVIVED"
        order = sorted(relevant(f), key=lambda c: -(score[c] + 5 * byf.get(f, {}).get(c, 0)))
        odd = []
        for c in order:
            r = subprocess.run(["timeout", "-k", "5", "300", "python3", "checks/run.py", c, "--tier", "quick", "--scale", str(scale)], cwd=D + "/v", env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            o = r.stdout.decode("latin-1")
            if r.returncode == 2 and "cannot build" in o:
                res = "NOBUILD"
                break
            if r.returncode == 1 and "VIOLATION property" in o:
                x = [y for y in o.split("\n") if y]
                res = "caught %s %s" % (c, x[-2][:110] if len(x) > 1 else "")
                with lock:
                    score[c] += 1
                    byf.setdefault(f, {}).setdefault(c, 0)
                    byf[f][c] += 1
                break
            if r.returncode:
                odd.append("%s:rc%d" % (c, r.returncode))
        log.write("%s\t%s\t%ds\t%s\t%s  =>  %s\n" % (key, res, time.time() - t, " ".join(odd), old.strip(), n.strip()))
        log.flush()
        shutil.rmtree(D, ignore_errors=True)
    with ThreadPoolExecutor(jobs) as ex:
        list(ex.map(one, ms))
    log.write("DONE\n")
    log.flush()


if sys.argv[1] == "list":
    for x in mutants():
        print(json.dumps(x))
else:
    run(sys.argv[2], sys.argv[3], int(sys.argv[4]), float(sys.argv[5]), int((sys.argv[6:] or [1])[0]), int((sys.argv[7:] or [10 ** 9])[0]))
