"""C11, C12: every program of the corpus is built by go and by xgo and run;
what it prints and the positions it observes are compared."""
import subprocess, json, os, re, shutil
from concurrent.futures import ThreadPoolExecutor
import corpus, layouts, vp
from checks import rt

ERR = re.compile(r'(?m)^(?:\S*/)?(\w+)/(\w+\.go):(\d+)(?::\d+)?: (.*)')
MOD = "verifc"


class Built:
    pass


def gomod(d, name, rep=None):
    vp.write_gomod(d, name, extra_replace=dict({"verif.local/vo": os.path.join(vp.VERIF, "e2e/corpus/vo")}, **(rep or {})), gover="1.24")


def generate(d, cases, dep, skip=()):
    """dep: the cases live in a dependency of the main module."""
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    lay = [x for x in layouts.write(d) if not any(x[1].startswith(k) for k in skip)]
    where = corpus.write(d, cases, more=[p for p, _ in lay])
    for p, k in lay:
        where[(p, "lay.go")] = [(1, 1 << 30, k)]
    gomod(d, MOD)
    if not dep:
        return where, d
    m = d + "-main"
    shutil.rmtree(m, ignore_errors=True)
    os.makedirs(m)
    os.rename(os.path.join(d, "main.go"), os.path.join(m, "main.go"))
    os.rename(os.path.join(d, "endmain"), os.path.join(m, "endmain"))
    gomod(m, "verifm", {MOD: d})
    return where, m


def compile_errors(out, where):
    bad = {}
    for m in ERR.finditer(out):
        for a, b, k in where.get((m.group(1), m.group(2)), ()):
            if a <= int(m.group(3)) <= b:
                bad.setdefault(k, "%s/%s:%s: %s" % m.groups())
    return bad


def build(x, cases, flags, dep, tag):
    """Builds the corpus with go and with xgo; returns None if xgo cannot build it."""
    r = Built()
    r.compile = {}
    gof = [f for f in flags if not f.startswith("--")]
    # go build -cover itself cannot compile files with a byte order mark
    skip = ["layout/bom"] if "-cover" in flags else []
    for n in range(4):
        d = os.path.join(vp.scratch(), "corp" + tag)
        r.where, r.cwd = generate(d, cases, dep, skip)
        r.go, r.xgo = os.path.join(vp.scratch(), "go-%s.bin" % tag), os.path.join(vp.scratch(), "xgo-%s.bin" % tag)
        with ThreadPoolExecutor(2) as ex:
            f = ex.submit(vp.run, ["go", "build"] + gof + ["-o", r.go, "./"], cwd=r.cwd)
            rc, r.out = x.cmd("build", list(flags) + ["-gcflags=%s/...=-e" % MOD, "-o", r.xgo, "./"], cwd=r.cwd, check=False)
            f.result()
        r.cases, r.dir = cases, d
        r.goend, r.xgoend = r.go + "-end", r.xgo + "-end"
        if rc == 0:
            vp.run(["go", "build"] + gof + ["-o", r.goend, "./endmain"], cwd=r.cwd)
            rc, r.out = x.cmd("build", list(flags) + ["-o", r.xgoend, "./endmain"], cwd=r.cwd, check=False)
        if rc == 0:
            return r
        bad = compile_errors(r.out, r.where)
        if not bad or n == 3:
            break
        r.compile.update(bad)
        cases = [c for c in cases if c[0] not in bad]
        skip += [k for k in bad if k.startswith("layout/")]
    r.xgo = None
    return r


def results(binary, cwd, tag):
    out = os.path.join(vp.scratch(), "out-%s.jsonl" % tag)
    rc, o = vp.run([binary, out], cwd=cwd, check=False)
    r = {}
    if os.path.exists(out):
        for ln in open(out):
            try:
                j = json.loads(ln)
                r[j["Key"]] = j
            except ValueError:
                pass
    return rc, o, r


FRAME = re.compile(r'(?m)^(\S*\b%s/\S*?|main\.\w+)\([^\n]*\)\n\t(\S+?):(\d+)' % MOD)


def norm_end(rc, o, cwd):
    """the ending of a process: exit status, text, frames of its own code"""
    o = re.sub(r'(?m)^(WARNING: .*xgo.*|note: this message can be.*)\n', "", o)
    head = re.split(r'(?m)^goroutine \d+|^runtime stack:|^runtime: goroutine stack', o)[0]
    head = re.sub(r'0x[0-9a-f]+', "0x", head)
    frames = ["%s %s:%s" % (re.sub(r'\.func\d+', ".func", f), os.path.relpath(p, os.path.dirname(cwd)), ln)
              for f, p, ln in FRAME.findall(o)]
    return (rc, head), frames[:12]


def endings(r):
    def one(args):
        b, e = args
        rc, o = vp.run([b, e], cwd=r.dir, check=False, quiet=True, timeout=300)
        return norm_end(rc, o, r.dir)
    es = layouts.ends()
    with ThreadPoolExecutor(8) as ex:
        got = list(ex.map(one, [(b, e) for e in es for b in (r.goend, r.xgoend)]))
    return [(es[i // 2], got[i], got[i + 1]) for i in range(0, len(got), 2)]


def norm_test(o):
    lines = []
    for ln in o.split("\n"):
        ln = re.sub(r'\(?(cached|\d+\.\d+s)\)?', "T", ln)
        ln = re.sub(r'\s+', " ", ln).strip()
        if ln and not ln.startswith(("goroutine ", "[", "exit status", "panic({", "created by")):
            lines.append(ln)
    return lines


def tests(x, r, flags, sub=("-v",)):
    """go test and xgo test of the same failing tests"""
    pats = ["Test[A-Y]|Ex|Fuzz", "TestZDies"]
    out = []
    for p in pats:
        a = list(sub) + ["-vet=off", "-count=1", "-p=1", "-parallel=1", "-run", p, "./tt/..."]
        # what the tests print arrives on stdout, the notes of the tools on stderr
        nul = subprocess.DEVNULL
        rc1, o1 = vp.run(["go", "test"] + [f for f in flags if not f.startswith("--")] + a, cwd=r.dir, check=False, stderr=nul)
        rc2, o2 = x.cmd("test", list(flags) + a, cwd=r.dir, check=False, stderr=nul)
        if p == "TestZDies":
            o1, o2 = [("".join("%s %s:%s\n" % f for f in FRAME.findall(o)) + re.split(r"(?m)^goroutine ", o)[0]) for o in (o1, o2)]
        out.append((p, (rc1, norm_test(o1)), (rc2, norm_test(o2))))
    return out


def compare(x, cases, flags, dep, tag, pid, viol, cov):
    what = "xgo build %s%s" % (" ".join(flags), " (as a dependency)" if dep else "")
    r = build(x, cases, flags, dep, tag)
    if pid == "C11":
        for k, e in r.compile.items():
            viol.append({"key": k, "what": "%s: does not compile, but go compiles it: %s" % (k, e), "program": next((c for c in cases if c[0] == k), None)})
    if not r.xgo:
        if not r.compile or pid != "C11":
            viol.append({"key": "build-failed", "what": "%s failed where go build succeeds\n%s" % (what, r.out[-3000:])})
        return
    with ThreadPoolExecutor(2) as ex:
        fg, fx = ex.submit(results, r.go, r.dir, "g" + tag), ex.submit(results, r.xgo, r.dir, "x" + tag)
        (grc, go, g), (xrc, xo, xr) = fg.result(), fx.result()
    if grc != 0:
        raise vp.CheckError("the corpus fails when built by go: " + go[-2000:])
    if xrc != 0 and pid == "C11":
        viol.append({"key": "program-died", "what": "%s: the program died (%d) in the case after %s\n%s" % (what, xrc, (list(xr) or ["start"])[-1], xo[:2000])})
    byk = {c[0]: c for c in r.cases}
    for k, e in g.items():
        cov["programs"] += 1
        a = xr.get(k)
        if a is None:
            if xrc == 0:
                viol.append({"key": k, "what": k + ": not run"})
            continue
        cov["steps"] += len(e["Out"] or []) + len(e["Pos"] or [])
        f = "Out" if pid == "C11" else "Pos"
        if len(cov["samples"]) < 6 and cov["programs"] % 7919 == 1:
            cov["samples"].append({"key": k, "go": e[f], "xgo": a[f]})
        if pid == "C12" and e["Out"] != a["Out"]:
            continue
        if e[f] != a[f]:
            viol.append({"key": k, "what": "%s: %s of %s with %s differ: go %s, xgo %s" % (k, "output" if f == "Out" else "positions", k, what, e[f], a[f]), "program": byk.get(k)})
    for e, ge, xe in endings(r):
        cov["programs"] += 1
        i = 0 if pid == "C11" else 1
        if pid == "C12" and ge[0] != xe[0]:
            continue
        if ge[i] != xe[i]:
            viol.append({"key": "end/" + e, "what": "end/%s with %s differs: go %s, xgo %s" % (e, what, ge[i], xe[i])})
    if not dep:
        for p, a, b in tests(x, r, flags):
            cov["programs"] += 1
            if (pid == "C12" and a[1] != b[1]) or (pid == "C11" and a[0] != b[0]):
                viol.append({"key": "test/" + p, "what": "test/%s with %s: go test %s\nxgo test %s" % (p, what, diff(a, b), diff(b, a))})


def diff(a, b):
    """the lines of a that b does not have"""
    return "rc=%d only: %s" % (a[0], [ln for ln in a[1] if ln not in b[1]][:12])


def check(pid):
    quick = vp.TIER == "quick"
    cases = corpus.build(False)
    viol, cov = [], {"programs": 0, "steps": 0, "samples": []}
    variants = [((), False)] if quick else [((), False), (("--trap-all",), False), (("--strace",), False), (("--trap-all",), True), (("-race",), False), (("-cover",), False), (("-trimpath",), True)]
    if quick and pid == "C11":
        variants = [(("--trap-all",), False)]
    try:
        x = rt.make_xgo()
    except rt.BuildFailed as e:
        return rt.fail_build(pid, e)
    for i, (fl, dep) in enumerate(variants):
        compare(x, cases, fl, dep, str(i), pid, viol, cov)
    c = {"states": len(cases) + len(layouts.LAYOUTS) * len(layouts.BODIES), "transitions": cov["steps"], "traces_validated_against_impl": cov["programs"],
         "samples": cov["samples"], "variants": [" ".join(f) + (" dependency" if d else "") for f, d in variants]}
    return vp.finish(pid, "model_checking", c, viol, exhaustive=True,
                     assumptions=["output that depends on the unspecified order of evaluation of a variable and a call in one expression is not compared"])


# ---------------------------------------------------------------- C32

def profile(binary, cwd, tag):
    """runs the corpus with coverage; the counters of every block of its code"""
    cov = os.path.join(vp.scratch(), "cov-" + tag)
    os.makedirs(cov)
    rc, o = vp.run([binary, os.path.join(vp.scratch(), "out-%s.jsonl" % tag)], cwd=cwd, check=False, env=vp.go_env(GOCOVERDIR=cov))
    txt = cov + ".txt"
    vp.run(["go", "tool", "covdata", "textfmt", "-i=" + cov, "-o=" + txt], cwd=cwd)
    return rc, o, parse_profile(txt)


def parse_profile(txt):
    mode, r = "", {}
    if not os.path.exists(txt):
        return mode, r
    for ln in open(txt):
        if ln.startswith("mode:"):
            mode = ln.strip()
            continue
        b, _, c = ln.rstrip("\n").rpartition(" ")
        r.setdefault(b, []).append(int(c))
    return mode, r


def blocks_differ(g, x, where, what, viol, racy=()):
    n = 0
    if g[0] != x[0]:
        viol.append({"key": "mode", "what": "%s: go writes %r, xgo writes %r" % (what, g[0], x[0])})
    for b in list(g[1]) + [b for b in x[1] if b not in g[1]]:
        n += 1
        if g[1].get(b) == x[1].get(b):
            continue
        m = re.match(r'%s/(\w+)/(\w+\.\w+):(\d+)' % MOD, b)
        key = b
        if m:
            for a, e, k in where.get((m.group(1), m.group(2)), ()):
                if a <= int(m.group(3)) <= e:
                    key = k
        if key in racy:
            continue
        viol.append({"key": "cover/" + key, "what": "cover/%s with %s: block %s (statements) has counts %s with go and %s with xgo" % (key, what, b, g[1].get(b), x[1].get(b))})
    return n


def cover(pid):
    quick = vp.TIER == "quick"
    cases = corpus.build(False)
    if quick:
        cases = [c for i, c in enumerate(cases) if i % 4 == 0 or c[1] in ("misc", "func")]
    viol, n, progs = [], 0, 0
    try:
        x = rt.make_xgo(tools=True)
    except rt.BuildFailed as e:
        return rt.fail_build(pid, e)
    for mode in ["count"] if quick else ["count", "set", "atomic"]:
        fl = ["-cover", "-covermode=" + mode, "-coverpkg=%s/..." % MOD]
        r = build(x, cases, fl, False, "cov" + mode)
        if not r.xgo:
            viol.append({"key": "build-failed", "what": "xgo build %s failed where go build succeeds\n%s" % (" ".join(fl), r.out[-3000:])})
            break
        with ThreadPoolExecutor(2) as ex:
            fg, fx = ex.submit(profile, r.go, r.dir, "g" + mode), ex.submit(profile, r.xgo, r.dir, "x" + mode)
            (grc, go, g), (xrc, xo, xp) = fg.result(), fx.result()
        if grc != 0 or not g[1]:
            raise vp.CheckError("the corpus fails when built by go: " + go[-2000:])
        if xrc != 0:
            viol.append({"key": "program-died", "what": "xgo build %s: the program died (%d)\n%s" % (" ".join(fl), xrc, xo[:2000])})
        progs += len(r.cases)
        n += blocks_differ(g, xp, r.where, "xgo build " + " ".join(fl), viol)
        if mode != "count":
            continue
        for m2 in ("set", "count", "atomic"):
            for pkgs in ([], ["-coverpkg=./tt/..."], ["-coverpkg=./..."], ["-coverpkg=./tt,./ends"]):
                if pkgs == ["-coverpkg=./..."] and quick:
                    continue
                outs = []
                for w in ("go", "xgo"):
                    f = os.path.join(vp.scratch(), "test-%s.out" % w)
                    if os.path.exists(f):
                        os.unlink(f)
                    a = ["-vet=off", "-count=1", "-p=1", "-run", "Test[A-Y]", "-covermode=" + m2, "-coverprofile=" + f] + pkgs + ["./tt/..."]
                    rc, o = vp.run(["go", "test"] + a, cwd=r.dir, check=False) if w == "go" else x.cmd("test", a, cwd=r.dir, check=False)
                    pct = re.findall(r'(?m)^coverage: .*|^\s*verifc/\S+\s+coverage: .*', o)
                    outs.append((rc, [re.sub(r'\s+', " ", p) for p in pct], parse_profile(f)))
                what = "xgo test -covermode=%s %s" % (m2, " ".join(pkgs))
                progs += 1
                n += blocks_differ(outs[0][2], outs[1][2], r.where, what, viol)
                if outs[0][:2] != outs[1][:2]:
                    viol.append({"key": "test-cover", "what": "%s reports %s, go test %s" % (what, outs[1][:2], outs[0][:2])})
    c = {"states": n, "transitions": n, "traces_validated_against_impl": progs, "samples": [{"block": b, "counts": cnt} for b, cnt in list(g[1].items())[:4]]}
    return vp.finish(pid, "model_checking", c, viol, exhaustive=True)
