"""Shared machinery of the checks: scratch space, offline builds of xgo, the
instrumented GOROOT, result handling.  Every check builds what it runs from
/repo's working tree; nothing is reused between runs unless its key is a hash
of every input (developer convenience, VP_CACHE=1 only)."""
import atexit, filecmp, glob, hashlib, json, os, shutil, signal, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VP_REPO", "/repo")
GOBIN = "/opt/veriftools/go1.27.3/bin"
TIER = os.environ.get("VERIF_TIER", "quick")
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
NCPU = os.cpu_count() or 8
T0 = time.time()
MOD = "github.com/xhd2015/xgo"


class CheckError(Exception):
    """The check itself could not run (exit 2)."""


class SetupFailed(Exception):
    """xgo built but its setup does not work (a violation, not an error)."""


def log(*a):
    print("[%6.1fs]" % (time.time() - T0), *a, file=sys.stderr, flush=True)


_scratch = None


def scratch():
    global _scratch
    if _scratch is None:
        _scratch = tempfile.mkdtemp(prefix="vp-", dir="/tmp")
        atexit.register(cleanup)
        for s in (signal.SIGTERM, signal.SIGINT, signal.SIGHUP):
            signal.signal(s, lambda *_: sys.exit(3))
    return _scratch


def cleanup():
    global _scratch
    if _scratch and os.environ.get("VP_KEEP") != "1":
        subprocess.run(["chmod", "-R", "u+w", _scratch], stderr=subprocess.DEVNULL)
        shutil.rmtree(_scratch, ignore_errors=True)
    elif _scratch:
        log("kept", _scratch)
    for d in _extra_cleanup:
        shutil.rmtree(d, ignore_errors=True)
    _scratch = None


_extra_cleanup = []


def go_env(**extra):
    e = dict(os.environ)
    for k in ("GOROOT", "GOWORK", "GOFLAGS", "XGO_FLAGS"):
        e.pop(k, None)
    e.update(PATH=GOBIN + ":/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin",
             GOTOOLCHAIN="local", GOPROXY="off", GOFLAGS="", GOSUMDB="off",
             GOCACHE=os.environ.get("GOCACHE") or "/root/.cache/go-build",
             GOMODCACHE="/root/go/pkg/mod", LANG="C.UTF-8")
    e["HOME"] = home()
    e.update({k: str(v) for k, v in extra.items()})
    return e


def home():
    h = os.path.join(scratch(), "home")
    os.makedirs(h, exist_ok=True)
    return h


def run(cmd, cwd=None, env=None, timeout=800, check=True, quiet=False, input=None, stderr=subprocess.STDOUT):
    t = time.time()
    p = subprocess.Popen(cmd, cwd=cwd, env=env or go_env(), stdout=subprocess.PIPE, stderr=stderr,
                         stdin=subprocess.PIPE if input is not None else subprocess.DEVNULL,
                         start_new_session=True)
    try:
        out, _ = p.communicate(input=input, timeout=timeout)
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        out, _ = p.communicate()
        if check:
            raise CheckError("timeout: %s\n%s" % (cmd, out.decode("utf8", "replace")[-3000:]))
        return -9, out.decode("utf8", "replace")
    out = out.decode("utf8", "replace")
    if not quiet:
        log("%.1fs rc=%d %s" % (time.time() - t, p.returncode, " ".join(map(str, cmd))[:160]))
    if check and p.returncode != 0:
        raise CheckError("rc=%d: %s\n%s" % (p.returncode, cmd, out[-6000:]))
    return p.returncode, out


def overlay_file(repl, name="ov.json"):
    f = os.path.join(scratch(), name)
    with open(f, "w") as fh:
        json.dump({"Replace": repl}, fh)
    return f


def vendir_stub():
    tgt = os.path.join(REPO, "cmd/xgo/internal/vendir/golang.org/x/text/collate/tables.go")
    if os.path.exists(tgt):
        return {}
    return {tgt: os.path.join(VERIF, "lib/tables.go.txt")}


def build_xgo(tags="dev"):
    out = os.path.join(scratch(), "xgo-" + (tags or "rel"))
    ov = vendir_stub()
    cmd = ["go", "build", "-trimpath=false"]
    if ov:
        # the stub must have a .go name
        stub = os.path.join(scratch(), "tables.go")
        shutil.copyfile(list(ov.values())[0], stub)
        cmd += ["-overlay", overlay_file({k: stub for k in ov}, "xgo-ov.json")]
    if tags:
        cmd += ["-tags", tags]
    run(cmd + ["-o", out, "./cmd/xgo"], cwd=REPO)
    return out


GOWRAP = """#!/bin/sh
# the real go command; 'install std' only warms a cache and is skipped
: "${GOROOT:=%s}"
export GOROOT
if [ "$1 $2" = "install std" ]; then exit 0; fi
root=$(dirname "$(dirname "$0")")
for a; do last=$a; done
case "$1 ${last#./}" in
"build cmd/compile"|"build cmd/cover"|"build cmd/go")
	# setup rebuilds a tool: build the patched sources with the original go
	exec python3 %s/lib/gotool.py "$root" "$@";;
esac
if [ -x "$root/bin/go.real" ]; then exec "$root/bin/go.real" "$@"; fi
exec %s/go "$@"
"""

_goroot = None


def small_goroot():
    """A private copy of the Go installation without tests and test data: xgo
    copies the whole of GOROOT, and a bug of it must not reach the real one."""
    global _goroot
    if _goroot:
        return _goroot
    src, dst = os.path.dirname(GOBIN), os.path.join(scratch(), "go1.27.3")

    def ign(d, names):
        out = [n for n in names if n == "testdata" or n.endswith("_test.go")]
        if d == src:
            out += [n for n in names if n not in ("src", "pkg", "bin", "lib", "VERSION", "go.env")]
        if d == os.path.join(src, "pkg"):
            out += [n for n in names if n not in ("tool", "include")]
        return out
    shutil.copytree(src, dst, ignore=ign, symlinks=True)
    g = os.path.join(dst, "bin/go")
    os.unlink(g)
    with open(g, "w") as f:
        f.write(GOWRAP % (dst, VERIF, GOBIN))
    os.chmod(g, 0o755)
    _goroot = dst
    return dst


class Xgo:
    """xgo built from REPO plus an instrumented GOROOT set up by it."""

    def __init__(self, tools=False):
        """tools: let setup also rebuild the go command and the cover tool."""
        self.bin = build_xgo("dev")
        self.home = os.path.join(scratch(), "xh")
        os.makedirs(self.home)
        skip = [] if tools else ["--skip-rebuild-compiler-and-go"]
        rc, out = run([self.bin, "setup", "--xgo-src", REPO, "--xgo-home", self.home] + skip, env=self.env(), check=False)
        if rc != 0:
            raise SetupFailed("xgo setup failed:\n" + out[-4000:])
        self.goroot = out.strip().splitlines()[-1]
        md5 = hashlib.md5(os.path.dirname(self.goroot).encode()).hexdigest()[:8]
        self._register_cache(md5)
        if not tools:
            self.build_compiler()

    def _register_cache(self, md5):
        for d in glob.glob("/tmp/xgo/go-instrument-dev/*_" + md5):
            _extra_cleanup.append(d)

    def env(self, **kw):
        t = os.path.join(scratch(), "t")
        os.makedirs(t, exist_ok=True)
        e = go_env(TMPDIR=t, **kw)
        e["PATH"] = small_goroot() + "/bin:" + e["PATH"]
        return e

    def build_compiler(self):
        import gotool
        try:
            gotool.build(self.goroot, "cmd/compile", os.path.join(self.goroot, "pkg/tool/linux_amd64/compile"), True)
        except gotool.Failed as e:
            raise SetupFailed(str(e))

    def cmd(self, sub, args, cwd, check=True, timeout=600, env=None, setup=False, **kw):
        c = [self.bin, sub, "--xgo-src", REPO, "--xgo-home", self.home]
        if not setup:
            c.append("--no-setup")
        e = self.env()
        if env:
            e.update(env)
        return run(c + args, cwd=cwd, check=check, timeout=timeout, env=e, **kw)


def project(src, name, runtime=True, extra_replace=None, gover="1.20"):
    """Copies a harness project to scratch and writes its go.mod."""
    dst = os.path.join(scratch(), "p", name)
    os.makedirs(os.path.dirname(dst), exist_ok=True)
    shutil.copytree(src, dst)
    write_gomod(dst, name, runtime, extra_replace, gover)
    return dst


def write_gomod(dst, name, runtime=True, extra_replace=None, gover="1.20"):
    lines = ["module " + name, "", "go " + gover, ""]
    rep = dict(extra_replace or {})
    if runtime:
        rep[MOD + "/runtime"] = os.path.join(REPO, "runtime")
    for k in rep:
        lines.append("require %s v1.1.0" % k)
    for k, v in rep.items():
        lines.append("replace %s => %s" % (k, v))
    with open(os.path.join(dst, "go.mod"), "w") as f:
        f.write("\n".join(lines) + "\n")


# ---------------------------------------------------------------- results

def known_findings(prop):
    out = {}
    f = os.path.join(VERIF, "known_findings.jsonl")
    if os.path.exists(f):
        for ln in open(f):
            ln = ln.strip()
            if ln.startswith("{"):
                d = json.loads(ln)
                if d["property"] == prop and d.get("status", "open") == "open":
                    out[d["key"]] = d
    return out


def finish(prop, level, coverage, violations, assumptions=(), exhaustive=True, replay_hint=None):
    """violations: list of {key, what, replay(optional dict/str)}."""
    kf = known_findings(prop)
    violations = violations or []
    new, known = [], {}
    for v in violations:
        k = v.get("key") or v["what"]
        if k in kf:
            known.setdefault(k, v)
        else:
            new.append(v)
    coverage = dict(coverage)
    coverage["exhaustive"] = bool(exhaustive)
    ev = {"property": prop, "tier": TIER, "seed": SEED, "level": level, "coverage": coverage,
          "assumptions": list(assumptions), "wall_s": round(time.time() - T0, 1), "violations": len(new)}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    f = os.path.join(VERIF, "evidence", prop + ".json")
    with open(f + ".tmp", "w") as fh:
        json.dump(ev, fh, indent=1, ensure_ascii=True)
    os.rename(f + ".tmp", f)
    for k, v in known.items():
        print("KNOWN-FINDING: property=%s %s" % (prop, kf[k].get("what", v["what"])))
    if new:
        rd = os.path.join(VERIF, "replays")
        os.makedirs(rd, exist_ok=True)
        path = os.path.join(rd, "%s-%d.json" % (prop, os.getpid()))
        with open(path, "w") as fh:
            json.dump({"property": prop, "hint": replay_hint, "violations": new[:50]}, fh, indent=1)
        for v in new[:5]:
            print("  violated: " + str(v["what"])[:1500])
        print("VIOLATION property=%s replay=%s" % (prop, path))
        sys.stdout.flush()
        return 1
    c = {k: v for k, v in coverage.items() if isinstance(v, (int, bool))}
    print("OK property=%s %s wall=%.1fs" % (prop, json.dumps(c), time.time() - T0))
    return 0


def merge_results(rs):
    tot = {"states": 0, "transitions": 0, "traces": 0, "samples": [], "violations": [], "exhaustive": True, "notes": {}}
    for r in rs:
        for k in ("states", "transitions", "traces"):
            tot[k] += r.get(k, 0)
        tot["samples"] += r.get("samples") or []
        tot["violations"] += r.get("violations") or []
        tot["exhaustive"] = tot["exhaustive"] and r.get("exhaustive", True)
        for k, v in (r.get("notes") or {}).items():
            tot["notes"][k] = tot["notes"].get(k, 0) + v
    return tot


def mc_coverage(r, **more):
    c = {"states": r["states"], "transitions": r["transitions"], "traces_validated_against_impl": r["traces"],
         "samples": r["samples"][:8]}
    if r.get("notes"):
        c["counts"] = r["notes"]
    c.update(more)
    return c
