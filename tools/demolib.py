"""Self-contained helper of a seeded bug's demo.sh: builds xgo from the current
directory (the repository), sets up an instrumented toolchain in a scratch
directory and builds and runs prog/ (next to this file) with it."""
import atexit, filecmp, json, os, shutil, subprocess, sys, tempfile

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.getcwd()
GOBIN = "/opt/veriftools/go1.27.3/bin"
MOD = "github.com/xhd2015/xgo"
S = tempfile.mkdtemp(prefix="demo-", dir="/tmp")


def _clean():
    subprocess.run(["chmod", "-R", "u+w", S], stderr=subprocess.DEVNULL)
    shutil.rmtree(S, ignore_errors=True)
    for d in _extra:
        shutil.rmtree(d, ignore_errors=True)


_extra = []
atexit.register(_clean)


def env(**kw):
    e = dict(os.environ)
    for k in ("GOROOT", "GOWORK", "GOFLAGS", "XGO_FLAGS"):
        e.pop(k, None)
    for d in ("home", "t"):
        os.makedirs(S + "/" + d, exist_ok=True)
    e.update(PATH=GOBIN + ":/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin", GOTOOLCHAIN="local", GOPROXY="off",
             GOFLAGS="", GOSUMDB="off", GOCACHE=os.environ.get("GOCACHE", "/root/.cache/go-build"), GOMODCACHE="/root/go/pkg/mod",
             HOME=S + "/home", TMPDIR=S + "/t")
    e.update(kw)
    return e


def run(cmd, cwd=REPO, e=None, check=True, timeout=280):
    p = subprocess.run(cmd, cwd=cwd, env=e or env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, stdin=subprocess.DEVNULL, timeout=timeout)
    out = p.stdout.decode("utf8", "replace")
    if check and p.returncode:
        print(out[-5000:])
        sys.exit("FAILED rc=%d: %s" % (p.returncode, cmd))
    return p.returncode, out


def build_xgo(tags="dev"):
    tgt = os.path.join(REPO, "cmd/xgo/internal/vendir/golang.org/x/text/collate/tables.go")
    ov = []
    if not os.path.exists(tgt):
        stub = S + "/tables.go"
        with open(stub, "w") as f:
            f.write(TABLES)
        with open(S + "/xov.json", "w") as f:
            json.dump({"Replace": {tgt: stub}}, f)
        ov = ["-overlay", S + "/xov.json"]
    run(["go", "build"] + ov + (["-tags", tags] if tags else []) + ["-o", S + "/xgo", "./cmd/xgo"])
    return S + "/xgo"


def small_goroot():
    src, dst = os.path.dirname(GOBIN), S + "/go1.27.3"
    if os.path.exists(dst):
        return dst

    def ign(d, names):
        out = [n for n in names if n == "testdata" or n.endswith("_test.go")]
        if d == src:
            out += [n for n in names if n not in ("src", "pkg", "bin", "lib", "VERSION", "go.env")]
        return out
    shutil.copytree(src, dst, ignore=ign, symlinks=True)
    g = dst + "/bin/go"
    os.unlink(g)
    with open(g, "w") as f:
        f.write('#!/bin/sh\n: "${GOROOT:=%s}"\nexport GOROOT\nif [ "$1 $2" = "install std" ]; then exit 0; fi\nexec %s/go "$@"\n' % (dst, GOBIN))
    os.chmod(g, 0o755)
    return dst


def xenv():
    e = env()
    e["PATH"] = small_goroot() + "/bin:" + e["PATH"]
    return e


def setup_xgo():
    import hashlib, glob
    x = build_xgo()
    _, out = run([x, "setup", "--xgo-src", REPO, "--xgo-home", S + "/xh", "--skip-rebuild-compiler-and-go"], e=xenv())
    goroot = out.strip().splitlines()[-1]
    md5 = hashlib.md5(os.path.dirname(goroot).encode()).hexdigest()[:8]
    _extra.extend(glob.glob("/tmp/xgo/go-instrument-dev/*_" + md5))
    orig, rep = os.path.dirname(GOBIN), {}
    for b in ("src/cmd/compile", "src/cmd/internal"):
        for d, _, fs in os.walk(os.path.join(goroot, b)):
            for f in fs:
                p = os.path.join(d, f)
                q = os.path.join(orig, os.path.relpath(p, goroot))
                if f.endswith(".go") and (not os.path.exists(q) or not filecmp.cmp(p, q, False)):
                    rep[q] = p
    with open(S + "/cov.json", "w") as f:
        json.dump({"Replace": rep}, f)
    dst = os.path.join(goroot, "pkg/tool/linux_amd64/compile")
    os.unlink(dst)
    run(["go", "build", "-overlay", S + "/cov.json", "-o", dst, "cmd/compile"], cwd=orig + "/src/cmd")
    return x


def project():
    p = S + "/p"
    shutil.copytree(HERE + "/prog", p)
    with open(p + "/go.mod", "w") as f:
        f.write("module demo\n\ngo 1.20\n\nrequire %s/runtime v1.1.0\nreplace %s/runtime => %s/runtime\n" % (MOD, MOD, REPO))
    return p


def main(flags=(), runs=1, race=False):
    x = setup_xgo()
    p = project()
    b = S + "/demo.bin"
    run([x, "build", "--xgo-src", REPO, "--xgo-home", S + "/xh", "--no-setup"] + list(flags) + ["-o", b, "./"], cwd=p, e=xenv())
    for _ in range(runs):
        rc, out = run([b], cwd=p, check=False, timeout=60)
        print(out[-3000:])
        if rc:
            sys.exit("FAILED: the demonstration program exits with %d" % rc)


TABLES = r'''@TABLES@'''

if __name__ == "__main__":
    main(sys.argv[1:])
