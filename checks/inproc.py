"""Checks that call packages of the repository directly: the harness is added
to /repo's tree through a build overlay, so that nothing is copied or changed."""
import os, shutil, tempfile
import vp
from checks import rt

H = os.path.join(vp.VERIF, "inproc")
VH = "cmd/xgo/verifh"


def mem_scratch():
    """A scratch directory in memory when there is room."""
    base = "/dev/shm"
    try:
        st = os.statvfs(base)
        if st.f_bavail * st.f_frsize < (1 << 30) or not os.access(base, os.W_OK):
            base = None
    except OSError:
        base = None
    if base is None:
        d = os.path.join(vp.scratch(), "m")
        os.makedirs(d, exist_ok=True)
        return d
    d = tempfile.mkdtemp(prefix="vp-", dir=base)
    vp.scratch()
    vp._extra_cleanup.append(d)
    return d


def xmod():
    """The go command's own go.mod and semver packages, from the installed Go's
    sources: an independent reference."""
    _, root = vp.run(["go", "env", "GOROOT"])
    base = os.path.join(root.strip(), "src/cmd/vendor/golang.org/x/mod")
    out = {}
    for d in ("semver", "module", "modfile", "internal/lazyregexp"):
        for f in sorted(os.listdir(os.path.join(base, d))):
            if f.endswith(".go") and not f.endswith("_test.go"):
                s = open(os.path.join(base, d, f)).read()
                s = s.replace('"golang.org/x/mod/', '"github.com/xhd2015/xgo/%s/xmod/' % VH)
                out["%s/xmod/%s/%s" % (VH, d, f)] = "//go:build go1.23\n\n" + s
    return out


EXTRA = {"c23": xmod}


def build(name, into=None, flags=()):
    """Builds inproc/<name>/*.go: files named x_<dir with __ for />__f.go go into that
    package of the repository, the others form the main package verifh."""
    rep = {}
    # overlay sources must not look like part of another module: copy to scratch
    stage = os.path.join(vp.scratch(), "ov-" + name)
    os.makedirs(stage, exist_ok=True)

    def put(virt, real):
        f = os.path.join(stage, virt.replace("/", "__"))
        shutil.copyfile(real, f)
        rep[os.path.join(vp.REPO, virt)] = f
    put(VH + "/explore/explore.go", os.path.join(vp.VERIF, "go/explore/explore.go"))
    put(VH + "/h/h.go", os.path.join(H, "h/h.go"))
    d = os.path.join(H, name)
    for f in sorted(os.listdir(d)):
        if not f.endswith(".go"):
            continue
        if f.startswith("x_"):
            parts = f[2:].split("__")
            put("/".join(parts[:-1]) + "/zz_verif_" + parts[-1], os.path.join(d, f))
        else:
            put(VH + "/" + f, os.path.join(d, f))
    for k, v in vp.vendir_stub().items():
        put(os.path.relpath(k, vp.REPO), v)
    for virt, content in (EXTRA[name]() if name in EXTRA else {}).items():
        f = os.path.join(stage, "gen__" + virt.replace("/", "__"))
        with open(f, "w") as fh:
            fh.write(content)
        rep[os.path.join(vp.REPO, virt)] = f
    out = os.path.join(vp.scratch(), "h-" + name)
    ov = vp.overlay_file(rep, "ov-%s.json" % name)
    rc, o = vp.run(["go", "build", "-trimpath=false", "-tags", "dev"] + list(flags) + ["-overlay", ov, "-o", out, into or "./" + VH],
                   cwd=vp.REPO, check=False)
    if rc != 0:
        raise vp.CheckError("the harness does not build against the repository:\n" + o[-4000:])
    return out


def suites(name, quick, thorough, into=None, flags=(), budget=400, assumptions=(), env=None, procs=False, jobs=4, prep=None):
    def check(pid):
        b = build(name, into, flags)
        e = {"VP_SCRATCH": mem_scratch(), "VP_REPO": vp.REPO, "VERIF_HARNESS": "1"}
        e.update(env or {})
        if prep:
            e.update(prep() or {})
        q = vp.TIER == "quick"
        args = (quick if q else thorough).split()
        cwd = os.path.join(vp.scratch(), "cwd")
        os.makedirs(cwd, exist_ok=True)
        if procs:
            r, o = rt.run_procs(b, cwd, budget if q else 3600, args, env=e, timeout=780 if q else 4000, jobs=jobs)
        else:
            r, o = rt.run_prog(b, cwd, budget if q else 3600, args, env=e, timeout=780 if q else 4000)
        print(o[-3000:])
        return vp.finish(pid, "model_checking", vp.mc_coverage(r, suites=args), r["violations"],
                         assumptions=list(assumptions), exhaustive=r["exhaustive"])
    return check
