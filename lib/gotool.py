"""Builds a command of a patched GOROOT from the sources xgo patched, with the
original go command (an overlay of the patched files), instead of rebuilding
it and all of std from the patched tree (60s)."""
import filecmp, hashlib, os, shutil, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vp

DIRS = {"cmd/compile": ["cmd/compile", "cmd/internal"], "cmd/cover": ["cmd/cover"], "cmd/go": ["cmd/go", "cmd/internal"]}


class Failed(Exception):
    pass


def build(goroot, pkg, dst, patched=False):
    orig = os.path.dirname(vp.GOBIN)
    rep = {}
    for b in DIRS[pkg]:
        for d, _, fs in os.walk(os.path.join(goroot, "src", b)):
            for f in fs:
                p = os.path.join(d, f)
                q = os.path.join(orig, os.path.relpath(p, goroot))
                if f.endswith(".go") and (not os.path.exists(q) or not filecmp.cmp(p, q, False)):
                    rep[q] = p
    if patched and not rep:
        raise Failed("xgo setup patched no file of " + pkg)
    key = None
    cache = os.environ.get("VP_CACHE")
    if cache:
        h = hashlib.sha256(pkg.encode())
        for q in sorted(rep):
            h.update(q.encode() + b"\0" + open(rep[q], "rb").read() + b"\0")
        key = os.path.join(cache, pkg.replace("/", "-") + "-" + h.hexdigest()[:32])
        if os.path.exists(key):
            shutil.copyfile(key, dst)
            os.chmod(dst, 0o755)
            return
    if os.path.exists(dst):
        os.unlink(dst)
    rc, out = vp.run(["go", "build", "-overlay", vp.overlay_file(rep, "tool-ov.json"), "-o", dst, pkg],
                     cwd=os.path.join(orig, "src/cmd"), check=False)
    if rc != 0:
        raise Failed("the patched %s does not build:\n%s" % (pkg, out[-4000:]))
    if key:
        os.makedirs(cache, exist_ok=True)
        shutil.copyfile(dst, key + ".tmp%d" % os.getpid())
        os.rename(key + ".tmp%d" % os.getpid(), key)


if __name__ == "__main__":
    # the go command of a goroot being set up: gotool.py GOROOT build ... -o OUT ... cmd/NAME
    root, args = sys.argv[1], sys.argv[2:]
    pkg = args[-1].removeprefix("./")
    out = args[args.index("-o") + 1]
    if pkg == "cmd/go":
        out += ".real"  # the wrapper stays in front of it
    try:
        build(root, pkg, out)
    except Failed as e:
        sys.exit(str(e))
