"""Checks that run inside a program instrumented and built by xgo itself."""
import json, os, shutil
from concurrent.futures import ThreadPoolExecutor
import vp

_prog = {}


class BuildFailed(Exception):
    def __init__(self, what, out):
        self.what, self.out = what, out


def make_xgo(**kw):
    try:
        return vp.Xgo(**kw)
    except vp.SetupFailed as e:
        raise BuildFailed("xgo setup failed", str(e))


def build(flags=(), name="verifrt", tag="rt", xgo=None, env=None, proj=None, pkg="./"):
    x = xgo or make_xgo()
    p = proj or vp.project(os.path.join(vp.VERIF, "e2e/rt"), "verifrt", gover="1.20", extra_replace={
        "verif.local/rth": os.path.join(vp.VERIF, "e2e/rth"),
        "verif.local/explore": os.path.join(vp.VERIF, "go/explore")})
    out = os.path.join(vp.scratch(), tag + ".bin")
    rc, o = x.cmd("build", list(flags) + ["-o", out, pkg], cwd=p, check=False, env=env)
    if rc != 0 or not os.path.exists(out):
        raise BuildFailed("xgo build of the harness program failed", o)
    return x, p, out


def run_prog(binp, cwd, budget, args, env=None, timeout=840):
    import uuid
    out = os.path.join(vp.scratch(), "res-%s.json" % uuid.uuid4().hex)
    e = vp.go_env()
    e.update(env or {})
    rc, o = vp.run([binp, out, str(budget)] + args, cwd=cwd, check=False, env=e, timeout=timeout)
    if rc == 3:
        raise vp.CheckError(o)
    if rc != 0 or not os.path.exists(out):
        # the instrumented program itself died
        return {"states": 0, "transitions": 0, "traces": 0, "samples": [], "exhaustive": False, "notes": {},
                "violations": [{"key": "program-died", "what": "the instrumented program died (rc=%d) running %s\n%s" % (rc, " ".join(args), o[:1500] + "\n...\n" + o[-1500:])}]}, o
    return json.load(open(out)), o


def fail_build(pid, e):
    return vp.finish(pid, "model_checking",
                     {"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "samples": []},
                     [{"key": "build-failed", "what": e.what + ": " + e.out[-3000:]}], exhaustive=False)


def run_procs(binp, cwd, budget, args, env=None, timeout=840, jobs=8):
    """One process per suite (suites whose executions share process-wide state)."""
    with ThreadPoolExecutor(jobs) as ex:
        rs = list(ex.map(lambda a: run_prog(binp, cwd, budget, [a], env, timeout), args))
    return vp.merge_results([r for r, _ in rs]), "".join(o for _, o in rs)


def suites(quick, thorough, flags=(), budget=240, assumptions=(), procs=False, env=None):
    def check(pid):
        try:
            x, p, b = build(flags)
        except BuildFailed as e:
            return fail_build(pid, e)
        args = (quick if vp.TIER == "quick" else thorough).split()
        f = run_procs if procs else run_prog
        r, o = f(b, p, budget if vp.TIER == "quick" else 3600, args, env=env, timeout=780 if vp.TIER == "quick" else 4000)
        print(o[-3000:])
        return vp.finish(pid, "model_checking", vp.mc_coverage(r, suites=args), r["violations"],
                         assumptions=list(assumptions), exhaustive=r["exhaustive"])
    return check


RACE_FLAGS = ["-race", "-gcflags=verif.local/...=-race=false"]
# allocations of the uninstrumented harness must go through the race-aware path
RACE_BUILD_ENV = {"GOEXPERIMENT": "nosizespecializedmalloc"}


def race_env():
    f = os.path.join(vp.scratch(), "race")
    return {"GORACE": "exitcode=0 suppress_equal_stacks=0 suppress_equal_addresses=0 log_path=" + f, "VP_RACELOG": f}


def suites_race(quick, thorough, rquick, rthorough, assumptions=()):
    """The plain suites, and suites of a -race build in which every explored
    schedule is also checked for unordered accesses."""
    def check(pid):
        q = vp.TIER == "quick"
        try:
            x, p, b = build()
            _, _, rb = build(RACE_FLAGS, tag="rtrace", xgo=x, env=RACE_BUILD_ENV, proj=p)
        except BuildFailed as e:
            return fail_build(pid, e)
        a, ra = (quick if q else thorough).split(), (rquick if q else rthorough).split()
        with ThreadPoolExecutor(2) as ex:
            f1 = ex.submit(run_procs, b, p, 240 if q else 3600, a, env={"GOMAXPROCS": "2"}, timeout=700 if q else 4000)
            f2 = ex.submit(run_procs, rb, p, 240 if q else 3600, ra, env=dict(race_env(), GOMAXPROCS="2"), timeout=700 if q else 4000)
        r, o = f1.result()
        rr, ro = f2.result()
        print(o[-2000:] + ro[-2000:])
        r = vp.merge_results([r, rr])
        return vp.finish(pid, "model_checking", vp.mc_coverage(r, suites=a, race_suites=ra), r["violations"],
                         assumptions=list(assumptions), exhaustive=r["exhaustive"])
    return check


def json_check(pid):
    """Serialisation, with both of the encoders a Go 1.27 program may use."""
    q = vp.TIER == "quick"
    try:
        x, p, b = build()
        v1 = {"GOEXPERIMENT": "nojsonv2"}
        _, _, b1 = build(tag="rtv1", xgo=x, env=v1, proj=p)
    except BuildFailed as e:
        return fail_build(pid, e)
    a = ("c31.val=1 c31.typed=0 c31.err=0 c31.huge=0 c31.depth=0" if q else "c31.val=2 c31.typed=0 c31.err=0 c31.huge=1 c31.depth=0").split()
    bud, to = (240, 700) if q else (3600, 4000)
    with ThreadPoolExecutor(4) as ex:
        fs = [ex.submit(run_procs, bb, p, bud, a, timeout=to, jobs=4) for bb in (b, b1)]
        fi = [ex.submit(run_prog, bb, p, bud, ["c31.iface"], timeout=to) for bb in (b, b1)]
    rs = [f.result()[0] for f in fs]
    for f in fs:
        print(f.result()[1][-1500:])
    for n, f in zip(("jsonv2", "jsonv1"), fi):
        r, o = f.result()
        for v in r["violations"] or []:
            if v["key"] == "program-died" and "stack overflow" in v["what"]:
                v["key"] = "self-interface-" + n
                v["what"] = v["what"][:300]
        rs.append(r)
    r = vp.merge_results(rs)
    return vp.finish(pid, "model_checking", vp.mc_coverage(r, suites=a + ["c31.iface"], encoders=["jsonv2", "jsonv1"]), r["violations"],
                     exhaustive=r["exhaustive"])
