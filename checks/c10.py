import os
import vp
from checks import rt
import shapes

MAIN = """package main

import (
	"verif.local/rth"
	"github.com/xhd2015/xgo/runtime/mock"
	"verifrt/shapes"
	"verif.local/shapedep/dep"
	sdep "verif.local/shapedep/sh.dep"
)

func init() {
	// variables that are mocked are listed
	mock.Patch(&shapes.V1, func() int { return 1 })()
	mock.Patch(&shapes.V2, func() string { return "" })()
	mock.Patch(&shapes.V3, func() *shapes.T { return nil })()
	mock.Patch(&shapes.V4, func() map[string]int { return nil })()
	mock.Patch(&shapes.V5, func() func(int) error { return nil })()
}

func main() {
	rth.Shapes = []*rth.ShapePkg{
		{Path: "verifrt/shapes", Dir: "%(p)s/shapes", Values: shapes.Values, Inst: shapes.Inst, Main: true, Vars: shapes.Vars()},
		{Path: "verif.local/shapedep/dep", Dir: "%(d)s/dep", Values: dep.Values, Inst: dep.Inst},
		{Path: "verif.local/shapedep/sh.dep", Dir: "%(d)s/sh.dep", Values: sdep.Values, Inst: sdep.Inst},
	}
	rth.Main()
}
"""
VARS = """package shapes

var V1 int
var V2, v6 = "a", "b"
var (
	// doc
	V3 *T

	V4 = map[string]int{"a": 1}
	_  = v6
)
var V5 func(int) error

func Vars() map[string]interface{} {
	return map[string]interface{}{"V1": &V1, "V2": &V2, "V3": &V3, "V4": &V4, "V5": &V5}
}
"""


def prepare(p, dep):
    shapes.gen(os.path.join(p, "shapes"), "shapes")
    with open(os.path.join(p, "shapes/vars.go"), "w") as f:
        f.write(VARS)
    shapes.gen(os.path.join(dep, "dep"), "dep", full=False, perfile=16, limit=80)
    shapes.gen(os.path.join(dep, "sh.dep"), "shdep", full=False, perfile=16, limit=40, prefix="X")
    with open(os.path.join(dep, "go.mod"), "w") as f:
        f.write("module verif.local/shapedep\n\ngo 1.20\n")
    os.makedirs(os.path.join(p, "c10"))
    with open(os.path.join(p, "c10/main.go"), "w") as f:
        f.write(MAIN % {"p": p, "d": dep})


def check(pid):
    dep = os.path.join(vp.scratch(), "shapedep")
    try:
        x = rt.make_xgo()
        p = vp.project(os.path.join(vp.VERIF, "e2e/rt"), "verifrt", gover="1.20", extra_replace={
            "verif.local/rth": os.path.join(vp.VERIF, "e2e/rth"), "verif.local/shapedep": dep,
            "verif.local/explore": os.path.join(vp.VERIF, "go/explore")})
        prepare(p, dep)
        _, _, b = rt.build([], xgo=x, proj=p, pkg="./c10")
    except rt.BuildFailed as e:
        return rt.fail_build(pid, e)
    args = ["c10.decl=1", "c10.lookup=1", "c10.none=1"]
    r, o = rt.run_procs(b, p, 240, args)
    return vp.finish(pid, "model_checking", vp.mc_coverage(r, suites=args), r["violations"], exhaustive=r["exhaustive"])
