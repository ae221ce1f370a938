package rth

import (
	"context"
	"fmt"
	"strings"

	"github.com/xhd2015/xgo/runtime/core"
	"github.com/xhd2015/xgo/runtime/mock"
	"github.com/xhd2015/xgo/runtime/trap"

	"verif.local/explore"
	"verifrt/subj"
)

const pkgSubj = "verifrt/subj"

// target is one observable call.
type target struct {
	name string
	orig string
	call func() string
}

// installer is one way to install a replacement returning label.
type installer struct {
	name    string
	applies string // space separated target names
	push    func(label string) func()
}

func setRes(label string) mock.Interceptor {
	return func(ctx context.Context, fn *core.FuncInfo, args core.Object, results core.Object) error {
		results.GetFieldIndex(0).Set(label)
		return nil
	}
}

func rep(label string) func(int) string { return func(int) string { return label } }

var (
	t1, t2 = &subj.T{N: 1}, &subj.T{N: 1}
	v1, v2 = subj.V{N: 1}, subj.V{N: 2}
	u1, u2 = subj.U{S: []int{1}}, subj.U{S: []int{2}}
	gs1    = &subj.GS[int]{K: 1}
	gs2    = &subj.GS[int]{K: 1}
	gss    = &subj.GS[string]{K: "a"}
	clA    = subj.MakeCl("a")
)

func hcall(x int) func() string {
	return func() string {
		s, err := subj.H(x, "a", "b")
		if err != nil {
			return s + "!" + err.Error()
		}
		return s
	}
}

var targets = map[string]target{
	"F":     {"F", "F", func() string { return subj.F(1) }},
	"H":     {"H", "H", hcall(1)},
	"H99":   {"H99", "!H99", hcall(99)},
	"unexp": {"unexp", "unexp", func() string { return subj.Unexp(1) }},
	"t1":    {"t1", "T.M", func() string { return t1.M(1) }},
	"t2":    {"t2", "T.M", func() string { return t2.M(1) }},
	"it1":   {"it1", "T.M", func() string { var i subj.I = t1; return i.M(1) }},
	"t1o":   {"t1o", "T.other", func() string { return t1.Other(1) }},
	"t2o":   {"t2o", "T.other", func() string { return t2.Other(1) }},
	"v1":    {"v1", "V.M", func() string { return v1.M(1) }},
	"v2":    {"v2", "V.M", func() string { v := v2; return (&v).M(1) }},
	"iv1":   {"iv1", "V.M", func() string { var i subj.I = v1; return i.M(1) }},
	"u1":    {"u1", "U.M", func() string { return u1.M(1) }},
	"u2":    {"u2", "U.M", func() string { return u2.M(1) }},
	"Gi":    {"Gi", "G", func() string { return subj.G(1) }},
	"Gs":    {"Gs", "G", func() string { return subj.G("x") }},
	"gs1":   {"gs1", "GS.M", func() string { return gs1.M(1) }},
	"gs2":   {"gs2", "GS.M", func() string { return gs2.M(1) }},
	"gss":   {"gss", "GS.M", func() string { return gss.M(1) }},
	"Cl":    {"Cl", "Cl", func() string { return subj.Cl(1) }},
	"clA":   {"clA", "cl:a", func() string { return clA(1) }},
	"Ctx":   {"Ctx", "Ctx:s", func() string { s, err := subj.Ctx(context.Background(), "s"); return fmt.Sprint(s, errs(err)) }},
	"GF":    {"GF", "global-GF", func() string { return subj.GF(1) }},
	"GT1":   {"GT1", "global-GT", func() string { return gt1.M(1) }},
	"GT2":   {"GT2", "global-GT", func() string { return gt2.M(1) }},
}

var gt1, gt2 = &subj.GT{N: 1}, &subj.GT{N: 2}

func errs(err error) string {
	if err == nil {
		return ""
	}
	return "!" + err.Error()
}

func trapIc(f interface{}) func(l string) func() {
	return func(l string) func() {
		return trap.AddFuncInterceptor(f, &trap.Interceptor{Pre: func(ctx context.Context, fn *core.FuncInfo, args core.Object, results core.Object) (interface{}, error) {
			results.GetFieldIndex(0).Set(l)
			return nil, trap.ErrMocked
		}})
	}
}

var installers = map[string]installer{
	"F.patch":     {"F.patch", "F", func(l string) func() { return mock.Patch(subj.F, rep(l)) }},
	"F.mock":      {"F.mock", "F", func(l string) func() { return mock.Mock(subj.F, setRes(l)) }},
	"F.patchname": {"F.patchname", "F", func(l string) func() { return mock.PatchByName(pkgSubj, "F", rep(l)) }},
	"F.mockname":  {"F.mockname", "F", func(l string) func() { return mock.MockByName(pkgSubj, "F", setRes(l)) }},
	"H.patch": {"H.patch", "H H99", func(l string) func() {
		return mock.Patch(subj.H, func(int, ...string) (string, error) { return l, nil })
	}},
	"H.mockname":  {"H.mockname", "H H99", func(l string) func() { return mock.MockByName(pkgSubj, "H", setRes(l)) }},
	"unexp.patch": {"unexp.patch", "unexp", func(l string) func() { return mock.PatchByName(pkgSubj, "unexp", rep(l)) }},
	"unexp.mock":  {"unexp.mock", "unexp", func(l string) func() { return mock.MockByName(pkgSubj, "unexp", setRes(l)) }},
	"t1.patch":    {"t1.patch", "t1 it1", func(l string) func() { return mock.Patch(t1.M, rep(l)) }},
	"t2.mock":     {"t2.mock", "t2", func(l string) func() { return mock.Mock(t2.M, setRes(l)) }},
	"T.patch":     {"T.patch", "t1 t2 it1", func(l string) func() { return mock.Patch((*subj.T).M, func(*subj.T, int) string { return l }) }},
	"T.mock":      {"T.mock", "t1 t2 it1", func(l string) func() { return mock.Mock((*subj.T).M, setRes(l)) }},
	"T.patchname": {"T.patchname", "t1 t2 it1", func(l string) func() {
		return mock.PatchByName(pkgSubj, "(*T).M", func(*subj.T, int) string { return l })
	}},
	"T.mockname":   {"T.mockname", "t1 t2 it1", func(l string) func() { return mock.MockByName(pkgSubj, "(*T).M", setRes(l)) }},
	"T.mockname2":  {"T.mockname2", "t1 t2 it1", func(l string) func() { return mock.MockByName(pkgSubj, "T.M", setRes(l)) }},
	"t1.patchname": {"t1.patchname", "t1 it1", func(l string) func() { return mock.PatchMethodByName(t1, "M", rep(l)) }},
	"t2.mockname":  {"t2.mockname", "t2", func(l string) func() { return mock.MockMethodByName(t2, "M", setRes(l)) }},
	"it1.patch":    {"it1.patch", "t1 it1", func(l string) func() { var i subj.I = t1; return mock.Patch(i.M, rep(l)) }},
	"t1o.mockname": {"t1o.mockname", "t1o", func(l string) func() { return mock.MockMethodByName(t1, "other", setRes(l)) }},
	"t2o.mockname": {"t2o.mockname", "t2o", func(l string) func() { return mock.MockMethodByName(t2, "other", setRes(l)) }},
	"v1.patch":     {"v1.patch", "v1 iv1", func(l string) func() { return mock.Patch(v1.M, rep(l)) }},
	"v2.mock":      {"v2.mock", "v2", func(l string) func() { return mock.Mock(v2.M, setRes(l)) }},
	"V.patch":      {"V.patch", "v1 v2 iv1", func(l string) func() { return mock.Patch(subj.V.M, func(subj.V, int) string { return l }) }},
	"v2.mockname":  {"v2.mockname", "v2", func(l string) func() { return mock.MockMethodByName(v2, "M", setRes(l)) }},
	"iv1.mock":     {"iv1.mock", "v1 iv1", func(l string) func() { var i subj.I = v1; return mock.Mock(i.M, setRes(l)) }},
	"u1.patch":     {"u1.patch", "u1", func(l string) func() { return mock.Patch(u1.M, rep(l)) }},
	"u2.mock":      {"u2.mock", "u2", func(l string) func() { return mock.Mock(u2.M, setRes(l)) }},
	"U.mock":       {"U.mock", "u1 u2", func(l string) func() { return mock.Mock(subj.U.M, setRes(l)) }},
	"Gi.patch":     {"Gi.patch", "Gi", func(l string) func() { return mock.Patch(subj.G[int], rep(l)) }},
	"Gs.mock":      {"Gs.mock", "Gs", func(l string) func() { return mock.Mock(subj.G[string], setRes(l)) }},
	"gs1.patch":    {"gs1.patch", "gs1", func(l string) func() { return mock.Patch(gs1.M, rep(l)) }},
	"gs2.mock":     {"gs2.mock", "gs2", func(l string) func() { return mock.Mock(gs2.M, setRes(l)) }},
	"gss.patch":    {"gss.patch", "gss", func(l string) func() { return mock.Patch(gss.M, rep(l)) }},
	"Cl.patch":     {"Cl.patch", "Cl", func(l string) func() { return mock.Patch(subj.Cl, rep(l)) }},
	"clA.mock":     {"clA.mock", "clA", func(l string) func() { return mock.Mock(clA, setRes(l)) }},
	"Ctx.patch": {"Ctx.patch", "Ctx", func(l string) func() {
		return mock.Patch(subj.Ctx, func(context.Context, string) (string, error) { return l, nil })
	}},
	"Ctx.mock":  {"Ctx.mock", "Ctx", func(l string) func() { return mock.Mock(subj.Ctx, setRes(l)) }},
	"GF.patch":  {"GF.patch", "GF", func(l string) func() { return mock.Patch(subj.GF, rep(l)) }},
	"GT1.patch": {"GT1.patch", "GT1", func(l string) func() { return mock.Patch(gt1.M, rep(l)) }},
	"GT.mock":   {"GT.mock", "GT1 GT2", func(l string) func() { return mock.Mock((*subj.GT).M, setRes(l)) }},
}

type mockRec struct {
	ins    installer
	label  string
	cancel func()
	live   bool
}

func has(list, name string) bool {
	for _, s := range strings.Fields(list) {
		if s == name {
			return true
		}
	}
	return false
}

// mockStack explores every sequence of `depth` installs and cancels drawn from
// the given installers and compares every target after every step.
func mockStack(suite string, insNames, tgtNames string, depth int) explore.Result {
	var ins []installer
	for _, n := range strings.Fields(insNames) {
		i, ok := installers[n]
		if !ok {
			panic("no installer " + n)
		}
		ins = append(ins, i)
	}
	var tgts []target
	for _, n := range strings.Fields(tgtNames) {
		t, ok := targets[n]
		if !ok {
			panic("no target " + n)
		}
		tgts = append(tgts, t)
	}
	return explore.Run(explore.Options{Suite: suite, Deadline: deadline}, func(c *explore.Ctx) {
		var recs []*mockRec
		check := func() {
			for _, t := range tgts {
				want := t.orig
				for i := len(recs) - 1; i >= 0; i-- {
					if recs[i].live && has(recs[i].ins.applies, t.name) {
						want = recs[i].label
						break
					}
				}
				var got string
				if pe, p := try(func() { got = t.call() }); p {
					c.Fail("call-panic "+t.name, "calling %s panicked: %v", t.name, pe)
				}
				if got != want {
					c.Fail("wrong "+t.name, "call of %s gave %q, want %q", t.name, got, want)
				}
			}
		}
		check()
		n := c.Choose(depth) + 1
		for s := 0; s < n; s++ {
			var live, dead []*mockRec
			for _, r := range recs {
				if r.live {
					live = append(live, r)
				} else {
					dead = append(dead, r)
				}
			}
			k := c.Choose(len(ins) + len(live) + len(dead))
			c.Step()
			switch {
			case k < len(ins):
				r := &mockRec{ins: ins[k], label: fmt.Sprintf("m%d", s), live: true}
				c.Logf("%s->%s", r.ins.name, r.label)
				if pe, p := try(func() { r.cancel = r.ins.push(r.label) }); p {
					c.Fail("install-panic "+r.ins.name, "installing %s panicked: %v", r.ins.name, pe)
				}
				recs = append(recs, r)
			case k < len(ins)+len(live):
				r := live[k-len(ins)]
				c.Logf("cancel %s", r.label)
				if pe, p := try(r.cancel); p {
					c.Fail("cancel-panic "+r.ins.name, "cancelling %s (%s) panicked: %v", r.label, r.ins.name, pe)
				}
				r.live = false
			default:
				// cancelling twice may complain but must not change anything
				r := dead[k-len(ins)-len(live)]
				c.Logf("cancel again %s", r.label)
				try(r.cancel)
			}
			check()
			if s == n-1 {
				var st []string
				for _, r := range recs {
					if r.live {
						st = append(st, r.ins.name)
					}
				}
				c.State(suite + strings.Join(st, ","))
			}
		}
		// wind down in every order is covered by the cancels above; here undo
		// the rest newest first and oldest first.
		c.Logf("cancel rest")
		fwd := len(recs)%2 == 0
		for i := range recs {
			r := recs[i]
			if !fwd {
				r = recs[len(recs)-1-i]
			}
			if r.live {
				if pe, p := try(r.cancel); p {
					c.Fail("cancel-panic "+r.ins.name, "cancelling %s (%s) panicked: %v", r.label, r.ins.name, pe)
				}
				r.live = false
			}
		}
		check()
	})
}

func init() {
	reg := func(name, ins, tgts string) {
		suites["c01."+name] = func(d int) explore.Result { return mockStack("c01."+name, ins, tgts, d) }
	}
	reg("func", "F.patch F.mock F.patchname F.mockname H.patch", "F H unexp")
	reg("name", "H.patch H.mockname unexp.patch unexp.mock", "F H H99 unexp")
	reg("ptr", "t1.patch t2.mock T.patch T.mockname t1.patchname", "t1 t2 it1 t1o")
	reg("ptr2", "T.mock T.patchname T.mockname2 t2.mockname it1.patch", "t1 t2 it1 t1o v1")
	reg("meth", "t1o.mockname t2o.mockname T.patch t1.patch", "t1 t2 t1o t2o")
	reg("val", "v1.patch v2.mock V.patch v2.mockname iv1.mock", "v1 v2 iv1 t1")
	reg("unc", "u1.patch u2.mock U.mock", "u1 u2")
	reg("gen", "Gi.patch Gs.mock gs1.patch gs2.mock gss.patch", "Gi Gs gs1 gs2 gss")
	reg("ctx", "Ctx.patch Ctx.mock F.patch", "Ctx F")
	reg("glob", "GF.patch GT1.patch GT.mock F.patch", "GF GT1 GT2 F")
	reg("mix", "F.patch t1.patch V.patch Gi.patch gs1.patch H.mockname", "F H t1 t2 v1 v2 Gi Gs gs1 gs2")
}
