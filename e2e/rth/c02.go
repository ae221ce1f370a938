package rth

import (
	"context"
	"fmt"
	"sort"
	"strings"

	"github.com/xhd2015/xgo/runtime/core"
	"github.com/xhd2015/xgo/runtime/mock"
	"github.com/xhd2015/xgo/runtime/trace"
	"github.com/xhd2015/xgo/runtime/trap"

	"verif.local/explore"
	"verifrt/subj"
)

// gmock is a hook installed by some goroutine; copies are inherited by the
// goroutines it starts while the hook is active.
type gmock struct {
	kind   string
	label  string
	cancel func()
}

type gstate struct {
	hooks []*gmock
	log   []string
}

// hook kinds of C02. Recording hooks append to the log of the actor that runs.
type hookKind struct {
	name string
	push func(label string, cur func() *gstate) func()
	// replaces gives the result for a target, or ""
	replaces string
	records  string
}

func (k hookKind) String() string { return k.name }

var c02kinds = map[string]hookKind{
	"F":   {"F", func(l string, cur func() *gstate) func() { return mock.Patch(subj.F, rep(l)) }, "F", ""},
	"t1":  {"t1", func(l string, cur func() *gstate) func() { return mock.Mock(t1.M, setRes(l)) }, "t1", ""},
	"T":   {"T", func(l string, cur func() *gstate) func() { return mock.Mock((*subj.T).M, setRes(l)) }, "t1 t2", ""},
	"GF":  {"GF", func(l string, cur func() *gstate) func() { return mock.Patch(subj.GF, rep(l)) }, "GF", ""},
	"var": {"var", func(l string, cur func() *gstate) func() { return mock.Patch(&subj.VarS, func() string { return l }) }, "VarS", ""},
	"rt1": {"rt1", func(l string, cur func() *gstate) func() {
		return trace.RecordCall(t1.M, func(x int, r string) { g := cur(); g.log = append(g.log, l) })
	}, "", "t1"},
	"rF": {"rF", func(l string, cur func() *gstate) func() {
		return trap.AddFuncInterceptor(subj.F, &trap.Interceptor{Post: func(ctx context.Context, f *core.FuncInfo, args, res core.Object, data interface{}) error {
			g := cur()
			g.log = append(g.log, l)
			return nil
		}})
	}, "", "F"},
	"any": {"any", func(l string, cur func() *gstate) func() {
		return trap.AddInterceptor(&trap.Interceptor{Pre: func(ctx context.Context, f *core.FuncInfo, args, res core.Object) (interface{}, error) {
			if f.Pkg == pkgSubj && f.Kind == core.Kind_Func {
				g := cur()
				g.log = append(g.log, l+f.Name)
			}
			return nil, nil
		}})
	}, "", "*"},
}

var c02targets = []struct {
	name, orig, fn string
	call           func() string
}{
	{"F", "F", "F", func() string { return subj.F(1) }},
	{"t1", "T.M", "M", func() string { return t1.M(1) }},
	{"t2", "T.M", "M", func() string { return t2.M(1) }},
	{"GF", "global-GF", "GF", func() string { return subj.GF(1) }},
	{"VarS", "vars", "ReadVarS", func() string { return subj.ReadVarS() }},
}

func isolation(suite string, kinds []string, maxActors, depth int) explore.Result {
	return explore.Run(explore.Options{Suite: suite, Deadline: deadline}, func(c *explore.Ctx) {
		var live []*actor
		var running *actor
		cur := func() *gstate { return running.st.(*gstate) }
		nid, nlabel := 0, 0
		mk := func(parent *actor) *actor {
			a := newActor(nid)
			nid++
			g := &gstate{}
			a.st = g
			if parent != nil {
				for _, h := range parent.st.(*gstate).hooks {
					g.hooks = append(g.hooks, &gmock{kind: h.kind, label: h.label})
				}
				parent.do(a.start)
			} else {
				a.start()
			}
			live = append(live, a)
			return a
		}
		defer func() {
			for _, a := range live {
				a.end()
			}
		}()
		check := func() {
			for _, a := range live {
				g := a.st.(*gstate)
				running = a
				for _, t := range c02targets {
					want := t.orig
					var wantLog []string
					for _, h := range g.hooks {
						k := c02kinds[h.kind]
						if has(k.replaces, t.name) {
							want = h.label
						}
						if has(k.records, t.name) {
							wantLog = append(wantLog, h.label)
						} else if k.records == "*" {
							wantLog = append(wantLog, h.label+t.fn)
						}
					}
					g.log = nil
					var got string
					if pe := a.do(func() { got = t.call() }); pe != nil {
						c.Fail("call-panic "+t.name, "goroutine %d calling %s panicked: %v", a.id, t.name, pe)
					}
					if got != want {
						c.Fail("wrong "+t.name, "goroutine %d: %s gave %q, want %q", a.id, t.name, got, want)
					}
					gl := append([]string{}, g.log...)
					sort.Strings(gl)
					sort.Strings(wantLog)
					if strings.Join(gl, " ") != strings.Join(wantLog, " ") {
						c.Fail("wronglog "+t.name, "goroutine %d: hooks run for %s: %v, want %v", a.id, t.name, gl, wantLog)
					}
				}
			}
			running = nil
		}
		mk(nil)
		check()
		for s := 0; s < depth; s++ {
			type op struct {
				name string
				run  func()
			}
			var ops []op
			for _, a := range live {
				a := a
				g := a.st.(*gstate)
				for _, k := range kinds {
					k := c02kinds[k]
					ops = append(ops, op{fmt.Sprintf("g%d+%s", a.id, k), func() {
						h := &gmock{kind: k.name, label: fmt.Sprintf("m%d", nlabel)}
						nlabel++
						if pe := a.do(func() { h.cancel = k.push(h.label, cur) }); pe != nil {
							c.Fail("install-panic "+k.name, "installing %s panicked: %v", k.name, pe)
						}
						g.hooks = append(g.hooks, h)
					}})
				}
				for i, h := range g.hooks {
					i, h := i, h
					if h.cancel == nil {
						continue // inherited: only its installer can cancel its own
					}
					ops = append(ops, op{fmt.Sprintf("g%d-%s", a.id, h.label), func() {
						if pe := a.do(h.cancel); pe != nil {
							c.Fail("cancel-panic "+h.kind, "cancelling %s panicked: %v", h.kind, pe)
						}
						g.hooks = append(append([]*gmock{}, g.hooks[:i]...), g.hooks[i+1:]...)
					}})
				}
				if len(live) < maxActors {
					ops = append(ops, op{fmt.Sprintf("g%d spawns", a.id), func() { mk(a) }})
				}
				ops = append(ops, op{fmt.Sprintf("g%d ends", a.id), func() {
					a.end()
					var n []*actor
					for _, b := range live {
						if b != a {
							n = append(n, b)
						}
					}
					live = n
				}})
			}
			if len(live) < maxActors {
				ops = append(ops, op{"new g", func() { mk(nil) }})
			}
			o := ops[c.Choose(len(ops))]
			c.Logf("%s", o.name)
			c.Step()
			o.run()
			check()
			var st []string
			for _, a := range live {
				var hs []string
				for _, h := range a.st.(*gstate).hooks {
					hs = append(hs, h.kind)
				}
				st = append(st, strings.Join(hs, ","))
			}
			c.State(suite + strings.Join(st, "|"))
		}
	})
}

func init() {
	reg := func(name string, n int, kinds string) {
		suites["c02."+name] = func(d int) explore.Result { return isolation("c02."+name, strings.Fields(kinds), n, d) }
	}
	reg("mock", 3, "F t1")
	reg("rec", 2, "rt1 rF any")
	reg("mix", 2, "T var GF")
	reg("wide", 3, "F")
}
