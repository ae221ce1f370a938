package rth

import (
	"context"
	"errors"
	"fmt"
	"runtime"
	"strings"

	"github.com/xhd2015/xgo/runtime/core"
	"github.com/xhd2015/xgo/runtime/mock"
	"github.com/xhd2015/xgo/runtime/trace"
	"github.com/xhd2015/xgo/runtime/trace/stack_model"
	"github.com/xhd2015/xgo/runtime/trap"

	"verif.local/explore"
	"verifrt/subj"
)

var c8places = strings.Fields("body mock mockI recpre recpost fipre fipost gpre gpost varmock varptrmock varrec methmock")
var c8behavs = strings.Fields("panic panicerr rterr goexit recall probe spawn install cancelself trace runtrace")

var errBoom = errors.New("boom error")

// c8 is one execution's state; all on one goroutine but for spawned probes.
type c8 struct {
	c       *explore.Ctx
	where   string
	any     []string // what the general interceptor saw
	rec     []string // what the recorder of G saw
	probes  int      // recorded probes
	inside  int      // depth of hooks in which nothing is recorded
	tracing bool
}

func (e *c8) install() (cancel func()) {
	c1 := mock.Patch(subj.H, func(x int, y ...string) (string, error) { return fmt.Sprintf("mh%d", x), nil })
	c2 := trace.RecordCall(subj.G[int], func(x int, r string) { e.rec = append(e.rec, fmt.Sprint(x)) })
	c3 := mock.Mock(t1.M, func(ctx context.Context, fn *core.FuncInfo, args, res core.Object) error {
		res.GetFieldIndex(0).Set("mt1")
		return nil
	})
	c4 := mock.Patch(&subj.VarS, func() string { return "mvar" })
	c5 := trap.AddInterceptor(&trap.Interceptor{Pre: func(ctx context.Context, f *core.FuncInfo, args, res core.Object) (interface{}, error) {
		if f.Pkg == pkgSubj && f.Kind == core.Kind_Func && f.Name[0] != 'P' && f.Name[0] != 'R' {
			e.any = append(e.any, f.Name)
		}
		return nil, nil
	}})
	return func() { c1(); c2(); c3(); c4(); c5() }
}

// probe calls everything that is hooked and compares with what the hooks say.
func (e *c8) probe(hooked bool, on bool) {
	saveAny, saveRec := e.any, e.rec
	e.any, e.rec = nil, nil
	h, _ := subj.H(7)
	g := subj.G[int](8)
	m1 := t1.M(1)
	m2 := t2.M(1)
	v := subj.ReadVarS()
	f := subj.F(1)
	got := fmt.Sprint(h, g, m1, m2, v, f, e.any, e.rec)
	var want string
	if on {
		any := []string{"H", "G", "M", "M", "F"}
		if hooked {
			any = nil
		}
		want = fmt.Sprint("mh7", "G", "mt1", "T.M", "mvar", "F", any, []string{"8"})
	} else {
		want = fmt.Sprint("H", "G", "T.M", "T.M", "vars", "F", []string(nil), []string(nil))
	}
	e.any, e.rec = saveAny, saveRec
	if got != want {
		e.c.SoftFail("state-after "+strings.Fields(e.where)[0], "%s: calls give %s, want %s", e.where, got, want)
	}
	if !hooked {
		e.probes++
	}
}

func c8run(c *explore.Ctx, nev int, places, behavs []string) {
	traced := c.Bool()
	type ev struct{ place, behav string }
	var evs []ev
	for i := 0; i < nev; i++ {
		evs = append(evs, ev{places[c.Choose(len(places))], behavs[c.Choose(len(behavs))]})
	}
	c.Logf("traced=%v %v", traced, evs)
	e := &c8{c: c, where: "start"}
	done := make(chan struct{})
	var got []string
	var running []string
	var step func(i int)
	step = func(i int) {
		if i == len(evs) {
			return
		}
		v := evs[i]
		defer step(i + 1)
		defer func() {
			e.where = fmt.Sprintf("after %s %s (event %d of %v, traced=%v)", v.place, v.behav, i, evs, traced)
			e.probe(false, true)
		}()
		returned := false
		var cancel func()
		fired := 0
		defer func() {
			pe := recover()
			if cancel != nil {
				cancel()
			}
			w := "normal return"
			switch v.behav {
			case "panic":
				w = "panic boom"
			case "panicerr":
				w = "panic boom error"
			case "rterr":
				w = "panic runtime error: index out of range [5] with length 0"
			case "goexit":
				w = "goexit"
			}
			g := "goexit"
			if returned {
				g = "normal return"
			} else if pe != nil {
				g = "panic " + fmt.Sprint(pe)
				if v.behav == "panicerr" && pe != interface{}(errBoom) {
					g += " (another value)"
				}
			}
			if g != w {
				c.SoftFail("outcome "+v.place, "%s %s (traced=%v): %s, want %s", v.place, v.behav, traced, g, w)
			}
			wf := 1
			if v.behav == "recall" && v.place != "gpre" && v.place != "gpost" {
				wf = 2
			}
			if fired != wf {
				c.SoftFail("fired "+v.place, "%s %s (traced=%v): hook ran %d times, want %d", v.place, v.behav, traced, fired, wf)
			}
		}()
		var call func()
		isBody := v.place == "body"
		act := func() {
			fired++
			if fired > 1 {
				if fired > 5 {
					panic("endless recursion")
				}
				return
			}
			switch v.behav {
			case "panic":
				panic("boom")
			case "panicerr":
				panic(errBoom)
			case "rterr":
				var s []int
				_ = s[i+5-i]
			case "goexit":
				runtime.Goexit()
			case "recall":
				call()
			case "probe":
				e.where = fmt.Sprintf("inside %s %s", v.place, v.behav)
				if isBody {
					// recorded as children of P
					e.probe(false, true)
					e.probes--
				} else {
					e.probe(true, true)
				}
			case "spawn":
				ch := make(chan struct{})
				go func() {
					defer close(ch)
					e.where = fmt.Sprintf("in a goroutine of %s %s", v.place, v.behav)
					e.probe(false, true)
					e.probes--
				}()
				<-ch
			case "install":
				c1 := mock.Patch(subj.F, func(int) string { return "mf" })
				if s := subj.F(1); s != "mf" {
					c.SoftFail("install", "mock installed in %s gives %s", v.place, s)
				}
				c1()
			case "cancelself":
				if cancel != nil {
					cancel()
					cancel = nil
				}
			case "trace":
				s, err := trace.Trace(trace.Config{OnFinish: func(stack_model.IStack) {}}, nil, func() (interface{}, error) {
					return subj.F(3), nil
				})
				if s != "F" || err != nil {
					c.SoftFail("trace", "trace in %s gives %v %v", v.place, s, err)
				}
			case "runtrace":
				pe, _ := try(func() {
					trace.Trace(trace.Config{OnFinish: func(stack_model.IStack) {}}, nil, func() (interface{}, error) {
						panic("inner")
					})
				})
				if pe != "inner" {
					c.SoftFail("trace", "trace in %s panics with %v", v.place, pe)
				}
			}
		}
		nop := func(x int) (int, error) { return x, nil }
		call = func() { subj.P(1, nop) }
		is := func(f *core.FuncInfo) bool { return f.Name == "P" && f.Pkg == pkgSubj }
		switch v.place {
		case "body":
			call = func() { subj.P(1, func(x int) (int, error) { act(); return x, nil }) }
		case "mock":
			cancel = mock.Patch(subj.P, func(x int, b func(int) (int, error)) (int, error) { act(); return x, nil })
		case "mockI":
			cancel = mock.Mock(subj.P, func(ctx context.Context, fn *core.FuncInfo, args, res core.Object) error { act(); return nil })
		case "methmock":
			cancel = mock.Patch(tv1.PM, func(x int, b func(int) (int, error)) int { act(); return x })
			call = func() { tv1.PM(1, nop) }
		case "recpre":
			cancel = trace.RecordCall(subj.P, func(x int, b func(int) (int, error), y int, err error) { act() })
		case "recpost":
			cancel = trace.RecordResult(subj.P, func(x int, b func(int) (int, error), y int, err error) { act() })
		case "fipre":
			cancel = trap.AddFuncInterceptor(subj.P, &trap.Interceptor{Pre: func(ctx context.Context, f *core.FuncInfo, args, res core.Object) (interface{}, error) {
				act()
				return nil, nil
			}})
		case "fipost":
			cancel = trap.AddFuncInterceptor(subj.P, &trap.Interceptor{Post: func(ctx context.Context, f *core.FuncInfo, args, res core.Object, d interface{}) error {
				act()
				return nil
			}})
		case "gpre":
			cancel = trap.AddInterceptor(&trap.Interceptor{Pre: func(ctx context.Context, f *core.FuncInfo, args, res core.Object) (interface{}, error) {
				if is(f) {
					act()
				}
				return nil, nil
			}})
		case "gpost":
			cancel = trap.AddInterceptor(&trap.Interceptor{Post: func(ctx context.Context, f *core.FuncInfo, args, res core.Object, d interface{}) error {
				if is(f) {
					act()
				}
				return nil
			}})
		case "varmock":
			cancel = mock.Patch(&subj.VStr, func() string { act(); return "x" })
			call = func() { subj.RStr() }
		case "varptrmock":
			cancel = mock.Patch(&subj.VStr, func() *string { act(); s := "x"; return &s })
			call = func() { subj.RStrPtr() }
		case "varrec":
			cancel = trace.RecordResult(&subj.VStr, func(v *string) { act() })
			call = func() { subj.RStr() }
		}
		call()
		returned = true
	}
	go func() {
		defer close(done)
		cancel := e.install()
		defer func() {
			e.where = fmt.Sprintf("after the trace (events %v, traced=%v)", evs, traced)
			n := e.probes
			e.probe(false, true)
			cancel()
			e.where = "cancelled " + e.where
			e.probe(false, false)
			e.probes = n
		}()
		if !traced {
			step(0)
			return
		}
		trace.Trace(trace.Config{OnFinish: func(s stack_model.IStack) {
			for _, r := range s.Data().Children {
				for _, k := range r.Children {
					n := k.FuncInfo.Name
					if strings.HasPrefix(n, "P") || strings.Contains(n, ".P") || n == "RStr" || n == "RStrPtr" {
						walkRunning(k, &running)
						continue
					}
					if strings.HasPrefix(n, "go") && len(k.Children) == 6 {
						continue // started by a hook
					}
					got = append(got, n)
				}
			}
		}}, nil, func() (interface{}, error) {
			step(0)
			return nil, nil
		})
	}()
	<-done
	c.Step()
	c.State(fmt.Sprint(traced, evs))
	if traced && c.Failed() == "" {
		var want []string
		for i := 0; i < e.probes; i++ {
			want = append(want, "H", "G", "(*T).M", "(*T).M", "ReadVarS", "F")
		}
		if strings.Join(got, " ") != strings.Join(want, " ") {
			c.Fail("trace-after", "events %v: the trace holds %v, want %v", evs, got, want)
		}
		if len(running) > 0 {
			c.Fail("trace-running", "events %v: calls recorded as still running: %v", evs, running)
		}
	}
}

func walkRunning(e *stack_model.StackEntry, out *[]string) {
	if n := e.FuncInfo.Name; strings.HasSuffix(n, " (running)") && !strings.HasPrefix(n, "go") {
		*out = append(*out, n)
	}
	for _, k := range e.Children {
		walkRunning(k, out)
	}
}

func init() {
	suites["c08.all"] = func(d int) explore.Result {
		return explore.Run(explore.Options{Suite: "c08.all", Deadline: deadline}, func(c *explore.Ctx) { c8run(c, d, c8places, c8behavs) })
	}
	suites["c08.few"] = func(d int) explore.Result {
		return explore.Run(explore.Options{Suite: "c08.few", Deadline: deadline}, func(c *explore.Ctx) {
			c8run(c, d, strings.Fields("body mock recpost gpre gpost"), strings.Fields("panic goexit recall probe"))
		})
	}
}
