package rth

import (
	"context"
	"errors"
	"fmt"
	"strings"

	"github.com/xhd2015/xgo/runtime/core"
	"github.com/xhd2015/xgo/runtime/mock"
	"github.com/xhd2015/xgo/runtime/trace"
	"github.com/xhd2015/xgo/runtime/trace/stack_model"
	"github.com/xhd2015/xgo/runtime/trap"

	"verif.local/explore"
	"verifrt/subj"
)

type body = func(x int) (int, error)

// c4target is a function that can be intercepted in several ways.
type c4target struct {
	name   string
	hasErr bool
	global bool // hooked during initialization by a recorder and an interceptor
	recv   string // name of the receiver field given to unbound hooks
	fn     interface{}
	bound  interface{} // the method value, nil for functions
	fname  string
	call   func(x int, b body) (int, error)
	other  func(x int, b body) (int, error) // same method on another receiver
	record func(pre, post func(x *int, y *int, err *error)) func()
	patch  func(f body) func()
}

func discard(e error) {}

var tv1, tv2 = &subj.T{N: 1}, &subj.T{N: 2}

var c4targets = map[string]*c4target{
	"P": {name: "P", hasErr: true, fn: subj.P, fname: "P", call: subj.P,
		record: func(pre, post func(*int, *int, *error)) func() {
			w := func(f func(*int, *int, *error)) interface{} {
				if f == nil {
					return nil
				}
				return func(x *int, b body, y *int, err *error) { f(x, y, err) }
			}
			return trace.Record(subj.P, w(pre), w(post))
		},
		patch: func(f body) func() {
			return mock.Patch(subj.P, func(x int, _ func(int) (int, error)) (int, error) { return f(x) })
		}},
	"PC": {name: "PC", hasErr: true, recv: "ctx", fn: subj.PC, fname: "PC",
		call: func(x int, b body) (int, error) { return subj.PC(pcCtx, x, b) },
		record: func(pre, post func(*int, *int, *error)) func() {
			w := func(f func(*int, *int, *error)) interface{} {
				if f == nil {
					return nil
				}
				return func(ctx context.Context, x *int, b body, y *int, err *error) {
					if ctx == pcCtx {
						f(x, y, err)
					}
				}
			}
			return trace.Record(subj.PC, w(pre), w(post))
		},
		patch: func(f body) func() {
			return mock.Patch(subj.PC, func(ctx context.Context, x int, _ func(int) (int, error)) (int, error) { return f(x) })
		}},
	"PG": {name: "PG", hasErr: true, fn: subj.PG, fname: "PG", call: subj.PG, global: true,
		record: func(pre, post func(*int, *int, *error)) func() {
			w := func(f func(*int, *int, *error)) interface{} {
				if f == nil {
					return nil
				}
				return func(x *int, b body, y *int, err *error) { f(x, y, err) }
			}
			return trace.Record(subj.PG, w(pre), w(post))
		},
		patch: func(f body) func() {
			return mock.Patch(subj.PG, func(x int, _ func(int) (int, error)) (int, error) { return f(x) })
		}},
	"PM": {name: "PM", recv: "t", fn: (*subj.T).PM, bound: tv1.PM, fname: "PM",
		call:  func(x int, b body) (int, error) { return tv1.PM(x, b), nil },
		other: func(x int, b body) (int, error) { return tv2.PM(x, b), nil },
		record: func(pre, post func(*int, *int, *error)) func() {
			w := func(f func(*int, *int, *error)) interface{} {
				if f == nil {
					return nil
				}
				return func(x *int, b body, y *int) { f(x, y, nil) }
			}
			return trace.Record(tv1.PM, w(pre), w(post))
		},
		patch: func(f body) func() {
			return mock.Patch(tv1.PM, func(x int, _ func(int) (int, error)) int { y, _ := f(x); return y })
		}},
	"PV": {name: "PV", hasErr: true, recv: "v", fn: subj.V.PV, bound: v1.PV, fname: "PV",
		call:  func(x int, b body) (int, error) { return v1.PV(x, b) },
		other: func(x int, b body) (int, error) { return v2.PV(x, b) },
		record: func(pre, post func(*int, *int, *error)) func() {
			w := func(f func(*int, *int, *error)) interface{} {
				if f == nil {
					return nil
				}
				return func(x int, b body, y *int, err *error) { f(&x, y, err) }
			}
			return trace.Record(v1.PV, w(pre), w(post))
		},
		patch: func(f body) func() {
			return mock.Patch(v1.PV, func(x int, _ func(int) (int, error)) (int, error) { return f(x) })
		}},
}

// behaviours of an interceptor
var icBehav = strings.Fields("cont abort preerr modarg modres posterr preonly postonly cancelpre cancelpost cancelnext cancelfirst prepanic postpanic")
var icFew = strings.Fields("cont abort modarg modres cancelpre cancelfirst prepanic postpanic")

// behaviours of a typed recorder
var recBehav = strings.Fields("cont modarg modres preonly postonly cancelpre")

var pcCtx = context.WithValue(context.Background(), subj.CtxKey, "v")

type c4hook struct {
	kind   string // func, bound, gen, rec
	behav  string
	cancel func()
	gone   bool
}

func (h *c4hook) String() string { return h.kind + ":" + h.behav }

type c4run struct {
	c     *explore.Ctx
	t     *c4target
	hooks []*c4hook
	log   []string
}

func (r *c4run) logf(f string, a ...interface{}) { r.log = append(r.log, fmt.Sprintf(f, a...)) }

func preErr(i int) error  { return errors.New(fmt.Sprint("preerr", i)) }
func postErr(i int) error { return errors.New(fmt.Sprint("posterr", i)) }

func (r *c4run) kill(i int) {
	h := r.hooks[i]
	if !h.gone {
		h.gone = true
		h.cancel()
	}
}

func (r *c4run) cancels(i int, when string) {
	switch b := r.hooks[i].behav; {
	case b == "cancelpre" && when == "pre", b == "cancelpost" && when == "post":
		r.kill(i)
	case b == "cancelnext" && when == "pre":
		r.kill((i + 1) % len(r.hooks))
	case b == "cancelfirst" && when == "pre":
		r.kill(0)
	}
}

func (r *c4run) install(i int) {
	h := r.hooks[i]
	t := r.t
	argIdx := 0
	if t.recv != "" && h.kind != "bound" {
		argIdx = 1
	}
	check := func(f *core.FuncInfo, args core.Object) (x core.Field) {
		if f.Name != t.fname || f.Pkg != pkgSubj {
			r.c.SoftFail("funcinfo", "hook %d of %s got %s.%s", i, t.name, f.Pkg, f.Name)
		}
		x = args.GetFieldIndex(argIdx)
		if x.Name() != "x" || args.NumField() != argIdx+2 {
			r.c.SoftFail("args", "hook %d (%s) of %s: argument %d is %q of %d", i, h, t.name, argIdx, x.Name(), args.NumField())
		}
		if argIdx == 1 && args.GetFieldIndex(0).Name() != t.recv {
			r.c.SoftFail("recv", "hook %d of %s: receiver field is %q", i, t.name, args.GetFieldIndex(0).Name())
		}
		return x
	}
	var pre func(ctx context.Context, f *core.FuncInfo, args, res core.Object) (interface{}, error)
	var post func(ctx context.Context, f *core.FuncInfo, args, res core.Object, data interface{}) error
	if h.behav != "postonly" {
		pre = func(ctx context.Context, f *core.FuncInfo, args, res core.Object) (interface{}, error) {
			if h.kind == "gen" && (f.Pkg != pkgSubj || f.Kind != core.Kind_Func) {
				return nil, nil
			}
			if t.name == "PC" && ctx != pcCtx {
				r.c.SoftFail("ctx", "pre hook %d got context %v", i, ctx)
			}
			x := check(f, args)
			r.logf("pre%d x=%v", i, x.Value())
			r.cancels(i, "pre")
			switch h.behav {
			case "abort":
				res.GetFieldIndex(0).Set(1000 + i)
				return nil, trap.ErrMocked
			case "preerr":
				return nil, preErr(i)
			case "modarg":
				x.Set(x.Value().(int) + 10)
			case "prepanic":
				panic(fmt.Sprint("prepanic", i))
			}
			return fmt.Sprint("data", i), nil
		}
	}
	if h.behav != "preonly" {
		post = func(ctx context.Context, f *core.FuncInfo, args, res core.Object, data interface{}) error {
			if h.kind == "gen" && (f.Pkg != pkgSubj || f.Kind != core.Kind_Func) {
				return nil
			}
			if t.name == "PC" && ctx != pcCtx {
				r.c.SoftFail("ctx", "post hook %d got context %v", i, ctx)
			}
			x := check(f, args)
			var e interface{}
			if t.hasErr {
				e = res.GetFieldIndex(1).Value()
			}
			r.logf("post%d x=%v y=%v err=%v data=%v", i, x.Value(), res.GetFieldIndex(0).Value(), e, data)
			r.cancels(i, "post")
			switch h.behav {
			case "modres":
				res.GetFieldIndex(0).Set(2000 + i)
			case "posterr":
				return postErr(i)
			case "postpanic":
				panic(fmt.Sprint("postpanic", i))
			}
			return nil
		}
	}
	ic := &trap.Interceptor{Pre: pre, Post: post}
	switch h.kind {
	case "gen":
		h.cancel = trap.AddInterceptor(ic)
	case "func":
		h.cancel = trap.AddFuncInterceptor(t.fn, ic)
	case "bound":
		h.cancel = trap.AddFuncInterceptor(t.bound, ic)
	case "rec":
		var rpre, rpost func(x *int, y *int, err *error)
		if h.behav != "postonly" {
			rpre = func(x *int, y *int, err *error) {
				r.logf("pre%d x=%v", i, *x)
				r.cancels(i, "pre")
				if h.behav == "modarg" {
					*x += 10
				}
			}
		}
		if h.behav != "preonly" {
			rpost = func(x *int, y *int, err *error) {
				var e interface{}
				if err != nil && *err != nil {
					e = *err
				}
				r.logf("post%d x=%v y=%v err=%v data=%v", i, *x, *y, e, "<rec>")
				if h.behav == "modres" {
					*y = 2000 + i
				}
			}
		}
		h.cancel = t.record(rpre, rpost)
	}
}

// outcome of one call
type c4out struct {
	y   int
	err string
	pe  string
}

func (o c4out) String() string { return fmt.Sprintf("y=%d err=%s panic=%s", o.y, o.err, o.pe) }

// model computes the events and outcome of a call with the hooks active at
// its beginning, and marks those it cancels.
func (r *c4run) model(x int, mockKind, outcome string, onOther bool, active []bool) (log []string, out c4out) {
	t := r.t
	// locals before globals, recorders before general interceptors
	const gRec, gGen = -1, -2
	var order []int
	for pass := 0; pass < 2; pass++ {
		for i, h := range r.hooks {
			if !active[i] || (h.kind == "gen") != (pass == 1) {
				continue
			}
			if onOther && (h.kind == "bound" || h.kind == "rec") {
				continue
			}
			order = append(order, i)
		}
		if t.global {
			order = append(order, gRec-pass)
		}
	}
	snapshot := append([]bool{}, active...)
	_ = snapshot
	cancels := func(i int, when string) {
		switch b := r.hooks[i].behav; {
		case b == "cancelpre" && when == "pre", b == "cancelpost" && when == "post":
			active[i] = false
		case b == "cancelnext" && when == "pre":
			active[(i+1)%len(r.hooks)] = false
		case b == "cancelfirst" && when == "pre":
			active[0] = false
		}
	}
	logf := func(f string, a ...interface{}) { log = append(log, fmt.Sprintf(f, a...)) }
	var entered []int
	y, err, pe := 0, "", ""
	stopped := false
	for _, i := range order {
		if i < 0 {
			logf("globalpre%d x=%v", -i, x)
			entered = append(entered, i)
			continue
		}
		h := r.hooks[i]
		if h.behav != "postonly" {
			logf("pre%d x=%v", i, x)
			cancels(i, "pre")
			switch h.behav {
			case "abort":
				y = 1000 + i
				stopped = true
			case "preerr":
				stopped = true
				if t.hasErr {
					err = preErr(i).Error()
				} else {
					pe = preErr(i).Error()
				}
			case "modarg":
				if !(h.kind == "rec" && t.name == "PV") {
					x += 10
				}
			case "prepanic":
				pe = fmt.Sprint("prepanic", i)
				stopped = true
			}
		}
		if stopped {
			break
		}
		if h.behav != "preonly" {
			entered = append(entered, i)
		}
	}
	if !stopped {
		if mockKind == "mock" && !onOther {
			logf("mock x=%d", x)
			y = 3000
		} else if mockKind == "mockpanic" && !onOther {
			logf("mock x=%d", x)
			pe = "mockpanic"
		} else {
			logf("body x=%d", x)
			switch outcome {
			case "ok":
				y = x + 1
			case "err":
				y = 7
				err = "bodyerr"
				if !t.hasErr {
					y, err = -1, ""
				}
			case "panic":
				pe = "bodypanic"
			}
		}
	}
	for k := len(entered) - 1; k >= 0; k-- {
		i := entered[k]
		if i < 0 {
			logf("globalpost%d x=%v", -i, x)
			continue
		}
		h := r.hooks[i]
		e := "<nil>"
		if err != "" {
			e = err
		}
		d := "<nil>"
		if h.kind == "rec" {
			d = "<rec>"
		} else if h.behav != "postonly" {
			d = fmt.Sprint("data", i)
		}
		px := x
		if h.kind == "rec" && t.name == "PV" && h.behav == "modarg" {
			px = x // its copy is its own
		}
		logf("post%d x=%v y=%v err=%v data=%v", i, px, y, e, d)
		cancels(i, "post")
		switch h.behav {
		case "modres":
			y = 2000 + i
		case "posterr":
			if t.hasErr {
				err = postErr(i).Error()
			} else {
				pe = postErr(i).Error()
			}
		case "postpanic":
			pe = fmt.Sprint("postpanic", i)
		}
	}
	if pe != "" {
		return log, c4out{pe: pe}
	}
	return log, c4out{y: y, err: err}
}

// c04 explores all combinations of up to n hooks.
func c04(suite, target string, n int, kinds []string, few bool, mocks, outcomes []string, traced bool) explore.Result {
	t := c4targets[target]
	return explore.Run(explore.Options{Suite: suite, Deadline: deadline}, func(c *explore.Ctx) {
		r := &c4run{c: c, t: t}
		nh := c.Choose(n + 1)
		for i := 0; i < nh; i++ {
			h := &c4hook{kind: kinds[c.Choose(len(kinds))]}
			bs := icBehav
			if few {
				bs = icFew
			}
			if h.kind == "rec" {
				bs = recBehav
			}
			h.behav = bs[c.Choose(len(bs))]
			r.hooks = append(r.hooks, h)
		}
		mk := mocks[c.Choose(len(mocks))]
		outcome := outcomes[c.Choose(len(outcomes))]
		inTrace := traced && c.Bool()
		c.Logf("%v mock=%s outcome=%s traced=%v", r.hooks, mk, outcome, inTrace)
		active := make([]bool, nh)
		for i := range r.hooks {
			r.install(i)
			active[i] = true
			c.Step()
		}
		var cancelMock func()
		if mk != "none" {
			cancelMock = t.patch(func(x int) (int, error) {
				r.logf("mock x=%d", x)
				if mk == "mockpanic" {
					panic("mockpanic")
				}
				return 3000, nil
			})
		}
		b := func(x int) (int, error) {
			if x < 0 { // told by a global hook: -(1000*k+x)
				k, x := -x/1000, -x%1000
				r.logf("global%s%d x=%d", []string{"pre", "post"}[k%2], k/2, x)
				return 0, nil
			}
			r.logf("body x=%d", x)
			switch outcome {
			case "err":
				return 7, errors.New("bodyerr")
			case "panic":
				panic("bodypanic")
			}
			return x + 1, nil
		}
		step := func(what string, onOther bool, mk string) {
			c.Step()
			r.log = nil
			wantLog, want := r.model(5, mk, outcome, onOther, active)
			var got c4out
			f := t.call
			if onOther {
				f = t.other
			}
			pe, bad := try(func() {
				y, err := f(5, b)
				got.y = y
				if err != nil {
					got.err = err.Error()
				}
			})
			if bad {
				got = c4out{pe: fmt.Sprint(pe)}
			}
			if g, w := strings.Join(r.log, "; "), strings.Join(wantLog, "; "); g != w {
				c.Fail("events "+t.name, "%s of %s with %v mock=%s outcome=%s: events [%s], want [%s]", what, t.name, r.hooks, mk, outcome, g, w)
			}
			if got != want {
				c.Fail("outcome "+t.name, "%s of %s with %v mock=%s outcome=%s: %s, want %s", what, t.name, r.hooks, mk, outcome, got, want)
			}
		}
		all := func() {
			step("first call", false, mk)
			step("second call", false, mk)
			if t.other != nil {
				step("call on another receiver", true, mk)
			}
		}
		if inTrace {
			trace.Trace(trace.Config{OnFinish: func(stack_model.IStack) {}}, nil, func() (interface{}, error) {
				all()
				return nil, nil
			})
		} else {
			all()
		}
		for i := range r.hooks {
			if r.hooks[i].gone == active[i] {
				c.Fail("cancelled", "hook %d cancelled=%v, want %v", i, r.hooks[i].gone, !active[i])
			}
			r.kill(i)
			active[i] = false
		}
		if cancelMock != nil {
			cancelMock()
		}
		step("call after cancelling everything", false, "none")
		c.State(fmt.Sprint(suite, r.hooks, mk, outcome, inTrace))
	})
}

func init() {
	m := strings.Fields
	reg := func(name, target string, kinds string, few bool, mocks, outcomes string, traced bool) {
		suites["c04."+name] = func(d int) explore.Result {
			return c04("c04."+name, target, d, m(kinds), few, m(mocks), m(outcomes), traced)
		}
	}
	reg("P", "P", "func gen rec", false, "none mock mockpanic", "ok err panic", true)
	reg("PC", "PC", "func gen rec", false, "none mock", "ok", false)
	reg("PG", "PG", "func gen rec", false, "none mock mockpanic", "ok panic", true)
	reg("PM", "PM", "func bound gen rec", false, "none mock mockpanic", "ok err panic", true)
	reg("PV", "PV", "func bound gen rec", false, "none mock mockpanic", "ok err panic", false)
	reg("P3", "P", "func gen rec", true, "none", "ok panic", false)
	reg("PM3", "PM", "func bound gen", true, "none", "ok", false)
}
