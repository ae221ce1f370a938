package rth

import (
	"encoding/json"
	"errors"
	"fmt"
	"math"
	"os"
	"path/filepath"
	"runtime"
	"strings"
	"sync/atomic"

	"github.com/xhd2015/xgo/runtime/core"
	"github.com/xhd2015/xgo/runtime/mock"
	"github.com/xhd2015/xgo/runtime/trace"
	"github.com/xhd2015/xgo/runtime/trace/stack_model"

	"verif.local/explore"
	"verifrt/subj"
)

// A program is a tree of calls with chosen outcomes, run by real instrumented
// functions and, for the oracle, by a few lines of Go semantics.
type tnode struct {
	kind   string
	id     int
	out    string // ok err panic
	caught bool   // the caller recovers its panic
	kids   []*tnode
}

func (n *tnode) str() string {
	var b strings.Builder
	b.WriteString(n.kind)
	if n.out != "" && n.out != "ok" {
		b.WriteString("!" + n.out)
	}
	if n.caught {
		b.WriteString("?")
	}
	if len(n.kids) > 0 {
		b.WriteString("(")
		for i, k := range n.kids {
			if i > 0 {
				b.WriteString(" ")
			}
			b.WriteString(k.str())
		}
		b.WriteString(")")
	}
	return b.String()
}

// outcome of a call as its caller sees it
type tres struct {
	n   int
	err string
	pan string
}

func (r tres) str() string {
	if r.pan != "" {
		return "panic " + r.pan
	}
	return fmt.Sprintf("%d,%s", r.n, r.err)
}

// tent is a recorded call
type tent struct {
	name string
	args string
	res  string
	err  string
	pan  bool
	line int // panic line, if it must be known
	kids []*tent
}

func (e *tent) str(b *strings.Builder) {
	fmt.Fprintf(b, "%s%s=%s", e.name, e.args, e.res)
	if e.err != "" {
		fmt.Fprintf(b, "!%s", e.err)
	}
	if e.pan {
		fmt.Fprintf(b, "^%d", e.line)
	}
	if len(e.kids) > 0 {
		b.WriteString("{")
		for i, k := range e.kids {
			if i > 0 {
				b.WriteString(" ")
			}
			k.str(b)
		}
		b.WriteString("}")
	}
}

func entStr(es []*tent) string {
	var b strings.Builder
	for i, e := range es {
		if i > 0 {
			b.WriteString(" ")
		}
		e.str(&b)
	}
	return b.String()
}

// genList chooses a list of at most *budget nodes.
func genList(c *explore.Ctx, kinds, outs []string, budget *int, nid *int, inAfter bool) []*tnode {
	var l []*tnode
	for *budget > 0 {
		k := c.Choose(1 + len(kinds))
		if k == 0 {
			break
		}
		*budget--
		*nid++
		n := &tnode{kind: kinds[k-1], id: *nid}
		switch n.kind {
		case "Void", "RV", "GC":
		default:
			n.kids = genList(c, kinds, outs, budget, nid, false)
			n.out = outs[c.Choose(len(outs))]
		}
		if n.kind == "D" && len(n.kids) == 0 {
			c.Prune()
		}
		m := &tmodel{quiet: true}
		if r := m.call(n, false); r.pan != "" {
			n.caught = c.Bool()
		}
		l = append(l, n)
	}
	return l
}

// ---- model

type tmodel struct {
	quiet  bool
	filter func(name string) bool
	log    []string
	top    *[]*tent
	mk     int // mocks of MK in effect
	seen   bool
}

func (m *tmodel) kidsOf(l []*tnode, hooked bool) (pan string) {
	for _, k := range l {
		r := m.call(k, hooked)
		if r.pan != "" && !k.caught {
			return r.pan
		}
	}
	return ""
}

func (m *tmodel) own(n *tnode) tres {
	switch n.out {
	case "tnil":
		return tres{n: n.id * 10, err: "<nil>"}
	case "err":
		return tres{n: n.id * 10, err: fmt.Sprintf("e%d", n.id)}
	case "panic":
		return tres{pan: fmt.Sprintf("p%d", n.id)}
	}
	return tres{n: n.id * 10}
}

func (m *tmodel) body(n *tnode, kids []*tnode, hooked bool) tres {
	if p := m.kidsOf(kids, hooked); p != "" {
		return tres{pan: p}
	}
	return m.own(n)
}

// call models the execution of n; hooked: inside a mock, where nothing is recorded
func (m *tmodel) call(n *tnode, hooked bool) (r tres) {
	rec := func(name, args string, f func() tres, shape func(r tres) (string, string)) tres {
		root := !m.seen
		m.seen = true
		if hooked || m.quiet || (!root && m.filter != nil && !m.filter(name)) {
			return f()
		}
		e := &tent{name: name, args: args}
		if m.top != nil {
			*m.top = append(*m.top, e)
		}
		save := m.top
		m.top = &e.kids
		r := f()
		m.top = save
		e.res, e.err = shape(r)
		if r.pan != "" {
			e.pan = true
			e.err = r.pan
		}
		return r
	}
	nErr := func(names ...string) func(r tres) (string, string) {
		return func(r tres) (string, string) {
			if r.pan != "" {
				return fmt.Sprintf(`{"%s":0}`, names[0]), ""
			}
			return fmt.Sprintf(`{"%s":%d}`, names[0], r.n), r.err
		}
	}
	id := fmt.Sprintf(`{"id":%d`, n.id)
	const fnArg = `"body":F}`
	switch n.kind {
	case "A":
		r = rec("A", id+fmt.Sprintf(`,"s":"s%d\"\u003cé",`, n.id)+fnArg, func() tres { return m.body(n, n.kids, hooked) }, nErr("n"))
	case "AM":
		r = rec("(*T).AM", fmt.Sprintf(`{"t":{"N":%d},"id":%d,`, 1, n.id)+fnArg, func() tres { return m.body(n, n.kids, hooked) }, nErr("__xgo_auto_res_0"))
	case "AV":
		r = rec("V.AV", fmt.Sprintf(`{"v":{"N":%d},"id":%d,`, 1, n.id)+fnArg, func() tres {
			r := m.body(n, n.kids, hooked)
			if r.err != "" {
				r = tres{n: -5}
			}
			return r
		}, nErr("__xgo_auto_res_0"))
	case "GA":
		r = rec("GA", id+fmt.Sprintf(`,"k":"k%d",`, n.id)+fnArg, func() tres { return m.body(n, n.kids, hooked) }, nErr("n"))
	case "AP":
		r = rec("AP", id+`,"p":{"K":1},"m":{"k":1},`+fnArg, func() tres { return m.body(n, n.kids, hooked) }, func(r tres) (string, string) {
			return `{"q":{"K":2}}`, r.err
		})
	case "CX":
		r = rec("CX", id+","+`"body":F,"rest":["x","y"]}`, func() tres { return m.body(n, n.kids, hooked) }, func(r tres) (string, string) {
			if r.pan != "" {
				return `{"__xgo_auto_res_0":0,"__xgo_auto_res_1":null}`, ""
			}
			return fmt.Sprintf(`{"__xgo_auto_res_0":%d,"__xgo_auto_res_1":["x","y"]}`, r.n), r.err
		})
	case "ODcyc", "ODnan", "ODpanic", "ODcall", "ODnil":
		// only the behaviour is compared
		r = rec("OD", "", func() tres { return m.body(n, n.kids, hooked) }, nErr("n"))
	case "R":
		r = rec("R", id+","+fnArg, func() tres {
			r := m.body(n, n.kids, hooked)
			if r.pan != "" {
				r = tres{n: -7}
			}
			return r
		}, nErr("n"))
	case "D":
		r = rec("D", id+`,"body":F,"after":F}`, func() tres {
			r := m.body(n, n.kids[1:], hooked)
			if p := m.kidsOf(n.kids[:1], hooked); p != "" {
				r = tres{pan: p}
			}
			return r
		}, func(r tres) (string, string) {
			if r.pan != "" && m.body0(n).pan == "" {
				// the deferred call panicked after the results were set
				q := m.body0(n)
				return fmt.Sprintf(`{"n":%d}`, q.n), ""
			}
			return nErr("n")(r)
		})
	case "MK":
		r = rec("MK", id+","+fnArg, func() tres {
			r := m.body(n, n.kids, hooked || m.mk > 0)
			if r.pan == "" && m.mk > 0 {
				r.n++
			}
			return r
		}, nErr("n"))
	case "MKm":
		m.mk++
		r = rec("MK", id+","+fnArg, func() tres {
			r := m.body(n, n.kids, true)
			if r.pan == "" {
				r.n++
			}
			return r
		}, nErr("n"))
		m.mk--
	case "TR":
		r = rec("Trace", "", func() tres { return m.body(n, n.kids, hooked) }, func(r tres) (string, string) {
			if r.pan != "" {
				return `{"response":null}`, ""
			}
			return fmt.Sprintf(`{"response":%d}`, r.n), r.err
		})
	case "GO":
		// recorded whatever the filter and the hook
		e := &tent{name: "go"}
		if m.top != nil {
			*m.top = append(*m.top, e)
		}
		save := m.top
		if m.top != nil {
			m.top = &e.kids
		}
		r = m.body(n, n.kids, false)
		m.top = save
		if r.pan != "" {
			m.log = append(m.log, fmt.Sprintf("go%d:%s", n.id, r.pan))
		}
		r = tres{}
	case "GC":
		r = tres{}
	case "Void":
		r = rec("Void", "{}", func() tres { return tres{} }, func(tres) (string, string) { return "{}", "" })
	case "RV":
		r = rec("RV", id+"}", func() tres {
			rec("VOther", "", func() tres { return tres{} }, func(tres) (string, string) { return "100", "" })
			rec("VInt", "", func() tres { return tres{} }, func(tres) (string, string) { return "1", "" })
			return tres{n: 101}
		}, nErr("__xgo_auto_res_0"))
	default:
		panic("kind " + n.kind)
	}
	m.log = append(m.log, fmt.Sprintf("%d:%s", n.id, r.str()))
	return r
}

// body0 is the outcome of a D node's body without its deferred call
func (m *tmodel) body0(n *tnode) tres {
	q := &tmodel{quiet: true}
	return q.body(n, n.kids[1:], false)
}

// ---- execution

type trun struct {
	log   []string
	lines []string // where the panics were raised
}

func (x *trun) kids(l []*tnode) {
	for _, k := range l {
		x.call(k)
	}
}

func (x *trun) body(n *tnode, kids []*tnode) func() (int, error) {
	return func() (int, error) {
		x.kids(kids)
		switch n.out {
		case "tnil":
			return n.id * 10, (*subj.NilErr)(nil)
		case "err":
			return n.id * 10, fmt.Errorf("e%d", n.id)
		case "panic":
			_, _, line, _ := runtime.Caller(1)
			x.lines = append(x.lines, fmt.Sprintf("p%d@%d", n.id, line))
			if n.id%2 == 0 {
				panic(errors.New(fmt.Sprintf("p%d", n.id)))
			}
			panic(fmt.Sprintf("p%d", n.id))
		}
		return n.id * 10, nil
	}
}

func (x *trun) call(n *tnode) {
	var r tres
	done := false
	defer func() {
		if done {
			x.log = append(x.log, fmt.Sprintf("%d:%s", n.id, r.str()))
			return
		}
		e := recover()
		x.log = append(x.log, fmt.Sprintf("%d:panic %v", n.id, e))
		if !n.caught {
			panic(e)
		}
	}()
	set := func(v int, err error) {
		r.n = v
		if err != nil {
			r.err = fmt.Sprint(err)
		}
		done = true
	}
	b := x.body(n, n.kids)
	switch n.kind {
	case "A":
		set(subj.A(n.id, fmt.Sprintf("s%d\"<é", n.id), b))
	case "AM":
		set(tv1.AM(n.id, b))
	case "AV":
		set(v1.AV(n.id, b), nil)
	case "GA":
		set(subj.GA(n.id, fmt.Sprintf("k%d", n.id), b))
	case "AP":
		q, err := subj.AP(n.id, &subj.Sub{K: 1}, map[string]int{"k": 1}, b)
		if q.K != 2 {
			panic("AP")
		}
		set(n.id*10, err)
	case "CX":
		v, rest, err := subj.CX(pcCtx, n.id, b, "x", "y")
		if len(rest) != 2 {
			panic("CX")
		}
		set(v, err)
	case "ODcyc", "ODnan", "ODpanic", "ODcall", "ODnil":
		v := odd(n.kind)
		i, w, err := subj.OD(n.id, v, b)
		if k := n.kind; k != "ODnan" && w != v {
			panic("OD")
		}
		set(i, err)
	case "R":
		set(subj.R(n.id, b))
	case "D":
		set(subj.D(n.id, x.body(n, n.kids[1:]), func() (int, error) { x.kids(n.kids[:1]); return 0, nil }))
	case "MK":
		set(subj.MK(n.id, b))
	case "MKm":
		cancel := mock.Patch(subj.MK, func(id int, body func() (int, error)) (int, error) {
			// calls of MK inside run the mock again
			n, err := body()
			return n + 1, err
		})
		defer cancel()
		set(subj.MK(n.id, b))
	case "TR":
		v, err := trace.Trace(trace.Config{OnFinish: func(stack_model.IStack) {}}, n.id, func() (interface{}, error) {
			v, err := b()
			return v, err
		})
		set(v.(int), err)
	case "GO":
		sub := &trun{}
		ch := make(chan interface{})
		go func() {
			var pe interface{}
			defer func() { ch <- pe }()
			defer func() { pe = recover() }()
			sub.kids(n.kids)
			switch n.out {
			case "panic":
				panic(fmt.Sprintf("p%d", n.id))
			}
		}()
		pe := <-ch
		x.log = append(x.log, sub.log...)
		if pe != nil {
			x.log = append(x.log, fmt.Sprintf("go%d:%v", n.id, pe))
		}
		done = true
	case "GC":
		// the runtime starts one more worker per additional processor
		runtime.GOMAXPROCS(runtime.GOMAXPROCS(0) + 1)
		runtime.GC()
		done = true
	case "Void":
		subj.Void()
		done = true
	case "RV":
		set(subj.RV(n.id), nil)
	}
}

func odd(kind string) interface{} {
	switch kind {
	case "ODcyc":
		v := &subj.Cyc{N: 1}
		v.Next = v
		return v
	case "ODnan":
		return [2]interface{}{math.NaN(), make(chan int)}
	case "ODpanic":
		return subj.PanicJSON{N: 1}
	case "ODcall":
		return &subj.CallJSON{N: 1}
	}
	return (*subj.CallJSON)(nil)
}

// ---- comparison

var fnJSON = strings.NewReplacer(`{"func() (int, error)":"?"}`, "F")

func compact(v interface{}) string {
	switch v := v.(type) {
	case nil:
		return ""
	case json.RawMessage:
		if len(v) == 0 {
			return ""
		}
		var x interface{}
		if err := json.Unmarshal(v, &x); err != nil {
			return "INVALID JSON " + string(v)
		}
		return fnJSON.Replace(string(v))
	default:
		d, err := json.Marshal(v)
		if err != nil {
			return "?" + err.Error()
		}
		return fnJSON.Replace(string(d))
	}
}

func fromEntry(e *stack_model.StackEntry, probs *[]string) *tent {
	f := e.FuncInfo
	name := strings.TrimSuffix(f.Name, " (running)")
	if name != f.Name && name != "go" {
		*probs = append(*probs, "still running: "+f.Name)
	}
	t := &tent{name: name, args: compact(e.Args), res: compact(e.Results), err: e.Error, pan: e.Panic}
	if e.EndNs < e.BeginNs {
		*probs = append(*probs, fmt.Sprintf("%s ends at %d before it begins at %d", name, e.EndNs, e.BeginNs))
	}
	switch {
	case name == "Trace":
		t.args = ""
		if f.Pkg != "github.com/xhd2015/xgo/runtime/trace" {
			*probs = append(*probs, "package of Trace is "+f.Pkg)
		}
	case name == "go":
	default:
		if f.Pkg != "verifrt/subj" {
			*probs = append(*probs, "package of "+name+" is "+f.Pkg)
		}
	}
	if e.Panic && e.PanicLine < 0 {
		*probs = append(*probs, "negative panic line")
	}
	for i, k := range e.Children {
		t.kids = append(t.kids, fromEntry(k, probs))
		if !strings.HasPrefix(f.Name, "go") && !strings.HasPrefix(k.FuncInfo.Name, "go") {
			if k.BeginNs < e.BeginNs || (k.EndNs > e.EndNs) {
				*probs = append(*probs, fmt.Sprintf("%s [%d,%d] not within %s [%d,%d]", k.FuncInfo.Name, k.BeginNs, k.EndNs, name, e.BeginNs, e.EndNs))
			}
		}
		if i > 0 && k.BeginNs < e.Children[i-1].BeginNs {
			*probs = append(*probs, "children out of order")
		}
	}
	return t
}

func fromStack(s *stack_model.Stack) (string, []string) {
	var probs []string
	if s == nil {
		return "<nil>", nil
	}
	if s.Format != "stack" || s.Begin == "" {
		probs = append(probs, "header "+s.Format+" "+s.Begin)
	}
	var l []*tent
	for _, e := range s.Children {
		l = append(l, fromEntry(e, &probs))
	}
	return entStr(l), probs
}

func reparse(data []byte) (string, error) {
	var s stack_model.Stack
	if err := json.Unmarshal(data, &s); err != nil {
		return "", err
	}
	// generic values lose the order of keys: keep the raw text
	type rawEntry struct {
		stack_model.StackEntry
		Args, Results json.RawMessage
		Children      []json.RawMessage
	}
	var conv func(raw json.RawMessage) (*stack_model.StackEntry, error)
	conv = func(raw json.RawMessage) (*stack_model.StackEntry, error) {
		var e rawEntry
		if err := json.Unmarshal(raw, &e); err != nil {
			return nil, err
		}
		x := e.StackEntry
		x.Args, x.Results = e.Args, e.Results
		if string(e.Args) == "null" {
			x.Args = nil
		}
		if string(e.Results) == "null" {
			x.Results = nil
		}
		x.Children = nil
		for _, k := range e.Children {
			y, err := conv(k)
			if err != nil {
				return nil, err
			}
			x.Children = append(x.Children, y)
		}
		return &x, nil
	}
	var top struct{ Children []json.RawMessage }
	if err := json.Unmarshal(data, &top); err != nil {
		return "", err
	}
	s.Children = nil
	for _, k := range top.Children {
		x, err := conv(k)
		if err != nil {
			return "", err
		}
		s.Children = append(s.Children, x)
	}
	str, probs := fromStack(&s)
	if len(probs) > 0 {
		return str, errors.New(strings.Join(probs, "; "))
	}
	return str, nil
}

var traceDir string
var traceSeq int64

func traceFile() string {
	if traceDir == "" {
		d, err := os.MkdirTemp("", "vtrace")
		if err != nil {
			panic(err)
		}
		traceDir = d
	}
	return filepath.Join(traceDir, fmt.Sprintf("%d.json", atomic.AddInt64(&traceSeq, 1)))
}

// zeroLines removes panic lines, judged separately
// panicLines lists the panics recorded by the call whose body raised them.
func panicLines(e *stack_model.StackEntry, out *[]string) {
	raised := e.Panic && e.FuncInfo.Name != "R" && e.FuncInfo.Pkg == "verifrt/subj"
	for _, k := range e.Children {
		panicLines(k, out)
	}
	if raised {
		*out = append(*out, fmt.Sprintf("%s@%d", e.Error, e.PanicLine))
	}
}

func zeroLines(l []*tent) {
	for _, e := range l {
		e.line = 0
		zeroLines(e.kids)
	}
}

// c05 explores all programs of at most depth calls; outs are the outcomes.
func c05(name string, kinds []string, modes []string, outs ...string) {
	tree := strings.HasPrefix(name, "c05")
	if len(outs) == 0 {
		outs = []string{"ok", "err", "panic"}
	}
	suites[name] = func(depth int) explore.Result {
		traceFile()
		defer func() { os.RemoveAll(traceDir); traceDir = "" }()
		opt := explore.Options{Suite: name, Deadline: deadline}
		if contains(kinds, "GC") {
			opt.Workers = 1
			defer runtime.GOMAXPROCS(runtime.GOMAXPROCS(0))
		}
		return explore.Run(opt, func(c *explore.Ctx) {
			mode := modes[c.Choose(len(modes))]
			budget, nid := depth, 0
			root := &tnode{kind: "TR", id: 9}
			root.kids = genList(c, kinds, outs, &budget, &nid, false)
			root.out = "ok"
			if len(kinds) < 5 || mode != "fin" {
				root.out = outs[c.Choose(len(outs))]
			}
			pre := mode == "pre"
			c.Logf("mode %s pre=%v program %s", mode, pre, root.str())

			m := &tmodel{}
			want := []*tent{}
			m.top = &want
			cfg := trace.Config{}
			if strings.HasPrefix(mode, "filter") {
				not := mode[len("filter"):]
				m.filter = func(n string) bool { return n != not }
				cfg.FilterTrace = func(f *core.FuncInfo) bool { return f.IdentityName != not }
			}
			mres := m.call(root, false)
			mlog := m.log[:len(m.log)-1]

			var got string
			var probs []string
			var js []byte
			var st stack_model.IStack
			finished := 0
			if mode != "file" && mode != "empty" && mode != "untraced" {
				cfg.OnFinish = func(s stack_model.IStack) {
					finished++
					st = s
					got, probs = fromStack(s.Data())
					js, _ = s.JSON()
				}
			}
			file := ""
			if mode == "file" || mode == "both" {
				file = traceFile()
				cfg.OutputFile = file
				defer os.Remove(file)
			}
			if pre {
				// something executed, mocked and traced before
				subj.A(100, "before", func() (int, error) { return 1, nil })
				trace.Trace(trace.Config{OnFinish: func(stack_model.IStack) {}}, nil, func() (interface{}, error) {
					subj.A(101, "earlier trace", func() (int, error) { return 1, nil })
					return nil, nil
				})
				defer mock.Patch(subj.H, func(x int, y ...string) (string, error) { return "", nil })()
			}
			x := &trun{}
			var res interface{}
			var err error
			pe, panicked := try(func() {
				if mode == "untraced" {
					res, err = x.body(root, root.kids)()
					return
				}
				res, err = trace.Trace(cfg, "req", func() (interface{}, error) {
					n, err := x.body(root, root.kids)()
					return n, err
				})
			})
			subj.A(102, "after", func() (int, error) { return 1, nil })
			c.Step()
			gres := tres{pan: pstr(pe)}
			if !panicked {
				gres.n, _ = res.(int)
				if err != nil {
					gres.err = fmt.Sprint(err)
				}
			}
			if gres != mres {
				c.Fail("trace-result", "%s mode %s: Trace returned %s, want %s", root.str(), mode, gres.str(), mres.str())
			}
			if g, w := strings.Join(x.log, ";"), strings.Join(mlog, ";"); g != w {
				c.Fail("trace-behaviour", "%s mode %s: calls gave\n %s\nwant\n %s", root.str(), mode, g, w)
			}
			if !tree {
				if mode != "file" && mode != "empty" && mode != "untraced" && finished != 1 {
					c.Fail("onfinish", "%s mode %s: OnFinish called %d times", root.str(), mode, finished)
				}
				c.State(mode + root.str())
				return
			}
			zeroLines(want)
			ws := entStr(want)
			c.State(ws)
			if mode != "file" {
				if finished != 1 {
					c.Fail("onfinish", "%s mode %s: OnFinish called %d times", root.str(), mode, finished)
				}
				if got != ws {
					c.Fail("trace-tree", "%s mode %s pre=%v: collected\n %s\nwant\n %s", root.str(), mode, pre, got, ws)
				}
				if len(probs) > 0 {
					c.Fail("trace-entry", "%s mode %s: %s", root.str(), mode, strings.Join(probs, "; "))
				}
				var lines []string
				for _, e := range st.Data().Children {
					panicLines(e, &lines)
				}
				for _, l := range x.lines {
					if mode != "fin" || contains(kinds, "MKm") {
						break
					}
					if p := l[:strings.Index(l, "@")]; !strings.Contains(ws, "!"+p+"^") {
						continue // raised in calls that are not recorded
					}
					if k := kindOf(root, l); !contains(lines, l) && k != "MKm" && k != "R" && k != "TR" && k != "GO" {
						c.Fail("panic-line", "%s: raised %v, recorded %v", root.str(), x.lines, lines)
					}
				}
				if again, _ := fromStack(st.Data()); again != ws {
					c.Fail("trace-later", "%s: the collected trace changed after the end:\n %s\nwant\n %s", root.str(), again, ws)
				}
				r, err := reparse(js)
				if err != nil || r != ws {
					c.Fail("trace-json", "%s mode %s: JSON() gives (%v)\n %s\nwant\n %s", root.str(), mode, err, r, ws)
				}
			}
			if file != "" {
				data, err := os.ReadFile(file)
				if err != nil {
					c.Fail("trace-file", "%s: %v", root.str(), err)
				}
				r, err := reparse(data)
				if err != nil || r != ws {
					c.Fail("trace-file", "%s mode %s: file gives (%v)\n %s\nwant\n %s", root.str(), mode, err, r, ws)
				}
			}
		})
	}
}

func init() {
	// C06: the same programs, and some with values that cannot be exported, behave alike
	c05("c06.prog", strings.Fields("A R D GO TR"), []string{"untraced", "empty", "both"})
	c05("c06.mock", strings.Fields("MK MKm TR"), []string{"untraced", "fin", "empty", "filterMK"})
	c05("c06.odd", strings.Fields("ODcyc ODnan ODpanic ODcall ODnil TR"), []string{"untraced", "fin", "both"}, "ok", "tnil", "panic")
	// goroutines of the runtime itself are not part of the program
	c05("c05.gc", strings.Fields("A GC GO"), []string{"fin"}, "ok")
	c05("c05.calls", strings.Fields("A AM AV GA Void RV AP CX"), []string{"fin"})
	c05("c05.flow", strings.Fields("A R D AM"), []string{"fin"})
	c05("c05.mock", strings.Fields("A MK MKm R GO"), []string{"fin", "pre", "filterMK"})
	c05("c05.go", strings.Fields("A GO TR D"), []string{"fin"})
	c05("c05.mode", strings.Fields("A AM R RV TR"), []string{"both", "pre", "file", "filterA", "filter(*T).AM", "filterTrace", "filterVInt"})
}

func contains(l []string, s string) bool {
	for _, x := range l {
		if x == s {
			return true
		}
	}
	return false
}

// kindOf is the kind of the node that raised panic "p<id>@line"
func kindOf(n *tnode, l string) string {
	if strings.HasPrefix(l, fmt.Sprintf("p%d@", n.id)) {
		return n.kind
	}
	for _, k := range n.kids {
		if r := kindOf(k, l); r != "" {
			return r
		}
	}
	return ""
}
