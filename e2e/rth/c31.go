package rth

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"math"
	"math/big"
	"os"
	"reflect"
	"strings"
	"sync"
	"time"
	"unicode/utf8"
	"unsafe"

	"github.com/xhd2015/xgo/runtime/mock"
	"github.com/xhd2015/xgo/runtime/trace"
	"github.com/xhd2015/xgo/runtime/trace/stack_model"

	"verif.local/explore"
	"verifrt/subj"
)

// A value and what its serialisation must be: the exact text, or "" when it
// has none (then any valid JSON will do).
type jval struct {
	name string
	v    interface{}
	want string
}

const jlimit = 1 * 1024 * 1024

type jFail struct{ err error }

func (f jFail) MarshalJSON() ([]byte, error) { return nil, f.err }

type jPanic struct{ v interface{} }

func (f jPanic) MarshalJSON() ([]byte, error) { panic(f.v) }

type jPtrPanic struct{ X int }

func (f *jPtrPanic) MarshalJSON() ([]byte, error) {
	if f.X == 7 {
		panic("pointer receiver")
	}
	return []byte(`"ptr"`), nil
}

type jRaw struct{ s string }

func (f jRaw) MarshalJSON() ([]byte, error) { return []byte(f.s), nil }

type jBadErr struct{ p *int }

func (e *jBadErr) Error() string { return fmt.Sprint(*e.p) }

type jText struct{ s string }

func (t jText) MarshalText() ([]byte, error) {
	if t.s == "fail" {
		return nil, errors.New("no \x01 text")
	}
	if t.s == "panic" {
		panic(errors.New("text \"panic\" \x7f"))
	}
	return []byte(t.s), nil
}

type jCalls struct{}

func (jCalls) MarshalJSON() ([]byte, error) {
	return []byte(fmt.Sprint(subj.JInner(5))), nil
}

type jTraces struct{}

func (jTraces) MarshalJSON() ([]byte, error) {
	trace.Trace(trace.Config{OnFinish: func(stack_model.IStack) {}}, nil, func() (interface{}, error) {
		subj.JInner(6)
		return nil, nil
	})
	return []byte(`"traces"`), nil
}

type jNested struct{}

// marshals something unsupported itself
func (jNested) MarshalJSON() ([]byte, error) {
	json.Marshal(map[string]interface{}{"a": make(chan int)})
	return json.Marshal([]int{1})
}

type jStringPanic struct{}

func (jStringPanic) String() string { panic("String") }

type jNode struct {
	N    int
	Next *jNode      `json:",omitempty"`
	Any  interface{} `json:",omitempty"`
}

type jUnexported struct {
	a  int
	f  func()
	B  int
	mu sync.Mutex
}

type jFields struct {
	A int
	F func()
	C chan string `json:"c"`
	P unsafe.Pointer
	Z complex128
	B string
}

type jTagged struct {
	X struct {
		F func() `json:"\"odd\\\"\x01\u00e9"`
	}
	Y func(struct {
		G int `k:"\x7f\n\"'\U000e0001"`
	})
}

type jEmbed struct {
	error
	K int
}

func jlist(n int) *jNode {
	var h *jNode
	for i := 0; i < n; i++ {
		h = &jNode{N: 1, Next: h}
	}
	return h
}

func jq(s string) string {
	d, err := json.Marshal(s)
	if err != nil {
		panic(err)
	}
	return string(d)
}

func jleaves() []jval {
	var odd = "q\" b\\ n\n \x00\x01\a\v\x1b\x7f \xff\xe4\xbd é \u200b \u2028 \U0001f600 \U000e0001 <&>"
	cyc := &jNode{N: 1}
	cyc.Next = &jNode{N: 2, Next: cyc}
	var cmap = map[string]interface{}{"a": 1}
	cmap["self"] = cmap
	var csl = []interface{}{1, nil}
	csl[1] = csl
	var nilp *jPtrPanic
	var nilbad *jBadErr
	big1, _ := new(big.Int).SetString("123456789012345678901234567890", 10)
	ls := []jval{
		{"nil", nil, "null"},
		{"true", true, ""},
		{"minint", int64(math.MinInt64), ""},
		{"maxuint", uint64(math.MaxUint64), ""},
		{"1e21", 1e21, ""},
		{"-0", math.Copysign(0, -1), ""},
		{"NaN", math.NaN(), ""},
		{"Inf", math.Inf(-1), ""},
		{"float32", float32(0.1), ""},
		{"complex", complex(1, 2), ""},
		{"odd", odd, ""},
		{"del", "\x7f", ""},
		{"bytes", []byte(odd), ""},
		{"runes", []rune("é\x00"), ""},
		{"func", func() {}, `{"func()":"?"}`},
		{"nilfunc", (func(int) string)(nil), `{"func(int) string":"?"}`},
		{"chan", make(chan int), `{"chan int":"?"}`},
		{"uintptr", uintptr(9), ""},
		{"unsafe", unsafe.Pointer(cyc), `{"unsafe.Pointer":"?"}`},
		{"mapint", map[int]string{3: "x", -1: odd}, ""},
		{"mapbool", map[bool]int{true: 1}, ""},
		{"mapchan", map[chan int]int{make(chan int): 1}, ""},
		{"mapstruct", map[struct{ A int }]int{{1}: 1}, ""},
		{"maptext", map[jText]int{{"k\x01"}: 1}, ""},
		{"maptextfail", map[jText]int{{"fail"}: 1}, ""},
		{"maptextpanic", map[jText]int{{"panic"}: 1}, ""},
		{"mapfunc", map[string]func(){"a": nil, "b\"": nil}, `{"a":{"func()":"?"},"b\"":{"func()":"?"}}`},
		{"nilmap", map[string]int(nil), "null"},
		{"text", jText{"t\x01"}, ""},
		{"textfail", jText{"fail"}, ""},
		{"textpanic", jText{"panic"}, ""},
		{"cycptr", cyc, ""},
		{"cycmap", cmap, ""},
		{"cycslice", csl, ""},
		{"fail", jFail{errors.New("plain")}, ""},
		{"failodd", jFail{errors.New(odd)}, ""},
		{"failnilerr", jFail{}, ""},
		{"failbad", jFail{nilbad}, ""},
		{"panicstr", jPanic{odd}, ""},
		{"panicerr", jPanic{errors.New(odd)}, ""},
		{"panicbaderr", jPanic{nilbad}, ""},
		{"panicbadstringer", jPanic{jStringPanic{}}, ""},
		{"panicself", jPanic{jPanic{1}}, ""},
		{"panicnil", jPanic{nil}, ""},
		{"ptrpanic", &jPtrPanic{7}, ""},
		{"ptrvalue", jPtrPanic{7}, ""},
		{"ptrfine", &jPtrPanic{1}, ""},
		{"nilptr", nilp, ""},
		{"nilbaderr", nilbad, "null"},
		{"rawok", jRaw{`{"a" : [1, 2]}`}, ""},
		{"rawbad", jRaw{`{"a" : `}, ""},
		{"rawtwo", jRaw{`1 2`}, ""},
		{"rawctl", jRaw{"\"\x01\""}, ""},
		{"rawutf", jRaw{"\"\xff\""}, ""},
		{"rawdup", jRaw{`{"a":1,"a":2}`}, ""},
		{"rawempty", jRaw{""}, ""},
		{"rawmsgbad", json.RawMessage(`}`), ""},
		{"rawmsgnil", json.RawMessage(nil), ""},
		{"numok", json.Number("1e5"), ""},
		{"numbad", json.Number("0x\x01"), ""},
		{"time", time.Unix(0, 0).UTC(), ""},
		{"timebad", time.Date(10000, 1, 1, 0, 0, 0, 0, time.UTC), ""},
		{"calls", jCalls{}, ""},
		{"traces", jTraces{}, ""},
		{"nested", jNested{}, ""},
		{"unexported", &jUnexported{a: 1, B: 2}, `{"B":2}`},
		{"fields", jFields{A: 1, B: odd}, `{"A":1,"F":{"func()":"?"},"c":{"chan string":"?"},"P":{"unsafe.Pointer":"?"},"Z":{"complex128":"?"},"B":` + jq(odd) + `}`},
		{"tagged", &jTagged{}, ""},
		{"embed", jEmbed{nil, 3}, ""},
		{"embederr", jEmbed{errors.New("x"), 3}, ""},
		{"err", errors.New(odd), ""},
		{"bigint", big1, ""},
		{"reflect", reflect.ValueOf(3), ""},
		{"file", os.Stdin, ""},
		{"list", jlist(900), ""},
	}
	for i := range ls {
		if ls[i].name == "complex" {
			ls[i].want = `{"complex128":"?"}`
		}
	}
	for i := range ls {
		fillWant(&ls[i])
	}
	return ls
}

// huge and deep ones are kept apart: they take time
func jhuge() []jval {
	var ls []jval
	for _, d := range []int{-3, -2, -1, 0, 1, 2} {
		ls = append(ls, jval{fmt.Sprint("limit", d), strings.Repeat("a", jlimit+d), ""})
		ls = append(ls, jval{fmt.Sprint("limit-3", d), strings.Repeat("a", jlimit+d-6) + "世\x7f世\U000e0001", ""})
		ls = append(ls, jval{fmt.Sprint("limit-del", d), strings.Repeat("a", jlimit+d-6) + "\x7f\x01\"\x7f世", ""})
	}
	ls = append(ls,
		jval{"hugedel", strings.Repeat("\x7f", jlimit), ""},
		jval{"hugeodd", strings.Repeat("\U000e0001\u200b\xff\x00", jlimit/4), ""},
		jval{"hugebytes", make([]byte, jlimit), ""},
		jval{"hugeslice", make([]int, jlimit), ""},
		jval{"hugeerr", jFail{errors.New(strings.Repeat("\x7f\x01", jlimit))}, ""},
		jval{"hugepanic", jPanic{strings.Repeat("\x7f\x01", jlimit)}, ""},
		jval{"list2000", jlist(2000), ""},
		jval{"list9900", jlist(9900), ""},
		jval{"list9985", jlist(9985), ""},
		jval{"list9990", jlist(9990), ""},
		jval{"list9995", jlist(9995), ""},
		jval{"list9999", jlist(9999), ""},
		jval{"list10000", jlist(10000), ""},
		jval{"list20000", jlist(20000), ""},
		jval{"hugelist", func() *jNode { l := jlist(5000); l.Any = strings.Repeat("x", jlimit); return l }(), ""},
	)
	for i := range ls {
		fillWant(&ls[i])
	}
	return ls
}

func fillWant(j *jval) {
	if j.want != "" {
		return
	}
	func() {
		defer func() { recover() }()
		v := j.v
		if d, err := json.Marshal(v); err == nil {
			j.want = string(d)
		}
	}()
}

// wrappers of dynamic values
func jwrap(c *explore.Ctx, v jval) jval {
	k := c.Choose(7)
	w := func(name string, x interface{}, format string) jval {
		o := jval{name: name + "(" + v.name + ")", v: x}
		if v.want != "" {
			o.want = fmt.Sprintf(format, v.want)
		}
		return o
	}
	switch k {
	case 0:
		return w("slice", []interface{}{1, v.v, "z"}, `[1,%s,"z"]`)
	case 1:
		return w("map", map[string]interface{}{"a": 1, "k": v.v, "z": "s"}, `{"a":1,"k":%s,"z":"s"}`)
	case 2:
		return w("struct", struct {
			A int
			X interface{}
			B string
		}{1, v.v, "s"}, `{"A":1,"X":%s,"B":"s"}`)
	case 3:
		x := v.v
		return w("ptr", &x, `%s`)
	case 4:
		return w("mapint", map[int]interface{}{1: nil, 2: v.v}, `{"1":null,"2":%s}`)
	case 5:
		return w("array", [2]interface{}{v.v, v.v}, strings.Replace(`[%s,@]`, "@", strings.ReplaceAll(v.want, "%", "%%"), 1))
	default:
		return w("omit", &struct {
			X interface{} `json:"x,omitempty"`
			Y int         `json:"-"`
		}{v.v, 3}, map[bool]string{true: `{}%.0s`, false: `{"x":%s}`}[v.v == nil])
	}
}

// jwant is the text an argument must have in the trace, or "".
func jsame(got string, want string) bool {
	if want == "" {
		return true
	}
	if len(want) > jlimit || jdepth(want) > 1000 {
		var s string
		if b := (&bytes.Buffer{}); got == want || json.Compact(b, []byte(got)) == nil && b.String() == want {
			return true // whole is as good
		}
		if json.Unmarshal([]byte(got), &s) != nil {
			return false
		}
		if jnorm(s) == jnorm(want) {
			return true
		}
		// the text of a text that is too long
		var inner string
		if strings.HasPrefix(s, "\"") && json.Unmarshal([]byte(s+"\""), &inner) == nil && strings.HasPrefix(want, inner) && len(inner) > jlimit/2 {
			return true
		}
		if len(want) <= jlimit {
			return false
		}
		p := want[:jlimit]
		if s == p {
			return true
		}
		// a character cut in two may be replaced
		for !utf8.ValidString(p) && len(p) > jlimit-4 {
			p = p[:len(p)-1]
		}
		return strings.HasPrefix(s, p) && len(s) < len(p)+16
	}
	var b bytes.Buffer
	if json.Compact(&b, []byte(got)) != nil {
		return false
	}
	return jnorm(b.String()) == jnorm(want)
}

func jdepth(s string) int {
	d, max := 0, 0
	in := false
	for i := 0; i < len(s); i++ {
		switch {
		case s[i] == '\\':
			i++
		case s[i] == '"':
			in = !in
		case !in && (s[i] == '{' || s[i] == '['):
			if d++; d > max {
				max = d
			}
		case !in && (s[i] == '}' || s[i] == ']'):
			d--
		}
	}
	return max
}

// jnorm undoes the difference between escaped and literal characters
func jnorm(s string) string {
	if !strings.ContainsAny(s, "\\<>&\u2028\u2029\x7f") && utf8.ValidString(s) {
		return s
	}
	dec := json.NewDecoder(strings.NewReader(s))
	dec.UseNumber()
	var v interface{}
	if dec.Decode(&v) != nil {
		return s
	}
	d, err := json.Marshal(v)
	if err != nil {
		return s
	}
	// keep the order of the fields apart from this
	return string(d)
}

// jentry is an entry of the exported file, with raw data.
type jentry struct {
	FuncInfo *struct{ Name, Kind string }
	Args     jmembers
	Results  json.RawMessage
	Panic    bool
	Error    string
	Children []*jentry
}

// jmembers keeps every member, in order, also of equal names
type jmembers []jmember
type jmember struct {
	name string
	raw  string
}

func (m *jmembers) UnmarshalJSON(d []byte) error {
	ms, err := jparse(d)
	*m = ms
	return err
}

func jparse(d []byte) (jmembers, error) {
	ms := jmembers{}
	dec := json.NewDecoder(bytes.NewReader(d))
	t, err := dec.Token()
	if err != nil {
		return nil, err
	}
	if t == nil {
		return ms, nil
	}
	if t != json.Delim('{') {
		return nil, fmt.Errorf("not an object: %.60s", d)
	}
	for dec.More() {
		k, err := dec.Token()
		if err != nil {
			return nil, err
		}
		var raw json.RawMessage
		if err := dec.Decode(&raw); err != nil {
			return nil, err
		}
		ms = append(ms, jmember{k.(string), string(raw)})
	}
	return ms, nil
}

func (m jmembers) names() string {
	var s []string
	for _, x := range m {
		s = append(s, x.name)
	}
	return strings.Join(s, ",")
}

// A place where a value is put: run calls, shape lists the calls expected
// with the names and texts of their arguments and results ("?" is the value).
type jplace struct {
	name  string
	run   func(v interface{})
	shape []jcall
	// the outcome does not matter to the tree but to the program
	pan bool
}

type jcall struct {
	depth     int
	name      string
	args, res []string // name=text
	err       string
	pan       bool
}

var jvarMu sync.Mutex

var jplaces = []jplace{
	{name: "arg", run: func(v interface{}) { subj.J1(v) }, shape: []jcall{{0, "J1", []string{"v=?"}, nil, "", false}}},
	{name: "mid", run: func(v interface{}) { subj.J2(3, v, "s") },
		shape: []jcall{{0, "J2", []string{"before=3", "v=?", `after="s"`}, []string{"n=3"}, "", false}}},
	{name: "res", run: func(v interface{}) { subj.JR(func() interface{} { return v }) },
		shape: []jcall{{0, "JR", []string{`mk={"func() interface {}":"?"}`}, []string{"r=?", `s="sibling"`}, "", false}}},
	{name: "reslast", run: func(v interface{}) { subj.JRL(func() interface{} { return v }) },
		shape: []jcall{{0, "JRL", []string{`mk={"func() interface {}":"?"}`}, []string{`s="sibling"`, "r=?"}, "", false}}},
	{name: "variadic", run: func(v interface{}) { subj.JV(2, v, v) },
		shape: []jcall{{0, "JV", []string{"n=2", "vs=[?,?]"}, []string{"*=2"}, "", false}}},
	{name: "blank", run: func(v interface{}) { subj.JBlank(v, 8) },
		shape: []jcall{{0, "JBlank", []string{"*=?", "*=8"}, []string{"*=null", "*=4"}, "", false}}},
	{name: "recv", run: func(v interface{}) { subj.JBox[interface{}]{1, v, "s"}.Val(2) },
		shape: []jcall{{0, "JBox.Val", []string{`b={"Before":1,"V":?,"After":"s"}`, "n=2"}, []string{"*=2"}, "", false}}},
	{name: "recvptr", run: func(v interface{}) { (&subj.JBox[interface{}]{1, v, "s"}).Ptr(2) },
		shape: []jcall{{0, "(*JBox).Ptr", []string{`b={"Before":1,"V":?,"After":"s"}`, "n=2"}, []string{"*=2"}, "", false}}},
	{name: "panic", run: func(v interface{}) {
		subj.JPanic(1, v)
	}, shape: []jcall{{0, "JPanic", []string{"n=1", "v=?"}, nil, "*", true}}, pan: true},
	{name: "var", run: func(v interface{}) {
		jvarMu.Lock()
		defer jvarMu.Unlock()
		subj.JVar = v
		subj.JRead()
	},
		shape: []jcall{{0, "JRead", nil, []string{"*=*"}, "", false}, {1, "JVar", nil, []string{"?"}, "", false}}},
	{name: "deep", run: func(v interface{}) { subj.JDeep(3, v) },
		shape: []jcall{{0, "JDeep", []string{"n=3", "v=?"}, []string{"*=3"}, "", false}, {1, "JDeep", []string{"n=2", "v=?"}, []string{"*=2"}, "", false}, {2, "JDeep", []string{"n=1", "v=?"}, []string{"*=1"}, "", false}, {3, "JDeep", []string{"n=0", "v=?"}, []string{"*=0"}, "", false}}},
}

// typed places: the argument has the value's own type
func jtyped[T any](mk func() T) func(place int) {
	return func(place int) {
		v := mk()
		switch place {
		case 0:
			subj.J1(v)
		case 1:
			subj.J2(3, v, "s")
		case 2:
			subj.JR(func() T { return v })
		case 3:
			subj.JBox[T]{1, v, "s"}.Val(2)
		case 4:
			(&subj.JBox[T]{1, v, "s"}).Ptr(2)
		}
	}
}

// jcheck runs f under a trace in the given way and compares the tree.
func jcheck(c *explore.Ctx, what string, mode int, v jval, f func(), shape []jcall, pan bool) {
	c.Logf("%s", what)
	c.State(what)
	var data []byte
	cfg := trace.Config{}
	file := ""
	if mode&1 == 0 {
		cfg.OnFinish = func(s stack_model.IStack) {
			c.Step()
			d, err := s.JSON()
			if err != nil {
				c.SoftFail("json-error", "%s: JSON() fails: %v", what, err)
			}
			data = d
		}
	} else {
		file = traceFile()
		cfg.OutputFile = file
		defer os.Remove(file)
	}
	var req interface{} = "req"
	if mode&2 != 0 {
		req = v.v
	}
	c.Step()
	pe, panicked := try(func() {
		trace.Trace(cfg, req, func() (interface{}, error) {
			if mode&4 != 0 {
				_, p := try(f)
				if p != pan {
					c.SoftFail("outcome", "%s: the call panicked: %v, want %v", what, p, pan)
				}
				return v.v, nil
			}
			f()
			return v.v, nil
		})
	})
	wantPan := pan && mode&4 == 0
	if panicked != wantPan {
		c.Fail("outcome", "%s: the traced code panicked: %v (%.300s), want %v", what, panicked, safe(pe), wantPan)
	}
	// the loose mode must not outlive the trace
	if _, err := json.Marshal(func() {}); err == nil {
		c.Fail("loose", "%s: json.Marshal of a func succeeds after the trace", what)
	}
	if file != "" {
		d, err := os.ReadFile(file)
		if err != nil {
			c.Fail("no-file", "%s: no trace file: %v", what, err)
		}
		data = d
	}
	if !json.Valid(data) {
		var x interface{}
		err := json.Unmarshal(data, &x)
		c.Fail("invalid", "%s: the trace is not valid JSON (%v): %.300q", what, err, data)
	}
	var root struct {
		Format   string
		Children []*jentry
	}
	if err := json.Unmarshal(data, &root); err != nil {
		c.Fail("lost", "%s: the trace is not a stack (%v): %.300q", what, err, data)
	}
	if root.Format != "stack" || len(root.Children) != 1 {
		c.Fail("lost", "%s: the trace was lost: %.400q", what, data)
	}
	tr := root.Children[0]
	wantRes := v.want
	if panicked || mode&8 != 0 {
		wantRes = ""
	}
	if tr.FuncInfo == nil || tr.FuncInfo.Name != "Trace" {
		c.Fail("lost", "%s: the root is not the trace: %.300q", what, data)
	}
	reqWant := `"req"`
	if mode&2 != 0 {
		reqWant = v.want
	}
	for _, a := range tr.Args {
		if a.name == "request" && !jsame(a.raw, reqWant) {
			c.Fail("value", "%s: request is %.200s, want %.200s", what, a.raw, reqWant)
		}
	}
	if ms, err := jparse(tr.Results); err != nil || !panicked && ms.names() != "response" {
		c.Fail("shape", "%s: results of Trace: %.200s (%v)", what, tr.Results, err)
	} else if !panicked && !jsame(ms[0].raw, wantRes) {
		c.Fail("value", "%s: response is %.200s, want %.200s", what, ms[0].raw, wantRes)
	}
	var flat []*jentry
	var depths []int
	var walk func(es []*jentry, d int)
	walk = func(es []*jentry, d int) {
		for _, e := range es {
			flat = append(flat, e)
			depths = append(depths, d)
			walk(e.Children, d+1)
		}
	}
	walk(tr.Children, 0)
	total := len(shape)
	if total > jcut && len(flat) == jcut+1 {
		shape = shape[:jcut+1]
	}
	if len(flat) != len(shape) {
		var got []string
		for _, e := range flat {
			got = append(got, e.FuncInfo.Name)
		}
		c.Fail("tree", "%s: recorded %v", what, got)
	}
	for i, want := range shape {
		e := flat[i]
		if want.depth == jcut && strings.Contains(e.FuncInfo.Name, fmt.Sprintf("%d calls nested too deep", total-i)) {
			break // documented limit
		}
		if e.FuncInfo.Name != want.name || depths[i] != want.depth {
			c.Fail("tree", "%s: call %d is %s at depth %d, want %s at %d", what, i, e.FuncInfo.Name, depths[i], want.name, want.depth)
		}
		cmp := func(which string, got jmembers, want []string) {
			if len(got) != len(want) {
				c.Fail("shape", "%s: %s of %s: %s, want %d", what, which, e.FuncInfo.Name, got.names(), len(want))
			}
			for k, w := range want {
				n, text := cutEq(w)
				if n != "*" && got[k].name != n {
					c.Fail("shape", "%s: %s of %s: %s, want %s", what, which, e.FuncInfo.Name, got.names(), w)
				}
				text = jfill(text, v.want)
				if jdepth(text) > 10000 {
					text = "*" // more than encoding/json takes
				}
				if text != "*" && !jsame(got[k].raw, text) {
					c.Fail("value", "%s: %s of %s: %s is %.300s, want %.300s", what, which, e.FuncInfo.Name, n, got[k].raw, text)
				}
			}
		}
		cmp("arguments", e.Args, want.args)
		if len(want.res) == 1 && want.res[0] == "?" {
			if !jsame(string(e.Results), v.want) {
				c.Fail("value", "%s: variable %s is %.300s, want %.300s", what, e.FuncInfo.Name, e.Results, v.want)
			}
		} else if !want.pan {
			ms, err := jparse(e.Results)
			if err != nil {
				c.Fail("shape", "%s: results of %s: %.300s", what, e.FuncInfo.Name, e.Results)
			}
			cmp("results", ms, want.res)
		}
		if e.Panic != want.pan || want.err != "*" && e.Error != want.err {
			c.Fail("error", "%s: %s has panic=%v error=%.200q, want %v %.200q", what, e.FuncInfo.Name, e.Panic, e.Error, want.pan, want.err)
		}
	}
}

// calls nested deeper may be cut
const jcut = 3999

func safe(v interface{}) string {
	s := "?"
	func() {
		defer func() { recover() }()
		switch v.(type) {
		case error, string:
			s = fmt.Sprint(v)
		default:
			s = fmt.Sprintf("%T", v)
		}
	}()
	return s
}

func cutEq(s string) (string, string) {
	if i := strings.Index(s, "="); i >= 0 {
		return s[:i], s[i+1:]
	}
	return "*", s
}

func jfill(text, want string) string {
	// only a ? that stands for the value: {"...":"?"} is text of its own
	if strings.Contains(text, `"?"`) {
		return text
	}
	if strings.Contains(text, "?") && want == "" {
		return "*"
	}
	return strings.ReplaceAll(text, "?", want)
}

var jmodes = 8

func init() {
	suites["c31.val"] = func(depth int) explore.Result {
		leaves := jleaves()
		return explore.Run(explore.Options{Suite: "c31.val", Deadline: deadline}, func(c *explore.Ctx) {
			v := leaves[c.Choose(len(leaves))]
			for i := 0; i < depth; i++ {
				if !c.Bool() {
					break
				}
				v = jwrap(c, v)
			}
			p := jplaces[c.Choose(len(jplaces))]
			mode := c.Choose(jmodes)
			jcheck(c, fmt.Sprintf("%s in %s mode %d", v.name, p.name, mode), mode, v, func() { p.run(v.v) }, p.shape, p.pan)
		})
	}
	suites["c31.huge"] = func(depth int) explore.Result {
		huge := jhuge()
		return explore.Run(explore.Options{Suite: "c31.huge", Deadline: deadline}, func(c *explore.Ctx) {
			v := huge[c.Choose(len(huge))]
			for i := 0; i < depth; i++ {
				if !c.Bool() {
					break
				}
				v = jwrap(c, v)
			}
			p := jplaces[c.Choose(len(jplaces))]
			mode := c.Choose(2)
			jcheck(c, fmt.Sprintf("%s in %s mode %d", v.name, p.name, mode), mode, v, func() { p.run(v.v) }, p.shape, p.pan)
		})
	}
	suites["c31.err"] = func(depth int) explore.Result {
		var p *int
		errs := []struct {
			err  error
			want string
		}{
			{nil, ""},
			{errors.New("plain"), "plain"},
			{errors.New(""), ""},
			{errors.New("q\" \\ \n \x00\x1b\x7f \u2028 \U0001f600 <&>"), "q\" \\ \n \x00\x1b\x7f \u2028 \U0001f600 <&>"},
			{errors.New("\xff\xe4\xbd"), "\ufffd\ufffd\ufffd"},
			{&jBadErr{p}, "*"},
			{(*jBadErr)(nil), "*"},
			{errors.New(strings.Repeat("\x7f", jlimit*2)), "*"},
			{fmt.Errorf("wrap: %w", os.ErrNotExist), "wrap: file does not exist"},
		}
		return explore.Run(explore.Options{Suite: "c31.err", Deadline: deadline}, func(c *explore.Ctx) {
			e := errs[c.Choose(len(errs))]
			mocked := c.Bool()
			mode := c.Choose(2)
			args := []string{"err=*"}
			want := e.want
			f := func() {
				if mocked {
					defer mock.Patch(subj.JErr, func(err error) error { return err })()
				}
				subj.JErr(e.err)
			}
			jcheck(c, fmt.Sprintf("error %.20q mocked=%v mode %d", want, mocked, mode), mode, jval{name: "x", v: 1, want: "1"}, f,
				[]jcall{{0, "JErr", args, nil, want, false}}, false)
		})
	}
	suites["c31.typed"] = func(depth int) explore.Result {
		type tk struct {
			jval
			run func(int)
		}
		mk := func(name string, addr interface{}, want string, run func(int)) tk {
			v := jval{name: name, v: addr, want: want}
			fillWant(&v)
			return tk{v, run}
		}
		cyc := jNode{N: 1}
		cyc.Next = &cyc
		ks := []tk{
			mk("int", 3, "", jtyped(func() int { return 3 })),
			mk("string", "\x7f\xff", "", jtyped(func() string { return "\x7f\xff" })),
			mk("func", nil, `{"func()":"?"}`, jtyped(func() func() { return nil })),
			mk("chan", nil, `{"chan int":"?"}`, jtyped(func() chan int { return nil })),
			mk("nan", math.NaN(), "", jtyped(math.NaN)),
			mk("complex", nil, `{"complex128":"?"}`, jtyped(func() complex128 { return 1 })),
			mk("ptrvalue", &jPtrPanic{1}, "", jtyped(func() jPtrPanic { return jPtrPanic{1} })),
			mk("ptrvaluepanic", &jPtrPanic{7}, "", jtyped(func() jPtrPanic { return jPtrPanic{7} })),
			mk("ptr", &jPtrPanic{1}, "", jtyped(func() *jPtrPanic { return &jPtrPanic{1} })),
			mk("nilptr", nil, "null", jtyped(func() *jPtrPanic { return nil })),
			mk("fail", jFail{}, "", jtyped(func() jFail { return jFail{errors.New("\x01")} })),
			mk("panic", jFail{}, "", jtyped(func() jPanic { return jPanic{(*jBadErr)(nil)} })),
			mk("iface", nil, "null", jtyped(func() error { return nil })),
			mk("ifacebad", jFail{}, "", jtyped(func() error { return (*jBadErr)(nil) })),
			mk("stringer", jFail{}, "", jtyped(func() fmt.Stringer { return jStringPanic{} })),
			mk("cyclic", jFail{}, "", jtyped(func() jNode { return cyc })),
			mk("map", jFail{}, `{"a":{"func()":"?"}}`, jtyped(func() map[string]func() { return map[string]func(){"a": nil} })),
			mk("slice", jFail{}, `[{"chan int":"?"},{"chan int":"?"}]`, jtyped(func() []chan int { return make([]chan int, 2) })),
			mk("array", jFail{}, `[{"func()":"?"}]`, jtyped(func() [1]func() { return [1]func(){} })),
			mk("fields", jFail{}, `{"A":1,"F":{"func()":"?"},"c":{"chan string":"?"},"P":{"unsafe.Pointer":"?"},"Z":{"complex128":"?"},"B":"b"}`, jtyped(func() jFields { return jFields{A: 1, B: "b"} })),
			mk("raw", jFail{}, "", jtyped(func() json.RawMessage { return json.RawMessage("{") })),
			mk("empty", struct{}{}, "", jtyped(func() struct{} { return struct{}{} })),
			mk("text", jText{"fail"}, "", jtyped(func() jText { return jText{"fail"} })),
			mk("mutex", &sync.Mutex{}, "", jtyped(func() *sync.Mutex { return &sync.Mutex{} })),
		}
		for i := range ks {
			if ks[i].name == "ifacebad" || ks[i].name == "stringer" {
				ks[i].want = ""
			}
		}
		shapes := func(place int, ftype string) []jcall {
			switch place {
			case 0:
				return []jcall{{0, "J1", []string{"v=?"}, nil, "", false}}
			case 1:
				return []jcall{{0, "J2", []string{"before=3", "v=?", `after="s"`}, []string{"n=3"}, "", false}}
			case 2:
				return []jcall{{0, "JR", []string{`mk=*`}, []string{"r=?", `s="sibling"`}, "", false}}
			case 3:
				return []jcall{{0, "JBox.Val", []string{`b={"Before":1,"V":?,"After":"s"}`, "n=2"}, []string{"*=2"}, "", false}}
			}
			return []jcall{{0, "(*JBox).Ptr", []string{`b={"Before":1,"V":?,"After":"s"}`, "n=2"}, []string{"*=2"}, "", false}}
		}
		return explore.Run(explore.Options{Suite: "c31.typed", Deadline: deadline}, func(c *explore.Ctx) {
			k := ks[c.Choose(len(ks))]
			place := c.Choose(5)
			mode := c.Choose(2)
			v := k.jval
			// the response of the trace is not the value
			jcheck(c, fmt.Sprintf("typed %s in %d mode %d", k.name, place, mode), mode|8, v, func() { k.run(place) }, shapes(place, ""), false)
		})
	}
	// in a process of its own: it may overflow the stack
	suites["c31.iface"] = func(depth int) explore.Result {
		return explore.Run(explore.Options{Suite: "c31.iface", Deadline: deadline}, func(c *explore.Ctx) {
			var cif interface{}
			cif = &cif
			p := jplaces[c.Choose(len(jplaces)-1)]
			jcheck(c, "an interface that points to itself in "+p.name, 0, jval{"cyciface", cif, ""}, func() { p.run(cif) }, p.shape, p.pan)
		})
	}
	suites["c31.depth"] = func(depth int) explore.Result {
		depths := []int{10, 100, 1000, 2000, 3990, 3997, 3998, 3999, 4000, 4001, 4002, 4900, 4990, 5000, 6000, 20000}
		return explore.Run(explore.Options{Suite: "c31.depth", Deadline: deadline}, func(c *explore.Ctx) {
			n := depths[c.Choose(len(depths))]
			var shape []jcall
			for i := 0; i <= n; i++ {
				shape = append(shape, jcall{i, "JDeep", []string{fmt.Sprintf("n=%d", n-i), "v=1"}, []string{fmt.Sprintf("*=%d", n-i)}, "", false})
			}
			jcheck(c, fmt.Sprintf("recursion %d", n), c.Choose(2), jval{name: "1", v: 1, want: "1"}, func() { subj.JDeep(n, 1) }, shape, false)
		})
	}
}
