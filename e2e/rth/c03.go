package rth

import (
	"context"
	"fmt"
	"strings"

	"github.com/xhd2015/xgo/runtime/core"
	"github.com/xhd2015/xgo/runtime/mock"
	"github.com/xhd2015/xgo/runtime/trace"

	"verif.local/explore"
	"verifrt/subj"
)

// vread reads a variable in instrumented code; want computes what it shows when
// the read yields v.
type vread[T any] struct {
	name string
	ptr  bool // reads through the address
	get  func() string
	want func(v T) string
}

// vwrite stores in instrumented code.
type vwrite[T any] struct {
	name string
	do   func()
	want func(v T) T
}

type vcase[T any] struct {
	name   string
	p      *T // the storage
	vals   []T
	show   func(T) string
	reads  []vread[T]
	writes []vwrite[T]
}

type vmock[T any] struct {
	kind   string
	ptr    bool
	v      *T
	pass   bool
	cancel func()
}

// vsys is a vcase with its mocks, seen without its type.
type vsys interface {
	reset()
	ops(c *explore.Ctx) []vop
	check(c *explore.Ctx)
	state() string
}

type vop struct {
	name string
	run  func()
}

type vinst[T any] struct {
	vc    vcase[T]
	kinds string
	init  T
	real  T
	mocks []*vmock[T]
	n     int
}

func newVsys[T any](vc vcase[T], kinds string) vsys {
	return &vinst[T]{vc: vc, init: *vc.p, kinds: kinds}
}

func (s *vinst[T]) reset() {
	*s.vc.p = s.init
	s.real = s.init
	s.mocks = nil
	s.n = 0
}

func (s *vinst[T]) view(ptr bool) T {
	for i := len(s.mocks) - 1; i >= 0; i-- {
		if m := s.mocks[i]; m.ptr == ptr {
			if m.pass {
				return s.real
			}
			return *m.v
		}
	}
	return s.real
}

func (s *vinst[T]) push(kind string, v *T) func() {
	vc := s.vc
	switch kind {
	case "patch":
		return mock.Patch(vc.p, func() T { return *v })
	case "mock":
		return mock.Mock(vc.p, func(ctx context.Context, fn *core.FuncInfo, args, res core.Object) error {
			if fn.Name != vc.name || fn.Kind != core.Kind_Var {
				panic("mock of " + vc.name + " called for " + fn.Name)
			}
			res.GetFieldIndex(0).Set(*v)
			return nil
		})
	case "pass": // looks, but changes nothing
		return mock.Mock(vc.p, func(ctx context.Context, fn *core.FuncInfo, args, res core.Object) error {
			return nil
		})
	case "mockname":
		return mock.MockByName(pkgSubj, vc.name, func(ctx context.Context, fn *core.FuncInfo, args, res core.Object) error {
			res.GetFieldIndex(0).Set(*v)
			return nil
		})
	case "patchname":
		return mock.PatchByName(pkgSubj, vc.name, func() T { return *v })
	case "ppatch":
		return mock.Patch(vc.p, func() *T { return v })
	case "ppatchname":
		return mock.PatchByName(pkgSubj, "*"+vc.name, func() *T { return v })
	case "pmockname":
		return mock.MockByName(pkgSubj, "*"+vc.name, func(ctx context.Context, fn *core.FuncInfo, args, res core.Object) error {
			res.GetFieldIndex(0).Set(v)
			return nil
		})
	}
	panic(kind)
}

func (s *vinst[T]) ops(c *explore.Ctx) []vop {
	var ops []vop
	for _, k := range strings.Fields(s.kinds) {
		k := k
		ops = append(ops, vop{"+" + s.vc.name + "." + k, func() {
			v := new(T)
			*v = s.vc.vals[s.n%len(s.vc.vals)]
			s.n++
			m := &vmock[T]{kind: k, ptr: k[:2] == "pp" || k == "pmockname", v: v, pass: k == "pass"}
			if pe, bad := try(func() { m.cancel = s.push(k, v) }); bad {
				c.Fail("install-panic "+s.vc.name+"."+k, "installing %s.%s panicked: %v", s.vc.name, k, pe)
			}
			s.mocks = append(s.mocks, m)
		}})
	}
	for i, m := range s.mocks {
		i, m := i, m
		ops = append(ops, vop{fmt.Sprintf("-%s.%s(%d)", s.vc.name, m.kind, i), func() {
			if pe, bad := try(m.cancel); bad {
				c.Fail("cancel-panic "+s.vc.name+"."+m.kind, "cancelling panicked: %v", pe)
			}
			s.mocks = append(append([]*vmock[T]{}, s.mocks[:i]...), s.mocks[i+1:]...)
		}})
	}
	for _, w := range s.vc.writes {
		w := w
		ops = append(ops, vop{w.name, func() {
			if pe, bad := try(w.do); bad {
				c.Fail("write-panic "+w.name, "%s panicked: %v", w.name, pe)
			}
			s.real = w.want(s.real)
		}})
	}
	return ops
}

func (s *vinst[T]) check(c *explore.Ctx) {
	storage := func(when string) {
		if g, w := s.vc.show(*s.vc.p), s.vc.show(s.real); g != w {
			c.Fail("storage "+s.vc.name, "%s: the storage of %s holds %s, want %s", when, s.vc.name, g, w)
		}
	}
	storage("before reading")
	for _, r := range s.vc.reads {
		var got string
		if pe, bad := try(func() { got = r.get() }); bad {
			c.Fail("read-panic "+r.name, "%s panicked: %v", r.name, pe)
		}
		if want := r.want(s.view(r.ptr)); got != want {
			c.Fail("read "+r.name, "%s gave %s, want %s", r.name, got, want)
		}
		storage("after " + r.name)
	}
}

func (s *vinst[T]) state() string {
	var l []string
	for _, m := range s.mocks {
		l = append(l, m.kind+s.vc.show(*m.v))
	}
	return s.vc.show(s.real) + "/" + strings.Join(l, ",")
}

func vi(f func() int) func() string { return func() string { return fmt.Sprint(f()) } }

func is[T any](f func(T) int) func(T) string { return func(v T) string { return fmt.Sprint(f(v)) } }

func rint(name string, get func() int, f func(int) int) vread[int] {
	return vread[int]{name, false, vi(get), is(f)}
}

func id[T any](x T) T { return x }

var vInt = vcase[int]{
	name: "VInt", p: &subj.VInt, vals: []int{2, 31, 32}, show: func(x int) string { return fmt.Sprint(x) },
	reads: []vread[int]{
		rint("RInt", subj.RInt, id[int]),
		rint("RIntExpr", subj.RIntExpr, func(x int) int { return x + x*10 + 100 }),
		rint("RIntMulti", func() int { a, b := subj.RIntMulti(); return a*1000 + b }, func(x int) int { return x*1000 + x }),
		rint("RIntShadow", subj.RIntShadow, func(int) int { return 77 }),
		rint("RIntParam", func() int { return subj.RIntParam(78) }, func(int) int { return 78 }),
		rint("RIntClosure", subj.RIntClosure, id[int]),
		rint("RIntLoop", subj.RIntLoop, id[int]),
		{"RIntSwitch", false, subj.RIntSwitch, func(x int) string {
			return map[int]string{1: "one", 2: "two"}[x] + map[bool]string{true: "", false: "other"}[x == 1 || x == 2]
		}},
		{"RIntPtr", true, vi(subj.RIntPtr), is(id[int])},
		{"RIntAddrCall", true, vi(subj.RIntAddrCall), is(id[int])},
	},
	writes: []vwrite[int]{
		{"WInt", func() { subj.WInt(9) }, func(int) int { return 9 }},
		{"WIntOp", func() { subj.WIntOp(10) }, func(v int) int { return v + 11 }},
	},
}

var vStr = vcase[string]{
	name: "VStr", p: &subj.VStr, vals: []string{"x", "y", "z"}, show: func(x string) string { return x },
	reads: []vread[string]{
		{"RStr", false, subj.RStr, func(v string) string { return v + "!" }},
		{"RStrLen", false, vi(subj.RStrLen), is(func(v string) int { return len(v) })},
		{"RStrIdx", false, vi(subj.RStrIdx), is(func(v string) int { return int(v[0]) })},
		{"RStrCmp", false, func() string { return fmt.Sprint(subj.RStrCmp("y")) }, func(v string) string { return fmt.Sprint(v == "y") }},
		{"RStrPtr", true, func() string { return *subj.RStrPtr() }, id[string]},
	},
	writes: []vwrite[string]{{"WStr", func() { subj.WStr("wrote") }, func(string) string { return "wrote" }}},
}

func conf(n int) subj.Conf {
	return subj.Conf{N: n, S: fmt.Sprint("s", n), Sub: subj.Sub{K: n + 1}, P: &subj.Sub{K: n + 2}, M: map[string]int{"k": n + 3}, List: []int{n, n + 4}}
}

func showConf(x subj.Conf) string {
	p := -1
	if x.P != nil {
		p = x.P.K
	}
	return fmt.Sprint(x.N, x.S, x.Sub.K, p, x.M, x.List)
}

type cf = subj.Conf

var vStruct = vcase[cf]{
	name: "VStruct", p: &subj.VStruct, vals: []cf{conf(100), conf(200), conf(300)}, show: showConf,
	reads: []vread[cf]{
		{"RStructN", false, vi(subj.RStructN), is(func(v cf) int { return v.N })},
		{"RStructSub", false, vi(subj.RStructSub), is(func(v cf) int { return v.Sub.K })},
		{"RStructP", false, vi(subj.RStructP), is(func(v cf) int { return v.P.K })},
		{"RStructM", false, vi(subj.RStructM), is(func(v cf) int { return v.M["k"] })},
		{"RStructList", false, vi(subj.RStructList), is(func(v cf) int { return v.List[1] })},
		{"RStructCopy", false, func() string { return showConf(subj.RStructCopy()) }, showConf},
		{"RStructAddr", true, func() string { return showConf(*subj.RStructAddr()) }, showConf},
	},
	writes: []vwrite[cf]{
		{"WStructN", func() { subj.WStructN(7) }, func(v cf) cf { v.N = 7; return v }},
		{"WStructSub", func() { subj.WStructSub(8) }, func(v cf) cf { v.Sub.K = 8; return v }},
		{"WStruct", func() { subj.WStruct(conf(400)) }, func(v cf) cf { return conf(400) }},
	},
}

var vPtr = vcase[*cf]{
	name: "VPtr", p: &subj.VPtr, vals: []*cf{pc(conf(100)), pc(conf(200)), pc(conf(300))}, show: func(x *cf) string { return fmt.Sprintf("%p", x) },
	reads: []vread[*cf]{
		{"RPtrN", false, vi(subj.RPtrN), is(func(v *cf) int { return v.N })},
		{"RPtr", false, func() string { return fmt.Sprintf("%p", subj.RPtr()) }, func(v *cf) string { return fmt.Sprintf("%p", v) }},
		{"RPtrDeref", false, func() string { return showConf(subj.RPtrDeref()) }, func(v *cf) string { return showConf(*v) }},
	},
	writes: []vwrite[*cf]{{"WPtr", func() { subj.WPtr(wptr) }, func(*cf) *cf { return wptr }}},
}

var wptr = pc(conf(500))

func pc(c cf) *cf { return &c }

var vArr = vcase[[2]int]{
	name: "VArr", p: &subj.VArr, vals: [][2]int{{10, 11}, {20, 21}, {30, 31}}, show: func(x [2]int) string { return fmt.Sprint(x) },
	reads: []vread[[2]int]{
		{"RArr1", false, vi(func() int { return subj.RArr(1) }), is(func(v [2]int) int { return v[1] })},
		{"RArrLen", false, vi(subj.RArrLen), is(func(v [2]int) int { return len(v) })},
		{"RArrCopy", false, func() string { return fmt.Sprint(subj.RArrCopy()) }, func(v [2]int) string { return fmt.Sprint(v) }},
	},
	writes: []vwrite[[2]int]{{"WArr", func() { subj.WArr(1, 7) }, func(v [2]int) [2]int { v[1] = 7; return v }}},
}

var vSlice = vcase[[]int]{
	name: "VSlice", p: &subj.VSlice, vals: [][]int{{10, 11}, {20, 21, 22}, {30, 31}}, show: func(x []int) string { return fmt.Sprint(x) },
	reads: []vread[[]int]{
		{"RSlice1", false, vi(func() int { return subj.RSlice(1) }), is(func(v []int) int { return v[1] })},
		{"RSliceLen", false, vi(subj.RSliceLen), is(func(v []int) int { return len(v) })},
		{"RSliceRange", false, vi(subj.RSliceRange), is(func(v []int) int {
			s := 0
			for _, x := range v {
				s += x
			}
			return s
		})},
	},
	writes: []vwrite[[]int]{{"WSliceSet", func() { subj.WSliceSet([]int{7, 8}) }, func(v []int) []int { return []int{7, 8} }}},
}

var vMap = vcase[map[string]int]{
	name: "VMap", p: &subj.VMap, vals: []map[string]int{{"a": 10}, {"a": 20, "b": 21}, {}}, show: func(x map[string]int) string { return fmt.Sprint(x) },
	reads: []vread[map[string]int]{
		{"RMap", false, vi(func() int { return subj.RMap("a") }), is(func(v map[string]int) int { return v["a"] })},
		{"RMapLen", false, vi(subj.RMapLen), is(func(v map[string]int) int { return len(v) })},
	},
	writes: []vwrite[map[string]int]{{"WMapSet", func() { subj.WMapSet(map[string]int{"a": 7}) }, func(map[string]int) map[string]int { return map[string]int{"a": 7} }}},
}

var vIface = vcase[interface{}]{
	name: "VIface", p: &subj.VIface, vals: []interface{}{10, 20, 30}, show: func(x interface{}) string { return fmt.Sprint(x) },
	reads: []vread[interface{}]{
		{"RIface", false, vi(subj.RIface), is(func(v interface{}) int { n, _ := v.(int); return n })},
		{"RIfaceNil", false, func() string { return fmt.Sprint(subj.RIfaceNil()) }, func(v interface{}) string { return fmt.Sprint(v == nil) }},
	},
	writes: []vwrite[interface{}]{{"WIface", func() { subj.WIface("str") }, func(interface{}) interface{} { return "str" }}},
}

var vMy = vcase[subj.MyInt]{
	name: "VMy", p: &subj.VMy, vals: []subj.MyInt{10, 20, 30}, show: func(x subj.MyInt) string { return fmt.Sprint(int(x)) },
	reads: []vread[subj.MyInt]{
		{"RMyConv", false, vi(subj.RMyConv), is(func(v subj.MyInt) int { return int(v) })},
		{"RMyVal", false, vi(func() int { return int(subj.RMyVal()) }), is(func(v subj.MyInt) int { return int(v) })},
		{"RMyConvGet", false, vi(subj.RMyConvGet), is(func(v subj.MyInt) int { return int(v) })},
	},
	writes: []vwrite[subj.MyInt]{{"WMy", func() { subj.WMy(3) }, func(v subj.MyInt) subj.MyInt { return 3 }}},
}

const allKinds = "patch mock pass mockname patchname ppatch ppatchname pmockname"

func varSuite(name string, sys ...func() vsys) {
	suites["c03."+name] = func(depth int) explore.Result {
		var ss []vsys
		for _, f := range sys {
			ss = append(ss, f())
		}
		// the storage of the variables is shared: one execution at a time
		return explore.Run(explore.Options{Suite: "c03." + name, Workers: 1, Deadline: deadline}, func(c *explore.Ctx) {
			for _, s := range ss {
				s.reset()
			}
			// a recorder sees every read but changes nothing
			if name == "rec" {
				defer trace.RecordCall(&subj.VInt, func(x int) {})()
			}
			check := func() {
				for _, s := range ss {
					s.check(c)
				}
			}
			check()
			for d := 0; d < depth; d++ {
				var ops []vop
				for _, s := range ss {
					ops = append(ops, s.ops(c)...)
				}
				o := ops[c.Choose(len(ops))]
				c.Logf("%s", o.name)
				c.Step()
				o.run()
				check()
				var st []string
				for _, s := range ss {
					st = append(st, s.state())
				}
				c.State(name + strings.Join(st, "|"))
			}
		})
	}
}

func init() {
	one := func() vsys { return newVsys(vInt, allKinds) }
	varSuite("int", one)
	varSuite("str", func() vsys { return newVsys(vStr, allKinds) })
	varSuite("struct", func() vsys { return newVsys(vStruct, "patch mock pass mockname ppatch pmockname") })
	varSuite("ptr", func() vsys { return newVsys(vPtr, "patch mock mockname patchname ppatch") })
	varSuite("arr", func() vsys { return newVsys(vArr, "patch mock mockname patchname ppatch") })
	varSuite("slice", func() vsys { return newVsys(vSlice, "patch mock mockname patchname ppatch") })
	varSuite("map", func() vsys { return newVsys(vMap, "patch mock mockname patchname ppatch") })
	varSuite("iface", func() vsys { return newVsys(vIface, "patch mock mockname patchname ppatch") })
	varSuite("my", func() vsys { return newVsys(vMy, "patch mock mockname patchname ppatch") })
	varSuite("rec", func() vsys { return newVsys(vInt, "patch pass ppatch") })
	varSuite("mix", func() vsys { return newVsys(vInt, "patch ppatch") }, func() vsys { return newVsys(vStr, "mock pmockname") }, func() vsys { return newVsys(vStruct, "mockname ppatch") })
}
