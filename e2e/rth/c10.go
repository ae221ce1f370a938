package rth

import (
	"context"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"reflect"
	"runtime"
	"sort"
	"strings"

	"github.com/xhd2015/xgo/runtime/core"
	"github.com/xhd2015/xgo/runtime/functab"
	"github.com/xhd2015/xgo/runtime/trap"

	"verif.local/explore"
)

// ShapePkg is a generated package: where its sources are and its functions.
type ShapePkg struct {
	Path, Dir    string
	Values, Inst map[string]interface{}
	Vars         map[string]interface{} // listed package variables
	Main         bool
}

// Shapes is filled in by the generated main program.
var Shapes []*ShapePkg

type decl10 struct {
	pkg       *ShapePkg
	ident     string
	name      string
	recv      string
	recvType  string
	ptr       bool
	generic   bool
	intf      bool
	isVar     bool
	file      string
	line      int
	args, res []string
	value     interface{}
	inst      interface{}
}

// fieldNames lists the names of the source; "" stands for unnamed and blank.
func fieldNames(l *ast.FieldList) []string {
	var out []string
	if l == nil {
		return nil
	}
	for _, f := range l.List {
		if len(f.Names) == 0 {
			out = append(out, "")
		}
		for _, n := range f.Names {
			if n.Name == "_" {
				out = append(out, "")
			} else {
				out = append(out, n.Name)
			}
		}
	}
	return out
}

func parseShapes(p *ShapePkg) (out []*decl10) {
	fset := token.NewFileSet()
	ents, err := os.ReadDir(p.Dir)
	if err != nil {
		panic(err)
	}
	for _, ent := range ents {
		if !strings.HasSuffix(ent.Name(), ".go") {
			continue
		}
		file := filepath.Join(p.Dir, ent.Name())
		f, err := parser.ParseFile(fset, file, nil, parser.ParseComments)
		if err != nil {
			panic(err)
		}
		for _, d := range f.Decls {
			switch d := d.(type) {
			case *ast.FuncDecl:
				x := &decl10{pkg: p, name: d.Name.Name, ident: d.Name.Name, file: file, line: fset.Position(d.Pos()).Line}
				x.args, x.res = fieldNames(d.Type.Params), fieldNames(d.Type.Results)
				if d.Recv != nil {
					x.recv = fieldNames(d.Recv)[0]
					t := d.Recv.List[0].Type
					if s, ok := t.(*ast.StarExpr); ok {
						x.ptr = true
						t = s.X
					}
					switch g := t.(type) {
					case *ast.IndexExpr:
						x.generic, t = true, g.X
					case *ast.IndexListExpr:
						x.generic, t = true, g.X
					}
					x.recvType = t.(*ast.Ident).Name
					x.ident = x.recvType + "." + x.name
					if x.ptr {
						x.ident = "(*" + x.recvType + ")." + x.name
					}
				}
				if d.Type.TypeParams != nil {
					x.generic = true
				}
				x.value, x.inst = p.Values[x.ident], p.Inst[x.ident]
				if !p.Main && x.value == nil && x.inst == nil && !ast.IsExported(x.name) {
					continue // not exported
				}
				out = append(out, x)
			case *ast.GenDecl:
				for _, s := range d.Specs {
					switch s := s.(type) {
					case *ast.TypeSpec:
						if _, ok := s.Type.(*ast.InterfaceType); ok {
							if !p.Main && (s.TypeParams != nil || s.Assign.IsValid() || !s.Name.IsExported()) {
								continue
							}
							out = append(out, &decl10{pkg: p, ident: s.Name.Name, name: s.Name.Name, recvType: s.Name.Name, intf: true, file: file, line: fset.Position(s.Pos()).Line})
						}
					case *ast.ValueSpec:
						for _, n := range s.Names {
							if v := p.Vars[n.Name]; v != nil {
								out = append(out, &decl10{pkg: p, ident: n.Name, name: n.Name, isVar: true, file: file, line: fset.Position(n.Pos()).Line, res: []string{n.Name}, value: v})
							}
						}
					}
				}
			}
		}
	}
	return
}

// sameNames: unnamed and blank ones may have any name.
func sameNames(got, src []string) bool {
	if len(got) != len(src) {
		return false
	}
	seen := map[string]bool{}
	for i, g := range got {
		if src[i] != "" && g != src[i] {
			return false
		}
		if g != "" && g != "_" && seen[g] {
			return false
		}
		seen[g] = true
	}
	return true
}

func label(f *core.FuncInfo) string {
	if f == nil {
		return "nothing"
	}
	return fmt.Sprintf("%s %s.%s (%s:%d)", f.Kind, f.Pkg, f.IdentityName, filepath.Base(f.File), f.Line)
}

var c10routes = strings.Fields("list Info GetFuncByPkg GetFuncByPkgDot FullName PCName InfoFunc InfoPC TypeMethods InfoVar call intf")

func init() {
	suites["c10.decl"] = func(int) explore.Result {
		var decls []*decl10
		count := map[string]int{}
		entry := map[string]*core.FuncInfo{}
		for _, f := range functab.GetFuncs() {
			k := fmt.Sprintf("%v %v %s %s", f.Interface, f.Kind, f.Pkg, f.IdentityName)
			count[k]++
			entry[k] = f
		}
		known := map[string]bool{}
		for _, p := range Shapes {
			decls = append(decls, parseShapes(p)...)
		}
		for _, d := range decls {
			kind := core.Kind_Func
			if d.isVar {
				kind = core.Kind_Var
			}
			known[fmt.Sprintf("%v %v %s %s", d.intf, kind, d.pkg.Path, d.ident)] = true
		}
		var keys []string
		for k := range count {
			keys = append(keys, k)
		}
		sort.Strings(keys)
		return explore.Run(explore.Options{Suite: "c10.decl", Deadline: deadline, Workers: 1}, func(c *explore.Ctx) {
			n := c.Choose(len(decls) + 1)
			if n == len(decls) {
				// nothing else is listed for these packages
				for _, k := range keys {
					w := strings.Fields(k)
					for _, p := range Shapes {
						if w[2] == p.Path && !known[k] && w[1] == "func" {
							c.Fail("extra", "listed but not declared: %s", k)
						}
					}
				}
				return
			}
			d := decls[n]
			route := c10routes[c.Choose(len(c10routes))]
			kind := core.Kind_Func
			if d.isVar {
				kind = core.Kind_Var
			}
			k := fmt.Sprintf("%v %v %s %s", d.intf, kind, d.pkg.Path, d.ident)
			e := entry[k]
			what := fmt.Sprintf("%s.%s (%s:%d)", d.pkg.Path, d.ident, filepath.Base(d.file), d.line)
			c.Logf("%s %s", route, what)
			expect := func(f *core.FuncInfo) {
				if f != e {
					c.Fail(route, "%s by %s gives %s", what, route, label(f))
				}
			}
			c.Step()
			c.State(what + route)
			if e == nil {
				c.Fail("unlisted", "%s is not listed", what)
			}
			fn := !d.intf && !d.isVar
			switch route {
			case "list":
				if count[k] != 1 {
					c.Fail("count", "%s is listed %d times", what, count[k])
				}
				if e.Name != d.name || e.Line != d.line || e.RecvType != d.recvType || e.RecvPtr != d.ptr || e.Generic != d.generic || e.Closure || e.Stdlib {
					c.Fail("identity", "%s is listed with name %s line %d receiver type %q pointer %v generic %v", what, e.Name, e.Line, e.RecvType, e.RecvPtr, e.Generic)
				}
				if e.File != d.file {
					c.Fail("file", "%s is listed in file %s", what, e.File)
				}
				if d.recv != "" && e.RecvName != d.recv {
					c.Fail("recvname", "%s is listed with receiver name %q, want %q", what, e.RecvName, d.recv)
				}
				if fn && (!sameNames(e.ArgNames, d.args) || !sameNames(e.ResNames, d.res)) || d.isVar && !sameNames(e.ResNames, d.res) {
					c.Fail("names", "%s is listed with parameters %q and results %q, want %q and %q", what, e.ArgNames, e.ResNames, d.args, d.res)
				}
				if fn && d.value != nil {
					t := reflect.TypeOf(d.value)
					off := 0
					if d.recvType != "" {
						off = 1
					}
					ctx := t.NumIn() > off && t.In(off).Implements(reflect.TypeOf((*context.Context)(nil)).Elem())
					er := t.NumOut() > 0 && t.Out(t.NumOut()-1) == reflect.TypeOf((*error)(nil)).Elem()
					if e.FirstArgCtx != ctx || e.LastResultErr != er {
						c.Fail("ctxerr", "%s: FirstArgCtx %v LastResultErr %v, want %v %v", what, e.FirstArgCtx, e.LastResultErr, ctx, er)
					}
					if e.Func == nil || reflect.ValueOf(e.Func).Pointer() != reflect.ValueOf(d.value).Pointer() || reflect.TypeOf(e.Func) != t {
						c.Fail("func", "%s: Func is %T, want the function itself", what, e.Func)
					}
				}
			case "Info":
				expect(functab.Info(d.pkg.Path, d.ident))
			case "GetFuncByPkg":
				expect(functab.GetFuncByPkg(d.pkg.Path, d.ident))
			case "GetFuncByPkgDot":
				if d.ptr {
					expect(functab.GetFuncByPkg(d.pkg.Path, d.recvType+"."+d.name))
				}
			case "FullName":
				if fn && !d.generic || d.isVar {
					if e.FullName == "" {
						c.Fail("fullname", "%s has no full name", what)
					}
					expect(functab.GetFuncByFullName(e.FullName))
				}
				if fn && d.generic {
					i := strings.LastIndex(d.pkg.Path, "/") + 1
					path := d.pkg.Path[:i] + strings.ReplaceAll(d.pkg.Path[i:], ".", "%2e") // as the compiler names it
					n := path + "." + d.ident + "[...]"
					if d.recvType != "" {
						n = path + "." + strings.Replace(strings.Replace(d.ident, d.recvType+")", d.recvType+"[...])", 1), d.recvType+".", d.recvType+"[...].", 1)
					}
					expect(functab.GetFuncByFullName(n))
				}
			case "PCName":
				if fn && d.value != nil {
					expect(functab.GetFuncByFullName(runtime.FuncForPC(reflect.ValueOf(d.value).Pointer()).Name()))
				}
			case "InfoFunc":
				if fn && d.value != nil {
					expect(functab.InfoFunc(d.value))
				}
			case "InfoPC":
				if fn && d.value != nil {
					expect(functab.InfoPC(reflect.ValueOf(d.value).Pointer()))
					expect(functab.InfoPC(e.PC))
				}
			case "TypeMethods":
				if fn && d.value != nil && d.recvType != "" {
					expect(functab.GetTypeMethods(reflect.TypeOf(d.value).In(0))[d.name])
				}
			case "InfoVar":
				if d.isVar {
					expect(functab.InfoVar(d.value))
					expect(functab.InfoVarAddr(reflect.ValueOf(d.value).Pointer()))
				}
			case "intf":
				if d.intf {
					expect(functab.GetFuncByFullName(d.pkg.Path + "." + d.ident + ".AnyMethod"))
				}
			case "call":
				v := d.value
				if v == nil {
					v = d.inst
				}
				if !fn || v == nil {
					return
				}
				var seen []*core.FuncInfo
				var args, res []string
				cancel := trap.AddInterceptor(&trap.Interceptor{Pre: func(ctx context.Context, f *core.FuncInfo, a, r core.Object) (interface{}, error) {
					seen = append(seen, f)
					args, res = nil, nil
					for i := 0; i < a.NumField(); i++ {
						args = append(args, a.GetFieldIndex(i).Name())
						a.GetFieldIndex(i).Value()
					}
					for i := 0; i < r.NumField(); i++ {
						res = append(res, r.GetFieldIndex(i).Name())
						r.GetFieldIndex(i).Value()
					}
					return nil, trap.ErrMocked
				}})
				rv := reflect.ValueOf(v)
				var in []reflect.Value
				for i := 0; i < rv.Type().NumIn(); i++ {
					if !(rv.Type().IsVariadic() && i == rv.Type().NumIn()-1) {
						in = append(in, reflect.Zero(rv.Type().In(i)))
					}
				}
				pe, panicked := try(func() { rv.Call(in) })
				cancel()
				if panicked {
					c.Fail("call", "calling %s with an interceptor panics: %v", what, pe)
				}
				if len(seen) != 1 || seen[0] != e {
					c.Fail("call", "calling %s reaches the interceptor as %v", what, seen)
				}
				want := d.args
				if d.recvType != "" {
					want = append([]string{d.recv}, want...)
				}
				if !sameNames(args, want) || !sameNames(res, d.res) {
					c.Fail("callnames", "the interceptor of %s sees parameters %q results %q, want %q %q", what, args, res, want, d.res)
				}
			}
		})
	}
	// c10.lookup: names near existing ones
	suites["c10.lookup"] = func(int) explore.Result {
		p := Shapes[0]
		var bases []string
		for _, f := range functab.GetFuncs() {
			for _, s := range Shapes {
				if f.Pkg == s.Path && (f.Line%40 == 0 || f.Interface) {
					bases = append(bases, f.FullName, f.Pkg+"."+f.IdentityName)
				}
			}
		}
		bases = append(bases, "", ".", "a", "a.b", "(", "a.(", "a.(*", "a.(*b", "a.(*b)", "a.[", "a.b]", "]", "a.b[", "a.b[x", "a/b.c.d.e", p.Path+".T", p.Path+".", p.Path, p.Path+".T.", p.Path+".(*T).", p.Path+".T[...].X", "a.b[c/d.e]", "a.b[c/d.e].f")
		return explore.Run(explore.Options{Suite: "c10.lookup", Deadline: deadline, Workers: 1}, func(c *explore.Ctx) {
			s := bases[c.Choose(len(bases))]
			switch c.Choose(3) {
			case 1:
				if s != "" {
					i := c.Choose(len(s))
					s = s[:i] + s[i+1:]
				}
			case 2:
				i := c.Choose(len(s) + 1)
				ins := ".()*[]/%x"
				s = s[:i] + string(ins[c.Choose(len(ins))]) + s[i:]
			}
			c.Logf("%q", s)
			c.Step()
			c.State(s)
			check := func(route string, f *core.FuncInfo) {
				if f == nil {
					return
				}
				if !strings.Contains(s, f.Name) && !f.Interface || !strings.Contains(strings.ReplaceAll(s, "%2e", "."), f.Pkg) {
					c.Fail("found", "%s(%q) gives %s", route, s, label(f))
				}
			}
			pe, panicked := try(func() {
				core.ParseFuncName(s)
				check("GetFuncByFullName", functab.GetFuncByFullName(s))
				i := strings.LastIndex(s, "/")
				j := strings.Index(s[i+1:], ".")
				if j >= 0 {
					check("GetFuncByPkg", functab.GetFuncByPkg(s[:i+1+j], s[i+1+j+1:]))
					check("Info", functab.Info(s[:i+1+j], s[i+1+j+1:]))
				}
				functab.GetFuncByPkg(s, "X")
				functab.GetFuncByPkg(p.Path, s)
				functab.Info(s, s)
			})
			if panicked {
				if _, ok := pe.(runtime.Error); ok {
					c.Fail("crash", "looking up %q panics: %v", s, pe)
				}
				panic(pe)
			}
		})
	}
	// c10.none: values, addresses and types that are not instrumented
	suites["c10.none"] = func(int) explore.Result {
		var x int
		vals := []struct {
			name string
			f    func() interface{}
		}{
			{"InfoFunc closure", func() interface{} { return functab.InfoFunc(func() {}) }},
			{"InfoFunc nil", func() interface{} { return functab.InfoFunc((func())(nil)) }},
			{"InfoFunc std", func() interface{} { return functab.InfoFunc(strings.Repeat) }},
			{"InfoVar local", func() interface{} { return functab.InfoVar(&x) }},
			{"InfoVar nil", func() interface{} { return functab.InfoVar((*int)(nil)) }},
			{"InfoPC 0", func() interface{} { return functab.InfoPC(0) }},
			{"InfoPC 1", func() interface{} { return functab.InfoPC(1) }},
			{"InfoVarAddr 0", func() interface{} { return functab.InfoVarAddr(0) }},
			{"TypeMethods int", func() interface{} { return functab.GetTypeMethods(reflect.TypeOf(1)) }},
			{"TypeMethods nil", func() interface{} { return functab.GetTypeMethods(nil) }},
			{"Info unknown", func() interface{} { return functab.Info("no/such", "F") }},
		}
		return explore.Run(explore.Options{Suite: "c10.none", Deadline: deadline, Workers: 1}, func(c *explore.Ctx) {
			v := vals[c.Choose(len(vals))]
			c.Step()
			c.State(v.name)
			var r interface{}
			pe, panicked := try(func() { r = v.f() })
			if panicked || !reflect.ValueOf(r).IsNil() {
				c.Fail("none "+v.name, "%s: panic %v, gives %v", v.name, pe, r)
			}
		})
	}
}
