"""Odd file layouts, endings of the process and test failures (C11, C12): each
layout is a package of its own whose file bytes are unusual; every layout is
crossed with every body."""
import os

BODIES = {
    # an ordinary file: mocked variables, methods, closures, panics
    "plain": '''
var V = []int{
	1,
	2,
}
var W, X = two()

func two() (int, string) { return 1, "x" }

type T struct {
	A int
}

func (t *T) M(o *vo.R) int {
	o.P(V, W, X)
	return t.A
}
func (T) N() { panic("n") }

func A(o *vo.R) {
	o.P((&T{A: 3}).M(o))
	f := func() {
		o.P(len(V))
	}
	f()
}

func B(o *vo.R) {
	T{}.N()
}

func C(o *vo.R) {
	defer func() { o.P(recover()) }()
	_ = V[W+
		1]
}

func D(o *vo.R) {
	p, q := &W, &V
	*p++
	*q = append(*q, W)
	_ = (*q)[9]
}

func E[P any](o *vo.R, x P) P {
	o.P(x)
	return x
}

func F(o *vo.R) {
	E(o, E(o, W) +
		1)
}

type I interface {
	M(*vo.R) int
}

func G(o *vo.R) {
	var i I = &T{}
	o.P(i.M(o))
	i = nil
	i.M(o)
}
''',
    # everything on few lines
    "dense": '''
var ( V = []int{1, 2}; W, X = two() ); func two() (int, string) { return 1, "x" }; type T struct { A int }
func (t *T) M(o *vo.R) int { o.P(V, W, X); return t.A }; func (T) N() { panic("n") }
func A(o *vo.R) { o.P((&T{A: 3}).M(o)); f := func() { o.P(len(V)) }; f() }; func B(o *vo.R) { T{}.N() }
func C(o *vo.R) { defer func() { o.P(recover()) }(); _ = V[W+1] }
func D(o *vo.R) { p, q := &W, &V; *p++; *q = append(*q, W); _ = (*q)[9] }; func E[P any](o *vo.R, x P) P { o.P(x); return x }
func F(o *vo.R) { E(o, E(o, W) + 1) }; type I interface { M(*vo.R) int }; func G(o *vo.R) { var i I = &T{}; o.P(i.M(o)); i = nil; i.M(o) }
''',
    # comments at every place that can have one
    "comments": '''
// V doc
var /* v */ V /* a */ = /* b */ []int{ // c
	1, /* d
	e */ 2,
} // f
/* g
*/ var W, X = /* h */ two( /* i */ ) /* j */

/* k */ func /* l */ two( /* m */ ) /* n */ ( /* o */ int, // p
	string /* q */) /* r */ { /* s
	t */ return 1, "x" /* u */ } // v

type /* w */ T /* x */ struct /* y */ { // z
	/* a */ A /* b */ int // c
} // d

func /* e */ ( /* f */ t /* g */ * /* h */ T /* i */ ) /* j */ M /* k */ (o *vo.R) /* l m */ int { // n
	/* o */ o.P(V /* p */, W, // q
		X) /* r */
	return /* s */ t.A // t
}
func (T) N( /* u */ ) /* v { */ { // }
	panic("n") // {
}

// A { doc
func A(o *vo.R) /* { */ { /* } */
	o.P((&T{A: 3}). /* w */ M(o))
	f := /* x */ func( /* y */ ) /* z */ { // a
		o.P(len( /* b */ V))
	}
	f()
}

//go:noinline
func B(o *vo.R) { // c
	T{}. // d
		N()
}

func C(o *vo.R) {
	defer /* e */ func() { /* f */ o.P(recover()) /* g */ }() // h
	_ = V[W+ // i
		/* j */ 1]
}

func D(o *vo.R) {
	p, q := & /* k */ W, &V
	*p++
	*q = append(*q, W)
	_ = (*q)[ // l
		9]
}

func E[ /* n */ P /* o */ any /* p */](o *vo.R, x P) P { /* q */
	o.P(x)
	return x
}

func F(o *vo.R) {
	E(o, E(o, W) + // r
		1)
}

type /* s */ I /* t */ interface /* u */ { // v
	/* w */ M( /* x */ *vo.R) /* y */ int // z
}

func G(o *vo.R) {
	var i /* a */ I /* b */ = &T{}
	o.P(i.M(o))
	i = nil
	i.M(o)
}
''',
}
HEAD = 'package $P\n\nimport "verif.local/vo"\n'


def std(body):
    return HEAD + body


LAYOUTS = {
    "std": std,
    "crlf": lambda b: std(b).replace("\n", "\r\n"),
    "crlfmix": lambda b: "".join(l + ("\r\n" if i % 2 else "\n") for i, l in enumerate(std(b).split("\n"))),
    "bom": lambda b: "\ufeff" + std(b),
    "nonl": lambda b: std(b).rstrip("\n"),
    "nonlcmt": lambda b: std(b).rstrip("\n") + " // end",
    "blanktail": lambda b: std(b) + "\n\n\n  \t\n",
    "doc": lambda b: "// Package doc\n// package x\n/* import \"y\" */\n" + std(b),
    "docpkg": lambda b: "/* a\npackage y\n*/ package /* b */ $P /* c */ // d\n\n/* e */ import /* f */ \"verif.local/vo\" /* g */ // h\n" + b,
    "build": lambda b: "//go:build linux || !linux\n// +build linux !linux\n\n" + std(b),
    "generated": lambda b: "// Code generated by x. DO NOT EDIT.\n\n" + std(b),
    "oneline": lambda b: 'package $P; import "verif.local/vo"; var Zz = 1; ' + b.lstrip("\n"),
    "pkgline": lambda b: 'package $P; import "verif.local/vo"\n' + b,
    "pkgbare": lambda b: "package $P\nimport (\"verif.local/vo\"\n)\n" + b,
    "pkgsplit": lambda b: "package\n$P\nimport\n\"verif.local/vo\"\n" + b,
    "imps": lambda b: 'package $P\n\nimport ()\nimport "verif.local/vo"\nimport _ "fmt"\nimport (\n\t_ "os"; _ "io"\n)\n' + b,
    "impgroup": lambda b: "package $P\n\nimport (\n\t// c\n\n\t\"verif.local/vo\" // d\n\n\t_ `fmt`\n)\n" + b,
    "impraw": lambda b: "package $P\n\nimport vo `verif.local/vo`\n" + b,
    "impdot": lambda b: "package $P\n\nimport . \"verif.local/vo\"\n" + b.replace("vo.", ""),
    "impalias": lambda b: "package $P\n\nimport runtime \"verif.local/vo\"\nimport trap \"os\"\n\nvar Args = trap.Args\n" + b.replace("vo.", "runtime."),
    "impalias2": lambda b: "package $P\n\nimport __xgo_runtime \"verif.local/vo\"\n" + b.replace("vo.", "__xgo_runtime."),
    "impunsafe": lambda b: "package $P\n\nimport unsafe_ \"unsafe\"\nimport \"verif.local/vo\"\n\nvar U = unsafe_.Sizeof(V)\n" + b,
    "imprt": lambda b: "package $P\n\nimport \"runtime\"\nimport \"verif.local/vo\"\n\nvar U = runtime.NumCPU() > 0\n" + b,
    "line": lambda b: HEAD + "\n//line foo.go:100\n" + b,
    "linetop": lambda b: "//line foo.go:7\n" + std(b),
    "linemid": lambda b: HEAD + b.replace("\nfunc A(", "\n//line bar.y:900\nfunc A(").replace("\nfunc D(", "\n//line other/baz.go:5\nfunc D("),
    "linebody": lambda b: HEAD + b.replace("func A(o *vo.R) {\n", "func A(o *vo.R) {\n//line in.y:40\n").replace("func F(o *vo.R) {\n", "func F(o *vo.R) {\n//line in.y:60:3\n"),
    "lineinl": lambda b: HEAD + b.replace("o.P(V, W", "/*line q.go:33:4*/o.P(V, W").replace("panic(", "/*line q.go:44*/panic("),
    "linevar": lambda b: HEAD + b.replace("\nvar W", "\n/*line v.go:70:1*/var W").replace("\nvar V", "\n//line v.go:50\nvar V"),
    "linereset": lambda b: HEAD + "//line gen.y:1\n" + b + "\n//line x.go:3\nfunc ZzLast() {}\n",
    "linebad": lambda b: HEAD + "// line foo.go:9\n//line foo.go\n//line :x\n" .replace("//line foo.go\n", "").replace("//line :x\n", "") + b,
    "cgo": lambda b: "package $P\n\n/*\nstatic int add(int a, int b) { return a + b; }\n*/\nimport \"C\"\n\nimport \"verif.local/vo\"\n\nfunc Cc(o *vo.R) { o.P(int(C.add(1, 2))) }\n" + b,
    "directives": lambda b: HEAD + "\nimport _ \"unsafe\"\n\n//go:linkname nano runtime.nanotime\nfunc nano() int64\n\n//go:nosplit\n//go:noinline\nfunc Ns() int { return 1 }\n\n//go:norace\nfunc Nr() int {\n\treturn Ns()\n}\n\n//go:generate echo\n\nfunc Nano(o *vo.R) { o.P(nano() > 0, Nr()) }\n" + b,
    "asm": lambda b: HEAD + "\n// Stub is in assembly\nfunc Stub() int64\n\nfunc Asm(o *vo.R) { o.P(Stub()) }\n" + b,
    "embed": lambda b: "package $P\n\nimport (\n\t_ \"embed\"\n\t\"verif.local/vo\"\n)\n\n//go:embed data.txt\nvar Data string\n\n//go:embed data.txt\nvar data2 []byte\n\nfunc Emb(o *vo.R) {\n\to.P(Data, string(data2))\n\td := Data + \"!\"\n\to.P(d)\n}\n" + b,
    "tabs": lambda b: std(b).replace("\t", "        ").replace("\n", " \t\n") ,
    "ff": lambda b: std(b).replace("\n\n", "\n \n"),
    "unicode": lambda b: std(b.replace("W", "Wé").replace("\nfunc A(", "\n// ünï 日本 \U0001F600\nfunc A(").replace("\"x\"", "\"日本\\u00e9\"")),
    "nul": lambda b: std(b).replace("\"n\"", "\"\\x00n\""),
    "long": lambda b: HEAD + "\nvar Long = \"" + "x" * 70000 + "\"\n" + b,
    "deep": lambda b: HEAD + "\n" + "\n" * 3000 + b,
    "many": lambda b: HEAD + "".join("\nvar Zv%d = %d\n\nfunc Zf%d() int { return Zv%d }\n" % (i, i, i, i) for i in range(400)) + b,
}
CALLS = "ABCDFG"
EXTRA = {"cgo": ["Cc"], "directives": ["Nano"], "asm": ["Asm"], "embed": ["Emb"]}

# how a process can end
ENDS = '''package ends

import (
	"errors"
	"fmt"
	"io"
	"log"
	"os"
	"runtime"
	"sync"
	"syscall"
	"time"
)

var Table = []int{1, 2}
var Err = errors.New("e")
var m map[string]int

type E struct {
	Msg string
}

func (e *E) Error() string { return "E:" + e.Msg }

type P struct{ next *P }

func (p *P) Val() int { return p.next.Val() }

func idx(i int) int { return Table[i] }

func deep(n int) {
	if n == 0 {
		panic(Err)
	}
	deep(n - 1)
}

func forever(n int) int { return forever(n+1) + 1 }

func gen[T any](x T) {
	panic(fmt.Sprint("gen ", x))
}

var Ends = map[string]func(){
	"ok":     func() { fmt.Println("fine") },
	"exit3":  func() { defer fmt.Println("no"); os.Exit(3) },
	"fatal":  func() { log.SetFlags(0); log.Fatal("bye ", Table) },
	"flog":   func() { log.SetFlags(log.Lshortfile); log.Print("here"); log.Output(1, "there") },
	"llog":   func() { log.New(os.Stderr, "p", log.Llongfile).Print(Table) },
	"panic":  func() { panic("boom") },
	"panice": func() { panic(&E{"x"}) },
	"paniciface": func() {
		panic(fmt.Stringer(time.Duration(3)))
	},
	"panicerr": func() { deep(4) },
	"index":    func() { fmt.Println(idx(7)) },
	"nilmap":   func() { m["a"] = 1 },
	"nilptr":   func() { (&P{}).Val() },
	"div":      func() { z := len(m); fmt.Println(1 / z) },
	"conv":     func() { var i interface{} = Table; fmt.Println(i.(io.Reader)) },
	"repanic": func() {
		defer func() {
			panic(fmt.Sprint("again ", recover()))
		}()
		panic("first")
	},
	"nested": func() {
		defer func() {
			defer func() { panic("third") }()
			panic("second")
		}()
		panic("first")
	},
	"goexit": func() { runtime.Goexit() },
	"deadlock": func() {
		var mu sync.Mutex
		mu.Lock()
		mu.Lock()
	},
	"chan":  func() { <-make(chan int) },
	"sel":   func() { select {} },
	"gopanic": func() {
		go func() {
			idx(9)
		}()
		time.Sleep(time.Hour)
	},
	"gogen": func() {
		go gen(Table)
		select {}
	},
	"mapconc":  func() { var once sync.Once; once.Do(func() { panic("once") }) },
	"wg":       func() { var wg sync.WaitGroup; wg.Done() },
	"unlock":   func() { var mu sync.Mutex; mu.Unlock() },
	"closed":   func() { c := make(chan int); close(c); close(c) },
	"overflow": func() { forever(0) },
	"signal":   func() { syscall.Kill(syscall.Getpid(), syscall.SIGTERM); time.Sleep(time.Hour) },
	"quitlog":  func() { fmt.Fprintln(os.Stderr, Table); os.Stdout.WriteString("no newline") },
	"initvar":  func() { fmt.Println(Table, Err, m) },
	"defer": func() {
		for i := range Table {
			defer fmt.Println("deferred", i, Table[i])
		}
		defer func() { fmt.Println(recover()); os.Exit(4) }()
		gen(3)
	},
}
'''

ENDMAIN = '''package main

import (
	"os"

	_ "github.com/xhd2015/xgo/runtime/trap"
	"verifc/ends"
)

func main() {
	ends.Ends[os.Args[1]]()
}
'''

TESTS = '''package tt

import (
	"fmt"
	"testing"

	"verifc/tt/dep"
)

var Shared = []int{1}

func helper(t *testing.T, n int) {
	t.Helper()
	if n > 0 {
		t.Errorf("helper %d", n)
	}
}

func plain(t *testing.T) {
	t.Log("plain", Shared)
	t.Error("plain error")
}

func TestPass(t *testing.T) { t.Log("ok") }

func TestLog(t *testing.T) {
	t.Log(Add(1, 2))
	plain(t)
	helper(t, 1)
}

func TestFatal(t *testing.T) {
	defer t.Log("deferred")
	t.Cleanup(func() {
		t.Log("cleanup")
	})
	t.Fatalf("fatal %v", Shared)
}

func TestSub(t *testing.T) {
	for _, n := range []string{"a", "b"} {
		t.Run(n, func(t *testing.T) {
			t.Log(n)
			if n == "b" {
				t.FailNow()
			}
			helper(t, len(n))
		})
	}
}

func TestSkip(t *testing.T) {
	t.Skip("skipped")
}

func TestDep(t *testing.T) {
	dep.Check(t, Shared)
	t.Run("x", func(t *testing.T) { dep.Check(t, nil) })
}

func TestTable(t *testing.T) {
	tests := []struct {
		name string
		in   int
	}{
		{"one", 1},
		{
			"two",
			2,
		},
	}
	for _, tt := range tests {
		tt := tt
		t.Run(tt.name, func(t *testing.T) {
			t.Parallel()
			if got := Add(tt.in, Shared[0]); got != 2 {
				t.Errorf("got %d",
					got)
			}
		})
	}
}

func ExampleAdd() {
	fmt.Println(Add(1, 1))
	// Output: 3
}

func BenchmarkAdd(b *testing.B) {
	for i := 0; i < b.N; i++ {
		Add(i, 1)
	}
}

func FuzzAdd(f *testing.F) {
	f.Add(1)
	f.Add(7)
	f.Fuzz(func(t *testing.T, n int) {
		if n == 7 {
			t.Errorf("seven")
		}
	})
}
'''
TESTS_X = '''package tt_test

import (
	"testing"

	. "verifc/tt"
	"verifc/tt/dep"
)

func TestExternal(t *testing.T) {
	t.Log(Add(2, 3), V)
	dep.Check(t, V)
}

func TestPanics(t *testing.T) {
	defer func() {
		t.Log(recover())
	}()
	Boom(V)
}

func TestZDies(t *testing.T) {
	Boom(nil)
}
'''
TESTS_PKG = '''package tt

var V = []int{3}

func Add(a, b int) int { return a + b }

func Boom(x []int) int {
	return x[len(V)]
}
'''
TESTS_DEP = '''package dep

import "testing"

// Check fails in a helper of another package.
func Check(t testing.TB, xs []int) {
	t.Helper()
	inner(t, xs)
}

func inner(t testing.TB, xs []int) {
	if len(xs) == 1 {
		t.Errorf("inner %v", xs)
		return
	}
	t.Log("inner fine")
}
'''


def put(f, s):
    os.makedirs(os.path.dirname(f), exist_ok=True)
    with open(f, "w", newline="") as fh:
        fh.write(s)


def write(dst):
    """Writes the packages below dst; returns [(package, key)]."""
    pkgs = []
    for ln, lay in LAYOUTS.items():
        for bn, body in BODIES.items():
            p = "y_%s_%s" % (ln, bn)
            d = os.path.join(dst, p)
            put(os.path.join(d, "lay.go"), lay(body).replace("$P", p))
            reg = "package %s\n\nimport \"verif.local/vo\"\n\nvar Cases = []vo.Case{\n" % p
            for f in list(CALLS) + EXTRA.get(ln, []):
                reg += '\t{"layout/%s/%s/%s", %s},\n' % (ln, bn, f, f)
            put(os.path.join(d, "cases.go"), reg + "}\n")
            if ln == "asm":
                put(os.path.join(d, "stub_amd64.s"), '#include "textflag.h"\n\nTEXT \u00b7Stub(SB), NOSPLIT, $0-8\n\tMOVQ $42, ret+0(FP)\n\tRET\n')
            if ln == "embed":
                put(os.path.join(d, "data.txt"), "data\n")
            pkgs.append((p, "layout/%s/%s" % (ln, bn)))
    put(os.path.join(dst, "ends/ends.go"), ENDS)
    put(os.path.join(dst, "endmain/main.go"), ENDMAIN)
    put(os.path.join(dst, "tt/tt.go"), TESTS_PKG)
    put(os.path.join(dst, "tt/a_test.go"), TESTS)
    put(os.path.join(dst, "tt/x_test.go"), TESTS_X)
    put(os.path.join(dst, "tt/dep/dep.go"), TESTS_DEP)
    return pkgs


def ends():
    import re
    return re.findall(r'(?m)^\t"(\w+)": ', ENDS)
