"""A corpus of small Go programs (C11, C12): every program of a grammar of
declarations, uses of package variables, contexts of expressions, shadowing
declarations, function shapes and file layouts up to a bound.  Each case is a
function; its output and the positions it observes are compared between the
program built by go and by xgo."""
import os, re

TYPES = '''
type I int

func (x I) Get() int   { return int(x) }
func (x *I) Set(v int) { *x = I(v) }

type In struct {
	A   int
	Arr [3]int
	L   []int
	P   *In
}

func (x In) Get() int   { return x.A }
func (x *In) Set(v int) { x.A = v }
func (x *In) Self() *In { return x }

type S struct {
	A, A2 int
	B   string
	In  In
	PIn *In
	Arr [3]int
	L   []int
	M   map[string]int
	F   func(int) int
	N   interface{}
}

func (s S) Get() int        { return s.A }
func (s *S) Set(v int)      { s.A = v }
func (s *S) Self() *S       { return s }
func (s S) With(v int) S    { s.A = v; return s }
func (s *S) Two(a, b int) (int, error) { s.A += a; return s.A + b, nil }

type Emb struct {
	In
	X int
}

type PEmb struct {
	*In
	X int
}

type Mu struct {
	sync.Mutex
	M map[string]int
}

type Deep struct {
	E  Emb
	PE *Emb
	S  S
}

type Sl []int

func (s Sl) Size() int   { return len(s) }
func (s *Sl) Add(x int)  { *s = append(*s, x) }

type Mp map[string]int

func (m Mp) Put(k string, v int) { m[k] = v }

type Ar [3]int

func (a Ar) Get() int   { return a[0] }
func (a *Ar) Set(v int) { a[0] = v }

type Fn func(int) int

func (f Fn) Call(x int) int { return f(x) }

type Ch chan int

type Itf interface{ Get() int }

type G[T any] struct{ V T }

func (g G[T]) Get() T   { return g.V }
func (g *G[T]) Set(v T) { g.V = v }

type G2[K comparable, V any] struct{ M map[K]V }

func (g *G2[K, V]) Put(k K, v V) {
	if g.M == nil {
		g.M = map[K]V{}
	}
	g.M[k] = v
}

type Err struct{ C int }

func (e *Err) Error() string { return "err" }

type Al = S
type PAl = *S

func NewS() S             { return S{A: 1, B: "b", Arr: [3]int{1, 2, 3}, L: []int{4, 5}, M: map[string]int{"a": 6}, PIn: &In{A: 2}, F: Fx} }
func NewPS() *S           { s := NewS(); return &s }
func Two() (int, string)  { return 1, "two" }
func Fx(x int) int        { return x + 1 }
func FxE(x int) (int, error) { return x, nil }
func Id[T any](x T) T     { return x }

const C = 3
const CF = 1.5
'''

BASE_S = '~S{A: 1, B: "b", Arr: [3]int{1, 2, 3}, L: []int{4, 5}, M: map[string]int{"a": 6}, PIn: &~In{A: 2, L: []int{1}}, F: ~Fx, In: ~In{A: 7, L: []int{1}}}'

# name, type, initialisers (first is the main one), another value, specific uses
STRUCT_USES = [
    'o.P(@.A)', '@.A = 3; o.P(@.A)', '@.A++; o.P(@.A)', '@.A += 2; o.P(@.A)', 'p := &@.A; *p = 4; o.P(@.A)',
    'p := &@; p.A = 5; o.P(@.A)', '@.Set(7); o.P(@.A)', 'o.P(@.Get())', 'f := @.Get; @.A = 9; o.P(f())',
    'f := @.Set; f(3); o.P(@.A)', '(@).Set(3); o.P(@.A)', '(&@).Set(3); o.P(@.A)', '@.Self().Set(4); o.P(@.A)',
    'o.P(@.In.A)', '@.In.A = 3; o.P(@.In.A)', 'p := &@.In.A; *p = 4; o.P(@.In.A)', '@.In.Set(4); o.P(@.In.A)',
    'f := @.In.Set; f(5); o.P(@.In.A)', '@.In.Self().Set(6); o.P(@.In.A)', 'p := &@.In; p.A = 8; o.P(@.In.A)',
    'o.P(@.PIn.A)', '@.PIn.A = 3; o.P(@.PIn.A)', '@.PIn.Set(5); o.P(@.PIn.A)', 'p := &@.PIn.A; *p = 4; o.P(@.PIn.A)',
    'o.P(@.Arr[1])', '@.Arr[1] = 9; o.P(@.Arr)', 'p := &@.Arr[1]; *p = 9; o.P(@.Arr)', 's := @.Arr[:]; s[0] = 9; o.P(@.Arr)',
    'for i := range @.Arr { @.Arr[i]++ }; o.P(@.Arr)', 'for i, x := range @.Arr { o.P(i, x) }', 'o.P(len(@.Arr))', 'const n = len(@.Arr); o.P(n)',
    '@.L = append(@.L, 3); o.P(@.L)', '@.L[0] = 9; o.P(@.L)', 'p := &@.L[0]; *p = 9; o.P(@.L)', 'o.P(@.L[1:], len(@.L))',
    '@.M["x"] = 2; o.P(@.M)', 'delete(@.M, "a"); o.P(@.M)', '@.M["a"]++; o.P(@.M)', 'x, ok := @.M["a"]; o.P(x, ok)',
    'o.P(@.F(3))', '@.F = func(x int) int { return x * 2 }; o.P(@.F(4))', '@.N = 1; o.P(@.N.(int))',
    'x := @; x.A = 9; o.P(@.A, x.A)', 'defer func() { o.P(@.A) }(); defer @.Set(8)', 'done := make(chan int); go func() { @.Set(8); close(done) }(); <-done; o.P(@.A)',
    'x, err := @.Two(1, 2); o.P(x, err)', 'o.P(@.Arr[@.A])', '@.Arr[@.A] = 5; o.P(@.Arr)', '@.A, @.B = 4, "z"; o.P(@.A, @.B)',
    'if @.A > 0 && @.B == "b" { o.P("yes") }', 'switch @.A { case 1: o.P("one"); default: o.P("other") }', 'm := map[string]*int{"p": &@.A}; *m["p"] = 6; o.P(@.A)',
    'fs := []func() int{@.Get}; o.P(fs[0]())', 'go func(p *int) {}(&@.A)', 'var f interface{ Set(int) } = &@; f.Set(6); o.P(@.A)',
    'o.P(@.With(4).A, @.A)', 'o.P((*~S).Get(&@), ~S.Get(*&@))', 'p := &@.L; *p = nil; o.P(@.L == nil)', 'p := &@.Arr; p[0] = 7; o.P(@.Arr)',
]
PSTRUCT_USES = [u for u in STRUCT_USES if '&@;' not in u and '(&@)' not in u and '= &@' not in u and 'x := @; x.A' not in u and '&@,' not in u] + [
    'x := @; x.A = 9; o.P(@.A)', 'o.P((*@).A)', '(*@).A = 4; o.P(@.A)', 'x := *@; x.A = 8; o.P(@.A, x.A)', '*@ = ~S{A: 4}; o.P(@.A)', 'o.P(@ == nil, @ != nil)',
    'p := &@; (*p).A = 3; o.P(@.A)', '(*@).Set(3); o.P(@.A)', 'if @ == nil { o.P("nil") } else { o.P(@.A) }', 'p := &(*@).A; *p = 4; o.P(@.A)',
    'o.P((*~S).Get(@))', 'var i ~Itf = @; o.P(i.Get())',
]
ARR_USES = [
    'o.P(@[1])', '@[1] = 9; o.P(@)', '@[1]++; o.P(@)', 'p := &@[1]; *p = 9; o.P(@)', 's := @[:]; s[0] = 9; o.P(@)', 'o.P(@[1:])', 'o.P(@[:2:3])',
    'for i := range @ { o.P(i) }', 'for i, x := range @ { @[2] = 9; o.P(i, x) }', 'for i := range &@ { o.P(i) }', 'o.P(len(@), cap(@))', 'const n = len(@); o.P(n)', 'var a [len(@)]int; o.P(a)',
    'x := @; x[0] = 9; o.P(@[0], x[0])', 'o.P(@ == [3]int{1, 2, 3})', 'x := 10 % len(@); o.P(x)', 'var b byte = len(@); o.P(b)', 'var f float64 = 1 << len(@); o.P(f)',
    'i := 1; @[i], i = 7, 2; o.P(@, i)', '(@)[1] = 5; o.P(@)', 'for @[0] = 0; @[0] < 2; @[0]++ { o.P(@[0]) }', 'for @[0] = range 3 { o.P(@[0]) }', 'copy(@[:], []int{8}); o.P(@)',
    'o.P(@[len(@)-1])', 'switch @ { case [3]int{1, 2, 3}: o.P("eq") }', 'm := map[[3]int]int{@: 1}; o.P(m[@])',
]
SLICE_USES = [
    'o.P(@[1])', '@[1] = 9; o.P(@)', '@[1]++; o.P(@)', '@[1] += 3; o.P(@)', 'p := &@[1]; *p = 9; o.P(@)', 's := @[:]; s[0] = 9; o.P(@)', 'o.P(@[1:], @[:1], @[0:1:2])',
    'for i := range @ { o.P(i) }', 'for i, x := range @ { o.P(i, x) }', 'for range @ { o.P("x") }', 'o.P(len(@), cap(@))', '@ = append(@, 7); o.P(@)', '@ = append(@[:1], @[2:]...); o.P(@)',
    'o.P(@ == nil)', 'copy(@, []int{8, 9}); o.P(@)', 'o.P(o.V(@...))', '@ = nil; o.P(len(@))', 'sort.Ints(@); o.P(@)', 'x := append([]int(nil), @...); o.P(x)',
    'i := 1; @[i], i = 7, 2; o.P(@, i)', 'o.P(@[len(@)-1])', '@[len(@)-1] = 3; o.P(@)', 'clear(@); o.P(@)', 'o.P((*[2]int)(@)[0])', 'o.P([2]int(@))', 'for @[0] = range 3 { o.P(@[0]) }',
    'p := &@; (*p)[0] = 9; o.P(@)', '@[@[0]-1] = 4; o.P(@)', 'o.P(slices.Max(@))',
]
MAP_USES = [
    'o.P(@["a"])', '@["a"] = 9; o.P(@)', '@["b"]++; o.P(@)', '@["a"] += 3; o.P(@)', 'x, ok := @["zz"]; o.P(x, ok)', 'if x, ok := @["a"]; ok { o.P(x) }', 'delete(@, "a"); o.P(@)',
    'for k, v := range @ { o.P(k, v) }', 'for k := range @ { delete(@, k) }; o.P(len(@))', 'o.P(len(@))', '@ = nil; o.P(@["a"])', 'o.P(@ == nil)', 'clear(@); o.P(@)',
    '_, ok := @["a"]; o.P(ok)', '@["x"], @["y"] = 1, 2; o.P(@)', 'o.P(@["a"] + @["b"])', 'p := &@; (*p)["q"] = 1; o.P(@)', 'for @["i"] = 0; @["i"] < 2; @["i"]++ { o.P(@["i"]) }', 'o.P(maps.Clone(@))',
]
FUNC_USES = ['o.P(@(3))', 'o.P(@ == nil)', 'f := @; o.P(f(2))', '@ = func(x int) int { return x * 3 }; o.P(@(3))', 'o.P(@(@(1)))', 'defer func(x int) { o.P(x) }(@(4))', 'go @(3)', 'defer @(3)',
             'if @ != nil { o.P(@(1)) }', 'p := &@; o.P((*p)(2))', 'prev := @; @ = func(x int) int { return prev(x) + 10 }; o.P(@(1))', 'o.P((@)(2))']
CHAN_USES = ['@ <- 1; o.P(<-@)', 'close(@); x, ok := <-@; o.P(x, ok)', 'select { case @ <- 1: o.P("sent"); default: }; o.P(len(@))', 'select { case x := <-@: o.P(x); default: o.P("none") }',
             'go func() { @ <- 5; close(@) }(); for x := range @ { o.P(x) }', 'o.P(cap(@))', 'var s chan<- int = @; s <- 1; o.P(len(@))', 'select { case x, ok := <-@: o.P(x, ok); case @ <- 3: o.P("in") }; o.P(len(@))',
             '@ = nil; select { case @ <- 1: default: o.P("nil") }', '@ <- 2; var x int; select { case x = <-@: }; o.P(x)', '@ <- 2; a := []int{0}; select { case a[0] = <-@: }; o.P(a)', '@ <- 4; for x := range @ { o.P(x); break }']
ITF_USES = ['o.P(@.Get())', 'o.P(@ == nil)', 'switch x := @.(type) { case ~I: o.P("I", x); case nil: o.P("nil"); default: o.P("other") }', 'x, ok := @.(~I); o.P(x, ok)', 'f := @.Get; o.P(f())', '@ = ~In{A: 3}; o.P(@.Get())',
            'if x, ok := @.(interface{ Get() int }); ok { o.P(x.Get()) }', '@ = nil; o.P(@ == nil)', 'var i interface{} = @; o.P(i)', '_, ok := @.(interface{ Zz() }); o.P(ok)', 'switch @.(type) { case ~I: o.P("I") }', 'o.P(~Itf.Get(@))']
NUM_USES = ['@++; o.P(@)', '@--; o.P(@)', '@ += 2; o.P(@)', 'o.P(@ + 1, 1 + @, -@, @ * 2)', 'for @ = 0; @ < 3; @++ { o.P(@) }; o.P(@)', 'if @ > 0 { o.P("pos") }', 'switch { case @ > 0: o.P("pos") }', 'switch @ { case 1: o.P("one"); case 5: o.P("five") }',
            'x := @; x++; o.P(@, x)', 'p := &@; *p++; o.P(@)', 'o.P(int64(@), float64(@))', 'o.P(@ == @, @ < 3)', 'a := [10]int{}; a[int(@)] = 1; o.P(a)', 'x := @ + @*2 - @/3; o.P(x)',
            'f := func() { @++ }; f(); f(); o.P(@)', 'defer func() { o.P(@) }(); @ = 7', 'const c = 2; o.P(@ * c)', 'for i := @; i < @+2; i++ { o.P(i) }', 'o.P(max(@, 2))']
INT_USES = ['o.P(@ % 3, @ << 2, @ >> 1, @ & 1, @ | 8, ¬@, 1 << @)', '@ <<= 1; o.P(@)', 'xs := []int{5, 6, 7, 8, 9, 10}; o.P(xs[@], xs[:@], xs[@:])', 'a := make([]int, @); o.P(len(a))', 'for i := range @ { o.P(i) }', 'for @ = range []int{5, 6} { o.P(@) }; o.P(@)',
            'for _, @ = range []int{5, 6} { o.P(@) }; o.P(@)', 'var ok bool; @, ok = map[string]int{"a": 4}["a"]; o.P(@, ok)', 'var e error; @, e = ~FxE(8); o.P(@, e)', 'ch := make(chan int, 1); ch <- 4; @ = <-ch; o.P(@)', 'ch := make(chan int, 1); ch <- 4; select { case @ = <-ch: }; o.P(@)',
            'xs := []int{1, 2, 3, 4, 5, 6}; xs[@] = 9; o.P(xs)', 'xs := []int{1, 2, 3, 4, 5, 6}; xs[@]++; o.P(xs)', 'xs := []int{1, 2, 3, 4, 5, 6}; xs[@] += 2; o.P(xs)', 'm := map[int]int{}; m[@] = 1; m[@]++; o.P(m)', 'm := map[int]int{@: @}; o.P(m)', 'xs := [...]int{2: @}; o.P(xs)',
            'switch 5 { case @: o.P("five"); default: o.P("no") }', 'switch x := @; x { case @: o.P("same") }', 'switch x := @ * 2; { case x > @: o.P("more") }', 'L: for { switch @ { case 5: break L; default: @ = 5; continue L } }; o.P(@)', 'goto L; L: o.P(@)', 'var i interface{} = @; switch v := i.(type) { case int: o.P(v + @) }',
            'if x := @; x > 1 { o.P(x) } else if y := @ + x; y > 0 { o.P(y) } else { o.P(x, y, @) }', 'x, y := @, @+1; x, y = y, x; o.P(x, y)', 'atomicP := &@; o.P(*atomicP)', 'f := func(a int, b ...int) int { return a + len(b) }; o.P(f(@), f(@, @, @))', 'f := func() (int, error) { return @, nil }; x, err := f(); o.P(x, err)',
            'f := func() (r int) { r = @; defer func() { r += @ }(); return }; o.P(f())', 'o.P(struct{ A, B int }{@, @})', 'o.P(*&struct{ A int }{A: @})', 's := ~S{A: @}; o.P(s.A)', 'o.P([]~S{{A: @}}[0].A)', 'x := [2][2]int{{@, 1}, {2, @}}; o.P(x)', 'o.P(func(x int) int { return x * @ }(@))',
            'var x, y = @, @ + 1; o.P(x, y)', 'var ( x int = @; y = x + @ ); o.P(x, y)', 'type T struct{ A int }; t := T{@}; o.P(t)', 'const k = 2; x := k * @; o.P(x)', '{ x := @; { y := x + @; o.P(y) } }', 'o.P(strconv.Itoa(@))', 'defer o.P(@); @ = 8', 'o.P(fmt.Sprint(@, @))',
            'var a [3]int; for a[0] = @; a[0] < @+2; a[0]++ { o.P(a[0]) }', 'xs := []int{1, 2, 3, 4, 5, 6}; p := &xs[@]; *p = 7; o.P(xs)', 'xs := []int{1, 2, 3, 4, 5, 6}; xs[@], xs[0] = xs[0], xs[@]; o.P(xs)', 'var m map[int][]int = map[int][]int{1: {2}, 5: {2}}; m[@] = append(m[@], 3); o.P(m)', 'chs := map[int]chan int{5: make(chan int, 1), 1: make(chan int, 1)}; select { case chs[@] <- @: o.P("s") }; o.P(<-chs[@])',
            'if @ == 1 || @ == 5 { o.P("ok") }', 'var f = func() int { return @ }; o.P(f())', 'x := ~Id(@); o.P(x)', 'x := ~Id[int](@); o.P(x)', 'x := ~Id[int64](int64(@)); o.P(x)', 'o.P(~G[int]{V: @}.V)', 'var x byte = byte(@); o.P(x)', 'o.P(string(rune(@ + 60)))']
STR_USES = ['o.P(@ + "x")', '@ += "y"; o.P(@)', 'o.P(len(@), @[0])', 'o.P(@[1:], @[:1])', 'for i, c := range @ { o.P(i, c) }', 'for i := range @ { o.P(i) }', 'o.P(@ == "ab", @ < "z")', 'switch @ { case "ab": o.P("ab"); default: o.P("def") }', 'o.P([]byte(@))', 'm := map[string]int{@: 1}; o.P(m[@])', 'o.P(append([]byte("q"), @...))',
            'o.P(strings.ToUpper(@))', 'x := `raw` + @; o.P(x)', 'o.P(fmt.Sprintf("%s|%q", @, @))', 'm := map[string]int{}; m[@]++; o.P(m)', 'p := &@; *p += "z"; o.P(@)']
METH_USES = ['o.P(@.Get())', '@.Set(4); o.P(@.Get())', 'f := @.Get; o.P(f())', 'f := @.Set; f(6); o.P(@.Get())', 'var i interface{ Set(int) } = &@; i.Set(2); o.P(@.Get())', 'defer func() { o.P(@.Get()) }(); defer @.Set(3)', '(&@).Set(2); o.P(@.Get())', '(@).Set(8); o.P((@).Get())', 'p := &@; p.Set(3); o.P(@.Get())', 'func() { @.Set(9) }(); o.P(@.Get())', 'go @.Get()']
EMB_USES = METH_USES + ['o.P(@.A, @.X)', '@.A = 4; o.P(@.In.A)', '@.In.A = 5; o.P(@.A)', 'p := &@.A; *p = 6; o.P(@.A)', '@.In.Set(3); o.P(@.A)', '@.Arr[1] = 4; o.P(@.Arr)', 'p := &@.In; p.A = 9; o.P(@.A)', '@.X++; o.P(@.X)', 'p := &@.X; *p = 2; o.P(@.X)', 'f := @.Self; f().A = 4; o.P(@.A)', '@.Self().A = 8; o.P(@.A)', '@.L = append(@.L, 1); o.P(@.L)', 's := @.Arr[:]; s[0] = 5; o.P(@.Arr)']
MU_USES = ['@.Lock(); @.Unlock(); o.P("ok")', '@.Lock(); defer @.Unlock(); @.M = map[string]int{"a": 1}; o.P(@.M)', 'p := &@; p.Lock(); o.P(p.TryLock()); p.Unlock()', 'var z sync.Locker = &@; z.Lock(); o.P(@.TryLock())', '@.Mutex.Lock(); o.P(@.TryLock()); @.Mutex.Unlock(); o.P(@.TryLock())', 'f := @.Lock; f(); o.P(@.TryLock())', '@.Lock(); go func() { @.Unlock() }(); @.Lock(); o.P("again")', 'p := &@.Mutex; p.Lock(); o.P(@.TryLock())']
DEEP_USES = ['@.E.Set(3); o.P(@.E.A)', '@.PE.Set(3); o.P(@.PE.A)', '@.E.In.Set(4); o.P(@.E.A)', '@.S.In.Set(5); o.P(@.S.In.A)', 'p := &@.S.In.Arr[1]; *p = 4; o.P(@.S.In.Arr)', 's := @.S.In.Arr[:]; s[0] = 3; o.P(@.S.In.Arr)', 'o.P(@.E.A, @.PE.A, @.S.In.A)', '@.E.A = 4; o.P(@.E.In.A)', '@.PE.In.A = 4; o.P(@.PE.A)', '@.S.Self().In.Set(9); o.P(@.S.In.A)', 'f := @.E.Set; f(2); o.P(@.E.A)', '@.S.Arr[@.E.A]++; o.P(@.S.Arr)', '@.PE.Self().Set(2); o.P(@.PE.A)', 'p := &@.E; p.Set(5); o.P(@.E.A)', 'x := @.E; x.Set(5); o.P(@.E.A, x.A)', '(@.E).Set(6); o.P(@.E.A)', '((@).E).Set(6); o.P(@.E.A)', '(&@.E).Set(6); o.P(@.E.A)']

KINDS = [
    ("int", "int", ["5", "2 + 3", "len(\"abcde\")", "-(-5)", "1<<2 + 1", "~C + 2", "int(5)", "~Fx(4)", "func() int { return 5 }()", "[]int{5}[0]", "(5)", "~Id(5)", "~Id[int](5)", "~NewS().A + 4", "int(unsafe.Sizeof(\"\")) - 11"], "8", NUM_USES + INT_USES),
    ("str", "string", ["\"ab\"", "\"a\" + \"b\"", "`ab`", "fmt.Sprint(\"ab\")", "string(\"ab\")", "strings.Repeat(\"ab\", 1)", "\"ab\"[:]"], "\"zz\"", STR_USES),
    ("bool", "bool", ["true", "1 < 2", "!false", "true && !false", "bool(true)"], "false", ["if @ { o.P(1) }", "o.P(!@, @ && true, false || @)", "@ = !@; o.P(@)", "for @ { @ = false }; o.P(@)", "switch @ { case true: o.P(\"t\"); case false: o.P(\"f\") }", "switch { case @: o.P(\"c\") }", "for ; @; @ = false { o.P(\"loop\") }"]),
    ("float", "float64", ["1.5", "3 / 2.0", "float64(1) / 2 + 1", "~CF", "math.Sqrt(2.25)", "1e0 + .5", "1 + 0.5"], "2.5", NUM_USES),
    ("f32", "float32", ["float32(1.5)"], "2.5", NUM_USES[:8]),
    ("rune", "rune", ["'a'", "rune(97)", "'a' + 0", "[]rune(\"a\")[0]"], "'b'", ["o.P(@ + 1, string(@))", "@++; o.P(@)", "switch @ { case 'a': o.P(\"a\") }", "o.P(@ - 'a')", "p := &@; *p = 'z'; o.P(@)"]),
    ("byte", "byte", ["byte('a')", "\"a\"[0]", "[]byte(\"a\")[0]", "uint8(97)"], "'b'", ["o.P(@ + 1, string([]byte{@}))", "@++; o.P(@)"]),
    ("i64", "int64", ["int64(5)", "int64(1) << 2", "1 + int64(4)", "int64(len(\"abcde\"))"], "9", NUM_USES),
    ("u8shift", "uint8", ["uint8(1) << 3", "uint8(8)"], "9", NUM_USES[:6]),
    ("complex", "complex128", ["1i", "complex(0, 1)", "1i + 0", "complex128(1i)"], "2i", ["o.P(real(@), imag(@))", "@ += 1; o.P(@)"]),
    ("dur", "time.Duration", ["time.Second", "5 * time.Second", "time.Second * 5", "time.Duration(5)", "-time.Second", "time.Duration(1) * time.Second"], "time.Hour", ["o.P(@.Seconds())", "o.P(@ * 2, @ / 2)", "@ += time.Second; o.P(@)", "o.P(time.Second - @ > 0)"]),
    ("named", "~I", ["~I(5)", "~I(2) + 3", "3 + ~I(2)"], "8", METH_USES + NUM_USES[:8]),
    ("struct", "~S", [BASE_S, "~NewS()", "*~NewPS()", "~S(~S{A: 1})", "(~S{A: 1})", "[]~S{{A: 1}}[0]"], "~S{A: 2}", STRUCT_USES),
    ("pstruct", "*~S", ["&" + BASE_S, "~NewPS()", "new(~S)", "&(~S{A: 1})", "(*~S)(~NewPS())", "[]*~S{{A: 1}}[0]"], "&~S{A: 2}", PSTRUCT_USES),
    ("alias", "~Al", ["~Al{A: 1, Arr: [3]int{1, 2, 3}, L: []int{4, 5}, M: map[string]int{\"a\": 6}, PIn: &~In{A: 2, L: []int{1}}, B: \"b\", F: ~Fx}"], "~Al{A: 2}", STRUCT_USES),
    ("palias", "~PAl", ["~PAl(~NewPS())", "~NewPS()"], "&~S{A: 2}", PSTRUCT_USES),
    ("anon", "struct{ A int; In ~In; Arr [3]int }", ["struct{ A int; In ~In; Arr [3]int }{A: 1}"], "struct{ A int; In ~In; Arr [3]int }{A: 2}",
     [u for u in STRUCT_USES if not re.search(r'\.(Get|Set|Self|With|Two|B|L|M|F|N|PIn|A2)\b', u) and '~S' not in u] + ['@.In.Set(4); o.P(@.In.A)', 'f := @.In.Set; f(2); o.P(@.In.A)']),
    ("anonmu", "struct{ sync.Mutex; M map[string]int }", ["struct{ sync.Mutex; M map[string]int }{}"], None, MU_USES),
    ("mu", "~Mu", ["~Mu{}", None], None, MU_USES),
    ("mutex", "sync.Mutex", ["sync.Mutex{}", None], None, ['@.Lock(); @.Unlock(); o.P("ok")', '@.Lock(); defer @.Unlock(); o.P("in")', 'p := &@; p.Lock(); o.P(@.TryLock())', '(@).Lock(); o.P(@.TryLock())', 'f := @.Lock; f(); o.P(@.TryLock())', 'var z sync.Locker = &@; z.Lock(); o.P(@.TryLock())']),
    ("pmutex", "*sync.Mutex", ["&sync.Mutex{}", "new(sync.Mutex)"], None, ['@.Lock(); @.Unlock(); o.P("ok")', '@.Lock(); o.P(@.TryLock())']),
    ("once", "sync.Once", ["sync.Once{}", None], None, ['@.Do(func() { o.P("one") }); @.Do(func() { o.P("two") })']),
    ("atomic", "atomic.Int64", ["atomic.Int64{}", None], None, ['@.Add(2); o.P(@.Load())', '@.Store(3); p := &@; o.P(p.Load())', 'f := @.Add; f(3); o.P(@.Load())']),
    ("atomicp", "atomic.Pointer[~S]", ["atomic.Pointer[~S]{}", None], None, ['@.Store(&~S{A: 3}); o.P(@.Load().A)', 'o.P(@.Load() == nil)']),
    ("buffer", "bytes.Buffer", ["bytes.Buffer{}", "*bytes.NewBufferString(\"q\")", None], None, ['@.WriteString("x"); o.P(@.String())', 'fmt.Fprintf(&@, "%d", 3); o.P(@.String())', 'f := @.WriteString; f("z"); o.P(@.Len())', 'var w io.Writer = &@; w.Write([]byte("1")); o.P(@.String())']),
    ("pbuffer", "*bytes.Buffer", ["&bytes.Buffer{}", "bytes.NewBufferString(\"\")", "new(bytes.Buffer)"], None, ['@.WriteString("x"); o.P(@.String())', 'fmt.Fprintf(@, "%d", 3); o.P(@.String())', 'o.P((*@).Len())']),
    ("wg", "sync.WaitGroup", ["sync.WaitGroup{}", None], None, ['@.Add(1); go func() { defer @.Done() }(); @.Wait(); o.P("done")']),
    ("err", "error", ["errors.New(\"e\")", "error(nil)", "fmt.Errorf(\"e%d\", 1)", "io.EOF", "error(&~Err{})"], "io.EOF", ['o.P(@ == nil, @ == io.EOF)', 'o.P(errors.Is(io.EOF, @))', 'if @ != nil { o.P(@.Error()) }', 'var e *~Err; o.P(errors.As(@, &e))', '@ = nil; o.P(@ == nil)', 'switch @ { case io.EOF: o.P("eof"); case nil: o.P("nil"); default: o.P("other") }', 'err := @; o.P(err != nil)']),
    ("itf", "~Itf", ["~Itf(~I(4))", "~I(4)"], "~In{A: 2}", ITF_USES),
    ("any", "interface{}", ["interface{}(~I(4))", "any(~I(4))"], "3", ['o.P(@)', 'switch x := @.(type) { case ~I: o.P("I", x); case int: o.P(x) }', 'x, ok := @.(~I); o.P(x, ok)', '@ = "s"; o.P(@.(string))', 'o.P(@ == nil)']),
    ("arr", "[3]int", ["[3]int{1, 2, 3}", "[...]int{1, 2, 3}", "~NewS().Arr", "[3]int([]int{1, 2, 3})"], "[3]int{7, 8, 9}", ARR_USES),
    ("narr", "~Ar", ["~Ar{1, 2, 3}"], "~Ar{7, 8, 9}", [u for u in ARR_USES if 'map[[3]' not in u] + METH_USES),
    ("arr2", "[2][2]int", ["[2][2]int{{1, 2}, {3, 4}}"], "[2][2]int{}", ['o.P(@[1][0])', '@[1][0] = 9; o.P(@)', 'p := &@[1][0]; *p = 8; o.P(@)', 's := @[1][:]; s[0] = 9; o.P(@)', 'for i := range @[0] { @[0][i]++ }; o.P(@)', 'o.P(len(@[0]))', '@[0], @[1] = @[1], @[0]; o.P(@)', 'x := @[0]; x[0] = 9; o.P(@)', 'p := &@[1]; p[0] = 9; o.P(@)']),
    ("arrs", "[2]~S", ["[2]~S{{A: 1}, {A: 2}}"], "[2]~S{}", ['o.P(@[1].A)', '@[1].A = 9; o.P(@[1].A)', '@[1].Set(4); o.P(@[1].A)', 'p := &@[1]; p.A = 5; o.P(@[1].A)', 'p := &@[1].A; *p = 5; o.P(@[1].A)', '@[1].In.Set(3); o.P(@[1].In.A)', 'f := @[0].Set; f(4); o.P(@[0].A)', 'for i := range @ { @[i].Set(i) }; o.P(@[1].A)', 'for _, x := range @ { x.Set(9) }; o.P(@[1].A)', '@[1].Arr[2] = 4; o.P(@[1].Arr)', 'o.P(@[1].Get())', 's := @[0].Arr[:]; s[1] = 4; o.P(@[0].Arr)']),
    ("parr", "*[3]int", ["&[3]int{1, 2, 3}", "new([3]int)"], "&[3]int{7, 8, 9}", ['o.P(@[1], len(@))', '@[1] = 4; o.P(*@)', 's := @[:]; s[0] = 9; o.P(*@)', 'for i := range @ { o.P(i) }', 'for i, x := range @ { o.P(i, x) }', 'p := &@[0]; *p = 3; o.P(*@)', '(*@)[0] = 3; o.P(@[0])', 'const n = len(@); o.P(n)', '@[0]++; o.P(*@)']),
    ("slice", "[]int", ["[]int{1, 2, 3}", "make([]int, 3)", "append([]int{1}, 2, 3)", "append([]int(nil), 1, 2, 3)", "[]int([]int{1, 2, 3})", "~NewS().L", "[]int{1, 2, 3}[:]"], "[]int{7, 8, 9}", SLICE_USES),
    ("nslice", "~Sl", ["~Sl{1, 2, 3}", "~Sl([]int{1, 2, 3})", "make(~Sl, 3)"], "~Sl{7, 8, 9}", SLICE_USES + ['@.Add(4); o.P(@)', 'o.P(@.Size())', '(&@).Add(3); o.P(@)', 'f := @.Add; f(4); o.P(@)']),
    ("sslice", "[]~S", ["[]~S{{A: 1}, {A: 2}}", "make([]~S, 2)"], "[]~S{{A: 4}, {}}", ['o.P(@[1].A)', '@[1].A = 3; o.P(@[1].A)', '@[0].Set(4); o.P(@[0].A)', 'p := &@[0]; p.A = 6; o.P(@[0].A)', 'p := &@[0].A; *p = 6; o.P(@[0].A)', 'for i := range @ { @[i].A++ }; o.P(@[0].A)', 'for _, s := range @ { s.A = 9 }; o.P(@[0].A)', 'f := @[0].Set; f(3); o.P(@[0].A)', '@[0].In.Set(2); o.P(@[0].In.A)', '@[0].Arr[1] = 3; o.P(@[0].Arr)']),
    ("pslice", "[]*~S", ["[]*~S{{A: 1}, {A: 2}}"], "nil", ['o.P(@[1].A)', '@[0].Set(4); o.P(@[0].A)', 'for _, s := range @ { s.A = 9 }; o.P(@[0].A)', '*@[0] = ~S{A: 3}; o.P(@[0].A)', 'p := &@[0].A; *p = 4; o.P(@[0].A)']),
    ("slice2", "[][]string", ["[][]string{{\"a\"}, {\"b\", \"c\"}}"], "nil", ['o.P(@[1][0])', '@[1][0] = "z"; o.P(@)', '@[0] = append(@[0], "q"); o.P(@)', 'for _, r := range @ { for _, c := range r { o.P(c) } }']),
    ("map", "map[string]int", ["map[string]int{\"a\": 1}", "make(map[string]int)", "~NewS().M"], "map[string]int{\"z\": 1}", MAP_USES),
    ("nmap", "~Mp", ["~Mp{\"a\": 1}", "make(~Mp)"], "~Mp{\"z\": 1}", MAP_USES + ['@.Put("q", 1); o.P(@)', 'f := @.Put; f("r", 2); o.P(@)']),
    ("smap", "map[string]~S", ["map[string]~S{\"a\": {A: 1}}"], "nil", ['o.P(@["a"].A)', 'x := @["a"]; x.A = 4; @["a"] = x; o.P(@["a"].A)', 'o.P(@["a"].Get())', 'for k, v := range @ { o.P(k, v.A) }']),
    ("pmap", "map[string]*~S", ["map[string]*~S{\"a\": {A: 1}}"], "nil", ['o.P(@["a"].A)', '@["a"].A = 4; o.P(@["a"].A)', '@["a"].Set(5); o.P(@["a"].A)', 'p := &@["a"].A; *p = 3; o.P(@["a"].A)', '@["a"].In.Set(4); o.P(@["a"].In.A)']),
    ("fmap", "map[string]func(int) int", ["map[string]func(int) int{\"a\": ~Fx}"], "nil", ['o.P(@["a"](2))', '@["b"] = func(x int) int { return -x }; o.P(@["b"](1))']),
    ("mapmap", "map[string]map[string][]int", ["map[string]map[string][]int{\"a\": {\"b\": {1}}}"], "nil", ['o.P(@["a"]["b"][0])', '@["a"]["b"] = append(@["a"]["b"], 2); o.P(@["a"])', '@["a"]["c"] = nil; o.P(len(@["a"]))']),
    ("amap", "map[[2]int]struct{}", ["map[[2]int]struct{}{{1, 2}: {}}"], "nil", ['_, ok := @[[2]int{1, 2}]; o.P(ok)', '@[[2]int{}] = struct{}{}; o.P(len(@))']),
    ("func", "func(int) int", ["func(x int) int { return x + 1 }", "~Fx", "~NewS().F", "(func(int) int)(~Fx)"], "func(x int) int { return x - 1 }", FUNC_USES),
    ("func2", "func(a int, b ...string) (int, error)", ["func(a int, b ...string) (int, error) { return a + len(b), nil }"], "nil", ['x, err := @(1, "a", "b"); o.P(x, err)', 'o.P(@(3))', 'x, _ := @(1, []string{"z"}...); o.P(x)']),
    ("funcf", "func() func() int", ["func() func() int { n := 0; return func() int { n++; return n } }"], "nil", ['f := @(); f(); o.P(f())', 'o.P(@()())']),
    ("nfunc", "~Fn", ["~Fn(~Fx)", "~Fn(func(x int) int { return x + 1 })"], "nil", FUNC_USES[:5] + ['o.P(@.Call(3))']),
    ("methv", "func() int", ["~NewS().Get", "~I(4).Get"], "nil", ['o.P(@())']),
    ("methe", "func(~S) int", ["~S.Get"], "nil", ['o.P(@(~S{A: 4}))']),
    ("chan", "chan int", ["make(chan int, 2)"], "make(chan int, 1)", CHAN_USES),
    ("nchan", "~Ch", ["make(~Ch, 2)"], "make(~Ch, 1)", CHAN_USES),
    ("emb", "~Emb", ["~Emb{In: ~In{A: 1}}"], "~Emb{}", EMB_USES),
    ("pembv", "~PEmb", ["~PEmb{In: &~In{A: 1}}"], "~PEmb{In: &~In{}}", [u for u in EMB_USES if 'X' not in u or True]),
    ("embp", "*~Emb", ["&~Emb{In: ~In{A: 1}}"], "&~Emb{}", [u for u in EMB_USES if '&@;' not in u and '(&@)' not in u and '= &@' not in u]),
    ("deep", "~Deep", ["~Deep{PE: &~Emb{}}"], "~Deep{PE: &~Emb{}}", DEEP_USES),
    ("pdeep", "*~Deep", ["&~Deep{PE: &~Emb{}}"], "&~Deep{PE: &~Emb{}}", DEEP_USES),
    ("gen", "~G[int]", ["~G[int]{V: 1}"], "~G[int]{V: 3}", METH_USES + ['o.P(@.V)', '@.V = 4; o.P(@.V)', 'p := &@.V; *p = 3; o.P(@.V)']),
    ("pgen", "*~G[string]", ["&~G[string]{V: \"1\"}", "new(~G[string])"], "&~G[string]{}", ['o.P(@.Get())', '@.Set("4"); o.P(@.Get())', '@.V += "x"; o.P(@.V)']),
    ("gens", "~G[~S]", ["~G[~S]{V: ~S{A: 1}}"], "~G[~S]{}", ['o.P(@.V.A)', '@.V.Set(3); o.P(@.V.A)', '@.Set(~S{A: 4}); o.P(@.Get().A)', 'o.P(@.V.Get())']),
    ("gen2", "~G2[string, int]", ["~G2[string, int]{}", None], "~G2[string, int]{}", ['@.Put("a", 1); o.P(@.M)', '@.M = map[string]int{"b": 2}; o.P(@.M["b"])', 'f := @.Put; f("c", 3); o.P(@.M)']),
    ("pp", "**~S", ["o_pp(~NewPS())"], None, []),
    ("pint", "*int", ["new(int)"], "new(int)", ['*@ = 3; o.P(*@)', '(*@)++; o.P(*@)', 'p := &@; **p = 4; o.P(*@)', 'x := @; *x = 5; o.P(*@)']),
    ("list", "*list.List", ["list.New()"], None, ['@.PushBack(1); o.P(@.Len())', 'for e := @.Front(); e != nil; e = e.Next() { o.P(e.Value) }; o.P(@.Len())']),
    ("listv", "list.List", ["list.List{}", None], None, ['@.PushBack(1); o.P(@.Len())', '@.Init().PushBack(2); o.P(@.Len())']),
    ("rx", "*regexp.Regexp", ["regexp.MustCompile(\"a+\")"], None, ['o.P(@.MatchString("caat"))', 'o.P(@.FindString("caat"))']),
    ("tm", "time.Time", ["time.Unix(0, 0)", "time.Time{}"], "time.Unix(1, 0)", ['o.P(@.IsZero())', 'o.P(@.Add(time.Second).Unix() > 0)', 'o.P(@.Equal(@))', '@ = @.Add(time.Hour); o.P(@.UTC().Hour())', 'f := @.Unix; o.P(f() == @.Unix())']),
    ("ctx", "context.Context", ["context.Background()"], "context.TODO()", ['o.P(@.Err())', 'c, cancel := context.WithCancel(@); cancel(); o.P(c.Err())', 'o.P(@ == nil)']),
]
KINDS = [k for k in KINDS if k[0] != "pp"]

COMMON = [
    'o.P(@)', 'x := @; o.P(x)', 'var x ^ = @; o.P(x)', 'p := &@; o.P(*p)', 'o.P([]interface{}{@}[0])', 'func() { y := @; o.P(y) }()', 'f := func() ^ { return @ }; o.P(f())', 'o.P((@))', 'p := &(@); o.P(*p)',
    'a, b := @, @; o.P(a, b)', 'o.P([]^{@}[0])', 'o.P(map[string]^{"k": @}["k"])', 'o.P(struct{ F ^ }{@}.F)', 'o.P(struct{ F ^ }{F: @}.F)', 'ch := make(chan ^, 1); ch <- @; o.P(<-ch)', 'ps := []*^{&@}; o.P(*ps[0])', 'pp := &@; q := &pp; o.P(**q)',
    'o.P(unsafe.Sizeof(@))', 'o.P(reflect.TypeOf(@))', 'o.P(~Id(@))', 'o.P(~Id[^](@))', '_ = @', 'if p := &@; p != nil { o.P("p") }', 'defer func(x ^) { o.P(x) }(@)', 'done := make(chan ^); go func(x ^) { done <- x }(@); o.P(<-done)',
    'o.P(*(&@))', 'o.P(&@ == &@)', 'f := func(p *^) { o.P(*p) }; f(&@)', 'var i interface{} = &@; o.P(i.(*^) == &@)', 'var m = map[*^]int{&@: 1}; o.P(m[&@])', 'f := func(xs ...^) { o.P(len(xs), xs[0]) }; f(@, @)', 'f := func() (^, *^) { return @, &@ }; x, p := f(); o.P(x, p == &@)', 'x := [...]^{1: @}; o.P(x[1])',
    'switch x := interface{}(@).(type) { case ^: o.P("T", x); default: o.P("no") }', 'for i := 0; i < 2; i++ { x := @; o.P(i, x) }', 'L: for { o.P(@); break L }', 'type loc struct{ F ^; P *^ }; z := loc{@, &@}; o.P(z.F, z.P == &@)', 'type loc struct{ F ^; P *^ }; z := &loc{F: @, P: &@}; o.P(z.F, z.P == &@)',
]
ASSIGN = [
    '@ = !; o.P(@)', 'x := @; @ = !; o.P(x, @); @ = x; o.P(@)', 'var y int; @, y = !, 1; o.P(@, y)', '*(&@) = !; o.P(@)', 'p := &@; *p = !; o.P(@)', 'func() { @ = ! }(); o.P(@)', 'defer func() { o.P(@) }(); @ = !', 'if @ = (!); true { o.P(@) }', 'for i := 0; i < 1; i++ { @ = ! }; o.P(@)', 'p := &@; @ = !; o.P(*p)',
    'switch @ = (!); { default: o.P(@) }', 'f := func(p *^) { *p = ! }; f(&@); o.P(@)', 'done := make(chan int); go func() { @ = !; close(done) }(); <-done; o.P(@)', 'x := []^{@}; @ = !; o.P(x[0], @)', 'for i, x := range []^{!} { @ = x; o.P(i, @) }', '(@) = !; o.P(@)',
    'f := func() (x ^, e error) { return !, nil }; var e error; @, e = f(); o.P(@, e)', 'm := map[string]^{"k": !}; var ok bool; @, ok = m["k"]; o.P(@, ok)', 'ch := make(chan ^, 1); ch <- !; select { case @ = <-ch: }; o.P(@)', 'var i interface{} = (^)(!); var ok bool; @, ok = i.(^); o.P(@, ok)',
]
NOCOPY = ("mu", "anonmu", "mutex", "once", "atomic", "atomicp", "wg", "buffer", "listv")
NOCOPY_COMMON = [u for u in COMMON if '&@' in u and not re.search(r'(?<!&)@', u) and '*p' not in u and '*(' not in u and '**' not in u and '*ps' not in u]

# names declared locally that hide the package variable: @ is the local one,
# # the same identifier used for the package variable where it is visible again
SHADOWS = [
    '@ := 7; o.P(@); @++; o.P(@)', '{ @ := 7; o.P(@) }; o.P(@)', '@ := @; o.P(@)', '@ := @ + 1; @ = 9; o.P(@)', '{ @ := @; @++; o.P(@) }; o.P(@)', 'var @ = @; o.P(@)', 'var @ int; o.P(@)', 'const @ = 3; o.P(@)', '{ const @ = 3; o.P(@) }; o.P(@)', 'type @ int; o.P(@(3))', '{ type @ struct{ X int }; o.P(@{4}) }; o.P(@)',
    'func(@ int) { o.P(@) }(3); o.P(@)', 'func() (@ int) { @ = 4; return }(); o.P(@)', 'f := func() (@ int) { defer func() { @++ }(); return 3 }; o.P(f(), @)', 'for @ := 0; @ < 2; @++ { o.P(@) }; o.P(@)', 'for @ := range []int{1, 2} { o.P(@) }; o.P(@)', 'for _, @ := range []int{8, 9} { o.P(@) }; o.P(@)', 'for @, x := range []int{8} { o.P(@, x) }; o.P(@)',
    'if @ := 4; @ > 0 { o.P(@) }; o.P(@)', 'if @ := @; @ > 0 { o.P(@) } else { o.P(-@) }; o.P(@)', 'if @, ok := map[string]int{"a": 3}["a"]; ok { o.P(@) }; o.P(@)', 'switch @ := 2; @ { case 2: o.P(@) }; o.P(@)', 'switch @ := interface{}("s").(type) { case string: o.P(@); case int: o.P(@ + 1) }; o.P(@)', 'switch @ := interface{}(@).(type) { case int: o.P(@) }; o.P(@)',
    'switch 1 { case 1: @ := 6; o.P(@) }; o.P(@)', 'ch := make(chan int, 1); ch <- 4; select { case @ := <-ch: o.P(@) }; o.P(@)', 'ch := make(chan int, 1); ch <- 4; select { case @, ok := <-ch: o.P(@, ok) }; o.P(@)', '@: for { o.P("l"); break @ }; o.P(@)', 'x := struct{ @ int }{4}; o.P(x.@, @)', 'x := struct{ @ int }{@: @}; o.P(x.@)', 'x := &struct{ @ int }{@: 3}; x.@ = 5; o.P(x.@, @)',
    'type t struct{ @ int }; x := t{@: @ + 1}; o.P(x.@)', 'type t struct{ @ int }; xs := []t{{@: 1}, {@}}; o.P(xs)', 'm := map[int]int{@: 1}; o.P(m)', 'm := map[int]map[int]int{@: {@: @}}; o.P(m)', '@, y := 3, 4; o.P(@, y)', 'x := 1; @, x := x, @; o.P(@, x)', '@, x := @, 2; o.P(@, x)', 'y, @ := 1, 2; o.P(y, @)',
    'f := func(x int) int { @ := x; return @ }; o.P(f(3), @)', 'f := func(@ ...int) int { return len(@) }; o.P(f(1, 2), @)', 'f := func(x, @ int) (y, z int) { return @, x }; a, b := f(1, 2); o.P(a, b, @)', 'var f func(@ int) int; f = func(y int) int { if y == 0 { return @ }; return f(y - 1) }; o.P(f(2))', 'func() { o.P(@); @ := 5; o.P(@) }(); o.P(@)', 'func() { defer func(@ int) { o.P(@) }(@ + 1) }(); o.P(@)',
    'type t interface{ @() int }; var x t; o.P(x == nil, @)', 'for i := 0; i < 2; i++ { o.P(@); @ := i; o.P(@) }; o.P(@)', 'x := @; { @ := x; x = @ + 1; o.P(@, x) }; o.P(@, x)', 'var ( @ = 3; y = @ ); o.P(@, y)', 'var y = @; var @ = y + 1; o.P(@, y)', '@, err := ~FxE(3); o.P(@, err)', 'if x := @; x > 0 { @ := x; o.P(@) } else if @ := 3; @ > 0 { o.P(@) }; o.P(@)',
    'for { @ := 3; o.P(@); break }; o.P(@)', 'for @ := @; @ < 9; @ += 3 { o.P(@) }; o.P(@)', 'for i, @ := range []int{@, @} { o.P(i, @) }; o.P(@)', 'func() { type @ string; o.P(@("x")) }(); o.P(@)', 'if true { @, b := 1, 2; o.P(@, b) }; o.P(@)', 'if @ := ~Fx(@); @ > 0 { o.P(@) }; o.P(@)',
]


class Pkg:
    def __init__(self, name, prefix):
        self.name, self.prefix, self.cases, self.decls = name, prefix, [], []


class Corpus:
    """cases: key -> (package, number, source)"""

    def __init__(self, mod="verifc", per=60):
        self.mod, self.per = mod, per
        self.cases = []  # (key, group, decls, body, libdecls)
        self.keys = set()

    def add(self, group, key, body, decls="", lib="", raw=False):
        key = group + "/" + key
        assert key not in self.keys, key
        self.keys.add(key)
        self.cases.append((key, group, decls, body.replace('¬', '^'), lib))


def qual(s, q):
    return re.sub(r'~([A-Z])', (q + r'.\1') if q else r'\1', s)


def subst(u, var, typ, new):
    return u.replace('^', typ).replace('@', var).replace('!', new) if '!=' not in u and '!false' not in u and '!@' not in u else u.replace('^', typ).replace('@', var)


def multi(body):
    """one statement per line"""
    return body


def kind_cases(c, quick, owns=("own", "imp", "lib")):
    for name, typ, inits, new, uses in KINDS:
        if name in NOCOPY:
            us = NOCOPY_COMMON + uses
        else:
            us = COMMON + uses + (ASSIGN if new else [])
        us = [u for u in dict.fromkeys(us) if u]
        for own in owns:
            q = {"own": "", "imp": "k", "lib": "l"}[own]
            for form in ("typed", "inf"):
                for j, u in enumerate(us):
                    init = inits[0]
                    d = ("var $V %s = %s" % (typ, init)) if form == "typed" else "var $V = %s" % init
                    put(c, "var", "%s.%s.%s.%s" % (name, own, form, u), u, d, own, q, typ, new)
            # other forms of declaration
            few = [us[0], us[3] if name not in NOCOPY else us[1], us[-1]]
            for i, init in enumerate(inits):
                forms = []
                if init is not None:
                    if i > 0:
                        forms += [("inf%d" % i, "var $V = %s" % init)]
                    if i == 0:
                        forms += [("group", "var (\n\t$Va = 1\n\t// doc\n\t$V = %s // trailing\n\t$Vb, $Vc = \"s\", 2\n)" % init),
                                  ("multi", "var $V, $Va = %s, 3" % init), ("multi2", "var $Va, $V %s = %s, %s" % (typ, init, init)),
                                  ("cmt", "var $V /* a */ = /* b */ %s /* c */ // d" % init), ("late", "var $V %s\n\nfunc init() { $V = %s }" % (typ, init) if name not in NOCOPY else None),
                                  ("paren", "var ($V = %s)" % init), ("semi", "var $V = %s; var $Va = 2" % init),
                                  ("fcall", "var $V = $Vf()\n\nfunc $Vf() %s { return %s }" % (typ, init)), ("fcall2", "var $V, $Va = $Vf()\n\nfunc $Vf() (%s, error) { return %s, nil }" % (typ, init)),
                                  ("conv", "var $V = (%s)(%s)" % (typ, init)), ("copy", "var $V = $Va\nvar $Va %s = %s" % (typ, init)), ("lit", "var $V = func() %s { return %s }()" % (typ, init)),
                                  ("loct", "type $T %s\n\nvar $Va $T\nvar $V %s = %s" % (typ, typ, init)),
                                  ("ptr", "var $V = *$Va\nvar $Va = $Vf()\n\nfunc $Vf() *%s { x := %s(%s); return &x }" % (typ, "(" + typ + ")", init) if name not in NOCOPY else None)]
                else:
                    forms += [("zero", "var $V %s" % typ)]
                for fn, d in forms:
                    if d is None or (name in NOCOPY and fn in ("fcall", "fcall2", "conv", "copy", "lit", "ptr", "multi2")):
                        continue
                    if own == "imp" and quick:
                        continue
                    for u in dict.fromkeys(few if i == 0 or init is None else few[:2]):
                        put(c, "decl", "%s.%s.%s.%s" % (name, own, fn, u), u, d, own, q, typ, new)


def put(c, group, key, u, d, own, q, typ, new):
    v = "l.$V" if own == "lib" else "$V"
    dq = "" if own == "lib" else q
    if own == "lib":
        # a selector cannot be declared or be a field
        pass
    body = qual(subst(u, v, typ, new or ""), q)
    if own == "lib":
        c.add(group, key, body, "", qual(d, ""))
    else:
        c.add(group, key, body, qual(d, dq))


def shadow_cases(c, quick):
    for i, u in enumerate(SHADOWS):
        if not u:
            continue
        c.add("shadow", u, qual(u.replace("@", "$V"), "k"), "var $V = 5")
        c.add("shadow", "typed." + u, qual(u.replace("@", "$V"), "k"), "var $V int = 5")
    # the variable of the imported package, hidden by a local name of the import
    for u in ['l := struct{ $V int }{4}; o.P(l.$V)', '{ l := struct{ $V int }{4}; o.P(l.$V) }; o.P(l.$V)', 'func(l struct{ $V int }) { o.P(l.$V) }(struct{ $V int }{$V: 6}); o.P(l.$V)', 'x := struct{ $V int }{$V: l.$V}; o.P(x.$V)',
              'for _, l := range []struct{ $V int }{{1}} { o.P(l.$V) }; o.P(l.$V)', 'if l := (struct{ $V int }{3}); l.$V > 0 { o.P(l.$V) }; o.P(l.$V)', 'switch l := interface{}(l.$V).(type) { case int: o.P(l) }; o.P(l.$V)']:
        c.add("shadow", "imp." + u, u, "", "var $V int = 5")
    # parameters, receivers and results of declared functions
    for key, d, body in [
        ("param", "func $F($V int) int { $V++; return $V }", "o.P($F(1), $V)"), ("recv", "type $T struct{ X int }\n\nfunc ($V $T) M() int { return $V.X }\nfunc ($V *$T) N() int { $V.X++; return $V.X }", "t := $T{3}; o.P(t.M(), t.N(), $V)"),
        ("result", "func $F() ($V int, err error) { $V = 4; return }", "x, err := $F(); o.P(x, err, $V)"), ("variadic", "func $F($V ...int) int { return len($V) }", "o.P($F(1, 2), $V)"), ("tparam", "func $F[$V any](x $V) $V { var y $V = x; return y }", "o.P($F(3), $V)"),
        ("method", "type $T struct{}\n\nfunc ($T) $V() int { return 4 }", "o.P($T{}.$V(), $V)"), ("field", "type $T struct{ $V int }", "t := $T{$V: 3}; t.$V++; o.P(t.$V, $V)"), ("fieldv", "type $T struct{ $V int }", "t := $T{$V: $V}; o.P(t.$V)"), ("embed", "type $T struct{ $U }\ntype $U struct{ $V int }", "t := $T{$U{$V: 4}}; o.P(t.$V, t.$U.$V, $V)"),
        ("recur", "func $F(n int) int { if n == 0 { return $V }; $V := n; return $V + $F(n-1) }", "o.P($F(3))"), ("closure", "var $G = func($V int) int { return $V }", "o.P($G(3), $V)"), ("initclos", "var $G = func() int { return $V }", "o.P($G())"), ("initref", "var $W = $V + 1", "o.P($W, $V)"), ("initptr", "var $W = &$V", "*$W = 9; o.P($V)"),
        ("initcall", "var $W = $F()\n\nfunc $F() int { return $V * 2 }", "o.P($W)"), ("ginit", "func init() { $V = 8 }", "o.P($V)"), ("goto", "func $F() int { i := 0\nL:\n\tif i < 3 { i += $V; goto L }\n\treturn i }", "o.P($F())"), ("named", "type $T = struct{ $V int }", "var t $T; t.$V = 2; o.P(t.$V, $V)"),
        ("ifacem", "type $T interface{ $V() int }\ntype $U int\n\nfunc (u $U) $V() int { return int(u) }", "var t $T = $U(3); o.P(t.$V(), $V)"), ("const", "const $K = 3\nvar $W = $K", "o.P($W + $V)"), ("iota", "const ( $K = iota; $L )", "o.P($V * $L)"),
    ]:
        for form in ("var $V = 5", "var $V int = 5"):
            c.add("shadow", "decl.%s.%s" % (key, form[:10]), body, form + "\n\n" + d)


WRAPS = [u for u in INT_USES + ['o.P(@)', 'x := @; o.P(x)', 'if @ > 0 { o.P("pos") }', 'switch { case @ > 0: o.P("pos") }', 'o.P(-@)', 'func() { y := @; o.P(y) }()'] if u and not re.search(r'(@ = |@\+\+|@, \w+ :?=|, @ =|@ = <-|@ <<=|for @|&@|@, ok|@, e )', u)]
EXPRS = [("sf", "$V.A", "var $V = ~S{A: 5}"), ("psf", "$V.A", "var $V = &~S{A: 5}"), ("sl", "$V[1]", "var $V = []int{1, 5}"), ("ar", "$V[1]", "var $V = [2]int{1, 5}"), ("mp", '$V["a"]', 'var $V = map[string]int{"a": 5}'), ("deref", "*$V", "var $V = $F()\n\nfunc $F() *int { x := 5; return &x }"),
         ("call", "$V(4)", "var $V = ~Fx"), ("calll", "$V()", "var $V = func() int { return 5 }"), ("len", "len($V)", "var $V = []int{1, 2, 3, 4, 5}"), ("lens", "len($V)", 'var $V = "abcde"'), ("meth", "$V.Get()", "var $V = ~I(5)"), ("sum", "($V + 2)", "var $V = 3"), ("conv", "int($V)", "var $V = 5.0"), ("nest", "$V.In.A", "var $V = ~S{In: ~In{A: 5}}"),
         ("idx", "$V[$W]", "var $V = []int{1, 5}\nvar $W = 1"), ("ta", "$V.(int)", "var $V interface{} = 5"), ("lenar", "len($V)", "var $V = [5]int{}")]


def wrap_cases(c, quick):
    for en, e, d in EXPRS:
        for w in WRAPS:
            if en in ("len", "lens", "lenar", "call", "calll", "meth", "sum", "conv", "ta") and re.search(r'@\.|p := &', w):
                continue
            ww = w.replace("@", e)
            for own in ("own", "lib"):
                q = "k" if own == "own" else "l"
                b = qual(ww, q)
                if own == "lib":
                    b = b.replace("$V", "l.$V").replace("$W", "l.$W")
                    c.add("wrap", "%s.lib.%s" % (en, w), b, "", qual(d, ""))
                else:
                    c.add("wrap", "%s.own.%s" % (en, w), b, qual(d, "k"))


PARAMS = ["", "a int", "a, b int", "_ int", "int", "_, a int", "int, string", "a ...int", "...int", "_ ...int", "a int, b ...string", "f func(int) int", "a struct{ A int }", "i interface{ M() }", "c chan<- int", "\n\ta int,\n\tb string,\n", "len int", "o int", "nil int", "string string", "post func(), stop bool", "a [2]int, m map[string]int", "_ struct{}, _ struct{}", "err error", "a *int", "a /* c */ int /* d */", "init int", "fmt int", "interface{}", "any", "a []interface{}", "append int", "true bool", "recover int, panic int", "int int"]
ARGS = {"": "", "a int": "4", "a, b int": "4, 5", "_ int": "4", "int": "4", "_, a int": "4, 5", "int, string": "4, \"s\"", "a ...int": "1, 2", "...int": "1, 2", "_ ...int": "1", "a int, b ...string": "1, \"x\", \"y\"", "f func(int) int": "func(x int) int { return x }", "a struct{ A int }": "struct{ A int }{4}", "i interface{ M() }": "nil", "c chan<- int": "make(chan int, 1)",
        "\n\ta int,\n\tb string,\n": "4, \"b\"", "len int": "4", "o int": "4", "nil int": "4", "string string": "\"s\"", "post func(), stop bool": "nil, true", "a [2]int, m map[string]int": "[2]int{1, 2}, nil", "_ struct{}, _ struct{}": "struct{}{}, struct{}{}", "err error": "io.EOF", "a *int": "new(int)", "a /* c */ int /* d */": "4", "init int": "4", "fmt int": "4", "interface{}": "4", "any": "4", "a []interface{}": "nil", "append int": "4", "true bool": "false", "recover int, panic int": "1, 2", "int int": "3"}
RESULTS = [("", "", ""), (" int", "4", "x"), (" (int)", "4", "x"), (" (r int)", "", "x"), (" (_ int)", "4", "x"), (" (_ int)", "", "x"), (" (int, error)", "4, nil", "x, y"), (" (r int, _ error)", "", "x, y"), (" (_, r int)", "", "x, y"), (" func() int", "func() int { return 4 }", "x"), (" func() (int, error)", "nil", "x"), (" (func() (int, error))", "nil", "x"), (" *int", "nil", "x"),
           (" map[string]func() (a int)", "nil", "x"), (" struct{ A int }", "struct{ A int }{4}", "x"), (" interface{ M() }", "nil", "x"), (" chan int", "nil", "x"), (" <-chan int", "nil", "x"), (" (<-chan int)", "nil", "x"), (" [2]int", "[2]int{1, 2}", "x"), (" []struct{ A, B int }", "nil", "x"), (" (\n\tint,\n\tstring,\n)", "4, \"s\"", "x, y"), (" (r1, r2 int, err error)", "1, 2, nil", "x, y, z"),
           (" func(int) func() (int, string)", "nil", "x"), (" /* a */ int /* b */", "4", "x"), (" (int /* a */)", "4", "x"), (" (err error)", "io.EOF", "x"), (" error", "io.EOF", "x"), (" any", "4", "x"), (" (q1, q2, q3 int)", "", "x, y, z")]
RECVS = ["", "(t $T)", "(t *$T)", "(_ $T)", "(_ *$T)", "($T)", "(*$T)", "(t $G[X])", "(t *$G[_])", "($G[X])", "(_ *$G[X])", "[X any]", "(t $H[K, W])", "(*$H[_, _])", "(t ($T))", "(t *($T))", "(t $N)", "(t *$N)", "(t $A)"]
RDECL = "type $T struct{ A int }\ntype $G[X any] struct{ A X }\ntype $H[K comparable, W any] struct{ A map[K]W }\ntype $N int\ntype $A []int\n"


def func_cases(c, quick):
    def one(key, recv, params, res, ret, vars_):
        pv = ""
        names = [n for n in re.findall(r'(\w+)(?=,| (?:\.\.\.)?(?:int|string|func|struct|interface|chan|\[|map|error|bool|\*|/\*))', params) if False]
        del names
        generic = recv == "[X any]"
        used = ""
        if re.search(r'\ba\b', params) and "..." not in params and "chan" not in params and "*int" not in params:
            used = "o_use(a);"
        body = "{ %s return %s }" % (used, ret) if res else "{ %s }" % used
        name = "$F" if recv in ("", "[X any]") else "M"
        d = RDECL + "func %s%s%s(%s)%s %s" % ("" if generic or not recv else recv + " ", name, recv if generic else "", params, res, body)
        call = {"": "$F", "[X any]": "$F[int]"}.get(recv)
        pre = ""
        if call is None:
            base = re.sub(r'[()*]', ' ', recv).split()[-1] if "[" not in recv else recv
            t = "$T"
            if "$G" in recv:
                t = "$G[int]"
            elif "$H" in recv:
                t = "$H[string, int]"
            elif "$N" in recv:
                t = "$N"
            elif "$A" in recv:
                t = "$A"
            del base
            pre = "var v %s; " % t
            call = "v.M"
        call += "(%s)" % ARGS[params]
        if vars_:
            b = "%s%s := %s; o.P(%s)" % (pre, vars_, call, vars_)
            b = b.replace("; o.P(", "; o.PT(")
        else:
            b = pre + call + "; o.P(1)"
        c.add("func", key, b, d.replace("o_use(a)", "_ = a"))
    for recv in RECVS:
        for p in PARAMS:
            for i, (res, ret, vs) in enumerate(RESULTS):
                # every pair of dimensions, and every triple of a core
                core = recv in ("", "(t $T)", "(*$T)", "(_ *$G[X])", "[X any]") and p in ("", "a int", "_, a int", "int, string", "...int", "nil int", "\n\ta int,\n\tb string,\n") and i < 12
                if not (core or p == "_, a int" or i == 7 or (recv == "($T)")):
                    continue
                if not quick or core or p == "_, a int" and i in (1, 5, 9) or i == 7 and recv in ("", "(*$T)") or recv == "($T)" and (p in ("int", "...int") or i in (0, 1, 8)):
                    one("%s|%s|%s%s" % (recv, p, res, "" if ret else "naked"), recv, p, res, ret, vs)


MISC = [
    # key, declarations, body
    ("oneline", "func $F() int { return 1 }; func $Fb() int { return 2 }", "o.P($F(), $Fb())"),
    ("empty", "func $F() {}", "$F(); o.P(1)"), ("emptynl", "func $F() {\n}", "$F(); o.P(1)"), ("cmtbody", "func $F() { // comment\n\t// another\n}", "$F(); o.P(1)"), ("cmtbody2", "func $F() int { /* c */ return 3 /* d */ }", "o.P($F())"), ("semi", "func $F() int { ; ; return 3; }", "o.P($F())"),
    ("label", "func $F() int {\nL:\n\tfor {\n\t\tbreak L\n\t}\n\treturn 2\n}", "o.P($F())"), ("label1", "func $F() int { L: for { break L }; return 2 }", "o.P($F())"), ("goto", "func $F() int {\n\ti := 0\n\tgoto L\nL:\n\ti++\n\tif i < 3 {\n\t\tgoto L\n\t}\n\treturn i\n}", "o.P($F())"), ("goto0", "func $F() (r int) {\n\tgoto L\nL:\n\tr++\n\tif r < 3 {\n\t\tgoto L\n\t}\n\treturn\n}", "o.P($F())"),
    ("noinline", "//go:noinline\nfunc $F(a int) int { return a + 1 }", "o.P($F(3))"), ("nosplit", "//go:nosplit\nfunc $F(a int) int { return a + 1 }", "o.P($F(3))"), ("doc", "// $F does\n//\n//\tcode\n//\n//go:noinline\nfunc $F(a int) int { return a + 1 }", "o.P($F(3))"), ("docblk", "/* $F does */\nfunc $F(a int) int { return a + 1 }", "o.P($F(3))"), ("docblk2", "/* x */ func $F(a int) int { return a + 1 }", "o.P($F(3))"),
    ("deferres", "func $F() (r int) {\n\tdefer func() { r *= 2 }()\n\treturn 3\n}", "o.P($F())"), ("deferres2", "func $F() (r int, err error) {\n\tdefer func() {\n\t\tif e := recover(); e != nil {\n\t\t\terr = fmt.Errorf(\"%v\", e)\n\t\t\tr = 9\n\t\t}\n\t}()\n\tpanic(\"x\")\n}", "o.P($F())"), ("recover0", "func $F() int {\n\tdefer func() { recover() }()\n\tpanic(\"x\")\n}", "o.P($F())"),
    ("recoverdirect", "func $F() (r int) {\n\tdefer $Fb(&r)\n\tpanic(1)\n}\n\nfunc $Fb(r *int) { if e := recover(); e != nil { *r = 7 } }", "o.P($F())"), ("recovernested", "func $F() { defer func() { func() { o_ := recover(); _ = o_ }() }(); panic(\"deep\") }", "defer func() { o.P(recover()) }(); $F()"), ("recovermethod", "type $T struct{ E interface{} }\n\nfunc (t *$T) Rec() { t.E = recover() }\nfunc $F(t *$T) { defer t.Rec(); panic(\"m\") }", "var t $T; $F(&t); o.P(t.E)"),
    ("panicval", "func $F() { panic(k.I(4)) }", "defer func() { o.P(recover()) }(); $F()"), ("panicrt", "func $F(xs []int) int { return xs[5] }", "defer func() { o.P(fmt.Sprint(recover())) }(); $F(nil)"), ("panicnil", "func $F(p *k.S) int { return p.A }", "defer func() { o.P(fmt.Sprint(recover())) }(); $F(nil)"), ("panicstack", "func $F(n int) int {\n\tif n == 0 {\n\t\tpanic(\"bottom\")\n\t}\n\treturn $F(n-1) + 1\n}", "$F(3)"),
    ("panicdefer", "func $F() {\n\tdefer func() {\n\t\tpanic(\"second\")\n\t}()\n\tpanic(\"first\")\n}", "$F()"), ("goexit", "func $F() {\n\tdefer func() {}()\n\truntime.Goexit()\n}", "defer o.P(\"deferred\"); $F(); o.P(\"unreachable\")"), ("noret", "func $F() int {\n\tfor {\n\t\treturn 3\n\t}\n}", "o.P($F())"), ("noret2", "func $F() int { select {} }", "o.P(2)"), ("noretpanic", "func $F() int { panic(\"z\") }", "$F()"), ("noretsw", "func $F(x int) int {\n\tswitch {\n\tcase x > 0:\n\t\treturn 1\n\tdefault:\n\t\treturn 2\n\t}\n}", "o.P($F(1))"),
    ("generic", "func $F[T int | string, U any](a T, f func(T) U) []U { return []U{f(a)} }", "o.P($F(3, func(x int) string { return fmt.Sprint(x) }))"), ("genericonly", "func $F[T any]() T { var z T; return z }", "o.P($F[int](), $F[string]())"), ("genericm", "type $T[K comparable, V any] struct{ m map[K]V }\n\nfunc (t *$T[K, V]) Put(k K, v V) *$T[K, V] { if t.m == nil { t.m = make(map[K]V) }; t.m[k] = v; return t }\nfunc (t $T[K, _]) Len() int { return len(t.m) }\nfunc (t $T[_, _]) Z() {}", "var t $T[string, int]; t.Put(\"a\", 1).Put(\"b\", 2); t.Z(); o.P(t.Len())"),
    ("genericc", "type $N interface{ ~int | ~float64 }\n\nfunc $F[T $N](xs ...T) (s T) { for _, x := range xs { s += x }; return }", "o.P($F(1, 2), $F(1.5))"), ("genericr", "func $F[T any](n int, x T) []T { if n == 0 { return nil }; return append($F(n-1, x), x) }", "o.P($F(2, \"a\"))"), ("generict", "type $T[P any] []P\n\nfunc (t $T[P]) Map(f func(P) P) (r $T[P]) { for _, x := range t { r = append(r, f(x)) }; return }", "o.P($T[int]{1, 2}.Map(func(x int) int { return -x }))"), ("genrecv1", "type $T[P any] struct{ X P }\n\nfunc (_ $T[P]) A() int { return 1 }\nfunc ($T[P]) B() int { return 2 }\nfunc (*$T[_]) C() int { return 3 }", "var t $T[int]; o.P(t.A(), t.B(), t.C())"),
    ("gentypelit", "func $F[T any](x T) any { type w struct{ V T }; return w{x}.V }", "o.P($F(3))"), ("galias", "type $T = k.G[int]\n\nfunc $F() $T { return $T{V: 3} }", "o.P($F().V)"),
    ("variadic", "func $F(a string, xs ...interface{}) int { return len(xs) }", "o.P($F(\"a\"), $F(\"a\", 1, nil), $F(\"a\", []interface{}{1}...))"), ("recursetype", "type $T struct{ L, R *$T; V int }\n\nfunc (t *$T) Sum() int { if t == nil { return 0 }; return t.V + t.L.Sum() + t.R.Sum() }", "o.P((&$T{V: 1, L: &$T{V: 2}}).Sum())"), ("embedm", "type $A struct{}\n\nfunc ($A) M() int { return 1 }\n\ntype $B struct{ $A }\n\nfunc (b $B) N() int { return b.M() + 1 }\n\ntype $D struct{ *$B }", "d := $D{&$B{}}; o.P(d.M(), d.N())"), ("ifaceembed", "type $A interface{ M() int }\ntype $B interface { $A; fmt.Stringer }\ntype $T int\n\nfunc (t $T) M() int { return int(t) }\nfunc (t $T) String() string { return \"T\" }", "var b $B = $T(3); o.P(b.M(), b.String())"),
    ("ifaceunion", "type $A interface{ ~int | string; comparable }\n\nfunc $F[T $A](a, b T) bool { return a == b }", "o.P($F(1, 1), $F(\"a\", \"b\"))"), ("ifacegen", "type $A[T any] interface{ Get() T }\n\nfunc $F[T any](a $A[T]) T { return a.Get() }", "o.P($F[int](k.I(3)))"), ("ifaceany", "type $A interface{}\ntype ( $B interface{ M() }; $D = interface{ N() } )", "var a $A = 3; var b $B; var d $D; o.P(a, b == nil, d == nil)"), ("ifaceself", "type $A interface{ M($A) $A }", "var a $A; o.P(a == nil)"), ("ifaceunexp", "type $A interface{ m() }\ntype $T struct{}\n\nfunc ($T) m() {}", "var a $A = $T{}; a.m(); o.P(1)"), ("ifaceunused", "type $A interface{ M() }", "o.P(1)"), ("ifacelocal", "", "type a interface{ Get() int }; var x a = k.I(4); o.P(x.Get())"), ("ifaceerr", "type $A interface{ error }", "var a $A; o.P(a == nil)"),
    ("blankfn", "func _() {}\nfunc _() int { return 1 }\nfunc _(a int, _ string) {}", "o.P(1)"), ("blankvar", "var _ = 3\nvar _, $V = 1, 2\nvar _ fmt.Stringer = (*bytes.Buffer)(nil)", "o.P($V)"), ("inits", "var $V int\n\nfunc init() { $V++ }\nfunc init() { $V += 2 }", "o.P($V)"), ("initorder", "var $A = $B + 1\nvar $B = $F()\nvar $D = 4\n\nfunc $F() int { return $D * 2 }", "o.P($A, $B, $D)"), ("initorder2", "var $A = func() int { return $B }()\nvar $B = 7", "o.P($A)"), ("initorder3", "var $A, $B = $F()\n\nfunc $F() (int, int) { return $D, 2 }\n\nvar $D = 3", "o.P($A, $B)"), ("initmethod", "type $T struct{}\n\nfunc ($T) V() int { return $D }\n\nvar $A = $T{}.V()\nvar $D = 3", "o.P($A)"), ("initmv", "type $T struct{}\n\nfunc ($T) V() int { return $D }\n\nvar $A = $T.V\nvar $D = $E()\n\nfunc $E() int { return 4 }", "o.P($A($T{}))"), ("initcyc", "var $A = map[string]func() int{\"a\": $F}\n\nfunc $F() int { return 3 }", "o.P($A[\"a\"]())"), ("initself", "type $T struct{ F func() int }\n\nvar $A = &$T{}\n\nfunc init() { $A.F = func() int { return len(fmt.Sprint($A != nil)) } }", "o.P($A.F())"),
    ("initorder4", "var $A = $B\nvar $B = $D\nvar $D = 6", "$D = 1; o.P($A, $B, $D)"), ("initorder5", "var $A = &$B\nvar $B = $F()\n\nfunc $F() int { return 5 }", "o.P(*$A)"), ("initorder6", "var $A = $F\nvar $B = $A()\n\nfunc $F() int { return 5 }", "o.P($B)"), ("initside", "var $L []string\nvar $A = $F(\"a\")\nvar $B = $F(\"b\")\n\nfunc $F(s string) int { $L = append($L, s); return len($L) }", "o.P($L, $A, $B)"), ("initside2", "var $A = $F(\"a\")\nvar $L []string\nvar $B = $F(\"b\")\n\nfunc $F(s string) int { $L = append($L, s); return len($L) }", "o.P($L, $A, $B)"),
    ("constexpr", "const ( $A = iota + 1; $B; $D = \"x\"; $E )\n\nvar $V = $B", "o.P($A, $B, $D, $E, $V)"), ("consttyped", "const $A k.I = 3\n\nvar $V = $A", "o.P($V.Get())"), ("constvar", "const $A = 1 << 3\n\nvar $V = $A", "o.P($V); $V = 3; o.P($V)"), ("constchar", "const $A = 'x'\n\nvar $V = $A", "o.P($V)"), ("constf", "const $A = 1.0\n\nvar $V = $A", "o.P($V / 2)"), ("constf2", "var $V = 1 + 2.5", "o.P($V)"), ("constbig", "var $V = 1 << 40", "o.P($V)"), ("constu", "var $V uint64 = 1<<64 - 1", "o.P($V)"), ("constr", "var $V = 'a' * 2", "o.P($V)"), ("constr2", "var $V = 2 * 'a'", "o.P($V)"), ("constr3", "var $V = 'a' + 1.0", "o.P($V)"), ("constc", "var $V = 2 * 1i", "o.P($V)"), ("constb", "var $V = 1 < 2.5", "o.P($V)"), ("consts", "var $V = \"a\" < \"b\"", "o.P($V)"), ("constsh", "var $V = uint8(1) << 7", "o.P($V)"), ("constneg", "var $V = -1", "o.P($V)"), ("constnot", "var $V = ^0", "o.P($V)"), ("constnot2", "var $V = !true", "o.P($V)"), ("constplus", "var $V = +1.5", "o.P($V)"), ("constdef", "var $V = 7 / 2", "o.P($V)"), ("constdef2", "var $V = 7 / 2.0", "o.P($V)"), ("constmix", "var $V = k.C * 1.5", "o.P($V)"), ("constmix2", "var $V = 2 * time.Second", "o.P($V)"), ("constmix3", "var $V = k.CF + 1", "o.P($V)"), ("constlen", "var $V = len([3]int{})", "o.P($V)"), ("constshift", "var $V = 1 << k.C", "o.P($V)"), ("constand", "var $V = 6 &^ 2", "o.P($V)"), ("consti64", "var $V = int64(3) * 2", "o.P($V)"), ("constmin", "var $V = min(3, 2.5)", "o.P($V)"),
    ("inferchan", "var $V = make(chan struct{}, 1)", "$V <- struct{}{}; o.P(len($V))"), ("inferrecv", "var $C = make(chan int, 1)\n\nvar $V = func() int { $C <- 3; return <-$C }()", "o.P($V)"), ("infertwo", "var $V, $W = k.Two()", "o.P($V, $W); $V++; $W += \"z\"; o.P($V, $W); p, q := &$V, &$W; o.P(*p, *q)"), ("infermap2", "var $V, $W = map[string]int{\"a\": 3}[\"a\"]", "o.P($V, $W)"), ("inferta", "var $I interface{} = 4\nvar $V, $W = $I.(int)", "o.P($V, $W)"), ("inferta1", "var $I interface{} = 4\nvar $V = $I.(int)", "o.P($V)"), ("inferpkgvar", "var $V = os.Args", "o.P(len($V) > 0)"), ("inferpkgvar2", "var $V = io.EOF", "o.P($V == io.EOF)"), ("inferpkgvar3", "var $V = os.Stdout", "o.P($V == os.Stdout)"), ("inferpkgvar4", "var $V = &os.Args", "o.P(len(*$V) > 0)"), ("inferslice", "var $V = []byte(\"ab\")", "o.P(string($V))"), ("inferfnlit", "var $V = func() (a, b int) { return 1, 2 }", "o.P($V())"), ("infermeth", "var $V = (&bytes.Buffer{}).Len", "o.P($V())"), ("inferstructlit", "var $V = []struct{ A int; B string }{{1, \"a\"}}", "o.P($V[0].B); for _, x := range $V { o.P(x.A) }"), ("infermapstruct", "var $V = map[struct{ A int }]string{{1}: \"a\"}", "o.P($V[struct{ A int }{1}])"), ("inferiface", "var $V = map[string]interface{}{\"a\": 1, \"b\": []interface{}{2}}", "o.P($V[\"a\"])"), ("inferfuncmap", "var $V = map[string]func(a, b int) (int, error){\"x\": func(a, b int) (int, error) { return a + b, nil }}", "o.P($V[\"x\"](1, 2))"), ("inferchandir", "var $V <-chan int = make(chan int)", "o.P(len($V))"), ("inferarr2", "var $V = [...]string{\"a\", 3: \"b\"}", "o.P(len($V), $V[3])"), ("inferpp", "var $W = k.NewPS()\nvar $V = &$W", "o.P((*$V).A, (**$V).A); (*$V).Set(5); o.P($W.A)"), ("inferarrptr", "var $V = &[]int{1}", "o.P((*$V)[0])"), ("inferfield", "var $W = k.NewS()\nvar $V = $W.In", "$V.A = 3; o.P($V.A, $W.In.A)"), ("inferfield2", "var $W = k.NewPS()\nvar $V = $W.PIn.L", "o.P($V)"), ("inferidx", "var $W = []k.S{{A: 3}}\nvar $V = $W[0]", "o.P($V.A)"), ("inferidx2", "var $W = map[string]k.S{\"a\": {A: 3}}\nvar $V = $W[\"a\"].A", "o.P($V)"), ("infersl", "var $W = [3]int{1, 2, 3}\nvar $V = $W[1:]", "o.P($V); $V[0] = 9; o.P($W)"), ("inferconv", "var $V = []rune(\"ab\")", "o.P($V)"), ("inferconv2", "var $V = k.Fn(k.Fx).Call(3)", "o.P($V)"), ("inferconv3", "var $V = (func())(nil)", "o.P($V == nil)"), ("inferconv4", "var $V = (*k.S)(nil)", "o.P($V == nil)"), ("inferconv5", "var $V = interface{ M() }(nil)", "o.P($V == nil)"), ("inferconv6", "var $V = map[string]int(nil)", "o.P($V == nil)"), ("inferconv7", "var $V = chan int(nil)", "o.P($V == nil)"), ("infertern", "var $V = unsafe.Sizeof(int32(0))", "o.P($V)"), ("inferptrfn", "var $V = func() *k.S { return k.NewPS() }()", "o.P($V.A)"), ("inferunexp", "var $V = errors.New", "o.P($V(\"a\").Error())"), ("inferunexp2", "var $V = reflect.TypeOf(1)", "o.P($V.Kind())"), ("inferunexp3", "var $V = list.New().Front()", "o.P($V == nil)"), ("infergen", "var $V = k.Id(map[string][]int{\"a\": {1}})", "o.P($V)"), ("infergen2", "var $V = k.Id[error](io.EOF)", "o.P($V)"), ("infergenf", "var $V = k.Id[int]", "o.P($V(3))"), ("infergen3", "var $V = k.G2[string, []int]{}", "$V.Put(\"a\", nil); o.P(len($V.M))"), ("infernilm", "var $V = k.NewS().M[\"zz\"]", "o.P($V)"), ("inferany", "var $V = any(3)", "o.P($V)"), ("inferappend", "var $V = append([]interface{}{1}, \"a\")", "o.P($V)"), ("infercopy", "var $V = copy(make([]int, 2), []int{1})", "o.P($V)"), ("infercap", "var $V = cap(make([]int, 2, 5))", "o.P($V)"), ("infercomplex", "var $V = real(1 + 2i)", "o.P($V)"), ("infernew", "var $V = new(int)", "*$V = 3; o.P(*$V)"), ("infernew2", "var $V = new(map[string]int)", "o.P(len(*$V))"), ("infernew3", "var $V = new(k.G[int])", "$V.Set(3); o.P($V.Get())"), ("infermake", "var $V = make(map[string]map[int]string)", "o.P(len($V))"), ("infermake2", "var $V = make([][]k.S, 2)", "o.P(len($V))"), ("inferderef", "var $V = *k.NewPS()", "$V.Set(4); o.P($V.A)"), ("inferderef2", "var $W = 3\nvar $V = *&$W", "o.P($V)"), ("infercmp", "var $V = k.NewPS() == nil", "o.P($V)"), ("inferlor", "var $V = k.C > 2 || k.Fx(1) == 2", "o.P($V)"), ("inferadd", "var $V = k.Fx(1) + 2", "o.P($V)"), ("inferadd2", "var $V = 2 + k.NewS().A", "o.P($V)"), ("inferadd3", "var $V = \"a\" + fmt.Sprint(1)", "o.P($V)"), ("infershl", "var $V = 1 << uint(3)", "o.P($V)"), ("infershl2", "var $V = int64(1) << k.Fx(2)", "o.P($V)"), ("infershl3", "var $V = 1 << k.Fx(2)", "o.P($V)"), ("inferneg", "var $V = -k.Fx(2)", "o.P($V)"), ("infernot", "var $V = !strings.HasPrefix(\"a\", \"b\")", "o.P($V)"), ("inferxor", "var $V = ^k.Fx(2)", "o.P($V)"),
    ("localtypeinit", "type $T struct{ a int }\n\nvar $V = $T{3}\nvar $W = &$T{4}", "$V.a++; $W.a++; o.P($V.a, $W.a); p := &$V.a; *p = 9; o.P($V)"), ("aliaspkg", "type $T = bytes.Buffer\n\nvar $V $T", "$V.WriteString(\"a\"); o.P($V.String())"), ("aliasloc", "type $T = $U\ntype $U struct{ A int }\n\nfunc (u *$U) Set(v int) { u.A = v }\n\nvar $V $T", "$V.Set(3); o.P($V.A)"), ("defstruct", "type $T k.S\n\nvar $V = $T{A: 3}", "$V.A++; o.P($V.A); o.P(k.S($V).A)"), ("defptr", "type $T *k.S\n\nvar $V = $T(k.NewPS())", "$V.A = 3; o.P($V.A)"), ("defmutex", "type $T struct{ sync.RWMutex; v int }\n\nvar $V $T\n\nfunc (t *$T) Inc() { t.Lock(); defer t.Unlock(); t.v++ }", "$V.Inc(); $V.RLock(); o.P($V.v); $V.RUnlock()"), ("embedptr", "type $B struct{ n int }\n\nfunc (b *$B) Inc() { b.n++ }\n\ntype $T struct{ *$B }\n\nvar $V = $T{&$B{}}", "$V.Inc(); o.P($V.n)"), ("embedval", "type $B struct{ n int }\n\nfunc (b *$B) Inc() { b.n++ }\n\ntype $T struct{ $B }\n\nvar $V = $T{}", "$V.Inc(); o.P($V.n)"), ("embedval2", "type $B struct{ n int }\n\nfunc (b *$B) Inc() { b.n++ }\n\ntype $T struct{ $B }\n\nvar $V $T", "$V.$B.Inc(); o.P($V.n)"), ("embedembed", "type $B struct{ n int }\n\nfunc (b *$B) Inc() { b.n++ }\n\ntype $D struct{ $B }\ntype $T struct{ $D }\n\nvar $V = $T{}", "$V.Inc(); o.P($V.n)"), ("embediface", "type $T struct{ k.Itf }\n\nvar $V = $T{k.I(3)}", "o.P($V.Get())"), ("fieldfn", "type $T struct{ F func() int; G func(*$T) int }\n\nvar $V = $T{F: func() int { return 3 }, G: func(t *$T) int { return 4 }}", "o.P($V.F(), $V.G(&$V))"), ("fieldmu", "var $V struct{ mu sync.Mutex; n int }", "$V.mu.Lock(); $V.n++; $V.mu.Unlock(); o.P($V.n)"), ("fieldmu2", "type $T struct{ mu sync.Mutex; n int }\n\nvar $V $T", "$V.mu.Lock(); defer $V.mu.Unlock(); $V.n++; o.P($V.n)"), ("fieldmu3", "var $V = struct{ mu sync.Mutex; m map[string]int }{m: map[string]int{}}", "$V.mu.Lock(); $V.m[\"a\"]++; $V.mu.Unlock(); o.P($V.m)"), ("fieldonce", "type $T struct{ once sync.Once; wg sync.WaitGroup; b bytes.Buffer; at atomic.Int32 }\n\nvar $V $T", "$V.once.Do(func() { o.P(1) }); $V.wg.Add(1); $V.wg.Done(); $V.b.WriteString(\"x\"); $V.at.Add(2); o.P($V.b.String(), $V.at.Load()); $V.once.Do(func() { o.P(2) })"), ("methfield2", "type $T struct{ S k.S; P *k.S }\n\nvar $V = $T{P: k.NewPS()}", "$V.S.Set(3); $V.P.Set(4); f := $V.S.Set; f(5); o.P($V.S.A, $V.P.A)"), ("arrmethod", "var $V [3]k.S", "$V[1].Set(4); o.P($V[1].A)"), ("syncmap", "var $V sync.Map", "$V.Store(1, 2); x, ok := $V.Load(1); o.P(x, ok); $V.Range(func(k, v any) bool { o.P(k, v); return true })"), ("syncpool", "var $V = sync.Pool{New: func() interface{} { return new(int) }}", "x := $V.Get().(*int); *x = 3; $V.Put(x); o.P(*x)"), ("rwm", "var $V, $W sync.RWMutex", "$V.RLock(); $W.Lock(); o.P($V.TryLock(), $W.TryLock())"), ("cond", "var $M sync.Mutex\nvar $V = sync.NewCond(&$M)", "$V.L.Lock(); $V.Signal(); $V.L.Unlock(); o.P($M.TryLock())"), ("atomicfn", "var $V int32", "atomic.AddInt32(&$V, 2); o.P(atomic.LoadInt32(&$V)); atomic.StoreInt32(&$V, 7); o.P($V); o.P(atomic.CompareAndSwapInt32(&$V, 7, 8))"), ("flagvar", "var $V int\nvar $W = flag.NewFlagSet(\"x\", flag.ContinueOnError)", "$W.IntVar(&$V, \"n\", 3, \"\"); o.P($W.Parse([]string{\"-n\", \"5\"}), $V)"), ("jsonvar", "var $V struct{ A int; B []string }", "o.P(json.Unmarshal([]byte(`{\"A\":3,\"B\":[\"x\"]}`), &$V), $V.A, $V.B)"), ("scanvar", "var $V int\nvar $W string", "n, err := fmt.Sscan(\"5 x\", &$V, &$W); o.P(n, err, $V, $W)"), ("swap", "var $V, $W = 1, 2", "$V, $W = $W, $V; o.P($V, $W)"), ("ptrswap", "var $V, $W = new(int), new(int)", "*$V, *$W = 1, 2; $V, $W = $W, $V; o.P(*$V, *$W)"), ("incmulti", "var $V = [2]int{}\nvar $I int", "$V[$I]++; $I++; $V[$I] += 3; o.P($V, $I)"), ("lhsidx", "var $V = []int{0, 0, 0}\nvar $I = 1", "$V[$I] = 5; $I, $V[$I] = 2, 7; o.P($V, $I)"), ("lhsmap", "var $V = map[string][]int{}\nvar $K = \"a\"", "$V[$K] = append($V[$K], 1); $V[$K][0]++; o.P($V)"), ("lhsptr", "var $V = &k.S{L: []int{1}}\nvar $I int", "$V.L[$I] = 4; $V.L[$I]++; (*$V).A = 3; o.P($V.L, $V.A)"), ("lhscall", "var $V = []int{1, 2}\n\nfunc $F() []int { return $V }", "$F()[0] = 9; $F()[1]++; o.P($V)"), ("lhsfield", "var $V k.Deep", "$V.S.In.Arr[1], $V.S.A = 3, 4; $V.S.In.Arr[1] *= 2; o.P($V.S.In.Arr, $V.S.A)"), ("chanofchan", "var $V = make(chan chan int, 1)", "c := make(chan int, 1); $V <- c; c <- 4; o.P(<-<-$V)"), ("selectmany", "var $V, $W = make(chan int, 1), make(chan string, 1)", "$V <- 1; select { case x := <-$V: o.P(x); case y, ok := <-$W: o.P(y, ok) }; select { case $W <- \"a\": o.P(len($W)); default: }"), ("rangechan", "var $V = make(chan int, 3)", "$V <- 1; $V <- 2; close($V); n := 0; for x := range $V { n += x }; o.P(n)"), ("rangefunc", "var $V = func(yield func(int) bool) { for i := 0; i < 3; i++ { if !yield(i) { return } } }", "for x := range $V { if x == 2 { break }; o.P(x) }"), ("rangefunc2", "func $F(n int) func(func(int, string) bool) { return func(y func(int, string) bool) { for i := 0; i < n; i++ { if !y(i, fmt.Sprint(i)) { return } } } }", "for a, b := range $F(3) { o.P(a, b); if a == 1 { continue } }"), ("rangeint", "var $V = 3", "for i := range $V { o.P(i) }; for range $V { o.P(\"x\") }"), ("rangestr", "var $V = \"aé\"", "for i, c := range $V { o.P(i, c) }"), ("rangearrp", "var $V = [2]int{1, 2}", "for i, x := range &$V { $V[1] = 9; o.P(i, x) }"), ("rangemod", "var $V = []int{1, 2}", "for i, x := range $V { $V = append($V, x); o.P(i) }; o.P($V)"), ("rangelhs", "var $I, $X int\nvar $V = []int{4, 5}", "for $I, $X = range $V { o.P($I, $X) }; o.P($I, $X)"), ("loopvar", "", "var fs []func() int; for i := 0; i < 3; i++ { fs = append(fs, func() int { return i }) }; for _, f := range fs { o.P(f()) }"), ("loopvar2", "var $V = []int{1, 2}", "var ps []*int; for _, x := range $V { ps = append(ps, &x) }; o.P(*ps[0], *ps[1])"), ("typesw", "var $V interface{} = k.I(3)", "switch x := $V.(type) { case int, string: o.P(x); case k.I: o.P(x.Get()); case nil: o.P(nil); default: o.P(\"d\") }"), ("typesw2", "var $V interface{} = 3\nvar $W = 4", "switch x := $V.(type) { case int: if x > $W { o.P(x) } else { o.P($W) } }"), ("swinit", "var $V = 3", "switch x := $V; { case x > 2: o.P(x); fallthrough; case x > 9: o.P($V) }"), ("swfall", "var $V = 2", "switch $V { case 2: $V++; fallthrough; case 9: o.P($V); default: o.P(0) }"), ("swcase", "var $V, $W = 2, 3", "switch { case $V > $W: o.P(1); case $V < $W: o.P(2) }; switch 3 { case $V, $W: o.P(\"in\") }"), ("closurecap", "var $V = 1", "f := func() func() int { $V++; return func() int { $V++; return $V } }; o.P(f()(), $V)"), ("deferloop", "var $V []int", "func() { for i := 0; i < 3; i++ { defer func() { $V = append($V, i) }() } }(); o.P($V)"), ("deferarg", "var $V = 1", "func() { defer o.P($V); $V = 2 }(); o.P($V)"), ("defermeth", "var $V = k.S{A: 1}", "func() { defer func(f func() int) { o.P(f()) }($V.Get); $V.A = 2 }()"), ("gostmt", "var $V = 1\nvar $D = make(chan int)", "go func(x int) { $D <- x + $V }($V); o.P(<-$D)"), ("retmulti", "var $V, $W = 1, io.EOF\n\nfunc $F() (int, error) { return $V, $W }", "o.P($F())"), ("retaddr", "var $V = 1\n\nfunc $F() *int { return &$V }", "*$F() = 5; o.P($V)"), ("retnaked", "var $V = 1\n\nfunc $F() (x int) { x = $V; return }", "o.P($F())"), ("argspread", "var $V = []interface{}{1, \"a\"}", "o.P(fmt.Sprint($V...))"), ("argret", "func $F() (int, string) { return 1, \"a\" }\nfunc $G(a int, b string) string { return fmt.Sprint(a, b) }", "o.P($G($F()))"), ("complit", "var $V = 3\ntype $T struct{ V, W int }", "o.P($T{$V, $V}, $T{V: $V}, []$T{{V: $V}, {$V, 1}}, map[int]$T{$V: {W: $V}}, [4]int{3: $V})"), ("complitkey", "var $V = \"k\"", "o.P(map[string]int{$V: 1, $V + \"x\": 2}, map[interface{}]int{$V: 3})"), ("complitarr", "const $K = 2\nvar $V = 7", "o.P([...]int{$K: $V, 0: 1})"), ("complitptr", "var $V = 7\ntype $T struct{ P *int; N *$T }", "t := &$T{P: &$V, N: &$T{P: &$V}}; *t.N.P = 8; o.P($V, *t.P)"), ("complitfn", "var $V = 7\ntype $T struct{ F func() int }", "o.P($T{F: func() int { return $V }}.F())"), ("structtag", "type $T struct { A int `json:\"a\"`; B string `x:\"y\"` }\n\nvar $V = $T{1, \"b\"}", "b, err := json.Marshal($V); o.P(string(b), err)"), ("strraw", "var $V = `a\nb`", "o.P($V)"), ("strraw2", "func $F() string { return `x\n\ty {\n` }", "o.P($F())"), ("strfn", "func $F() string { return \"func f() {\" }", "o.P($F())"), ("unicode", "var $Vé = 3\n\nfunc $Fλ(ñ int) int { return ñ + $Vé }", "o.P($Fλ(2), $Vé)"), ("cmtvar", "var /* a */ $V /* b */ int /* c */ = /* d */ 3 /* e */ // f", "$V++; o.P($V)"), ("cmtfn", "func /* a */ $F /* b */ ( /* c */ a /* d */ int /* e */ ) /* f */ int /* g */ { /* h */ return /* i */ a /* j */ } // k", "o.P($F(3))"), ("cmtrecv", "type $T int\n\nfunc ( /* a */ $T /* b */ ) M( /* c */ ) ( /* d */ int /* e */ ) { return 3 }\nfunc ( /* a */ * /* b */ $T /* c */ ) N() /* d */ { }", "var t $T; t.N(); o.P(t.M())"), ("mlsig", "func $F(\n\ta int, // first\n\t// second\n\tb ...string,\n) (\n\tint, // res\n\terror,\n) {\n\treturn a, nil\n}", "o.P($F(1, \"a\"))"), ("mlres", "func $F() func(\n\ta int,\n) int {\n\treturn nil\n}", "o.P($F() == nil)"), ("mlres2", "func $F() struct {\n\tA int\n} {\n\treturn struct{ A int }{2}\n}", "o.P($F().A)"), ("mlres3", "func $F() interface {\n\tM()\n} {\n\treturn nil\n}", "o.P($F() == nil)"), ("mlvar", "var $V = []int{\n\t1,\n\t2, // two\n}", "o.P($V, len($V))"), ("mlvar2", "var $V = map[string]func(){\n\t\"a\": func() {\n\t},\n}\n", "o.P(len($V))"), ("mlvar3", "var (\n\t$V = k.S{\n\t\tA: 1,\n\t}\n\n\t$W = &$V\n)", "$W.A++; o.P($V.A)"), ("mlvar4", "var $V,\n\t$W = 1,\n\t2", "o.P($V, $W)"), ("vargroupcmt", "var (\n\t// a\n\t$V int // b\n\t/* c */ $W string = \"x\" /* d */\n)", "$V++; o.P($V, $W)"), ("varempty", "var ()\n\nvar $V = 1", "o.P($V)"), ("vargroupmix", "var (\n\t$A, $B int\n\t$D, $E = 1, \"x\"\n\t_ = $D\n)", "o.P($A, $B, $D, $E); $A, $E = 2, \"y\"; o.P($A, $E)"), ("vartype", "type (\n\t$T struct{ X int }\n\t$U []$T\n)\n\nvar $V = $U{{1}, {2}}", "o.P($V[1].X); $V[0].X = 9; o.P($V)"),
    ("caller", "func $F() (string, int) { _, f, l, _ := runtime.Caller(0); return filepath.Base(f), l }", "f, l := $F(); o.P(f != \"\", l > 0); o.Pos(1)"), ("funcline", "func $F() int { return 1 }\n\nfunc $G(\n\ta int,\n) {\n\tfmt.Sprint(a)\n}", "o.FL($F); o.FL($G); o.FL(func() {}); o.FL(k.Fx); o.FL(k.S.Get); o.FL((*k.S).Set)"), ("closurepos", "var $V = func() { panic(\"in var\") }", "$V()"), ("mlcall", "func $F(a ...int) int { return len(a) }", "o.P(\n$F(1,\n2),\n$F(),\n)"), ("mlpanic", "var $V = []int{1}", "x := 3\n_ = $V[\nx]"), ("mlnil", "var $V *k.S", "o.P(1)\n_ = $V.\nIn.\nA"), ("mlchain", "var $V = k.S{}", "$V.\n\tSelf().\n\tSelf().\n\tSet(3)\no.P(\n\t$V.\n\t\tA)"), ("mlreturn", "func $F() (int, error) {\n\treturn k.Fx(\n\t\t3,\n\t), nil\n}", "o.P($F())"), ("mlif", "var $V = 3", "if $V > 1 &&\n\t$V < 9 ||\n\t$V == 0 {\n\to.P(\"in\")\n}"), ("mlfunc", "var $V = 3", "f := func(\n\ta int,\n) int {\n\to.P(1)\n\treturn a + $V\n}\no.P(f(\n\t2,\n))"), ("mldefer", "", "defer func() {\n\to.P(1)\n}()\n\no.P(2)"), ("mlswitch", "var $V = 2", "switch $V {\ncase 1,\n\t2:\n\to.P(1)\ndefault:\n}\no.P(2)"), ("mlstr", "var $V = `a\nb\nc`", "o.P(1)\nx := `1\n2` + $V\no.P(x)"), ("mlcmt", "", "o.P(1) /* a\nb */; o.P(2)\n// c\no.P(3)"), ("mlsel", "var $V = make(chan int, 1)", "select {\ncase $V <- 1:\n\to.P(1)\n}\nselect {\ncase x :=\n\t<-$V:\n\to.P(x)\n}"), ("posafter1", "var $V = []int{\n\t1,\n\t2,\n}\n\nfunc $F() { panic(\"after\") }", "$F()"), ("posafter2", "var $V, $W = k.Two()\n\nfunc $F() { panic(\"after\") }", "o.P($V, $W); $F()"), ("posafter3", "type $T interface {\n\tM()\n}\n\nfunc $F() { panic(\"after\") }", "$F()"), ("posmethod", "type $T struct{}\n\nfunc (*$T) M() {\n\n\tpanic(\"m\")\n}", "new($T).M()"), ("posgeneric", "func $F[T any](x T) {\n\tvar y []T\n\t_ = y[1]\n}", "$F(1)"), ("posgenericm", "type $T[P any] struct{}\n\nfunc ($T[P]) M() {\n\tpanic(\"g\")\n}", "$T[int]{}.M()"), ("posdivide", "var $V = 0", "x := 4\no.P(x /\n\t$V)"), ("posnilmap", "var $V map[string]int", "\n\n$V[\"a\"] = 1"), ("posconv", "var $V interface{} = 3", "o.P(1)\n_ = $V.(string)"), ("posclosed", "var $V = make(chan int)", "close($V)\nclose($V)"), ("posslice", "var $V = []int{1}\nvar $I = 5", "_ = $V[:\n$I]"), ("posgo", "var $D = make(chan int)", "go func() {\n\tdefer close($D)\n\to.P(1)\n}()\n<-$D"), ("posarg", "func $F(a, b int) int { o_ := a + b; return o_ }", "o.P($F(\n\tfunc() int { o.P(1); return 1 }(),\n\tfunc() int {\n\t\to.P(2)\n\t\treturn 2\n\t}(),\n))"), ("posvarinit", "var $V = $F()\n\nfunc $F() int { _, _, l, _ := runtime.Caller(1); return l }", "o.P($V > 0); o.N($V)"), ("posinit", "var $V int\n\nfunc init() {\n\t_, _, $V, _ = runtime.Caller(0)\n}", "o.N($V)"), ("posvarclos", "var $V = func() int {\n\n\t_, _, l, _ := runtime.Caller(0)\n\treturn l\n}", "o.N($V())"), ("posvarclos2", "var $W, $V = 1, func() int {\n\t_, _, l, _ := runtime.Caller(0)\n\treturn l\n}", "o.N($V() + $W)"), ("posstructfn", "var $V = struct{ F func() int }{\n\tF: func() int {\n\t\t_, _, l, _ := runtime.Caller(0)\n\t\treturn l\n\t},\n}", "o.N($V.F())"),
]


def misc_cases(c, quick):
    for key, d, b in MISC:
        c.add("misc", key, b, d)

IMPORTS = {"fmt": "fmt", "strings": "strings", "strconv": "strconv", "sort": "sort", "time": "time", "sync": "sync", "atomic": "sync/atomic", "bytes": "bytes", "errors": "errors", "io": "io", "os": "os", "math": "math", "reflect": "reflect", "runtime": "runtime", "unsafe": "unsafe",
           "list": "container/list", "regexp": "regexp", "context": "context", "filepath": "path/filepath", "json": "encoding/json", "flag": "flag", "slices": "slices", "maps": "maps", "k": "verifc/k", "l": "verifc/l"}


def imports(text, own):
    """the import block for the packages text refers to"""
    t = re.sub(r'"(?:\\.|[^"\\\n])*"|`[^`]*`|//[^\n]*|/\*.*?\*/', '""', text, flags=re.S)
    used = [n for n in IMPORTS if n != own and re.search(r'(?<![\w.])%s\.' % n, t)]
    return used


def header(pkg, text, extra=()):
    h = "package %s\n\nimport (\n" % pkg
    for n in sorted(imports(text, pkg)):
        h += '\t"%s"\n' % IMPORTS[n]
    for e in extra:
        h += '\t%s\n' % e
    return h + ")\n\n"


def uniq(s, n):
    return re.sub(r'\$([A-Za-z][A-Za-z0-9]*)', lambda m: "%s_%d" % (m.group(1), n), s)


def load_skip():
    f = os.path.join(os.path.dirname(__file__), "corpus_skip.txt")
    return set(open(f).read().split("\n")) if os.path.exists(f) else set()


def build(quick, only=None):
    c = Corpus()
    for g in (kind_cases, shadow_cases, wrap_cases, func_cases, misc_cases):
        g(c, quick)
    skip = {x.replace("\\n", "\n") for x in load_skip()}
    return [x for x in c.cases if x[0] not in skip and (only is None or only(x[0]))]


def write(dst, cases, perfile=24, perpkg=240, mod="verifc", more=()):
    """Writes the project; returns {(package dir, file): [(first line, last line, key)]}."""
    os.makedirs(dst, exist_ok=True)
    where = {}
    for n in ("k", "l"):
        os.makedirs(os.path.join(dst, n))
        with open(os.path.join(dst, n, "types.go"), "w") as f:
            f.write(header(n, TYPES) + TYPES.lstrip("\n"))
    pk = 0
    mains = []
    for i in range(0, len(cases), perpkg):
        p = "p%03d" % pk
        pk += 1
        d = os.path.join(dst, p)
        os.makedirs(d)
        with open(os.path.join(d, "types.go"), "w") as f:
            f.write(header(p, TYPES) + TYPES.lstrip("\n"))
        reg = "package %s\n\nimport \"verif.local/vo\"\n\nvar Cases = []vo.Case{\n" % p
        for j in range(i, min(i + perpkg, len(cases)), perfile):
            chunk = cases[j:min(j + perfile, i + perpkg)]
            fn = "f%04d.go" % (j // perfile)
            parts, libs = [], []
            for m, (key, group, decls, body, lib) in enumerate(chunk, start=j):
                t = ""
                if decls:
                    t += uniq(decls, m) + "\n\n"
                t += "func Case_%d(o *vo.R) {\n%s\n}\n\n" % (m, uniq(body, m))
                parts.append((key, t))
                if lib:
                    libs.append((key, uniq(lib, m) + "\n\n"))
                reg += "\t{%s, Case_%d},\n" % (gostr(key), m)
            emit(os.path.join(d, fn), p, parts, ['"verif.local/vo"'], where, (p, fn))
            if libs:
                emit(os.path.join(dst, "l", fn), "l", libs, [], where, ("l", fn))
        with open(os.path.join(d, "cases.go"), "w") as f:
            f.write(reg + "}\n")
        mains.append(p)
    mains += list(more)
    with open(os.path.join(dst, "main.go"), "w") as f:
        f.write("package main\n\nimport (\n\t_ \"github.com/xhd2015/xgo/runtime/trap\"\n\t\"verif.local/vo\"\n")
        f.write("".join('\t"%s/%s"\n' % (mod, p) for p in mains) + ")\n\nfunc main() {\n")
        f.write("\tvo.Main(" + ", ".join(p + ".Cases" for p in mains) + ")\n}\n")
    return where


def gostr(s):
    import json
    return json.dumps(s, ensure_ascii=True).replace("\\u003c", "<") if all(ord(ch) < 0x10000 for ch in s) else json.dumps(s)


def emit(path, pkg, parts, extra, where, name):
    text = "".join(t for _, t in parts)
    if pkg == "l" and not imports(text, pkg):
        h = "package l\n\n"
    else:
        h = header(pkg, text, extra)
    line = h.count("\n") + 1
    spans = []
    for key, t in parts:
        n = t.count("\n")
        spans.append((line, line + n - 1, key))
        line += n
    with open(path, "w") as f:
        f.write(h + text)
    where[name] = spans
