// Package vo runs the cases of the corpus and records what they print and
// the positions they observe.
package vo

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"reflect"
	"regexp"
	"runtime"
	"strings"
	"sync"
	"time"
)

type Case struct {
	Key string
	F   func(*R)
}

// R records one case.
type R struct {
	mu  sync.Mutex
	out []string
	pos []string
}

func (r *R) add(s string) {
	r.mu.Lock()
	r.out = append(r.out, s)
	r.mu.Unlock()
}

func (r *R) addPos(s string) {
	r.mu.Lock()
	r.pos = append(r.pos, s)
	r.mu.Unlock()
}

// P prints values, and records the position.
func (r *R) P(args ...interface{}) {
	var b strings.Builder
	for i, a := range args {
		if i > 0 {
			b.WriteString(" ")
		}
		if a != nil {
			fmt.Fprintf(&b, "%T=", a)
		}
		show(&b, reflect.ValueOf(a), 0)
	}
	r.add(b.String())
	r.where(3)
}

// PT prints the types of values and whether they are zero.
func (r *R) PT(args ...interface{}) {
	var b strings.Builder
	for _, a := range args {
		fmt.Fprintf(&b, "%T ", a)
		v := reflect.ValueOf(a)
		if v.IsValid() && v.Kind() != reflect.Func {
			show(&b, v, 0)
		}
	}
	r.add(b.String())
	r.where(3)
}

// V sums ints.
func (r *R) V(xs ...int) int {
	n := 0
	for _, x := range xs {
		n += x
	}
	return n
}

// Pos records the position of the caller.
func (r *R) Pos(skip int) { r.where(2 + skip) }

// N records a number that depends on positions.
func (r *R) N(n int) { r.addPos(fmt.Sprint("n", n)) }

// FL records the position of a function.
func (r *R) FL(f interface{}) {
	fn := runtime.FuncForPC(reflect.ValueOf(f).Pointer())
	file, line := fn.FileLine(fn.Entry())
	r.addPos(fmt.Sprintf("fn %s %s:%d", norm(fn.Name()), filepath.Base(file), line))
}

func (r *R) where(skip int) {
	pcs := make([]uintptr, 60)
	r.addPos(frames(pcs[:runtime.Callers(skip, pcs)]))
}

// Mod is the prefix of the packages whose positions are compared.
var Mod = "verifc"

// The number the compiler gives to a function literal of a package variable
// depends on the literals of other files.
var initFunc = regexp.MustCompile(`\.(init|glob\.)\.func[0-9]+`)

func norm(name string) string { return initFunc.ReplaceAllString(name, ".$1.func") }

func frames(pcs []uintptr) string {
	var b strings.Builder
	fs := runtime.CallersFrames(pcs)
	for {
		f, more := fs.Next()
		if strings.HasPrefix(f.Function, Mod) || strings.HasPrefix(f.Function, "main.") || strings.HasPrefix(f.Function, "command-line-arguments") {
			fmt.Fprintf(&b, "%s %s/%s:%d|", norm(f.Function), filepath.Base(filepath.Dir(f.File)), filepath.Base(f.File), f.Line)
		}
		if !more {
			break
		}
	}
	return b.String()
}

func show(b *strings.Builder, v reflect.Value, depth int) {
	if !v.IsValid() {
		b.WriteString("nil")
		return
	}
	if depth > 6 {
		b.WriteString("...")
		return
	}
	switch v.Kind() {
	case reflect.Ptr:
		if v.IsNil() {
			b.WriteString("nil")
			return
		}
		b.WriteString("&")
		if strings.Contains(v.Type().String(), "errors.") || strings.Contains(v.Type().String(), "os.") || strings.Contains(v.Type().String(), "reflect.") || strings.Contains(v.Type().String(), "regexp.") {
			return
		}
		show(b, v.Elem(), depth+1)
	case reflect.Func:
		fmt.Fprintf(b, "func(%v)", !v.IsNil())
	case reflect.Chan:
		fmt.Fprintf(b, "chan(%v)", !v.IsNil())
	case reflect.UnsafePointer, reflect.Uintptr:
		b.WriteString("ptr")
	case reflect.Interface:
		if v.IsNil() {
			b.WriteString("nil")
			return
		}
		fmt.Fprintf(b, "%s:", v.Elem().Type())
		show(b, v.Elem(), depth+1)
	case reflect.Struct:
		b.WriteString("{")
		if p := v.Type().PkgPath(); strings.HasPrefix(p, Mod) || p == "main" || p == "" {
			for i := 0; i < v.NumField(); i++ {
				show(b, v.Field(i), depth+1)
				b.WriteString(",")
			}
		}
		b.WriteString("}")
	case reflect.Array, reflect.Slice:
		if v.Kind() == reflect.Slice && v.IsNil() {
			b.WriteString("nil")
		}
		b.WriteString("[")
		for i := 0; i < v.Len(); i++ {
			show(b, v.Index(i), depth+1)
			b.WriteString(",")
		}
		b.WriteString("]")
	case reflect.Map:
		var keys []string
		for _, k := range v.MapKeys() {
			var e strings.Builder
			show(&e, k, depth+1)
			e.WriteString(":")
			show(&e, v.MapIndex(k), depth+1)
			keys = append(keys, e.String())
		}
		for i := range keys {
			for j := range keys[:i] {
				if keys[i] < keys[j] {
					keys[i], keys[j] = keys[j], keys[i]
				}
			}
		}
		fmt.Fprintf(b, "map(%v)%v", !v.IsNil(), keys)
	case reflect.Bool:
		fmt.Fprint(b, v.Bool())
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		fmt.Fprint(b, v.Int())
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		fmt.Fprint(b, v.Uint())
	case reflect.Float32, reflect.Float64:
		fmt.Fprint(b, v.Float())
	case reflect.Complex64, reflect.Complex128:
		fmt.Fprint(b, v.Complex())
	case reflect.String:
		fmt.Fprintf(b, "%q", v.String())
	}
}

type result struct {
	Key string
	Out []string
	Pos []string
}

// Run runs one case to its end.
func Run(c Case) (out, pos []string) {
	r := &R{}
	done := make(chan bool)
	go func() {
		finished := false
		defer close(done)
		defer func() {
			if e := recover(); e != nil {
				var b strings.Builder
				show(&b, reflect.ValueOf(e), 0)
				msg := ""
				if err, ok := e.(error); ok {
					msg = err.Error()
				}
				r.add(fmt.Sprintf("panic %T %s %s", e, b.String(), msg))
				r.where(2)
			} else if !finished {
				r.add("goexit")
			}
		}()
		c.F(r)
		finished = true
	}()
	select {
	case <-done:
	case <-time.After(60 * time.Second):
		r.add("stuck")
	}
	r.mu.Lock()
	defer r.mu.Unlock()
	return r.out, r.pos
}

// Main runs the cases and writes the results to the file of the first argument.
func Main(sets ...[]Case) {
	f, err := os.Create(os.Args[1])
	if err != nil {
		panic(err)
	}
	enc := json.NewEncoder(f)
	for _, cs := range sets {
		for _, c := range cs {
			out, pos := Run(c)
			enc.Encode(result{c.Key, out, pos})
		}
	}
	if err := f.Close(); err != nil {
		panic(err)
	}
}
