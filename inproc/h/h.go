// Package h runs the in-process suites: explorations of packages of the
// repository called directly.
package h

import (
	"fmt"
	"os"
	"path/filepath"
	"runtime"
	"sort"
	"strconv"
	"sync"
	"sync/atomic"
	"time"

	"github.com/xhd2015/xgo/cmd/xgo/verifh/explore"
)

type Ctx = explore.Ctx

type SuiteFn func(depth int) explore.Result

var suites = map[string]SuiteFn{}

// Deadline bounds every exploration.
var Deadline time.Time

// Add registers a suite whose body is explored exhaustively.
func Add(name string, body func(depth int) func(*Ctx)) {
	suites[name] = func(d int) explore.Result { return Run(name, body(d)) }
}

// AddWith registers a suite with options.
func AddWith(name string, opt explore.Options, body func(depth int) func(*Ctx)) {
	suites[name] = func(d int) explore.Result {
		o := opt
		o.Suite = name
		o.Deadline = Deadline
		return explore.Run(o, body(d))
	}
}

func AddRaw(name string, f SuiteFn) { suites[name] = f }

func Run(name string, body func(*Ctx)) explore.Result {
	return explore.Run(explore.Options{Suite: name, Inline: true, Deadline: Deadline}, body)
}

// Main: <prog> OUT.json BUDGET_SECONDS suite=depth...
func Main(args []string) {
	if len(args) < 3 {
		names := []string{}
		for n := range suites {
			names = append(names, n)
		}
		sort.Strings(names)
		fmt.Println(names)
		os.Exit(3)
	}
	out := args[0]
	sec, _ := strconv.Atoi(args[1])
	Deadline = time.Now().Add(time.Duration(sec) * time.Second)
	total := explore.Result{Exhaustive: true}
	for _, a := range args[2:] {
		name, d := a, 0
		for i := range a {
			if a[i] == '=' {
				name = a[:i]
				d, _ = strconv.Atoi(a[i+1:])
			}
		}
		s := suites[name]
		if s == nil {
			fmt.Fprintln(os.Stderr, "no suite", name)
			os.Exit(3)
		}
		t := time.Now()
		r := s(d)
		fmt.Fprintf(os.Stderr, "suite %s=%d: traces=%d transitions=%d states=%d violations=%d exhaustive=%v %.1fs\n", name, d, r.Traces, r.Transitions, r.States, len(r.Violations), r.Exhaustive, time.Since(t).Seconds())
		total.Merge(r)
	}
	total.Write(out)
	os.Exit(0)
}

// Try runs f and returns what it panicked with, if it did.
func Try(f func()) (pe interface{}, panicked bool) {
	panicked = true
	defer func() {
		if panicked {
			pe = recover()
		}
	}()
	f()
	panicked = false
	return
}

// Pick chooses one of the strings.
func Pick(c *Ctx, xs []string) string { return xs[c.Choose(len(xs))] }

// Word chooses a sequence of length 0..max over alphabet.
func Word(c *Ctx, alphabet []string, min, max int) string {
	n := min + c.Choose(max-min+1)
	s := ""
	for i := 0; i < n; i++ {
		s += alphabet[c.Choose(len(alphabet))]
	}
	return s
}

var scratchOnce sync.Once
var scratchRoot string
var scratchN int64

// Scratch returns a fresh directory (in memory when possible) and its removal.
func Scratch() (string, func()) {
	scratchOnce.Do(func() {
		scratchRoot = os.Getenv("VP_SCRATCH")
		if scratchRoot == "" {
			panic("VP_SCRATCH not set")
		}
		if r, err := filepath.EvalSymlinks(scratchRoot); err == nil {
			scratchRoot = r
		}
	})
	d := filepath.Join(scratchRoot, "s"+strconv.FormatInt(atomic.AddInt64(&scratchN, 1), 36))
	if err := os.MkdirAll(d, 0755); err != nil {
		panic(err)
	}
	return d, func() { os.RemoveAll(d) }
}

func Must(err error) {
	if err != nil {
		_, f, l, _ := runtime.Caller(1)
		panic(fmt.Sprintf("harness: %v (%s:%d)", err, f, l))
	}
}

func Write(file, content string) {
	Must(os.MkdirAll(filepath.Dir(file), 0755))
	Must(os.WriteFile(file, []byte(content), 0644))
}
