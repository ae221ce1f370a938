// Package rth holds the explorers and reference models; it is a dependency of
// the instrumented project and so not instrumented itself.
package rth

import (
	"fmt"
	"os"
	"strconv"
	"time"

	"verif.local/explore"
)

type suiteFn func(depth int) explore.Result

var suites = map[string]suiteFn{}

var deadline time.Time

// Main: <prog> OUT.json BUDGET_SECONDS suite=depth...
func Main() {
	out := os.Args[1]
	sec, _ := strconv.Atoi(os.Args[2])
	deadline = time.Now().Add(time.Duration(sec) * time.Second)
	total := explore.Result{Exhaustive: true}
	for _, a := range os.Args[3:] {
		name, d := a, 0
		for i := range a {
			if a[i] == '=' {
				name = a[:i]
				d, _ = strconv.Atoi(a[i+1:])
			}
		}
		s := suites[name]
		if s == nil {
			fmt.Fprintln(os.Stderr, "no suite", name)
			os.Exit(3)
		}
		t := time.Now()
		r := s(d)
		fmt.Fprintf(os.Stderr, "suite %s=%d: traces=%d transitions=%d states=%d violations=%d exhaustive=%v %.1fs\n", name, d, r.Traces, r.Transitions, r.States, len(r.Violations), r.Exhaustive, time.Since(t).Seconds())
		total.Merge(r)
	}
	total.Write(out)
}

// try runs f and returns what it panicked with, or nil.
func try(f func()) (pe interface{}, panicked bool) {
	panicked = true
	defer func() {
		if panicked {
			pe = recover()
		}
	}()
	f()
	panicked = false
	return
}
