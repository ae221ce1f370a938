// Package explore is a stateless, exhaustive explorer: a body makes every
// nondeterministic decision (next operation, argument, who runs next, which
// fault happens) through Ctx.Choose, and Run executes the body once for every
// possible sequence of decisions.
package explore

import (
	"encoding/json"
	"fmt"
	"hash/fnv"
	"os"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

type Violation struct {
	Key     string   `json:"key"`
	What    string   `json:"what"`
	Choices []int    `json:"choices"`
	Log     []string `json:"log,omitempty"`
	Suite   string   `json:"suite,omitempty"`
}

type Result struct {
	States      int            `json:"states"`
	Transitions int            `json:"transitions"`
	Traces      int            `json:"traces"`
	Samples     []string       `json:"samples"`
	Violations  []Violation    `json:"violations"`
	Exhaustive  bool           `json:"exhaustive"`
	Notes       map[string]int `json:"notes"`
}

func (r *Result) Merge(o Result) {
	r.States += o.States
	r.Transitions += o.Transitions
	r.Traces += o.Traces
	n := len(o.Samples)
	if n > 3 {
		n = 3
	}
	r.Samples = append(r.Samples, o.Samples[:n]...)
	r.Violations = append(r.Violations, o.Violations...)
	r.Exhaustive = r.Exhaustive && o.Exhaustive
	if r.Notes == nil {
		r.Notes = map[string]int{}
	}
	for k, v := range o.Notes {
		r.Notes[k] += v
	}
}

func (r Result) Write(file string) {
	if r.Notes == nil {
		r.Notes = map[string]int{}
	}
	data, err := json.MarshalIndent(r, "", " ")
	if err != nil {
		panic(err)
	}
	if err := os.WriteFile(file, data, 0644); err != nil {
		panic(err)
	}
}

// Ctx is one execution.
type Ctx struct {
	prefix  []int
	choices []int
	arity   []int
	logging bool
	log     []string
	key     string
	what    string
	steps   int
	states  []uint64
	diverge bool
	pruned  bool
}

type stop struct{}

// Choose returns a value in [0,n). Every value is explored.
func (c *Ctx) Choose(n int) int {
	if n <= 0 {
		panic(fmt.Sprintf("explore: Choose(%d)", n))
	}
	i := len(c.choices)
	v := 0
	if i < len(c.prefix) {
		v = c.prefix[i]
		if v >= n {
			c.diverge = true
			panic(stop{})
		}
	}
	c.choices = append(c.choices, v)
	c.arity = append(c.arity, n)
	return v
}

// Bool explores false then true.
func (c *Ctx) Bool() bool { return c.Choose(2) == 1 }

func (c *Ctx) Logf(format string, args ...interface{}) {
	if c.logging {
		c.log = append(c.log, fmt.Sprintf(format, args...))
	}
}

func (c *Ctx) Logging() bool { return c.logging }

// Step counts one transition (an operation executed on the implementation).
func (c *Ctx) Step() { c.steps++ }

// State records a canonical model state.
func (c *Ctx) State(s string) {
	h := fnv.New64a()
	h.Write([]byte(s))
	c.states = append(c.states, h.Sum64())
}

// Prune ends this execution without counting it as a trace.
func (c *Ctx) Prune() { c.pruned = true; panic(stop{}) }

// Fail records a violation and ends the execution.
func (c *Ctx) Fail(key, format string, args ...interface{}) {
	if c.what == "" {
		c.key = key
		c.what = fmt.Sprintf(format, args...)
	}
	panic(stop{})
}

// Note like Fail but does not unwind (usable from other goroutines).
func (c *Ctx) SoftFail(key, format string, args ...interface{}) {
	if c.what == "" {
		c.key = key
		c.what = fmt.Sprintf(format, args...)
	}
}

type Options struct {
	Suite    string
	Workers  int
	Deadline time.Time
	// Hang is the time after which a single execution is reported as hung.
	Hang time.Duration
	// Inline runs bodies on the worker goroutine instead of a fresh one.
	Inline        bool
	MaxViolations int
	// Cleanup, if set, runs on the worker after each execution.
	Cleanup func()
}

func runOne(body func(*Ctx), prefix []int, logging bool, opt *Options) *Ctx {
	c := &Ctx{prefix: prefix, logging: logging}
	exec := func() {
		defer func() {
			if e := recover(); e != nil {
				if _, ok := e.(stop); ok {
					return
				}
				if c.what == "" {
					c.key = "panic:" + firstLine(fmt.Sprint(e))
					c.what = fmt.Sprintf("unexpected panic: %v\n%s", e, trimStack(debug.Stack()))
				}
			}
		}()
		body(c)
	}
	if opt.Inline {
		exec()
	} else {
		done := make(chan struct{})
		go func() {
			ok := false
			defer func() {
				if !ok && c.what == "" {
					c.key = "goexit"
					c.what = "execution goroutine ended by runtime.Goexit"
				}
				close(done)
			}()
			exec()
			ok = true
		}()
		hang := opt.Hang
		if hang == 0 {
			hang = 60 * time.Second
		}
		t := time.NewTimer(hang)
		select {
		case <-done:
			t.Stop()
		case <-t.C:
			buf := make([]byte, 1<<16)
			buf = buf[:runtime.Stack(buf, true)]
			// c is still owned by the hung goroutine: report on a copy
			return &Ctx{prefix: prefix, choices: append([]int{}, prefix...), key: "hang", what: "execution did not finish within " + hang.String() + "\n" + string(buf[:min(len(buf), 6000)])}
		}
	}
	if opt.Cleanup != nil {
		opt.Cleanup()
	}
	return c
}

func min(a, b int) int {
	if a < b {
		return a
	}
	return b
}

func firstLine(s string) string {
	if i := strings.IndexByte(s, '\n'); i >= 0 {
		s = s[:i]
	}
	if len(s) > 120 {
		s = s[:120]
	}
	return s
}

func trimStack(b []byte) string {
	s := string(b)
	if len(s) > 3000 {
		s = s[:3000]
	}
	return s
}

// Run explores every execution of body.
func Run(opt Options, body func(*Ctx)) Result {
	if opt.Workers == 0 {
		opt.Workers = runtime.NumCPU()
	}
	if opt.MaxViolations == 0 {
		opt.MaxViolations = 12
	}
	var mu sync.Mutex
	cond := sync.NewCond(&mu)
	stack := [][]int{{}}
	active := 0
	var stopped int32
	exhaustive := true
	var traces, steps int64
	byKey := map[string]*Violation{}
	states := make([]map[uint64]struct{}, opt.Workers)
	var samples []string

	worker := func(id int) {
		st := map[uint64]struct{}{}
		states[id] = st
		var local [][]int
		for {
			var p []int
			if len(local) > 0 && atomic.LoadInt32(&stopped) == 0 {
				p = local[len(local)-1]
				local = local[:len(local)-1]
				// share work when others idle
				if len(local) > 1 {
					mu.Lock()
					if len(stack) < opt.Workers {
						stack = append(stack, local[0])
						local = local[1:]
						cond.Signal()
					}
					mu.Unlock()
				}
			} else {
				mu.Lock()
				local = nil
				for len(stack) == 0 && active > 0 && atomic.LoadInt32(&stopped) == 0 {
					cond.Wait()
				}
				if len(stack) == 0 || atomic.LoadInt32(&stopped) != 0 {
					cond.Broadcast()
					mu.Unlock()
					return
				}
				p = stack[len(stack)-1]
				stack = stack[:len(stack)-1]
				active++
				mu.Unlock()
			}
			if !opt.Deadline.IsZero() && time.Now().After(opt.Deadline) {
				mu.Lock()
				exhaustive = false
				mu.Unlock()
				atomic.StoreInt32(&stopped, 1)
			}
			c := runOne(body, p, false, &opt)
			if c.diverge {
				panic(fmt.Sprintf("explore: replay diverged, suite %s prefix %v", opt.Suite, p))
			}
			if !c.pruned {
				n := atomic.AddInt64(&traces, 1)
				if n <= 2 || n == 1000 || n == 30000 {
					d := runOne(body, c.choices, true, &opt)
					mu.Lock()
					samples = append(samples, fmt.Sprintf("%s %v: %s", opt.Suite, c.choices, strings.Join(d.log, "; ")))
					mu.Unlock()
				}
			}
			atomic.AddInt64(&steps, int64(c.steps))
			for _, h := range c.states {
				st[h] = struct{}{}
			}
			if c.what != "" {
				mu.Lock()
				v := byKey[c.key]
				if v == nil || len(c.choices) < len(v.Choices) {
					byKey[c.key] = &Violation{Key: c.key, What: c.what, Choices: append([]int{}, c.choices...), Suite: opt.Suite}
				}
				if len(byKey) >= opt.MaxViolations {
					atomic.StoreInt32(&stopped, 1)
					exhaustive = false
				}
				if c.key == "hang" {
					atomic.StoreInt32(&stopped, 1)
					exhaustive = false
				}
				mu.Unlock()
			}
			for i := len(p); i < len(c.choices); i++ {
				for alt := c.arity[i] - 1; alt >= 1; alt-- {
					np := make([]int, i+1)
					copy(np, c.choices[:i])
					np[i] = alt
					local = append(local, np)
				}
			}
			if len(local) == 0 || atomic.LoadInt32(&stopped) != 0 {
				mu.Lock()
				active--
				if active == 0 {
					cond.Broadcast()
				}
				local = nil
				mu.Unlock()
			}
		}
	}
	var wg sync.WaitGroup
	for i := 0; i < opt.Workers; i++ {
		wg.Add(1)
		go func(i int) { defer wg.Done(); worker(i) }(i)
	}
	wg.Wait()
	all := map[uint64]struct{}{}
	for _, s := range states {
		for h := range s {
			all[h] = struct{}{}
		}
	}
	res := Result{States: len(all), Transitions: int(steps), Traces: int(traces), Samples: samples, Exhaustive: exhaustive, Notes: map[string]int{"traces:" + opt.Suite: int(traces)}}
	keys := make([]string, 0, len(byKey))
	for k := range byKey {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	for _, k := range keys {
		v := byKey[k]
		if v.Key == "hang" {
			res.Violations = append(res.Violations, *v)
			continue
		}
		// confirm by replay
		confirmed := false
		for i := 0; i < 5; i++ {
			d := runOne(body, v.Choices, true, &opt)
			if d.what != "" {
				v.Log = d.log
				confirmed = true
				break
			}
		}
		if !confirmed {
			v.Key = "unreproduced:" + v.Key
			v.What = "(did not reproduce in 5 replays) " + v.What
			res.Notes["unreproduced"]++
			fmt.Fprintln(os.Stderr, "UNREPRODUCED", v.Suite, v.Choices, v.What)
			continue
		}
		v.What = fmt.Sprintf("[%s] %s | history: %s", opt.Suite, v.What, strings.Join(v.Log, "; "))
		res.Violations = append(res.Violations, *v)
	}
	return res
}

// Replay runs one execution with logging.
func Replay(opt Options, body func(*Ctx), choices []int) (what string, log []string) {
	c := runOne(body, choices, true, &opt)
	return c.what, c.log
}

// Failed returns the failure noted so far.
func (c *Ctx) Failed() string { return c.what }
