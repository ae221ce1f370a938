package rth

import (
	"encoding/json"
	"errors"
	"fmt"
	"runtime"
	"strings"

	"github.com/xhd2015/xgo/runtime/trace"
	"github.com/xhd2015/xgo/runtime/trace/stack_model"

	"verif.local/explore"
	"verifrt/subj"
)

// tn9 is an entry of the expected trace.
type tn9 struct {
	kind    string // A, AM, Trace, go
	id      int
	running bool
	flags   string
	kids    []*tn9
	own     bool // Trace: starts a trace
	prev    *tn9 // Trace: where the goroutine recorded before
}

func (n *tn9) String() string {
	s := n.kind
	if n.kind == "A" || n.kind == "AM" {
		s += fmt.Sprint(n.id)
	}
	if n.running {
		s += "*"
	}
	s += n.flags
	if len(n.kids) > 0 {
		var k []string
		for _, c := range n.kids {
			k = append(k, c.String())
		}
		s += "(" + strings.Join(k, " ") + ")"
	}
	return s
}

func entry9(e *stack_model.StackEntry) string {
	name := e.FuncInfo.Name
	running := strings.HasSuffix(name, " (running)")
	name = strings.TrimSuffix(name, " (running)")
	if name == "(*T).AM" {
		name = "AM"
	}
	s := name
	if name == "A" || name == "AM" {
		b, _ := json.Marshal(e.Args)
		var a struct{ ID int }
		json.Unmarshal(b, &a)
		s += fmt.Sprint(a.ID)
	}
	if running {
		s += "*"
	}
	if e.Panic {
		s += "!"
	} else if e.Error != "" {
		s += "e"
	}
	if e.EndNs < e.BeginNs {
		s += " ends-before-it-begins"
	}
	if len(e.Children) > 0 {
		var k []string
		for _, c := range e.Children {
			k = append(k, entry9(c))
		}
		s += "(" + strings.Join(k, " ") + ")"
	}
	return s
}

func stack9(s *stack_model.Stack) string {
	var k []string
	for _, c := range s.Children {
		k = append(k, entry9(c))
	}
	return strings.Join(k, " ")
}

type export9 struct {
	data *stack_model.Stack
	json string
	text string
	seen bool
}

// c09: goroutines call, return, fail, panic, exit, start goroutines and trace
// in every order.
func conc(name string, maxActors int, ops string) {
	suites[name] = func(depth int) explore.Result {
		return explore.Run(explore.Options{Suite: name, Deadline: deadline, Workers: 1}, func(c *explore.Ctx) {
			sreset()
			races := raceErrors()
			nid := 0
			var live []*sactor
			var exports []*export9
			var wantText string // set by the model when a trace ends
			root := &sactor{}
			live = append(live, root)
			root.start()
			defer func() {
				for _, a := range live {
					a.end(func() {})
				}
			}()
			top := func(a *sactor) *tn9 {
				if n := len(a.frames); n > 0 {
					return a.frames[n-1]
				}
				return a.self
			}
			push := func(a *sactor, n *tn9) {
				n.running = true
				if a.traced || n.own {
					if t := top(a); t != nil && !n.own {
						t.kids = append(t.kids, n)
					}
				}
				a.frames = append(a.frames, n)
			}
			// pop is the model's view of leaving the innermost frame
			pop := func(a *sactor, flags string) {
				n := a.frames[len(a.frames)-1]
				a.frames = a.frames[:len(a.frames)-1]
				n.running = false
				n.flags = flags
				if n.own {
					wantText += n.String() + "\n"
					a.traced = false
				}
			}
			check := func(where string) {
				var got string
				for _, e := range exports {
					if !e.seen {
						e.seen = true
						got += e.text + "\n"
						if e.json != e.text {
							c.Fail("json", "%s: exported JSON shows %s, the data %s", where, e.json, e.text)
						}
					}
				}
				if got != wantText {
					c.Fail("tree", "%s: exported trace %swant %s", where, got, wantText)
				}
				wantText = ""
			}
			for step := 0; step < depth; step++ {
				type op struct {
					k byte
					a *sactor
				}
				var list []op
				for _, a := range live {
					if a.ended {
						continue
					}
					for i := 0; i < len(ops); i++ {
						k := ops[i]
						n := len(a.frames)
						switch k {
						case 'A', 'M':
							if n > 2 {
								continue
							}
						case 'L', 'E':
							if n == 0 || k == 'E' && a.frames[n-1].kind == "AM" {
								continue
							}
						case 'P':
							if n == 0 {
								continue
							}
						case 'S':
							if len(live) >= maxActors {
								continue
							}
						case 'X':
							if a == root {
								continue
							}
						case 'T':
							if a.traced || n > 2 {
								continue
							}
						}
						list = append(list, op{k, a})
					}
				}
				o := list[c.Choose(len(list))]
				a := o.a
				c.Logf("%c%d", o.k, a.id)
				c.Step()
				switch o.k {
				case 'A', 'M':
					nid++
					id := nid
					n := &tn9{kind: "A", id: id}
					if o.k == 'M' {
						n.kind = "AM"
					}
					push(a, n)
					a.enter(func(body func()) {
						f := func() (int, error) {
							body()
							if n.flags == "e" {
								return 0, errors.New("failed")
							}
							return 1, nil
						}
						if o.k == 'M' {
							t1.AM(id, f)
						} else {
							subj.A(id, "s", f)
						}
					})
				case 'T':
					n := &tn9{kind: "Trace", own: true}
					push(a, n)
					a.traced = true
					a.enter(func(body func()) {
						trace.Trace(trace.Config{OnFinish: func(s stack_model.IStack) {
							e := &export9{data: s.Data()}
							e.text = stack9(e.data)
							j, _ := s.JSON()
							var back stack_model.Stack
							if err := json.Unmarshal(j, &back); err != nil {
								e.json = "invalid JSON: " + err.Error()
							} else {
								e.json = stack9(&back)
							}
							exports = append(exports, e)
						}}, nil, func() (interface{}, error) {
							body()
							if n.flags == "e" {
								return 0, errors.New("failed")
							}
							return 1, nil
						})
					})
				case 'L':
					pop(a, "")
					a.leaveFrame()
				case 'E':
					a.frames[len(a.frames)-1].flags = "e"
					pop(a, "e")
					a.leaveFrame()
				case 'P':
					for len(a.frames) > 0 {
						pop(a, "!")
					}
					a.do(func() { panic("boom") })
					if a.pan != "boom" {
						c.Fail("panic", "the goroutine panics with %v, want boom", a.pan)
					}
					a.pan = nil
				case 'X':
					for len(a.frames) > 0 {
						pop(a, "")
					}
					if a.self != nil {
						a.self.running = false
					}
					a.end(runtime.Goexit)
				case 'S':
					b := &sactor{id: len(live), traced: a.traced}
					if a.traced {
						b.self = &tn9{kind: "go", running: true}
						if t := top(a); t != nil {
							t.kids = append(t.kids, b.self)
						}
					}
					live = append(live, b)
					a.do(b.start)
				}
				check(fmt.Sprintf("after %c%d", o.k, a.id))
				if n := raceErrors(); n > races {
					c.Fail("race", "data race on the recorded data: %s", raceReport())
				}
				var st []string
				for _, a := range live {
					s := fmt.Sprint(a.id, a.ended, a.traced, len(a.frames))
					if t := a.self; t != nil {
						s += t.String()
					} else if len(a.frames) > 0 {
						s += a.frames[0].String()
					}
					st = append(st, s)
				}
				c.State(strings.Join(st, "|"))
			}
			// whatever is exported stays as it was
			for _, a := range live {
				for len(a.frames) > 0 {
					pop(a, "")
					a.leaveFrame()
				}
			}
			check("when everything has returned")
			for _, e := range exports {
				if raceBuild {
					break // reading the data here would be the harness's race
				}
				if t := stack9(e.data); t != e.text {
					c.Fail("changed", "a trace exported as %s later became %s", e.text, t)
				}
			}
			if n := raceErrors(); n > races {
				c.Fail("race", "data race on the recorded data: %s", raceReport())
			}
		})
	}
}

func init() {
	conc("c09.two", 2, "ALSXT")
	conc("c09.three", 3, "ALST")
	conc("c09.fail", 2, "AMEPSXT")
}
