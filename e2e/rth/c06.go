package rth

import (
	"fmt"
	"strings"

	"github.com/xhd2015/xgo/runtime/mock"
	"github.com/xhd2015/xgo/runtime/trace"
	"github.com/xhd2015/xgo/runtime/trace/stack_model"

	"verif.local/explore"
	"verifrt/subj"
)

// c06.seq: every sequence of entering and leaving traces, installing and
// cancelling mocks, and calling, on one goroutine (and goroutines it starts).
func init() {
	suites["c06.seq"] = func(depth int) explore.Result {
		return explore.Run(explore.Options{Suite: "c06.seq", Deadline: deadline}, func(c *explore.Ctx) {
			a := newActor(0)
			a.start()
			type frame struct {
				rec   bool // the outermost trace that records
				empty bool
				want  []string
				got   string
				n     int
				out   string
			}
			var frames []*frame
			type mk struct {
				id     int
				cancel func()
			}
			var mocks []mk
			nmock := 0
			recording := func() *frame {
				for _, f := range frames {
					if f.rec {
						return f
					}
				}
				return nil
			}
			top := func() string {
				if len(mocks) == 0 {
					return "F"
				}
				return fmt.Sprintf("m%d", mocks[len(mocks)-1].id)
			}
			note := func(s string) {
				if f := recording(); f != nil {
					f.want = append(f.want, s)
				}
			}
			leave := func(how string) {
				f := frames[len(frames)-1]
				f.out = how
				pe := a.leaveFrame()
				frames = frames[:len(frames)-1]
				if (how == "panic") != (pe != nil) || (pe != nil && pstr(pe) != "boom") {
					c.Fail("trace-result", "leaving a trace with %s gave panic %v", how, pe)
				}
				if f.rec {
					w := strings.Join(f.want, " ")
					if f.n != 1 || f.got != w {
						c.Fail("trace-content", "OnFinish called %d times with [%s], want [%s]", f.n, f.got, w)
					}
				} else if f.n != 0 {
					c.Fail("trace-nested", "OnFinish of a nested trace called")
				}
			}
			call := func() {
				var got string
				if pe := a.do(func() { got = subj.F(1) }); pe != nil {
					c.Fail("call-panic", "call panics: %v", pe)
				}
				if got != top() {
					c.Fail("mock-lost", "call gives %s, want %s (mocks %d, traces %d)", got, top(), len(mocks), len(frames))
				}
				note("F=" + got)
			}
			for i := 0; i < depth; i++ {
				// ops: 0 stop 1 call 2 mock 3 go 4 trace 5 empty trace, then cancels, then leaves
				n := 6 + len(mocks)
				if len(frames) > 0 {
					n += 2
				}
				k := c.Choose(n)
				c.Step()
				switch {
				case k == 0:
					i = depth
				case k == 1:
					c.Logf("call")
					call()
				case k == 2:
					nmock++
					id := nmock
					c.Logf("mock m%d", id)
					var cancel func()
					a.do(func() { cancel = mock.Patch(subj.F, func(int) string { return fmt.Sprintf("m%d", id) }) })
					mocks = append(mocks, mk{id, cancel})
				case k == 3:
					c.Logf("go call")
					var got string
					if pe := a.do(func() {
						ch := make(chan string)
						go func() { ch <- subj.F(1) }()
						got = <-ch
					}); pe != nil {
						c.Fail("go-panic", "%v", pe)
					}
					if got != top() {
						c.Fail("mock-lost", "call in a new goroutine gives %s, want %s", got, top())
					}
					note("go{F=" + got + "}")
				case k == 4 || k == 5:
					f := &frame{empty: k == 5}
					if !f.empty && recording() == nil {
						f.rec = true
					} else if recording() != nil {
						// appears as a call
						note("Trace")
					}
					c.Logf("trace empty=%v", f.empty)
					cfg := trace.Config{}
					if !f.empty {
						cfg.OnFinish = func(s stack_model.IStack) {
							f.n++
							f.got = flat(s.Data().Children)
						}
					}
					a.enter(func(body func()) {
						trace.Trace(cfg, nil, func() (interface{}, error) {
							body()
							if f.out == "panic" {
								panic("boom")
							}
							return nil, nil
						})
					})
					frames = append(frames, f)
				case k < 6+len(mocks):
					j := k - 6
					c.Logf("cancel m%d", mocks[j].id)
					if pe := a.do(mocks[j].cancel); pe != nil {
						c.Fail("cancel-panic", "%v", pe)
					}
					mocks = append(append([]mk(nil), mocks[:j]...), mocks[j+1:]...)
				default:
					how := []string{"ok", "panic"}[k-6-len(mocks)]
					c.Logf("leave %s", how)
					leave(how)
				}
				st := fmt.Sprint(len(mocks), len(frames))
				for _, f := range frames {
					st += fmt.Sprint(f.rec, f.empty, f.want)
				}
				c.State(st)
			}
			call()
			for len(frames) > 0 {
				leave("ok")
				call()
			}
			for len(mocks) > 0 {
				a.do(mocks[0].cancel)
				mocks = mocks[1:]
				call()
			}
			a.end()
		})
	}
}

// flat lists the calls inside the root Trace in order
func flat(l []*stack_model.StackEntry) string {
	var out []string
	var walk func(l []*stack_model.StackEntry)
	walk = func(l []*stack_model.StackEntry) {
		for _, e := range l {
			switch n := strings.TrimSuffix(e.FuncInfo.Name, " (running)"); n {
			case "Trace":
				out = append(out, "Trace")
				walk(e.Children)
			case "go":
				out = append(out, "go{"+flat(e.Children)+"}")
			default:
				r := compact(e.Results)
				r = strings.TrimSuffix(r[strings.Index(r, ":")+2:], `"}`)
				out = append(out, n+"="+r)
				walk(e.Children)
			}
		}
	}
	if len(l) == 1 && l[0].FuncInfo.Name == "Trace" {
		l = l[0].Children
	}
	walk(l)
	return strings.Join(out, " ")
}
