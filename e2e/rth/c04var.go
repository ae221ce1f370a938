package rth

import (
	"context"
	"fmt"
	"strings"

	"github.com/xhd2015/xgo/runtime/core"
	"github.com/xhd2015/xgo/runtime/mock"
	"github.com/xhd2015/xgo/runtime/trace"
	"github.com/xhd2015/xgo/runtime/trap"

	"verif.local/explore"
	"verifrt/subj"
)

var varBehav = strings.Fields("cont abort setpre setpost preonly postonly cancelpre cancelfirst")

// c04var explores the hooks of variable reads.
func c04var(suite string, n int) explore.Result {
	kinds := []string{"var", "gen", "rec", "recptr"}
	return explore.Run(explore.Options{Suite: suite, Deadline: deadline}, func(c *explore.Ctx) {
		var hooks []*c4hook
		nh := 1 + c.Choose(n)
		for i := 0; i < nh; i++ {
			h := &c4hook{kind: kinds[c.Choose(len(kinds))]}
			bs := varBehav
			if h.kind == "rec" || h.kind == "recptr" {
				bs = strings.Fields("cont setpre setpost preonly postonly cancelpre")
				if h.kind == "recptr" {
					bs = strings.Fields("cont preonly postonly cancelpre")
				}
			}
			h.behav = bs[c.Choose(len(bs))]
			hooks = append(hooks, h)
		}
		withMock := c.Bool()
		c.Logf("%v mock=%v", hooks, withMock)
		var log []string
		logf := func(f string, a ...interface{}) { log = append(log, fmt.Sprintf(f, a...)) }
		kill := func(i int) {
			if h := hooks[i]; !h.gone {
				h.gone = true
				h.cancel()
			}
		}
		for i, h := range hooks {
			i, h := i, h
			cancels := func() {
				if h.behav == "cancelpre" {
					kill(i)
				} else if h.behav == "cancelfirst" {
					kill(0)
				}
			}
			mine := func(f *core.FuncInfo) bool { return f.Pkg == pkgSubj && f.Name == "VInt" }
			val := func(res core.Object) string {
				switch v := res.GetFieldIndex(0).Value().(type) {
				case int:
					return fmt.Sprint(v)
				case *int:
					return fmt.Sprint("&", *v)
				default:
					return fmt.Sprintf("%T", v)
				}
			}
			set := func(res core.Object, v int) {
				if _, ok := res.GetFieldIndex(0).Value().(*int); ok {
					res.GetFieldIndex(0).Set(&v)
				} else {
					res.GetFieldIndex(0).Set(v)
				}
			}
			ic := &trap.Interceptor{}
			if h.behav != "postonly" {
				ic.Pre = func(ctx context.Context, f *core.FuncInfo, args, res core.Object) (interface{}, error) {
					if !mine(f) {
						return nil, nil
					}
					logf("pre%d %s", i, val(res))
					cancels()
					switch h.behav {
					case "abort":
						set(res, 1000+i)
						return nil, trap.ErrMocked
					case "setpre":
						set(res, 2000+i)
					}
					return i, nil
				}
			}
			if h.behav != "preonly" {
				ic.Post = func(ctx context.Context, f *core.FuncInfo, args, res core.Object, data interface{}) error {
					if !mine(f) {
						return nil
					}
					if h.behav != "postonly" && data != i {
						c.SoftFail("vardata", "post %d of a variable got data %v", i, data)
					}
					logf("post%d %s", i, val(res))
					if h.behav == "setpost" {
						set(res, 3000+i)
					}
					return nil
				}
			}
			switch h.kind {
			case "var":
				h.cancel = trap.AddFuncInterceptor(&subj.VInt, ic)
			case "gen":
				h.cancel = trap.AddInterceptor(ic)
			case "rec":
				var pre, post interface{}
				if h.behav != "postonly" {
					pre = func(v *int) {
						logf("pre%d %d", i, *v)
						cancels()
						if h.behav == "setpre" {
							*v = 2000 + i
						}
					}
				}
				if h.behav != "preonly" {
					post = func(v *int) {
						logf("post%d %d", i, *v)
						if h.behav == "setpost" {
							*v = 3000 + i
						}
					}
				}
				h.cancel = trace.Record(&subj.VInt, pre, post)
			case "recptr":
				var pre, post interface{}
				if h.behav != "postonly" {
					pre = func(v **int) { logf("pre%d &%d", i, **v); cancels() }
				}
				if h.behav != "preonly" {
					post = func(v **int) { logf("post%d &%d", i, **v) }
				}
				h.cancel = trace.Record(&subj.VInt, pre, post)
			}
			c.Step()
		}
		var cancelMock func()
		if withMock {
			cancelMock = mock.Patch(&subj.VInt, func() int { log = append(log, "mock"); return 50 })
		}
		active := make([]bool, nh)
		for i := range active {
			active[i] = true
		}
		read := func(ptr bool, mocked bool) {
			log = nil
			var want []string
			var order, entered []int
			for pass := 0; pass < 2; pass++ {
				for i, h := range hooks {
					if !active[i] || (h.kind == "gen") != (pass == 1) {
						continue
					}
					if ptr && (h.kind == "var" || h.kind == "rec") || !ptr && h.kind == "recptr" {
						continue
					}
					order = append(order, i)
				}
			}
			v, amp := 1, ""
			if ptr {
				amp = "&"
			}
			stop := false
			for _, i := range order {
				h := hooks[i]
				if h.behav != "postonly" {
					want = append(want, fmt.Sprintf("pre%d %s%d", i, amp, v))
					switch h.behav {
					case "cancelpre":
						active[i] = false
					case "cancelfirst":
						active[0] = false
					case "abort":
						v = 1000 + i
						stop = true
					case "setpre":
						v = 2000 + i
					}
				}
				if stop {
					break
				}
				if h.behav != "preonly" {
					entered = append(entered, i)
				}
			}
			if !stop && mocked && !ptr {
				want = append(want, "mock")
				v = 50
			}
			for k := len(entered) - 1; k >= 0; k-- {
				i := entered[k]
				want = append(want, fmt.Sprintf("post%d %s%d", i, amp, v))
				if hooks[i].behav == "setpost" {
					v = 3000 + i
				}
			}
			c.Step()
			var got int
			f := subj.VIntRead
			if ptr {
				f = subj.VIntReadPtr
			}
			if pe, bad := try(func() { got = f() }); bad {
				c.Fail("var panic", "reading with %v panicked: %v", hooks, pe)
			}
			if g, w := strings.Join(log, "; "), strings.Join(want, "; "); g != w {
				c.Fail("var events", "reading (ptr=%v mock=%v) with %v: events [%s], want [%s]", ptr, mocked, hooks, g, w)
			}
			if got != v {
				c.Fail("var value", "reading (ptr=%v mock=%v) with %v: %d, want %d", ptr, mocked, hooks, got, v)
			}
			if subj.VInt != 1 {
				c.Fail("var storage", "the storage was changed to %d", subj.VInt)
			}
		}
		read(false, withMock)
		read(true, withMock)
		read(false, withMock)
		for i := range hooks {
			kill(i)
			active[i] = false
		}
		if cancelMock != nil {
			cancelMock()
		}
		read(false, false)
		read(true, false)
		c.State(fmt.Sprint(suite, hooks, withMock))
	})
}

func init() {
	suites["c04.var"] = func(d int) explore.Result { return c04var("c04.var", d) }
}
