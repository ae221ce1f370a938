package main

import (
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"log"
	"math"
	"net/http"
	"net/http/httptest"
	"os"
	"strings"
	"sync/atomic"
	"syscall"
	"testing"
	"testing/synctest"
	"time"

	"github.com/xhd2015/xgo/cmd/xgo/verifh/h"
	"github.com/xhd2015/xgo/support/netutil"
	"github.com/xhd2015/xgo/support/session"
)

var theT *testing.T

// bubble runs f under virtual time; every goroutine it starts must end.
func bubble(c *h.Ctx, f func()) {
	var pe interface{}
	var panicked bool
	dead, died := h.Try(func() {
		synctest.Test(theT, func(t *testing.T) {
			pe, panicked = h.Try(f)
		})
	})
	if panicked {
		panic(pe)
	}
	if died {
		c.Fail("stuck", "operations never end: %v", dead)
	}
}

type ev struct {
	sess, sender, n int
}

type op struct {
	name   string
	done   atomic.Bool
	events []ev
	err    error
	start  time.Time
}

type actor struct {
	name string
	sess int
	cur  *op
	sent int
}

// sessions: senders, pollers and destroyers of one or two sessions, every
// order in which they begin and in which time passes between.
func sessions(nsess, nsend, npoll int, batches []int, destroy bool) func(depth int) func(c *h.Ctx) {
	return func(depth int) func(c *h.Ctx) {
		return func(c *h.Ctx) {
			bubble(c, func() {
				m := session.NewSessionManager()
				var ids []string
				var ss []session.Session
				dead := make([]bool, nsess)
				for i := 0; i < nsess; i++ {
					id, s, err := m.Start()
					if err != nil || s == nil {
						c.Fail("start", "Start: %v", err)
					}
					for _, o := range ids {
						if o == id {
							c.Fail("id", "two sessions have the id %s", id)
						}
					}
					ids = append(ids, id)
					ss = append(ss, s)
				}
				var senders, pollers []*actor
				for s := 0; s < nsess; s++ {
					for i := 0; i < nsend; i++ {
						senders = append(senders, &actor{name: fmt.Sprintf("sender%d.%d", s, i), sess: s})
					}
					for i := 0; i < npoll; i++ {
						pollers = append(pollers, &actor{name: fmt.Sprintf("poller%d.%d", s, i), sess: s})
					}
				}
				delivered := make([][]int, len(senders)) // numbers received per sender
				ndel := make([]int, nsess)
				sent := func(s int) int {
					n := 0
					for _, a := range senders {
						if a.sess == s {
							n += a.sent
						}
					}
					return n
				}
				settle := func() {
					synctest.Wait()
					for _, p := range pollers {
						o := p.cur
						if o == nil || !o.done.Load() {
							continue
						}
						p.cur = nil
						if o.err != nil {
							c.Fail("poll", "%s: %v", p.name, o.err)
						}
						for _, e := range o.events {
							if e.sess != p.sess {
								c.Fail("crossed", "%s of session %d received an event of session %d", p.name, p.sess, e.sess)
							}
							delivered[e.sender] = append(delivered[e.sender], e.n)
							ndel[e.sess]++
						}
						// one poller: its results are in order
						if npoll == 1 {
							for i, a := range senders {
								for j, n := range delivered[i] {
									// the rest of a destroyed session's events may be dropped
									if n != j && !dead[a.sess] || j > 0 && n <= delivered[i][j-1] {
										c.Fail("order", "%s received the events of %s as %v", p.name, a.name, delivered[i])
									}
								}
							}
						}
					}
					for _, a := range senders {
						if o := a.cur; o != nil && o.done.Load() {
							a.cur = nil
							if o.err != nil && !dead[a.sess] {
								c.Fail("send", "%s: %v", a.name, o.err)
							}
						}
					}
				}
				busy := func(s int, as []*actor) bool {
					for _, a := range as {
						if a.sess == s && a.cur != nil {
							return true
						}
					}
					return false
				}
				send := func(i, n int) {
					a := senders[i]
					o := &op{name: a.name, start: time.Now()}
					a.cur = o
					var evs []interface{}
					for k := 0; k < n; k++ {
						evs = append(evs, ev{a.sess, i, a.sent})
						a.sent++
					}
					s := ss[a.sess]
					go func() {
						o.err = s.SendEvents(evs...)
						o.done.Store(true)
					}()
				}
				poll := func(p *actor) {
					o := &op{name: p.name, start: time.Now()}
					p.cur = o
					s := ss[p.sess]
					go func() {
						evs, err := s.PollEvents()
						for _, e := range evs {
							o.events = append(o.events, e.(ev))
						}
						o.err = err
						o.done.Store(true)
					}()
				}
				check := func() {
					key := fmt.Sprint(dead, ndel)
					for _, a := range append(append([]*actor{}, senders...), pollers...) {
						key += fmt.Sprint(" ", a.sent, a.cur != nil)
						if a.cur != nil {
							key += time.Since(a.cur.start).String()
						}
					}
					c.State(key)
					for _, p := range pollers {
						if o := p.cur; o != nil {
							// a waiting poll ends soon after events are there, and after its
							// time in any case
							if time.Since(o.start) > 6*time.Second {
								c.Fail("poll-ends", "%s still waits after %v", p.name, time.Since(o.start))
							}
						}
					}
					for s := 0; s < nsess; s++ {
						got, err := m.Get(ids[s])
						if (err != nil) != dead[s] || err == nil && got != ss[s] {
							c.Fail("get", "Get of session %d (destroyed=%v): %v", s, dead[s], err)
						}
						if dead[s] {
							var he netutil.HttpStatusErr
							if !errors.As(err, &he) || he.HttpStatusCode() != 400 {
								c.Fail("get", "Get of a destroyed session: %v is not a client error", err)
							}
						}
					}
					if _, err := m.Get("nosuch"); err == nil {
						c.Fail("get", "Get of an unknown session succeeds")
					}
				}
				destroyAt := func(s int) {
					if err := m.Destroy(ids[s]); err != nil {
						c.Fail("destroy", "Destroy: %v", err)
					}
					dead[s] = true
				}
				advance := func(d time.Duration) {
					type st struct{ avail bool }
					before := make([]st, nsess)
					for s := range before {
						before[s].avail = sent(s) > ndel[s]
					}
					waiting := map[*actor]*op{}
					for _, p := range pollers {
						if p.cur != nil {
							waiting[p] = p.cur
						}
					}
					time.Sleep(d)
					settle()
					for p, o := range waiting {
						// undelivered events and only this one waiting: it must be back
						if p.cur == o && before[p.sess].avail && npoll == 1 && !dead[p.sess] && d > time.Second {
							c.Fail("poll-prompt", "%s still waits although events were sent", p.name)
						}
					}
					check()
				}
				for step := 0; step < depth; step++ {
					// which actor is busy can depend on the runtime: a choice that is not
					// possible now does nothing
					k := c.Choose(len(senders)*len(batches) + len(pollers) + nsess + 2)
					name, f := "idle", func() {}
					switch ns := len(senders) * len(batches); {
					case k < ns:
						i, n := k/len(batches), batches[k%len(batches)]
						if senders[i].cur == nil {
							name, f = fmt.Sprintf("%s sends %d", senders[i].name, n), func() { send(i, n) }
						}
					case k < ns+len(pollers):
						if p := pollers[k-ns]; p.cur == nil && !dead[p.sess] {
							name, f = p.name+" polls", func() { poll(p) }
						}
					case k < ns+len(pollers)+nsess:
						if s := k - ns - len(pollers); destroy {
							name, f = fmt.Sprintf("destroy %d", s), func() { destroyAt(s) }
						}
					case k == ns+len(pollers)+nsess:
						name, f = "150ms pass", func() { advance(150 * time.Millisecond) }
					default:
						name, f = "6s pass", func() { advance(6 * time.Second) }
					}
					c.Logf("%s", name)
					c.Step()
					f()
					settle()
					check()
				}
				c.Logf("drain")
				for round := 0; ; round++ {
					advance(6 * time.Second)
					left := false
					for s := 0; s < nsess; s++ {
						if dead[s] {
							if busy(s, senders) || busy(s, pollers) {
								var who []string
								for _, a := range append(append([]*actor{}, senders...), pollers...) {
									if a.sess == s && a.cur != nil {
										who = append(who, a.name)
									}
								}
								c.Fail("destroyed-stuck", "session %d was destroyed, but %v never end", s, who)
							}
							continue
						}
						if busy(s, senders) || busy(s, pollers) || ndel[s] < sent(s) {
							left = true
							for _, p := range pollers {
								if p.sess == s && p.cur == nil {
									poll(p)
								}
							}
						}
					}
					if !left {
						break
					}
					if round > 40 {
						c.Fail("lost", "after polling on, %v of the events were received (sent %d), senders busy %v", ndel, sent(0), busy(0, senders))
					}
				}
				// nothing more comes
				for s := 0; s < nsess; s++ {
					if !dead[s] {
						for _, p := range pollers {
							if p.sess == s {
								poll(p)
								break
							}
						}
					}
				}
				advance(7 * time.Second)
				for i, a := range senders {
					if dead[a.sess] {
						seen := map[int]bool{}
						for _, n := range delivered[i] {
							if seen[n] || n < 0 || n >= a.sent {
								c.Fail("exactly-once", "the events of %s arrived as %v", a.name, delivered[i])
							}
							seen[n] = true
						}
						continue
					}
					seen := make([]int, a.sent)
					for _, n := range delivered[i] {
						if n < 0 || n >= a.sent {
							c.Fail("exactly-once", "the events of %s arrived as %v, %d were sent", a.name, delivered[i], a.sent)
						}
						seen[n]++
					}
					for n, k := range seen {
						if k != 1 {
							c.Fail("exactly-once", "event %d of %s arrived %d times (%v)", n, a.name, k, delivered[i])
						}
					}
				}
				for s := 0; s < nsess; s++ {
					destroyAt(s)
				}
				settle()
				for s := 0; s < nsess; s++ {
					if _, err := m.Get(ids[s]); err == nil {
						c.Fail("get", "Get of a destroyed session succeeds")
					}
				}
			})
		}
	}
}

type codeErr struct{ code int }

func (e codeErr) Error() string       { return fmt.Sprintf("coded %d", e.code) }
func (e codeErr) HttpStatusCode() int { return e.code }

type badJSON struct{}

func (badJSON) MarshalJSON() ([]byte, error) { return nil, errors.New("cannot marshal") }

// handlers: every outcome of a JSON handler
func handlers(depth int) func(c *h.Ctx) {
	type outcome struct {
		name string
		f    func() (interface{}, error)
		code int
		body string
	}
	var nilMap map[string]int
	outs := []outcome{
		{"value", func() (interface{}, error) { return map[string]interface{}{"a": []int{1, 2}, "b": "<\"&"}, nil }, 200, `{"a":[1,2],"b":"<\"&"}`},
		{"nil", func() (interface{}, error) { return nil, nil }, 200, "null"},
		{"string", func() (interface{}, error) { return "x\ny", nil }, 200, `"x\ny"`},
		{"error", func() (interface{}, error) { return nil, errors.New("plain failure") }, 500, "plain failure"},
		{"value and error", func() (interface{}, error) { return 1, errors.New("plain failure") }, 500, "plain failure"},
		{"client error", func() (interface{}, error) { return nil, netutil.ParamErrorf("bad %d %s", 7, "x%d") }, 400, "bad 7 x%d"},
		{"coded", func() (interface{}, error) { return nil, codeErr{418} }, 418, "coded 418"},
		{"panic string", func() (interface{}, error) { panic("went wrong") }, 500, "went wrong"},
		{"panic error", func() (interface{}, error) { panic(errors.New("went bad")) }, 500, "went bad"},
		{"panic coded", func() (interface{}, error) { panic(codeErr{409}) }, 409, "coded 409"},
		{"panic value", func() (interface{}, error) { panic(42) }, 500, "42"},
		{"runtime error", func() (interface{}, error) { nilMap["a"]++; return 1, nil }, 500, "nil map"},
		{"nil dereference", func() (interface{}, error) { var p *ev; return p.n, nil }, 500, "nil pointer"},
		{"not representable", func() (interface{}, error) { return math.NaN(), nil }, 500, "NaN"},
		{"channel", func() (interface{}, error) { return make(chan int), nil }, 500, "chan int"},
		{"failing marshaler", func() (interface{}, error) { return badJSON{}, nil }, 500, "cannot marshal"},
	}
	return func(c *h.Ctx) {
		o := outs[c.Choose(len(outs))]
		method := []string{"POST", "GET", "OPTIONS", "PUT"}[c.Choose(4)]
		cors := c.Bool()
		c.Logf("%s %s", method, o.name)
		c.Step()
		rec := httptest.NewRecorder()
		req := httptest.NewRequest(method, "/x", strings.NewReader(`{"q":1}`))
		calls := 0
		if cors {
			netutil.SetCORSHeaders(rec)
		}
		if pe, p := h.Try(func() {
			netutil.HandleJSON(rec, req, func(ctx context.Context, r *http.Request) (interface{}, error) {
				calls++
				if ctx == nil || r == nil || r.Method != method {
					panic("wrong request")
				}
				return o.f()
			})
		}); p {
			c.Fail("handler-panic", "%s escapes as a panic: %v", o.name, pe)
		}
		res := rec.Result()
		b, _ := io.ReadAll(res.Body)
		body := string(b)
		if cors && res.Header.Get("Access-Control-Allow-Origin") != "*" {
			c.Fail("cors", "CORS header lost")
		}
		if method == "OPTIONS" {
			if calls != 0 || res.StatusCode != 200 || body != "" {
				c.Fail("options", "OPTIONS: %d calls, status %d, body %q", calls, res.StatusCode, body)
			}
			return
		}
		if calls != 1 {
			c.Fail("handler-calls", "the handler ran %d times", calls)
		}
		if res.StatusCode != o.code {
			c.Fail("handler-status", "%s %s: status %d, expected %d (body %q)", method, o.name, res.StatusCode, o.code, body)
		}
		ct := res.Header.Get("Content-Type")
		if o.code == 200 {
			var x, y interface{}
			if err := json.Unmarshal([]byte(o.body), &y); err != nil {
				panic(err)
			}
			if err := json.Unmarshal(b, &x); err != nil || fmt.Sprint(x) != fmt.Sprint(y) || !strings.HasPrefix(ct, "application/json") {
				c.Fail("handler-body", "%s: body %q (%s)", o.name, body, ct)
			}
			return
		}
		if !strings.Contains(body, o.body) || !strings.HasPrefix(ct, "text/plain") {
			c.Fail("handler-error", "%s: body %q (%s), expected to report %q as text", o.name, body, ct, o.body)
		}
	}
}

// ports: every sequence of outcomes of serving on a port
func ports(depth int) func(c *h.Ctx) {
	return func(c *h.Ctx) {
		incr := c.Bool()
		other := errors.New("cannot serve")
		var tried []int
		var script []string
		var watched []int
		c.Step()
		// a port range nobody serves on: the attempts never listen
		base := 1
		err := netutil.ServePort("127.0.0.1", base, incr, 0, func(p int) { watched = append(watched, p) }, func(port int) error {
			tried = append(tried, port)
			k := c.Choose(4)
			if len(tried) > depth {
				k = 0
			}
			script = append(script, []string{"ok", "in use", "wrapped in use", "fails"}[k])
			c.Step()
			switch k {
			case 0:
				return nil
			case 1:
				return syscall.EADDRINUSE
			case 2:
				return fmt.Errorf("listen: %w", &os.SyscallError{Syscall: "bind", Err: syscall.EADDRINUSE})
			}
			return other
		})
		c.Logf("auto=%v %v", incr, script)
		last := script[len(script)-1]
		for i, p := range tried {
			if p != base+i {
				c.Fail("ports", "tried ports %v", tried)
			}
		}
		for i, s := range script[:len(script)-1] {
			if !incr || !strings.HasSuffix(s, "in use") {
				c.Fail("ports", "another port was tried after %q (attempt %d, auto=%v)", s, i, incr)
			}
		}
		switch last {
		case "ok":
			if err != nil {
				c.Fail("ports", "serving succeeded, but: %v", err)
			}
		case "fails":
			if err != other {
				c.Fail("ports", "serving failed, but: %v", err)
			}
		default:
			if incr || err == nil {
				c.Fail("ports", "gave up on a port in use: %v (auto=%v)", err, incr)
			}
		}
	}
}

func all(t *testing.T) {
	theT = t
	h.Add("poll", sessions(1, 1, 1, []int{1, 3}, false))
	h.Add("full", sessions(1, 1, 1, []int{1, 60, 120}, true))
	h.Add("senders", sessions(1, 2, 1, []int{2, 60}, true))
	h.Add("pollers", sessions(1, 1, 2, []int{1, 3}, true))
	h.Add("two", sessions(2, 1, 1, []int{1}, true))
	h.Add("handlers", handlers)
	h.Add("ports", ports)
	h.Main(args)
}

var args []string

func main() {
	log.SetOutput(io.Discard)
	args = os.Args[1:]
	os.Args = os.Args[:1]
	testing.Main(func(pat, str string) (bool, error) { return true, nil }, []testing.InternalTest{{Name: "all", F: all}}, nil, nil)
}
