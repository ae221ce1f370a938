package rth

import (
	"fmt"
	"iter"

	"github.com/xhd2015/xgo/runtime/tls"

	"verif.local/explore"
)

var tlsKeys = []struct {
	name    string
	inherit bool
	key     tls.TLSKey
}{
	{"plain", false, tls.Declare("plain")},
	{"inh", true, tls.DeclareInherit("inh")},
	{"plain2", false, tls.New().Name("plain2").Declare()},
	{"inh2", true, tls.New().Name("inh2").Inherit().Declare()},
}

type tlsState struct {
	vals map[int]interface{} // key index -> value
	pull func() (func(), bool)
	stop func()
}

// c07: goroutines set, read, start goroutines and coroutines, and end.
func tlsSuite(name string, keys []int, maxActors int, coro bool) {
	suites[name] = func(depth int) explore.Result {
		return explore.Run(explore.Options{Suite: name, Deadline: deadline}, func(c *explore.Ctx) {
			var live []*actor
			nid, nval := 0, 0
			mk := func(parent *actor) {
				a := newActor(nid)
				nid++
				st := &tlsState{vals: map[int]interface{}{}}
				a.st = st
				if parent != nil {
					for k, v := range parent.st.(*tlsState).vals {
						if tlsKeys[k].inherit {
							st.vals[k] = v
						}
					}
					parent.do(a.start)
				} else {
					a.start()
				}
				live = append(live, a)
			}
			defer func() {
				for _, a := range live {
					a.end()
				}
			}()
			check := func() {
				for _, a := range live {
					st := a.st.(*tlsState)
					for _, k := range keys {
						var v, v2 interface{}
						var ok bool
						if pe := a.do(func() { v = tlsKeys[k].key.Get(); v2, ok = tlsKeys[k].key.GetOK() }); pe != nil {
							c.Fail("panic", "reading panics: %v", pe)
						}
						want, has := st.vals[k]
						if v != want || v2 != want || ok != has {
							c.Fail("wrong "+tlsKeys[k].name, "goroutine %d reads %s = %v (GetOK %v,%v), want %v,%v", a.id, tlsKeys[k].name, v, v2, ok, want, has)
						}
					}
				}
			}
			mk(nil)
			check()
			for s := 0; s < depth; s++ {
				type op struct {
					name string
					run  func()
				}
				ops := []op{{"stop", nil}}
				for i, a := range live {
					i, a := i, a
					st := a.st.(*tlsState)
					for _, k := range keys {
						k := k
						ops = append(ops, op{fmt.Sprintf("g%d set %s", a.id, tlsKeys[k].name), func() {
							nval++
							v := nval
							a.do(func() { tlsKeys[k].key.Set(v) })
							st.vals[k] = v
						}})
					}
					if len(live) < maxActors {
						ops = append(ops, op{fmt.Sprintf("g%d go", a.id), func() { mk(a) }})
					}
					if len(live) > 1 {
						ops = append(ops, op{fmt.Sprintf("g%d end", a.id), func() {
							a.end()
							live = append(append([]*actor(nil), live[:i]...), live[i+1:]...)
						}})
					}
					if coro {
						ops = append(ops, op{fmt.Sprintf("g%d coroutine", a.id), func() {
							// a coroutine that reads, stores and ends
							bad := ""
							if pe := a.do(func() {
								next, stop := iter.Pull(func(yield func(int) bool) {
									for _, k := range keys {
										v, ok := tlsKeys[k].key.GetOK()
										if ok && !(tlsKeys[k].inherit && v == st.vals[k]) {
											bad = fmt.Sprintf("%s starts with %v", tlsKeys[k].name, v)
										}
										tlsKeys[k].key.Set(-k - 1)
									}
									yield(1)
									for _, k := range keys {
										if v := tlsKeys[k].key.Get(); v != -k-1 {
											bad = fmt.Sprintf("%s becomes %v", tlsKeys[k].name, v)
										}
									}
								})
								next()
								for _, k := range keys {
									if v := tlsKeys[k].key.Get(); v != st.vals[k] {
										bad = fmt.Sprintf("%s of the caller becomes %v", tlsKeys[k].name, v)
									}
								}
								next()
								stop()
							}); pe != nil {
								c.Fail("panic", "coroutine: %v", pe)
							}
							if bad != "" {
								c.Fail("leak", "in a coroutine of goroutine %d %s", a.id, bad)
							}
						}})
					}
				}
				o := ops[c.Choose(len(ops))]
				if o.run == nil {
					break
				}
				c.Logf("%s", o.name)
				o.run()
				c.Step()
				check()
				state := ""
				for _, a := range live {
					state += fmt.Sprint(a.st.(*tlsState).vals, ";")
				}
				c.State(state)
			}
		})
	}
}

func init() {
	tlsSuite("c07.two", []int{0, 1}, 2, false)
	tlsSuite("c07.three", []int{0, 1}, 3, false)
	tlsSuite("c07.keys", []int{0, 1, 2, 3}, 2, false)
	tlsSuite("c07.coro", []int{0, 1}, 2, true)
}
