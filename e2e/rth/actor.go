package rth

import (
	"fmt"
	"runtime"
)

// actor is a goroutine that executes commands one at a time, handed over by
// the explorer: every interleaving of commands of several actors is reached by
// the explorer's choices, and nothing else runs meanwhile.
type actor struct {
	cmd  chan func()
	done chan interface{}
	exit chan struct{}
	id   int
	st   interface{}
	// frames is the number of nested instrumented frames the actor is in
	frames int
	leave  bool
	quit   bool
}

func newActor(id int) *actor {
	return &actor{id: id, cmd: make(chan func()), done: make(chan interface{}), exit: make(chan struct{})}
}

// start runs the actor loop on a new goroutine spawned by the caller.
func (a *actor) start() {
	go func() {
		defer close(a.exit)
		a.loop()
	}()
}

func (a *actor) loop() {
	for f := range a.cmd {
		a.done <- a.safe(f)
		if a.leave || a.quit {
			a.leave = false
			return
		}
	}
}

func (a *actor) safe(f func()) (pe interface{}) {
	defer func() {
		if e := recover(); e != nil {
			pe = e
		}
	}()
	f()
	return nil
}

// do executes f on the actor and returns what it panicked with.
func (a *actor) do(f func()) interface{} {
	a.cmd <- f
	return <-a.done
}

// enter makes the actor execute its further commands inside wrap, which calls
// its argument once; it returns when the actor is inside.
func (a *actor) enter(wrap func(body func())) interface{} {
	a.frames++
	inside := make(chan struct{})
	a.cmd <- func() {
		wrap(func() {
			close(inside)
			a.loop()
		})
	}
	<-inside
	return nil
}

// leaveFrame ends the innermost wrap and returns what it panicked with.
func (a *actor) leaveFrame() interface{} {
	a.frames--
	if pe := a.do(func() { a.leave = true }); pe != nil {
		return pe
	}
	return <-a.done
}

// end terminates the goroutine (all frames must have been left) and waits
// until the runtime has taken it back.
func (a *actor) end() {
	for a.frames > 0 {
		a.leaveFrame()
	}
	close(a.cmd)
	<-a.exit
	runtime.Gosched()
}

func pstr(pe interface{}) string {
	if pe == nil {
		return ""
	}
	return fmt.Sprint(pe)
}
