package rth

import "runtime"

// sactor is an actor whose commands are handed over through plain memory and
// spinning. The race build compiles this package without race instrumentation,
// so handing over creates no happens-before edge: what the race detector
// accepts is ordered by the code under test itself, in every explored schedule.
type sactor struct {
	id     int
	cmd    func()
	busy   bool
	leave  bool
	quit   bool
	exited bool
	frames []*tn9
	traced bool
	ended  bool
	self   *tn9 // the entry its calls are recorded under while in no frame
	pan    interface{}
}

func (a *sactor) start() { salive++; go a.main() }

func (a *sactor) main() {
	defer func() { a.exited = true; a.busy = false }()
	for !a.quit {
		a.top()
	}
}

func (a *sactor) top() {
	defer func() {
		if e := recover(); e != nil {
			a.pan = e
			a.busy = false
		}
	}()
	a.loop()
}

// loop executes commands until told to leave the frame it was started in.
func (a *sactor) loop() {
	for {
		for !a.busy {
			runtime.Gosched()
		}
		f := a.cmd
		a.cmd = nil
		if f != nil {
			f()
		}
		if a.leave {
			// the frame below reports completion
			a.leave = false
			return
		}
		if a.quit {
			return
		}
		a.busy = false
	}
}

// do executes f and waits for it.
func (a *sactor) do(f func()) {
	a.cmd = f
	a.busy = true
	for a.busy {
		runtime.Gosched()
	}
}

// enter runs the following commands inside wrap, until leaveFrame.
func (a *sactor) enter(wrap func(body func())) {
	a.do(func() {
		wrap(func() {
			a.busy = false
			a.loop()
		})
	})
}

func (a *sactor) leaveFrame() { a.do(func() { a.leave = true }) }

// end terminates the goroutine, waiting until the runtime took it back.
func (a *sactor) end(how func()) {
	if a.ended {
		return
	}
	a.ended = true
	a.cmd = func() { a.quit = true; how() }
	a.busy = true
	salive--
	swait()
}

var sbase, salive int

// sreset waits for the goroutines of the previous execution.
func sreset() {
	if sbase == 0 {
		sbase = runtime.NumGoroutine()
	}
	salive = 0
	swait()
}

func swait() {
	for runtime.NumGoroutine() > sbase+salive {
		runtime.Gosched()
	}
}
