ID = "s02-clone-cow"
PROP = "C02"
NEEDS = "a goroutine started while three mocks bound to different receivers are active, then the parent cancelling the oldest one before the child calls"
BREAKS = "the started goroutine shares the backing array of its parent's mock list: a cancel in the parent removes the child's mock"
EDITS = [("runtime/internal/trap/init.go", """		newMocks := make([]*mockHolder, len(mocks))
		for i, m := range mocks {
			newMocks[i] = &mockHolder{
				wantRecvPtr: m.wantRecvPtr,
				mock:        m.mock,
			}
		}
		newMock[pc] = newMocks
""", """		// holders are immutable, copy on append
		newMock[pc] = mocks[:len(mocks):len(mocks)]
""")]
PROG = '''package main

import (
	"fmt"
	"os"

	"github.com/xhd2015/xgo/runtime/mock"
)

type T struct{ n int }

func (t *T) Name() string { return fmt.Sprint("orig", t.n) }

func main() {
	a, b, c := &T{1}, &T{2}, &T{3}
	ca := mock.Patch(a.Name, func() string { return "A" })
	mock.Patch(b.Name, func() string { return "B" })
	mock.Patch(c.Name, func() string { return "C" })
	start, done := make(chan bool), make(chan string)
	go func() {
		<-start
		done <- a.Name() + b.Name() + c.Name()
	}()
	ca()
	start <- true
	if g := <-done; g != "ABC" {
		fmt.Println("child sees", g)
		os.Exit(1)
	}
	if g := a.Name() + b.Name() + c.Name(); g != "orig1BC" {
		fmt.Println("parent sees", g)
		os.Exit(1)
	}
}
'''
