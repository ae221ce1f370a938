ID = "s03-varptr-cancel"
PROP = "C03"
NEEDS = "two pointer mocks of one variable, cancelled oldest first, and a read by value afterwards"
BREAKS = "cancelling an older pointer mock of a variable leaves it active and makes value reads use the pointer mock"
EDITS = [("runtime/internal/trap/mock.go", "holder.varPtrMock[varAddr] = append(list[:i], list[i+1:]...)", "holder.varPtrMock[varAddr] = list[i+1:]")]
BREAKS = "cancelling a pointer mock that is neither the oldest nor the newest also cancels all older ones"
NEEDS = "three pointer mocks of one variable, the middle one cancelled first, then the newest: the oldest must be in effect again"
PROG = '''package main

import (
	"fmt"
	"os"

	"github.com/xhd2015/xgo/runtime/mock"
)

var v int = 1

func read() int { return *&v }

func ptr() int {
	p := &v
	return *p
}

func main() {
	pv := &v
	x, y, z := 10, 20, 30
	cx := mock.Patch(pv, func() *int { return &x })
	cy := mock.Patch(pv, func() *int { return &y })
	cz := mock.Patch(pv, func() *int { return &z })
	want := func(w int) {
		if g := ptr(); g != w {
			fmt.Println("got", g, "want", w)
			os.Exit(1)
		}
	}
	want(30)
	cy()
	want(30)
	cz()
	want(10)
	cx()
	want(1)
}
'''
