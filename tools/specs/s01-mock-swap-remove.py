ID = "s01-mock-swap-remove"
PROP = "C01"
NEEDS = "three mocks of the same function on one goroutine, cancelling the oldest while the other two stay active"
BREAKS = "cancelling a mock that is neither newest nor second newest reorders the remaining ones: the call runs an older mock than the most recent active one"
EDITS = [("runtime/internal/trap/mock.go", """			if m == h {
				holder.mock[pc] = append(list[:i], list[i+1:]...)
				return""", """			if m == h {
				// no need to shift the whole list
				list[i] = list[n-1]
				list[n-1] = nil
				holder.mock[pc] = list[:n-1]
				return""")]
PROG = '''package main

import (
	"fmt"
	"os"

	"github.com/xhd2015/xgo/runtime/mock"
)

func greet(s string) string { return "orig " + s }

func main() {
	c1 := mock.Patch(greet, func(s string) string { return "one " + s })
	c2 := mock.Patch(greet, func(s string) string { return "two " + s })
	c3 := mock.Patch(greet, func(s string) string { return "three " + s })
	want := func(w string) {
		if g := greet("x"); g != w {
			fmt.Printf("got %q, want %q\\n", g, w)
			os.Exit(1)
		}
	}
	want("three x")
	c1()
	want("three x")
	c3()
	want("two x")
	c2()
	want("orig x")
}
'''
