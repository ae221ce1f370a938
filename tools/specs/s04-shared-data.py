ID = "s04-shared-data"
PROP = "C04"
NEEDS = "two general interceptors with pre and post hooks that each return data from pre"
BREAKS = "every post hook receives the data of the last interceptor instead of its own"
EDITS = [("runtime/internal/trap/trap.go", """		for _, h := range interceptors {
			h := h // captured by the post closure
			var data interface{}
			var stop bool""", """		var data interface{}
		for _, h := range interceptors {
			h := h // captured by the post closure
			var stop bool""")]
PROG = '''package main

import (
	"context"
	"fmt"
	"os"

	"github.com/xhd2015/xgo/runtime/core"
	"github.com/xhd2015/xgo/runtime/trap"
)

var log string

func work() int { return 1 }

func add(name string) func() {
	return trap.AddInterceptor(&trap.Interceptor{
		Pre: func(ctx context.Context, f *core.FuncInfo, args, res core.Object) (interface{}, error) {
			return name, nil
		},
		Post: func(ctx context.Context, f *core.FuncInfo, args, res core.Object, data interface{}) error {
			log += fmt.Sprintf("%s got %v;", name, data)
			return nil
		},
	})
}

func main() {
	c1, c2 := add("a"), add("b")
	log = "" // add was called while the first one was active
	work()
	got := log
	c2()
	c1()
	if got != "b got b;a got a;" {
		println(got)
		os.Exit(1)
	}
}
'''
