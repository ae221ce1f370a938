ID = "s05-filter-go"
PROP = "C05"
NEEDS = "a trace with a filter whose function starts a goroutine that calls filtered functions"
BREAKS = "calls of goroutines started inside a filtered trace are recorded although the filter excludes them"
EDITS = [("runtime/internal/trap/init.go", "		newStackData.filterTrace = stackData.filterTrace\n", "")]
PROG = '''package main

import (
	"fmt"
	"os"
	"strings"

	"github.com/xhd2015/xgo/runtime/core"
	"github.com/xhd2015/xgo/runtime/trace"
	"github.com/xhd2015/xgo/runtime/trace/stack_model"
)

func keep(n int) int {
	done := make(chan int)
	go func() { done <- kept() + hidden() }()
	return hidden() + <-done
}
func kept() int   { return 1 }
func hidden() int { return 2 }

func main() {
	var names []string
	var walk func(l []*stack_model.StackEntry)
	walk = func(l []*stack_model.StackEntry) {
		for _, e := range l {
			names = append(names, e.FuncInfo.Name)
			walk(e.Children)
		}
	}
	trace.Trace(trace.Config{
		FilterTrace: func(f *core.FuncInfo) bool { return !strings.Contains(f.IdentityName, "hidden") },
		OnFinish: func(s stack_model.IStack) { walk(s.Data().Children) },
	}, nil, func() (interface{}, error) {
		keep(1)
		return nil, nil
	})
	for _, n := range names {
		if strings.Contains(n, "hidden") {
			fmt.Println("filtered call recorded:", names)
			os.Exit(1)
		}
	}
	if !strings.Contains(strings.Join(names, " "), "kept") {
		fmt.Println("call missing:", names)
		os.Exit(1)
	}
}
'''
