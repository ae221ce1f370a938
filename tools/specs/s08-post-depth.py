ID = "s08-post-depth"
PROP = "C08"
NEEDS = "a post hook that panics, the panic recovered, and a later call observed by a general interceptor on the same goroutine"
BREAKS = "after a panic in a post hook the goroutine stays marked as inside a hook, so general interceptors and traces never run again on it"
EDITS = [("runtime/internal/trap/trap.go", """			xgo_runtime.GetG().IncTrappingDepth()
			defer xgo_runtime.GetG().DecTrappingDepth()
			postRecorder()
		}""", """			g := xgo_runtime.GetG()
			g.IncTrappingDepth()
			postRecorder()
			g.DecTrappingDepth()
		}""")]
PROG = '''package main

import (
	"context"
	"fmt"
	"os"

	"github.com/xhd2015/xgo/runtime/core"
	"github.com/xhd2015/xgo/runtime/trace"
	"github.com/xhd2015/xgo/runtime/trap"
)

func fragile() int { return 1 }
func other() int   { return 2 }

func main() {
	cancel := trace.RecordResult(fragile, func(r *int) { panic("boom") })
	func() {
		defer func() { recover() }()
		fragile()
	}()
	cancel()
	n := 0
	defer trap.AddInterceptor(&trap.Interceptor{
		Pre: func(ctx context.Context, f *core.FuncInfo, args, res core.Object) (interface{}, error) {
			n++
			return nil, nil
		},
	})()
	other()
	if n != 1 {
		fmt.Println("interceptor ran", n, "times")
		os.Exit(1)
	}
}
'''
