// Package ginit installs the global (init-time) hooks.
package ginit

import (
	"context"

	"github.com/xhd2015/xgo/runtime/core"
	"github.com/xhd2015/xgo/runtime/mock"
	"github.com/xhd2015/xgo/runtime/trap"
	"verifrt/subj"
)

func tell(args core.Object, k int) {
	x := args.GetField("x").Value().(int)
	args.GetField("body").Value().(func(int) (int, error))(-(1000*k + x))
}

func globalHook(idx int) *trap.Interceptor {
	return &trap.Interceptor{
		Pre: func(ctx context.Context, f *core.FuncInfo, args, res core.Object) (interface{}, error) {
			if f.Pkg == "verifrt/subj" && f.Name == "PG" {
				tell(args, idx*2)
				return idx, nil
			}
			return nil, nil
		},
		Post: func(ctx context.Context, f *core.FuncInfo, args, res core.Object, data interface{}) error {
			if f.Pkg == "verifrt/subj" && f.Name == "PG" {
				if data != idx {
					panic("global hook got the data of another")
				}
				tell(args, idx*2+1)
			}
			return nil
		},
	}
}

func init() {
	mock.Patch(subj.GF, func(x int) string { return "global-GF" })
	mock.Patch((*subj.GT).M, func(t *subj.GT, x int) string { return "global-GT" })
	trap.AddInterceptor(globalHook(2))
	trap.AddFuncInterceptor(subj.PG, globalHook(1))
}
