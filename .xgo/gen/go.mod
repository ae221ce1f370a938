// a dummy go.mod generated by xgo to avoid affecting `go mod tidy` and `go mod vendor`
module github.com/xhd2015/xgo/gen

go 1.18
