// Package subj is the instrumented code under test.
package subj

import (
	"context"
	"errors"
)

func F(x int) string { return "F" }

func H(x int, y ...string) (r string, err error) {
	if x == 99 {
		return "", errors.New("H99")
	}
	return "H", nil
}

func unexp(x int) string { return "unexp" }

func Unexp(x int) string { return unexp(x) }

// Ctx has a context first and an error last.
func Ctx(ctx context.Context, s string) (string, error) { return "Ctx:" + s, nil }

type T struct{ N int }

func (t *T) M(x int) string { return "T.M" }

func (t *T) other(x int) string { return "T.other" }

func (t *T) Other(x int) string { return t.other(x) }

type V struct{ N int }

func (v V) M(x int) string { return "V.M" }

// U has a value receiver of an uncomparable type.
type U struct{ S []int }

func (u U) M(x int) string { return "U.M" }

type I interface{ M(x int) string }

func G[K any](x K) string { return "G" }

type GS[K any] struct{ K K }

func (g *GS[K]) M(x int) string { return "GS.M" }

var Cl = func(x int) string { return "Cl" }

func MakeCl(tag string) func(x int) string {
	return func(x int) string { return "cl:" + tag }
}

// GF and GT are mocked globally by package ginit.
func GF(x int) string { return "GF" }

type GT struct{ N int }

func (t *GT) M(x int) string { return "GT.M" }

// Enter runs body inside an instrumented frame.
func Enter(id int, body func()) int {
	body()
	return id
}

var VarS string = "vars"

func ReadVarS() string { return VarS }

// P, PM and PN run a body supplied by the explorer.
func P(x int, body func(x int) (int, error)) (y int, err error) {
	y, err = body(x)
	return
}

func (t *T) PM(x int, body func(x int) (int, error)) (y int) {
	y, err := body(x)
	if err != nil {
		return -1
	}
	return y
}

func (v V) PV(x int, body func(x int) (int, error)) (int, error) {
	return body(x)
}

type ctxKey struct{}

var CtxKey = ctxKey{}

func PC(ctx context.Context, x int, body func(x int) (int, error)) (y int, err error) {
	return body(x)
}

// PG has hooks installed during initialization.
func PG(x int, body func(x int) (int, error)) (y int, err error) {
	return body(x)
}
