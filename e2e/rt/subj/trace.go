package subj

import "context"

// A and its relatives run a body supplied by the explorer; the calls the body
// makes are the children of the call.
func A(id int, s string, body func() (int, error)) (n int, err error) {
	n, err = body()
	return
}

func (t *T) AM(id int, body func() (int, error)) (int, error) {
	return body()
}

func (v V) AV(id int, body func() (int, error)) int {
	n, err := body()
	if err != nil {
		return -5
	}
	return n
}

func GA[K any](id int, k K, body func() (int, error)) (n int, err error) {
	return body()
}

// R recovers whatever its body panics with.
func R(id int, body func() (int, error)) (n int, err error) {
	defer func() {
		if e := recover(); e != nil {
			n = -7
		}
	}()
	return body()
}

// D runs after in a deferred call.
func D(id int, body, after func() (int, error)) (n int, err error) {
	defer after()
	return body()
}

// MK is mocked by the explorer.
func MK(id int, body func() (int, error)) (n int, err error) {
	return body()
}

// Void has neither arguments nor results.
func Void() {}

// RV reads a variable, and its address.
func RV(id int) int {
	p := &VOther
	return VInt + *p
}

// AP changes what its argument points to.
func AP(id int, p *Sub, m map[string]int, body func() (int, error)) (q *Sub, err error) {
	defer func() { q = p }()
	p.K++
	m["k"]++
	_, err = body()
	return
}

// CX has a context, which is not recorded.
func CX(ctx context.Context, id int, body func() (int, error), rest ...string) (int, []string, error) {
	n, err := body()
	return n, rest, err
}

// OD takes any value and returns it.
func OD(id int, v interface{}, body func() (int, error)) (n int, w interface{}, err error) {
	n, err = body()
	w = v
	return
}

type Cyc struct {
	Next *Cyc
	N    int
}

// PanicJSON cannot be marshalled.
type PanicJSON struct{ N int }

func (p PanicJSON) MarshalJSON() ([]byte, error) { panic("PanicJSON") }

// CallJSON calls instrumented functions and reads variables when marshalled.
type CallJSON struct{ N int }

func (p *CallJSON) MarshalJSON() ([]byte, error) {
	n, _ := MK(p.N, func() (int, error) { return p.N + VInt, nil })
	if n < 0 {
		return nil, nil
	}
	return []byte("7"), nil
}

// NilErr panics in Error when nil.
type NilErr struct{ S string }

func (e *NilErr) Error() string { return e.S }
