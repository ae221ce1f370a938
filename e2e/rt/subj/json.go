package subj

// Functions whose arguments, receivers and results are odd values.

func J1[T any](v T) {}

func J2[T any](before int, v T, after string) (n int, err error) { return before, nil }

func JR[T any](mk func() T) (r T, s string, err error) { return mk(), "sibling", nil }

func JRL[T any](mk func() T) (s string, r T) { return "sibling", mk() }

func JV[T any](n int, vs ...T) int { return len(vs) }

func JBlank[T any](_ T, _ int) (_ T, _ int) {
	var z T
	return z, 4
}

func JErr(err error) error { return err }

func JPanic(n int, v interface{}) { panic(v) }

type JBox[T any] struct {
	Before int
	V      T
	After  string
}

func (b JBox[T]) Val(n int) int { return n }

func (b *JBox[T]) Ptr(n int) int { return n }

var JVar interface{}

func JRead() int {
	if JVar == nil {
		return 0
	}
	return 1
}

func JGo(v interface{}, done chan struct{}) {
	go func() {
		defer close(done)
		J1(v)
	}()
	<-done
}

// JDeep recurses n levels below itself.
func JDeep(n int, v interface{}) int {
	if n == 0 {
		return 0
	}
	return JDeep(n-1, v) + 1
}

// JInner is called by marshalers.
func JInner(n int) int { return n }
