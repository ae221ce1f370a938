package main

import (
	"fmt"
	"go/token"
	"os"
	"strings"

	"github.com/xhd2015/xgo/cmd/xgo/verifh/h"
	"github.com/xhd2015/xgo/support/edit"
	"github.com/xhd2015/xgo/support/edit/goedit"
	"github.com/xhd2015/xgo/support/transform/edit/line"
	"github.com/xhd2015/xgo/support/transform/patch/format"
)

type ed struct {
	s, e int
	t    string
}

// splice is the meaning of a set of edits: at every offset first the
// insertions in the order they were given, then the one edit that starts
// there; ok=false when two edits want the same text.
func splice(old string, es []ed) (out string, ok bool) {
	covered := make([]int, len(old)+1)
	for _, e := range es {
		for i := e.s; i < e.e; i++ {
			covered[i]++
			if covered[i] > 1 {
				return "", false
			}
		}
	}
	for _, e := range es {
		if e.s != e.e {
			continue
		}
		// an insertion strictly inside a changed range
		for _, r := range es {
			if r.s < e.s && e.s < r.e {
				return "", false
			}
		}
	}
	for p := 0; p <= len(old); p++ {
		for _, e := range es {
			if e.s == p && e.e == p {
				out += e.t
			}
		}
		for _, e := range es {
			if e.s == p && e.e > p {
				out += e.t
			}
		}
		if p < len(old) && covered[p] == 0 {
			out += old[p : p+1]
		}
	}
	return out, true
}

type target interface {
	ins(p int, t string)
	del(s, e int)
	rep(s, e int, t string)
	bytes() string
	has() bool
}

type bufT struct{ b *edit.Buffer }

func (b bufT) ins(p int, t string)    { b.b.Insert(p, t) }
func (b bufT) del(s, e int)           { b.b.Delete(s, e) }
func (b bufT) rep(s, e int, t string) { b.b.Replace(s, e, t) }
func (b bufT) bytes() string {
	s := string(b.b.Bytes())
	if x := b.b.String(); x != s {
		panic(fmt.Sprintf("Bytes %q String %q", s, x))
	}
	return s
}
func (b bufT) has() bool { return b.b.HasEdits() }

type goT struct {
	e    *goedit.Edit
	base int
}

func (g goT) pos(p int) token.Pos {
	if p == -1 {
		return token.NoPos
	}
	return token.Pos(g.base + p)
}
func (g goT) ins(p int, t string)    { g.e.Insert(g.pos(p), t) }
func (g goT) del(s, e int)           { g.e.Delete(g.pos(s), g.pos(e)) }
func (g goT) rep(s, e int, t string) { g.e.Replace(g.pos(s), g.pos(e), t) }
func (g goT) bytes() string          { return g.e.String() }
func (g goT) has() bool              { return g.e.HasEdit() }

func bufSuite(old string, goed bool, late bool) func(depth int) func(*h.Ctx) {
	return func(depth int) func(*h.Ctx) {
		return func(c *h.Ctx) {
			n := len(old)
			var t target
			src := []byte(old)
			if goed {
				// the file is not the first of its set, and lines are known
				fset := token.NewFileSet()
				fset.AddFile("other.go", -1, 7)
				f := fset.AddFile("a.go", -1, n)
				f.SetLinesForContent(src)
				if c.Bool() {
					t = goT{goedit.New(fset, old), f.Base()}
				} else {
					t = goT{goedit.NewWithBytes(fset, src), f.Base()}
				}
			} else {
				t = bufT{edit.NewBuffer(src)}
			}
			var es []ed
			k := c.Choose(depth + 1)
			for i := 0; i < k; i++ {
				if late && c.Bool() {
					// results can be taken at any time
					h.Try(func() { t.bytes() })
				}
				txt := fmt.Sprintf("<%d>", i)
				op := c.Choose(3)
				s := c.Choose(n + 1)
				e := s
				if op > 0 {
					// -1: up to the end
					if d := c.Choose(n - s + 2); d == n-s+1 {
						e = -1
					} else {
						e = s + d
					}
				}
				c.Step()
				switch op {
				case 0:
					c.Logf("Insert(%d)", s)
					t.ins(s, txt)
				case 1:
					c.Logf("Delete(%d,%d)", s, e)
					t.del(s, e)
					txt = ""
				case 2:
					c.Logf("Replace(%d,%d)", s, e)
					t.rep(s, e, txt)
				}
				if e == -1 {
					e = n
				}
				es = append(es, ed{s, e, txt})
			}
			c.State(fmt.Sprint(es))
			want, ok := splice(old, es)
			if t.has() != (len(es) > 0) {
				c.Fail("has", "HasEdits %v with %d edits", t.has(), len(es))
			}
			for rep := 0; rep < 2; rep++ {
				var got string
				pe, p := h.Try(func() { got = t.bytes() })
				switch {
				case !ok && !p:
					c.Fail("overlap", "overlapping edits %v of %q gave %q", es, old, got)
				case ok && p:
					c.Fail("rejected", "edits %v of %q rejected: %v", es, old, pe)
				case ok && got != want:
					c.Fail("splice", "edits %v of %q gave %q, want %q", es, old, got, want)
				}
			}
			if string(src) != old {
				c.Fail("source", "the original text changed to %q", src)
			}
			if b, isB := t.(bufT); isB {
				if string(b.b.Old()) != old {
					c.Fail("old", "Old() = %q", b.b.Old())
				}
				cnt := 0
				b.b.RangeEdits(func(s, e int, new string) {
					cnt++
					for i := range es {
						if es[i] == (ed{s, e, new}) {
							return
						}
					}
					c.Fail("range", "RangeEdits reports [%d,%d)->%q", s, e, new)
				})
				if cnt != len(es) {
					c.Fail("range", "RangeEdits reports %d of %d edits", cnt, len(es))
				}
			}
		}
	}
}

// every bad position is refused
func bad(depth int) func(*h.Ctx) {
	return func(c *h.Ctx) {
		old := "abc"
		b := edit.NewBuffer([]byte(old))
		s, e := c.Choose(8)-2, c.Choose(8)-2
		op := c.Choose(3)
		valid := s >= 0 && s <= 3
		if op > 0 {
			ee := e
			if e == -1 {
				ee = 3
			}
			valid = valid && ee >= s && ee <= 3
		}
		c.Logf("op %d [%d,%d)", op, s, e)
		c.Step()
		_, p := h.Try(func() {
			switch op {
			case 0:
				b.Insert(s, "x")
			case 1:
				b.Delete(s, e)
			case 2:
				b.Replace(s, e, "x")
			}
		})
		if p == valid {
			c.Fail("position", "op %d [%d,%d) of %q: panicked=%v", op, s, e, old, p)
		}
		if p && b.String() != old {
			c.Fail("position", "a refused edit changed the text to %q", b.String())
		}
	}
}

// lines: edits of whole lines, any order of lines, each with its marker
func lineEdits(nlines int, ids []string) func(depth int) func(*h.Ctx) {
	return func(depth int) func(*h.Ctx) {
		return func(c *h.Ctx) {
			type le struct {
				op, line int
				id       string
				text     []string
			}
			var src []string
			for i := 0; i < nlines; i++ {
				src = append(src, fmt.Sprintf("L%d", i+1))
			}
			e := &line.Edit{}
			var es []le
			k := c.Choose(depth + 1)
			replaced := map[int]bool{}
			for i := 0; i < k; i++ {
				op, ln := c.Choose(3), 1+c.Choose(nlines)
				id := ids[c.Choose(len(ids))]
				txt := []string{fmt.Sprintf("e%d", i)}
				if i%2 == 1 {
					txt = append(txt, "more")
				}
				if op == 2 {
					if replaced[ln] {
						c.Prune()
					}
					replaced[ln] = true
				}
				c.Logf("op %d line %d id %q", op, ln, id)
				c.Step()
				switch op {
				case 0:
					e.Prepend(ln, id, txt)
				case 1:
					e.Append(ln, id, txt)
				case 2:
					e.Replace(ln, id, txt)
				}
				es = append(es, le{op, ln, id, txt})
			}
			c.State(fmt.Sprint(es))
			var want []string
			mark := func(id string, ls ...string) {
				if id == "" {
					want = append(want, ls...)
					return
				}
				want = append(want, format.Begin(id))
				want = append(want, ls...)
				want = append(want, format.End(id))
			}
			for ln := 1; ln <= nlines; ln++ {
				for _, x := range es {
					if x.line == ln && x.op == 0 {
						mark(x.id, x.text...)
					}
				}
				if !replaced[ln] {
					want = append(want, src[ln-1])
				}
				for _, x := range es {
					if x.line == ln && x.op == 2 {
						mark(x.id, x.text...)
						if x.id != "" {
							mark(x.id, format.REPLACED_BEGIN, src[ln-1], format.REPLACED_END)
						}
					}
				}
				for _, x := range es {
					if x.line == ln && x.op == 1 {
						mark(x.id, x.text...)
					}
				}
			}
			orig := strings.Join(src, "\n")
			got, err := e.Apply(src)
			if err != nil {
				c.Fail("line-err", "%v", err)
			}
			if strings.Join(got, "\n") != strings.Join(want, "\n") {
				c.Fail("line", "edits %v gave %q, want %q", es, got, want)
			}
			if strings.Join(src, "\n") != orig {
				c.Fail("line-src", "the source lines changed: %q", src)
			}
		}
	}
}

// many edits of few lines: order survives any sorting
func lineMany(depth int) func(*h.Ctx) {
	return func(c *h.Ctx) {
		n := 1 + c.Choose(40)
		period := 1 + c.Choose(3)
		kind := c.Choose(3)
		e := &line.Edit{}
		want := make([][]string, 4)
		for i := 0; i < n; i++ {
			ln := 1 + i%period
			if kind == 2 {
				ln = period - i%period
			}
			c.Step()
			t := fmt.Sprint("e", i)
			if kind == 0 {
				e.Prepend(ln, "", []string{t})
			} else {
				e.Append(ln, "", []string{t})
			}
			want[ln] = append(want[ln], t)
		}
		c.Logf("%d edits period %d kind %d", n, period, kind)
		var w []string
		for ln := 1; ln <= 3; ln++ {
			if kind == 0 {
				w = append(w, want[ln]...)
			}
			w = append(w, fmt.Sprint("L", ln))
			if kind != 0 {
				w = append(w, want[ln]...)
			}
		}
		got, err := e.Apply([]string{"L1", "L2", "L3"})
		if err != nil || strings.Join(got, " ") != strings.Join(w, " ") {
			c.Fail("line-order", "%d edits period %d kind %d: got %v %v want %v", n, period, kind, got, err, w)
		}
	}
}

// the same for buffers
func bufMany(depth int) func(*h.Ctx) {
	return func(c *h.Ctx) {
		n := 1 + c.Choose(60)
		period := 1 + c.Choose(4)
		mode := c.Choose(4)
		b := edit.NewBuffer([]byte("abcd"))
		var es []ed
		for i := 0; i < n; i++ {
			p := i % period
			if mode == 1 {
				p = 4 - i%period
			}
			c.Step()
			t := fmt.Sprint(i, ",")
			b.Insert(p, t)
			es = append(es, ed{p, p, t})
			if i == n/2 && mode >= 2 {
				b.Replace(2, 4, "R")
				es = append(es, ed{2, 4, "R"})
			}
		}
		c.Logf("%d edits period %d mode %d", n, period, mode)
		want, ok := splice("abcd", es)
		var got string
		_, p := h.Try(func() { got = b.String() })
		if p == ok || (ok && got != want) {
			c.Fail("many", "%d insertions period %d mode %d: %q (panic %v) want %q (%v)", n, period, mode, got, p, want, ok)
		}
	}
}

func main() {
	h.Add("c20.buf", bufSuite("abc\n", false, false))
	h.Add("c20.buf2", bufSuite("ab", false, false))
	h.Add("c20.empty", bufSuite("", false, false))
	h.Add("c20.late", bufSuite("ab", false, true))
	h.Add("c20.go", bufSuite("a\nb", true, false))
	h.Add("c20.bad", bad)
	h.Add("c20.line", lineEdits(3, []string{"", "x"}))
	h.Add("c20.line1", lineEdits(1, []string{"x", "y"}))
	h.Add("c20.linemany", lineMany)
	h.Add("c20.many", bufMany)
	h.Main(os.Args[1:])
}
