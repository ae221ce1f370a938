package main

import (
	"fmt"
	"os"
	"path/filepath"
	"strings"

	covcmd "github.com/xhd2015/xgo/cmd/xgo/coverage"
	"github.com/xhd2015/xgo/cmd/xgo/verifh/h"
	"github.com/xhd2015/xgo/support/coverage"
)

type line struct {
	p string
	n int64
}

var prefixes = []string{"a.com/b/f.go:1.2,3.4 2", "a.com/b/f.go:1.2,3.4 1", "a.com/bc/g h.go:10.1,11.2 12"}
var counts = []int64{0, 1, 4294967296}

func render(ls []line, mode, eol string, end bool) string {
	var s []string
	if mode != "" {
		s = append(s, "mode: "+mode)
	}
	for _, l := range ls {
		s = append(s, fmt.Sprintf("%s %d", l.p, l.n))
	}
	t := strings.Join(s, eol)
	if end && len(s) > 0 {
		t += eol
	}
	return t
}

// sum is the reference: each block once, at its first place
func sum(ps ...[]line) []line {
	out := []line{}
	at := map[string]int{}
	for _, ls := range ps {
		for _, l := range ls {
			if i, ok := at[l.p]; ok {
				out[i].n += l.n
				continue
			}
			at[l.p] = len(out)
			out = append(out, l)
		}
	}
	return out
}

func mk(ls []line) []*coverage.CovLine {
	var out []*coverage.CovLine
	for _, l := range ls {
		out = append(out, &coverage.CovLine{Prefix: l.p, Count: l.n})
	}
	return out
}

func un(c *h.Ctx, ls []*coverage.CovLine) []line {
	out := []line{}
	for _, l := range ls {
		if l == nil {
			c.Fail("nil", "nil line in a result")
		}
		out = append(out, line{l.Prefix, l.Count})
	}
	return out
}

func eq(a, b []line) bool {
	return fmt.Sprint(a) == fmt.Sprint(b)
}

// same, in whatever order
func sameSet(a, b []line) bool {
	m := map[line]int{}
	for _, x := range a {
		m[x]++
	}
	for _, x := range b {
		m[x]--
	}
	for _, n := range m {
		if n != 0 {
			return false
		}
	}
	return true
}

func choose(c *h.Ctx, np, nc, max int) []line {
	n := c.Choose(max + 1)
	var ls []line
	for i := 0; i < n; i++ {
		ls = append(ls, line{prefixes[c.Choose(np)], counts[c.Choose(nc)]})
	}
	return ls
}

var perms3 = [][]int{{0, 1, 2}, {0, 2, 1}, {1, 0, 2}, {1, 2, 0}, {2, 0, 1}, {2, 1, 0}}

func merge(np, nc, nprof int) func(depth int) func(c *h.Ctx) {
	return func(depth int) func(c *h.Ctx) {
		return func(c *h.Ctx) {
			var ps [][]line
			for i := 0; i < nprof; i++ {
				ps = append(ps, choose(c, np, nc, depth))
			}
			c.Logf("%v", ps)
			c.State(fmt.Sprint(ps))
			want := sum(ps...)
			ins := make([][]*coverage.CovLine, nprof)
			fresh := func() {
				for i := range ins {
					ins[i] = mk(ps[i])
				}
			}
			check := func(what string, got []*coverage.CovLine, want []line, order bool) {
				c.Step()
				g := un(c, got)
				if order && !eq(g, want) || !sameSet(g, want) {
					c.Fail("merge", "%s of %v gives %v, expected %v", what, ps, g, want)
				}
				for i := range ins {
					if !eq(un(c, ins[i]), append([]line{}, ps[i]...)) {
						c.Fail("input", "%s changed its input %v to %v", what, ps[i], un(c, ins[i]))
					}
				}
			}
			fresh()
			check("Merge", coverage.Merge(ins...), want, true)
			check("Merge again", coverage.Merge(ins...), want, true)
			for i := range ins {
				check("Compact", coverage.Compact(ins[i]), sum(ps[i]), true)
				f := func(l *coverage.CovLine) bool { return strings.Contains(l.Prefix, "f.go") }
				var left []line
				for _, l := range ps[i] {
					if strings.Contains(l.p, "f.go") {
						left = append(left, l)
					}
				}
				check("Filter", coverage.Filter(ins[i], f), append([]line{}, left...), true)
				check("Merge of the same three times", coverage.Merge(ins[i], ins[i], ins[i]), sum(ps[i], ps[i], ps[i]), true)
			}
			if nprof == 2 {
				check("Merge reversed", coverage.Merge(ins[1], ins[0]), want, false)
				check("Merge of compacted", coverage.Merge(coverage.Compact(ins[0]), coverage.Compact(ins[1])), want, true)
			}
			if nprof == 3 {
				for _, p := range perms3 {
					a, b, d := ins[p[0]], ins[p[1]], ins[p[2]]
					check("Merge in another order", coverage.Merge(a, b, d), want, false)
					check("Merge grouped left", coverage.Merge(coverage.Merge(a, b), d), want, false)
					check("Merge grouped right", coverage.Merge(a, coverage.Merge(b, d)), want, false)
					ab := coverage.Merge(a, b)
					r1 := coverage.Merge(ab, d)
					r2 := coverage.Merge(ab, d)
					check("Merge of a result twice", r1, want, false)
					check("Merge of a result twice", r2, want, false)
				}
			}
		}
	}
}

// parse and format are inverse
func format(depth int) func(c *h.Ctx) {
	return func(c *h.Ctx) {
		ls := choose(c, 3, 3, depth)
		mode := []string{"set", "count", "atomic", ""}[c.Choose(4)]
		eol := []string{"\n", "\r\n"}[c.Choose(2)]
		text := render(ls, mode, eol, c.Bool())
		c.Logf("%q", text)
		c.State(text)
		c.Step()
		m, got := coverage.Parse(text)
		if m != mode || !eq(un(c, got), append([]line{}, ls...)) {
			c.Fail("parse", "Parse(%q) = %q, %v; expected %q, %v", text, m, un(c, got), mode, ls)
		}
		if mode == "" {
			return
		}
		f := coverage.Format(m, got)
		if f != render(ls, mode, "\n", false) && f != render(ls, mode, "\n", true) {
			c.Fail("format", "Format gives %q for %q", f, text)
		}
		m2, got2 := coverage.Parse(f)
		if m2 != m || !eq(un(c, got2), un(c, got)) {
			c.Fail("format", "Parse(Format(x)) = %q, %v; x = %q, %v", m2, un(c, got2), m, un(c, got))
		}
		// profiles appended to each other
		if len(ls) < 3 {
			both := render(ls, mode, eol, true) + render(ls, "count", eol, false)
			_, got3 := coverage.Parse(both)
			if !eq(un(c, coverage.Compact(got3)), sum(ls, ls)) {
				c.Fail("appended", "Parse(%q) compacts to %v", both, un(c, coverage.Compact(got3)))
			}
		}
	}
}

// the command: merge and compact of files
func command(depth int) func(c *h.Ctx) {
	return func(c *h.Ctx) {
		nf := 1 + c.Choose(2)
		var ps [][]line
		for i := 0; i < nf; i++ {
			ps = append(ps, choose(c, 3, 2, depth))
		}
		ex := [][]string{nil, {"a.com/bc/"}, {"a.com/b/f.go"}, {"a.com/b"}, {"b/"}, {"a.com/bc/g h.go:", "zz"}}[c.Choose(6)]
		cmd := "merge"
		if nf == 1 && c.Bool() {
			cmd = "compact"
		}
		same := c.Bool() // write over the first input
		modes := []string{"set", "count"}[c.Choose(2)]
		c.Logf("%s %v excluding %v, output over input=%v", cmd, ps, ex, same)
		c.Step()
		d, rm := h.Scratch()
		defer rm()
		args := []string{cmd}
		var files []string
		for i, p := range ps {
			f := filepath.Join(d, fmt.Sprintf("c%d.out", i))
			h.Write(f, render(p, modes, "\n", true))
			files = append(files, f)
		}
		out := filepath.Join(d, "out")
		if same {
			out = files[0]
		}
		args = append(args, "-o", out)
		for _, e := range ex {
			args = append(args, "--exclude-prefix", e)
		}
		args = append(args, files...)
		covcmd.Main(args)
		b, err := os.ReadFile(out)
		h.Must(err)
		want := []line{}
	next:
		for _, l := range sum(ps...) {
			for _, e := range ex {
				if strings.HasPrefix(l.p, e) {
					continue next
				}
			}
			want = append(want, l)
		}
		if s := string(b); strings.TrimRight(s, "\n") != render(want, "count", "\n", false) {
			c.Fail("command", "%v of %v writes %q, expected %v", args, ps, s, want)
		}
		for i := range files {
			if i == 0 && same {
				continue
			}
			if b, _ := os.ReadFile(files[i]); string(b) != render(ps[i], modes, "\n", true) {
				c.Fail("command", "the input file %d was changed to %q", i, b)
			}
		}
	}
}

func main() {
	h.Add("one", merge(3, 3, 1))
	h.Add("two", merge(2, 3, 2))
	h.Add("three", merge(2, 2, 3))
	h.Add("format", format)
	h.Add("cmd", command)
	h.Main(os.Args[1:])
}
