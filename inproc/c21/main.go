package main

import (
	"os"
	"regexp"
	"strings"

	"github.com/xhd2015/xgo/cmd/xgo/verifh/h"
	"github.com/xhd2015/xgo/support/pattern"
)

// The meaning of a pattern, by regular expressions over whole paths: each
// segment of the path appears as "/seg".
type ref struct {
	full   []*regexp.Regexp
	prefix []*regexp.Regexp
}

func segs(s string) []string {
	var out []string
	for _, x := range strings.Split(s, "/") {
		if x != "" {
			out = append(out, x)
		}
	}
	return out
}

func compile(p string) *ref {
	ss := segs(p)
	r := &ref{}
	empty := func(k int) bool {
		for _, s := range ss[k:] {
			if strings.Trim(s, "*") != "" {
				return false
			}
		}
		return true
	}
	for k := 0; k <= len(ss); k++ {
		// segments of stars only may be absent at the end
		if !empty(k) {
			continue
		}
		re := ""
		for _, s := range ss[:k] {
			if s == "**" {
				re += `(?:/[^/]+)*`
				continue
			}
			re += "/"
			one := ""
			for _, c := range s {
				if c == '*' {
					one += `[^/]*`
				} else {
					one += regexp.QuoteMeta(string(c))
				}
			}
			re += one
		}
		r.full = append(r.full, regexp.MustCompile(`\A`+re+`\z`))
		r.prefix = append(r.prefix, regexp.MustCompile(`\A`+re+`(?:/[^/]+)*\z`))
	}
	return r
}

func any(rs []*regexp.Regexp, p string) bool {
	for _, r := range rs {
		if r.MatchString(p) {
			return true
		}
	}
	return false
}

func norm(p string) string {
	s := ""
	for _, x := range segs(p) {
		s += "/" + x
	}
	return s
}

func words(alpha []string, max int) []string {
	out := []string{""}
	last := out
	for i := 0; i < max; i++ {
		var next []string
		for _, w := range last {
			for _, a := range alpha {
				next = append(next, w+a)
			}
		}
		out = append(out, next...)
		last = next
	}
	return out
}

func suite(alpha, palpha []string, plen int) func(depth int) func(*h.Ctx) {
	return func(depth int) func(*h.Ctx) {
		paths := words(palpha, plen)
		norms := make([]string, len(paths))
		for i, p := range paths {
			norms[i] = norm(p)
		}
		return func(c *h.Ctx) {
			p := h.Word(c, alpha, 0, depth)
			c.Logf("pattern %q against %d paths", p, len(paths))
			c.State(p)
			r := compile(p)
			m := pattern.CompilePattern(p)
			for i, path := range paths {
				c.Step()
				want, wantPre := any(r.full, norms[i]), any(r.prefix, norms[i])
				if got := m.Match(path); got != want {
					c.Fail("match", "Match(%q, %q) = %v, want %v", p, path, got, want)
				}
				if got := m.MatchPrefix(path); got != wantPre {
					c.Fail("prefix", "MatchPrefix(%q, %q) = %v, want %v", p, path, got, wantPre)
				}
			}
		}
	}
}

// lists: a list matches when one of its patterns does
func lists(depth int) func(*h.Ctx) {
	pats := words([]string{"a", "*", "/"}, depth)
	paths := words([]string{"a", "b", "/"}, 4)
	refs := make([]*ref, len(pats))
	for i, p := range pats {
		refs[i] = compile(p)
	}
	return func(c *h.Ctx) {
		var ps []string
		var rs []*ref
		n := c.Choose(4)
		for i := 0; i < n; i++ {
			k := c.Choose(len(pats))
			ps, rs = append(ps, pats[k]), append(rs, refs[k])
		}
		c.Logf("patterns %q", ps)
		m := pattern.CompilePatterns(ps)
		for _, path := range paths {
			c.Step()
			want, wantPre := false, false
			for _, r := range rs {
				want = want || any(r.full, norm(path))
				wantPre = wantPre || any(r.prefix, norm(path))
			}
			if got := m.MatchAny(path); got != want {
				c.Fail("any", "MatchAny(%q, %q) = %v, want %v", ps, path, got, want)
			}
			if got := m.MatchAnyPrefix(path); got != wantPre {
				c.Fail("anyprefix", "MatchAnyPrefix(%q, %q) = %v, want %v", ps, path, got, wantPre)
			}
		}
	}
}

func main() {
	h.Add("c21.pat", suite([]string{"a", "b", "*", "/"}, []string{"a", "b", "/"}, 5))
	h.Add("c21.star", suite([]string{"a", "*", "/"}, []string{"a", "b", "/"}, 5))
	h.Add("c21.uni", suite([]string{"é", ".", "*", "/"}, []string{"é", ".", "a", "/"}, 3))
	h.Add("c21.list", lists)
	h.Main(os.Args[1:])
}
