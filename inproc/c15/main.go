package main

import (
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"github.com/xhd2015/xgo/cmd/xgo/verifh/h"
	"github.com/xhd2015/xgo/instrument/patch"
)

const s1 = `package p

import "x"

//go:linkname f b.f
//go:linkname f b.ff
func f(y int) int {
	a(); b()
	a() // }

	return y
}

type g struct {
	a, b int
}

func (t *T) f() {
	b(); t.a()
}

func (t TT) m() { a() }

type I interface { M() }

func k[K any](k K) {}
`

// no newline at the end, everything on few lines
const s2 = "package p;func f(){a();a()};type (g struct{a int};I interface{});func(TT)f(){b()}"

const s3 = "package p\n\nfunc f() {\n\tb()\n}\n\n/* c */ var v = a()\n\nvar w = a /* a() */\nfunc (t *TT) f() {\n}\n\ntype g struct{}\n"

var sources = map[string]string{"1": s1, "2": s2, "3": s3}

func cs(op string, args ...string) (r []cmd) {
	for _, a := range args {
		r = append(r, cmd{op, a, ""})
	}
	return
}

func cat(xs ...[]cmd) (r []cmd) {
	for _, x := range xs {
		r = append(r, x...)
	}
	return
}

var positions = cat(
	cs("goto", "struct g", "interface I", "func f", "func (T) f", "func (TT) f", "opening {", "closing }", "field a", "field b"),
	cs("match", "a()", "b()", "f("),
	cs("find_for_replace", "a()", "b()", "y"))

var edits = cat(cs("insert_before", "<B1>", "<B2>"), cs("insert_after", "<A1>", "<A2>"), cs("insert_after_line", "<L>"), cs("replace", "<R>"), cs("newline", ""))

var wide = cat(positions, edits,
	cs("goto", "struct I", "interface g", "func g", "func m", "func (*T) f", "func (t *T) f", "func (t) f", "func (T)  f", "func (*TT) m", "func (x TT) m", "func k", "struct zz", "field zz", "nothing"),
	cs("match", "zz", "type", "import"),
	cs("find_for_replace", "zz", "*/ var v", "// }", "\tb();"),
	[]cmd{{"copy_func", "f", "h"}, {"copy_func", "k", "h"}, {"copy_func", "m", "h"}, {"copy_func", "f", "h h"},
		{"replace_directive", "//go:linkname f b.f", "//go:linkname f b.g"}, {"replace_directive", "//go:linkname f b.ff", "//x"}, {"replace_directive", "//go:linkname f b", "//x"}})

// positions and edits that fit one another
var medium = cat(
	cs("goto", "struct g", "func f", "func (TT) f", "opening {", "closing }", "field a"),
	cs("match", "a()", "b()"), cs("find_for_replace", "a()", "b()"),
	cs("insert_before", "<B1>"), cs("insert_after", "<A1>"), cs("insert_after_line", "<L>"), cs("replace", "<R>"), cs("newline", ""),
	[]cmd{{"copy_func", "f", "h"}, {"replace_directive", "//go:linkname f b.ff", "//x"}})

// gen chooses a block of up to depth commands; all but the last one are fine.
func gen(c *h.Ctx, src string, name string, alphabet []cmd, depth int, ok bool) block {
	b := block{name: name}
	for {
		b.cmds = append(b.cmds, alphabet[c.Choose(len(alphabet))])
		_, err := eval(src, b)
		if err != nil {
			if ok {
				c.Prune()
			}
			return b
		}
		if len(b.cmds) == depth || c.Bool() {
			return b
		}
	}
}

func apply(c *h.Ctx, src, p string) (r string, err error) {
	pe, bad := h.Try(func() { r, err = patch.ApplyXgoPatchContent(src, p) })
	if bad {
		c.Fail("panic", "applying\n%s\npanics: %v", p, pe)
	}
	c.Step()
	return
}

// place: what a patch does, and when it is an error (C17, C18)
func place(srcs string, alphabet []cmd, errorsOnly bool) func(depth int) func(*h.Ctx) {
	return func(depth int) func(*h.Ctx) {
		return func(c *h.Ctx) {
			src := sources[srcs[c.Choose(len(srcs)):][:1]]
			b := gen(c, src, "p", alphabet, depth, false)
			want, werr := eval(src, b)
			if errorsOnly && werr == nil {
				c.Prune()
			}
			got, err := apply(c, src, b.text())
			c.State(want)
			if (err != nil) != (werr != nil) {
				c.Fail("error", "%s\non\n%s\nexpected error: %v, got: %v, result\n%s", b.text(), src, werr, err, got)
			}
			if err == nil && strip(got) != want {
				c.Fail("place", "%s\non\n%s\nexpected\n%s\ngot (without markers)\n%s\nwith markers\n%s", b.text(), src, want, strip(got), got)
			}
			if err != nil && got != "" {
				c.Fail("error", "a result and an error")
			}
		}
	}
}

// place2: two blocks; the second one sees what the first one made (C17)
func place2(srcs string, alphabet []cmd, d2 int) func(depth int) func(*h.Ctx) {
	return func(depth int) func(*h.Ctx) {
		return func(c *h.Ctx) {
			src := sources[srcs[c.Choose(len(srcs)):][:1]]
			b1 := gen(c, src, "p", alphabet, depth, true)
			t1, err := apply(c, src, b1.text())
			if err != nil {
				c.Prune() // c17.one
			}
			b2 := gen(c, t1, "q", alphabet, d2, false)
			want, werr := eval(t1, b2)
			got, err := apply(c, src, text([]block{b1, b2}))
			got2, err2 := apply(c, t1, b2.text())
			if (err != nil) != (werr != nil) || (err2 != nil) != (werr != nil) {
				c.Fail("error", "%s\non\n%s\nexpected error: %v, got: %v (in one file), %v (alone)\nresult\n%s", text([]block{b1, b2}), src, werr, err, err2, got)
			}
			if err != nil {
				return
			}
			if strip(got) != strip(want) || got2 != got {
				c.Fail("place", "%s\non\n%s\nexpected\n%s\ngot\n%s\nas two files\n%s", text([]block{b1, b2}), src, strip(want), got, got2)
			}
		}
	}
}

// idem: applying again, newer versions, removing (C15, C16)
func idem(srcs string, alphabet []cmd, nblocks int, mode string) func(depth int) func(*h.Ctx) {
	return func(depth int) func(*h.Ctx) {
		return func(c *h.Ctx) {
			src := sources[srcs[c.Choose(len(srcs)):][:1]]
			var bs []block
			t := src
			for i := 0; i < nblocks; i++ {
				// names that are prefixes of each other
				b := gen(c, t, []string{"p", "pq", "p q"}[i], alphabet, depth, true)
				bs = append(bs, b)
				var err error
				t, err = apply(c, src, text(bs))
				if err != nil {
					c.Prune()
				}
				// later patches are only applied to sources that parse
				if _, _, err := decls(t); err != nil && i < nblocks-1 {
					c.Prune()
				}
			}
			c.State(t)
			p := text(bs)
			if mode == "again" {
				for i := 0; i < 2; i++ {
					t2, err := apply(c, t, p)
					if err != nil || t2 != t {
						c.Fail("again", "applying\n%s\nto\n%s\nonce gives\n%s\nand again (error %v)\n%s", p, src, t, err, t2)
					}
				}
				return
			}
			if x := patch.CleanPatch(t); x != src {
				c.Fail("clean", "%s\napplied to\n%s\ngives\n%s\ncleaned\n%s", p, src, t, x)
			}
			none := ""
			for _, b := range bs {
				none += "<patch " + b.name + ">\n</patch>\n"
			}
			if x, err := apply(c, t, none); err != nil || x != src {
				c.Fail("clear", "%s\napplied to\n%s\ngives\n%s\nreplaced by empty patches (error %v)\n%s", p, src, t, err, x)
			}
			// a newer version of the patches
			if nblocks == 1 {
				nb := gen(c, src, "p", alphabet, 1+depth/2, true)
				fresh, err := apply(c, src, nb.text())
				if err == nil {
					x, err := apply(c, t, nb.text())
					if err != nil || x != fresh {
						c.Fail("newer", "%s\nreplaced by\n%s\non\n%s\ngives (error %v)\n%s\nexpected\n%s", p, nb.text(), src, err, x, fresh)
					}
				}
			}
		}
	}
}

// malformed: every truncation, and every single line dropped, doubled or
// damaged, of patch files (C18)
var files = []string{
	block{"p", []cmd{{"goto", "func f", ""}, {"match", "a()", ""}, {"insert_before", "<B>", ""}, {"newline", "", ""}}}.text(),
	block{"p", []cmd{{"find_for_replace", "b()", ""}, {"replace", "<R>", ""}}}.text() + "\n# comment\n\n" + block{"q", []cmd{{"copy_func", "f", "h"}}}.text(),
	block{"p", []cmd{{"replace_directive", "//go:linkname f b.f", "//x"}, {"goto", "struct g", ""}, {"goto", "field a", ""}, {"insert_before", "c int;", ""}}}.text(),
}

func malformed(depth int) func(*h.Ctx) {
	return func(c *h.Ctx) {
		f := files[c.Choose(len(files))]
		bad, how := "", ""
		switch c.Choose(7) {
		case 0:
			n := c.Choose(len(f) - 1)
			bad, how = f[:n], fmt.Sprintf("truncated to %d bytes", n)
			if x := strings.TrimSpace(bad); x == "" || strings.HasSuffix(x, "</patch>") || strings.Contains(x[strings.LastIndex(x, "\n")+1:], "#") {
				c.Prune() // whole patches and comments
			}
		case 1: // a line of another kind
			ls := strings.Split(strings.TrimSpace(f), "\n")
			i := 1 + c.Choose(len(ls)-2)
			junk := []string{"insert_front x", "goto", "goto type g", "insert_before", "insert_after", "insert_after_line", "replace", "match", "find_for_replace", "copy_func f", "copy_func f as", "replace_directive //a", "</patch>", "<patch r>", "<patch>"}
			ls[i] = junk[c.Choose(len(junk))]
			bad, how = strings.Join(ls, "\n"), "line replaced"
			if ls[i] == "<patch r>" || ls[i] == "</patch>" {
				if strings.Count(bad, "<patch") == strings.Count(bad, "</patch>") {
					c.Prune()
				}
			}
		case 2: // text outside
			k := c.Choose(3)
			x := []string{"goto func f", "insert_before x", "junk", "</patch>"}[c.Choose(4)]
			switch k {
			case 0:
				bad = x + "\n" + f
			case 1:
				bad = f + x + "\n"
			default:
				bad = f + x
			}
			how = "text outside"
		case 3: // names
			n := []string{"<patch>", "<patch >", "<patch a*/b>", "<patch a\nb>"}[c.Choose(4)]
			bad, how = strings.Replace(f, "<patch p>", n, 1), "bad name"
		case 4:
			bad, how = f+f, "twice the same name"
		case 5: // a selector that does not exist
			for _, x := range [][2]string{{"func f", "func ff"}, {"a()", "z()"}, {"b()", "z()"}, {"copy_func f", "copy_func ff"}, {"struct g", "struct gg"}, {"field a", "field aa"}, {"b.f with", "b.g with"}} {
				if strings.Contains(f, x[0]) && c.Bool() {
					bad, how = strings.Replace(f, x[0], x[1], 1), "missing "+x[1]
					break
				}
			}
			if bad == "" {
				c.Prune()
			}
		case 6: // the target does not parse
			dir, done := h.Scratch()
			defer done()
			pf, tf := filepath.Join(dir, "a.xgo.patch"), filepath.Join(dir, "a.go")
			h.Write(pf, f)
			broken := []string{s1[:len(s1)-2], "", "package", "x" + s1}[c.Choose(4)]
			h.Write(tf, broken)
			if patch.ApplyXgoPatchFile(pf, tf) == nil {
				c.Fail("error", "a target that does not parse is accepted: %q", broken)
			}
			if x, _ := os.ReadFile(tf); string(x) != broken {
				c.Fail("changed", "the target was changed although patching failed")
			}
			return
		}
		c.State(bad)
		dir, done := h.Scratch()
		defer done()
		pf, tf := filepath.Join(dir, "a.xgo.patch"), filepath.Join(dir, "a.go")
		h.Write(pf, bad)
		h.Write(tf, s1)
		c.Step()
		var err error
		if pe, p := h.Try(func() { err = patch.ApplyXgoPatchFile(pf, tf) }); p {
			c.Fail("panic", "%s:\n%s\npanics: %v", how, bad, pe)
		}
		x, _ := os.ReadFile(tf)
		if err == nil {
			c.Fail("error", "%s: accepted\n%s\nresult\n%s", how, bad, x)
		}
		if string(x) != s1 {
			c.Fail("changed", "%s: error %v, but the file was changed to\n%s", how, err, x)
		}
	}
}

func tree(dir string) string {
	var fs []string
	filepath.Walk(dir, func(p string, i os.FileInfo, err error) error {
		if err == nil && !i.IsDir() {
			x, _ := os.ReadFile(p)
			r, _ := filepath.Rel(dir, p)
			fs = append(fs, r+": "+string(x))
		}
		return nil
	})
	sort.Strings(fs)
	return strings.Join(fs, "\n---\n")
}

// dirs: whole patch directories applied to a goroot, again, and failing (C15, C18)
func dirs(depth int) func(*h.Ctx) {
	return func(c *h.Ctx) {
		d, done := h.Scratch()
		defer done()
		pd, gr, xr := d+"/p", d+"/g", d+"/x"
		want := map[string]string{}
		put := func(f, s string) { h.Write(gr+"/"+f, s); want[f] = s }
		put("src/a/a.go", s1)
		put("src/b.go", s2)
		put("src/keep.go", s3)
		h.Must(os.MkdirAll(pd, 0755))
		fail := ""
		b1 := block{"p", []cmd{{"goto", "func f", ""}, {"goto", "opening {", ""}, {"insert_after", "<A>", ""}}}
		exp := func(s string, b block) string { t, err := eval(s, b); h.Must(err); return t }
		if c.Bool() {
			h.Write(pd+"/src/a/a.go.xgo.patch", b1.text())
			want["src/a/a.go"] = exp(s1, b1)
		}
		switch c.Choose(4) {
		case 1:
			h.Write(pd+"/src/b.go.xgo.patch", b1.text())
			want["src/b.go"] = exp(s2, b1)
		case 2:
			h.Write(pd+"/src/b.go.xgo.patch", strings.Replace(b1.text(), "func f", "func ff", 1))
			fail = "selector"
		case 3:
			h.Write(pd+"/src/c/none.go.xgo.patch", b1.text())
			fail = "no target"
		}
		if c.Bool() {
			h.Write(pd+"/src/a/new.go", "package new\n")
			want["src/a/new.go"] = "package new\n"
		}
		if c.Bool() {
			h.Write(pd+"/src/n/m/new.go", "package m\n")
			want["src/n/m/new.go"] = "package m\n"
		}
		if c.Bool() {
			h.Write(pd+"/src/keep.go", "package over\n")
			want["src/keep.go"] = "package over\n"
		}
		switch c.Choose(5) {
		case 1, 2:
			h.Write(xr+"/lib/l.go", "package l\n")
			h.Write(xr+"/lib/sub/go.mod", "module l\n")
			want["src/cmd/lib/l.go"] = "package l\n"
			if c.Bool() {
				h.Write(pd+"/__config__.json", `{"version":"v","copy":[{"from":"lib","to":"src/cmd/lib"}]}`)
				want["src/cmd/lib/sub/go.mod"] = "module l\n"
			} else {
				h.Write(pd+"/__config__.json", `{"version":"v","copy":[{"from":"lib","to":"src/cmd/lib","ignore_files":["src/cmd/lib/sub/go.mod"]}]}`)
			}
		case 3:
			h.Write(pd+"/__config__.json", `{"version":"v","copy":[{"from":"lib","to":"src/cmd/lib"}]}`)
			fail = "nothing to copy"
		case 4:
			h.Write(pd+"/__config__.json", `{"version":"v","copy":[{`)
			fail = "bad config"
		}
		before := tree(pd) + tree(xr)
		var ws []string
		for f, s := range want {
			ws = append(ws, f+": "+s)
		}
		sort.Strings(ws)
		w := strings.Join(ws, "\n---\n")
		first := ""
		for i := 0; i < 2; i++ {
			c.Step()
			err := patch.ApplyPatches(pd, gr, xr, nil, nil, nil)
			got := tree(gr)
			if (err != nil) != (fail != "") {
				c.Fail("error", "run %d: expected failure %q, got %v", i+1, fail, err)
			}
			if fail == "" && strip(got) != w {
				c.Fail("tree", "run %d gives\n%s\nexpected\n%s", i+1, got, w)
			}
			if i == 1 && fail == "" && got != first {
				c.Fail("again", "the second run gives\n%s\ninstead of\n%s", got, first)
			}
			first = got
			if x := tree(pd) + tree(xr); x != before {
				c.Fail("source", "the patch directory changed")
			}
		}
		c.State(first)
	}
}

// parts is the whole of the update functions' state: per label where it is and its text.
type part struct {
	mark string
	at   int // offset in the original
	n    int // length of the replaced text
	t    string
}

func render(src string, ps []part) string {
	r, p := "", 0
	qs := append([]part(nil), ps...)
	sort.SliceStable(qs, func(i, j int) bool { return qs[i].at < qs[j].at })
	for _, q := range qs {
		r += src[p:q.at] + q.t
		p = q.at + q.n
	}
	return r + src[p:]
}

// updates: sequences of edits through the update functions, in memory and in a file (C15, C16, C17)
func updates(mode string) func(depth int) func(*h.Ctx) {
	return func(depth int) func(*h.Ctx) {
		return func(c *h.Ctx) {
			src := "package p\n\nimport (\n\t\"os\"\n)\n\nfunc f() {\n\tone()\n\ttwo()\n}\n"
			t := src
			var ps []part
			var err error
			n := 1 + c.Choose(depth)
			for i := 0; i < n; i++ {
				m := c.Choose(3)
				mark := []string{"m", "mm", "m m"}[m]
				bm, em := "/*<begin "+mark+">*/", "/*<end "+mark+">*/"
				txt := []string{"<X>", "<Y Y>"}[c.Choose(2)]
				k := c.Choose(7)
				seq := [][]string{{"func f", "{", "one()"}, {"two()"}, {"one()", "\n"}}[c.Choose(3)]
				anchor := len(seq) - 1
				if k < 3 && len(seq) == 3 && c.Bool() {
					anchor = 1
				}
				// where the anchor is in the original
				at, e := 0, 0
				for j := 0; j <= anchor; j++ {
					at = e + strings.Index(src[e:], seq[j])
					e = at + len(seq[j])
				}
				np := part{mark: mark, t: txt}
				switch k {
				case 0, 3: // after
					np.at = e
				case 1, 4:
					np.at = at
					if k == 4 {
						np.at = strings.Index(src, seq[0])
					}
				case 2:
					np.at, np.n = at, e-at
				case 5:
					np.at = strings.Index(src, " p") + 2
					np.t = `;import x "y"`
					if txt != "<X>" {
						np.t = `;import "y"`
					}
				case 6:
					np.at = e
					tgt := strings.Index(src[e:], "}")
					np.at, np.n = e+tgt, 1
				}
				have := -1
				for j := range ps {
					if ps[j].mark == mark {
						have = j
					}
				}
				if have < 0 {
					// anchors that others replaced are gone
					for _, q := range ps {
						lo, hi := np.at, np.at+np.n
						if q.n > 0 && lo < q.at+q.n && q.at < hi || q.n > 0 && q.at < lo && lo < q.at+q.n || np.n > 0 && lo < q.at && q.at < hi {
							c.Prune()
						}
						if q.at == np.at && (q.n > 0 || np.n > 0) || q.n > 0 || np.n > 0 && q.at == np.at+np.n {
							c.Prune()
						}
						if q.at == np.at {
							c.Prune() // order among labels is not defined
						}
					}
				} else {
					// an update keeps the place; it cannot turn an insertion into something else
					if ps[have].at != np.at || ps[have].n != np.n {
						c.Prune()
					}
				}
				do := func(s string) string {
					switch k {
					case 0:
						return patch.UpdateContent(s, bm, em, seq, anchor, patch.UpdatePosition_After, txt)
					case 1:
						return patch.UpdateContentLines(s, bm, em, seq, anchor, patch.UpdatePosition_Before, txt)
					case 2:
						return patch.UpdateContent(s, bm, em, seq, anchor, patch.UpdatePosition_Replace, txt)
					case 3:
						return patch.AddContentAfter(s, bm, em, seq, txt)
					case 4:
						return patch.AddContentBefore(s, bm, em, seq[:1], txt)
					case 5:
						if txt != "<X>" {
							return patch.AddImportAfterName(s, bm, em, "", "y")
						}
						return patch.AddImportAfterName(s, bm, em, "x", "y")
					default:
						return patch.ReplaceContentAfter(s, bm, em, seq, "}", txt)
					}
				}
				c.Logf("%s kind %d seq %q anchor %d text %q", mark, k, seq, anchor, txt)
				before := t
				pe, bad := h.Try(func() { t = do(t) })
				c.Step()
				if bad {
					c.Fail("panic", "on\n%s\npanics: %v", before, pe)
				}
				if have < 0 {
					ps = append(ps, np)
				} else {
					ps[have].t = np.t
				}
				want := render(src, ps)
				c.State(want)
				if mode == "place" || mode == "all" {
					if strip(t) != want {
						c.Fail("place", "expected\n%s\ngot\n%s", want, t)
					}
				}
				if mode == "again" {
					var t2 string
					if pe, bad := h.Try(func() { t2 = do(t) }); bad || t2 != t {
						c.Fail("again", "once\n%s\nagain\n%s (panic %v)", t, t2, pe)
					}
				}
				if mode == "clean" {
					if x := patch.CleanPatch(t); x != src {
						c.Fail("clean", "original\n%s\nedited\n%s\ncleaned\n%s", src, t, x)
					}
				}
				_ = err
			}
		}
	}
}

// clean: texts with markers written by hand: everything outside stays (C16)
func clean(depth int) func(*h.Ctx) {
	words := []string{"/*<begin a>*/", "/*<end a>*/", "/*<begin ab>*/", "/*<end ab>*/", "/*old:o*/", "x", "\n", "/*c*/"}
	return func(c *h.Ctx) {
		var ws []string
		n := c.Choose(depth + 1)
		for i := 0; i < n; i++ {
			ws = append(ws, words[c.Choose(len(words))])
		}
		s := strings.Join(ws, "")
		// reference over words: a begin with its end is dropped with all between, restoring what it records
		want := ""
		for i := 0; i < len(ws); i++ {
			w := ws[i]
			if strings.HasPrefix(w, "/*<begin") {
				e := strings.Replace(w, "begin", "end", 1)
				j := i + 1
				for j < len(ws) && ws[j] != e {
					j++
				}
				if j == len(ws) {
					// not a patch: nothing is known about the rest
					want += strings.Join(ws[i:], "")
					break
				}
				if ws[i+1] == "/*old:o*/" {
					want += "o"
				}
				i = j
				continue
			}
			want += w
		}
		c.Step()
		c.State(want)
		if got := patch.CleanPatch(s); got != want {
			c.Fail("clean", "%q cleaned is %q, expected %q", s, got, want)
		}
	}
}

// parseFile reads a shipped patch file into commands.
func parseFile(p string) (bs []block) {
	for _, part := range strings.Split(p, "</patch>") {
		i := strings.Index(part, "<patch")
		if i < 0 {
			continue
		}
		ls := strings.Split(part[i:], "\n")
		b := block{name: strings.TrimSpace(strings.Trim(strings.TrimSpace(ls[0]), "<>")[len("patch"):])}
		for _, l := range ls[1:] {
			l = strings.TrimRight(l, " \t\r")
			if l == "" || l[0] == '#' {
				continue
			}
			l = strings.TrimLeft(l, " \t")
			w := strings.SplitN(l, " ", 2)
			c := cmd{op: w[0]}
			if len(w) > 1 {
				c.a = w[1]
			}
			if c.op == "copy_func" {
				x := strings.SplitN(strings.TrimSuffix(c.a, " append to file end"), " as ", 2)
				c.a, c.b = x[0], x[1]
			} else if c.op == "replace_directive" {
				x := strings.SplitN(c.a, " with ", 2)
				c.a, c.b = x[0], x[1]
			} else if c.op == "goto" {
				c.a = strings.TrimSpace(c.a)
			}
			b.cmds = append(b.cmds, c)
		}
		bs = append(bs, b)
	}
	return
}

// shipped: the patch files of every supported Go version, on its sources
func shipped(mode string) func(depth int) func(*h.Ctx) {
	type pf struct{ name, src, p string }
	var all []pf
	ps, _ := filepath.Glob(os.Getenv("VP_REPO") + "/patches/go1.*")
	for _, d := range ps {
		roots, _ := filepath.Glob("/opt/veriftools/" + filepath.Base(d) + ".*")
		if len(roots) == 0 {
			continue
		}
		filepath.Walk(d, func(p string, i os.FileInfo, err error) error {
			if err == nil && strings.HasSuffix(p, ".xgo.patch") {
				r, _ := filepath.Rel(d, strings.TrimSuffix(p, ".xgo.patch"))
				s, err := os.ReadFile(filepath.Join(roots[0], r))
				x, _ := os.ReadFile(p)
				if err == nil {
					all = append(all, pf{p, string(s), string(x)})
				}
			}
			return nil
		})
	}
	return func(depth int) func(*h.Ctx) {
		return func(c *h.Ctx) {
			f := all[c.Choose(len(all))]
			c.Logf("%s", f.name)
			t, err := apply(c, f.src, f.p)
			if err != nil {
				c.Fail("error", "%s: %v", f.name, err)
			}
			c.State(t)
			switch mode {
			case "again":
				if t2, err := apply(c, t, f.p); err != nil || t2 != t {
					c.Fail("again", "%s applied again (error %v) gives another text", f.name, err)
				}
			case "clean":
				if patch.CleanPatch(t) != f.src {
					c.Fail("clean", "%s cannot be removed", f.name)
				}
			case "place":
				x := f.src
				for _, b := range parseFile(f.p) {
					w, werr := eval(x, b)
					y, err := apply(c, x, b.text())
					if werr != nil || err != nil || strip(y) != strip(w) {
						c.Fail("place", "%s: patch %s is not put where it says (%v, %v)", f.name, b.name, werr, err)
					}
					x = y
				}
				if x != t {
					c.Fail("place", "%s: the patches alone and together differ", f.name)
				}
			}
		}
	}
}

func init() {
	h.Add("c17.shipped", shipped("place"))
	h.Add("c15.shipped", shipped("again"))
	h.Add("c16.shipped", shipped("clean"))
	h.Add("c17.one", place("1", cat(positions, edits), false))
	h.Add("c17.wide", place("123", wide, false))
	h.Add("c17.small", place("23", medium, false))
	h.Add("c17.two", place2("123", medium, 2))
	h.Add("c17.upd", updates("place"))
	h.Add("c15.one", idem("123", medium, 1, "again"))
	h.Add("c15.wide", idem("123", wide, 1, "again"))
	h.Add("c15.two", idem("13", medium, 2, "again"))
	h.Add("c15.upd", updates("again"))
	h.Add("c15.dirs", dirs)
	h.Add("c16.one", idem("123", medium, 1, "clean"))
	h.Add("c16.wide", idem("123", wide, 1, "clean"))
	h.Add("c16.two", idem("13", medium, 2, "clean"))
	h.Add("c16.upd", updates("clean"))
	h.Add("c16.hand", clean)
	h.Add("c18.err", place("123", wide, true))
	h.Add("c18.bad", malformed)
	h.Add("c18.dirs", dirs)
}

func main() { h.Main(os.Args[1:]) }
