package main

import (
	"fmt"
	"go/scanner"
	"go/token"
	"os"
	"path/filepath"
	"strings"

	"github.com/xhd2015/xgo/cmd/xgo/verifh/h"
	"github.com/xhd2015/xgo/instrument/overlay"
)

type A = overlay.AbsFile

// what a file is, by its true path
type ent struct {
	content bool
	text    string
	target  string // true path; "" when deleted
}

// world: real/{a,b}.go, n.go does not exist; link -> real; every file has
// several spellings
type world struct {
	dir   string
	names []string
	disk  map[string]string // true path -> content
}

func newWorld(dirname string, names []string) (*world, func()) {
	d, rm := h.Scratch()
	w := &world{dir: d, names: names, disk: map[string]string{}}
	h.Must(os.MkdirAll(filepath.Join(d, dirname), 0755))
	h.Must(os.Symlink(filepath.Join(d, dirname), filepath.Join(d, "link")))
	w.dir = d
	for _, n := range names {
		if n == "n.go" {
			continue
		}
		p := filepath.Join(d, dirname, n)
		w.disk[p] = "disk " + n
		h.Write(p, w.disk[p])
	}
	return w, rm
}

func (w *world) true_(dirname, n string) string { return filepath.Join(w.dir, dirname, n) }

func (w *world) spell(dirname, n string, k int) A {
	switch k {
	case 0:
		return A(filepath.Join(w.dir, dirname, n))
	case 1:
		return A(filepath.Join(w.dir, "link", n))
	}
	return A(w.dir + "/" + dirname + "/../" + dirname + "//./" + n)
}

func (w *world) canon(p string) string {
	d, f := filepath.Split(filepath.Clean(p))
	if filepath.Base(d) == "link" {
		for k := range w.disk {
			return filepath.Join(filepath.Dir(k), f)
		}
	}
	return filepath.Clean(p)
}

func (w *world) checkDisk(c *h.Ctx) {
	n := 0
	filepath.Walk(w.dir, func(p string, i os.FileInfo, err error) error {
		if err != nil || i.IsDir() || strings.Contains(p, "/gen") || i.Mode()&os.ModeSymlink != 0 {
			return nil
		}
		n++
		b, _ := os.ReadFile(p)
		if w.disk[p] != string(b) {
			c.Fail("disk", "%s on disk changed to %q", p, b)
		}
		return nil
	})
	if n != len(w.disk) {
		c.Fail("disk", "%d files on disk, want %d", n, len(w.disk))
	}
}

func ops(dirname string, names []string, spellings int) func(int) func(*h.Ctx) {
	return func(depth int) func(*h.Ctx) {
		return func(c *h.Ctx) {
			w, rm := newWorld(dirname, names)
			defer rm()
			fs := overlay.MakeOverlay()
			m := map[string]ent{}
			used := map[string]map[string]bool{} // literal spellings by which content was given
			k := c.Choose(depth + 1)
			for i := 0; i < k; i++ {
				n := names[c.Choose(len(names))]
				sp := c.Choose(spellings)
				if n == "n.go" && sp == 1 {
					// a file that does not exist has its literal name only
					c.Prune()
				}
				p := w.spell(dirname, n, sp)
				t := w.true_(dirname, n)
				c.Step()
				switch op := c.Choose(2 + len(names)); {
				case op == 0:
					text := fmt.Sprintf("content %d", i)
					c.Logf("OverrideContent(%s#%d, %q)", n, sp, text)
					fs.OverrideContent(p, text)
					m[t] = ent{content: true, text: text}
					if used[t] == nil {
						used[t] = map[string]bool{}
					}
					used[t][filepath.Clean(string(p))] = true
				case op == 1:
					c.Logf("OverrideFile(%s#%d, delete)", n, sp)
					fs.OverrideFile(p, "")
					m[t] = ent{}
					delete(used, t)
				default:
					tn := names[op-2]
					tsp := c.Choose(spellings)
					if tn == "n.go" && tsp == 1 {
						c.Prune()
					}
					c.Logf("OverrideFile(%s#%d, %s#%d)", n, sp, tn, tsp)
					fs.OverrideFile(p, w.spell(dirname, tn, tsp))
					m[t] = ent{target: w.true_(dirname, tn)}
					delete(used, t)
				}
			}
			if c.Bool() {
				// the disk is not cached
				p := w.true_(dirname, names[0])
				w.disk[p] = "changed on disk"
				h.Write(p, w.disk[p])
				c.Logf("write %s", names[0])
			}
			c.State(strings.ReplaceAll(fmt.Sprint(m), w.dir, ""))
			read := func(t string) (string, bool, bool) {
				e, ok := m[t]
				if ok && e.content {
					return e.text, true, true
				}
				if ok {
					t = e.target
				}
				s, ex := w.disk[t]
				return s, ex, false
			}
			for _, n := range names {
				want, exists, hit := read(w.true_(dirname, n))
				for sp := 0; sp < spellings; sp++ {
					if n == "n.go" && sp == 1 {
						continue
					}
					p := w.spell(dirname, n, sp)
					h1, s, err := fs.Read(p)
					h2, b, err2 := fs.ReadBytes(p)
					sz, err3 := fs.Size(p)
					if exists != (err == nil) || exists != (err2 == nil) || exists != (err3 == nil) {
						c.Fail("exists", "%s#%d exists=%v but Read %v ReadBytes %v Size %v", n, sp, exists, err, err2, err3)
					}
					if !exists {
						if !os.IsNotExist(err) || !os.IsNotExist(err2) || !os.IsNotExist(err3) {
							c.Fail("exists", "%s#%d does not exist but %v %v %v", n, sp, err, err2, err3)
						}
						continue
					}
					if s != want || string(b) != want || sz != int64(len(want)) || h1 != hit || h2 != hit {
						c.Fail("read", "%s#%d: Read %v %q, ReadBytes %v %q, Size %d; want %v %q", n, sp, h1, s, h2, b, sz, hit, want)
					}
					_, has := m[w.true_(dirname, n)]
					if (fs.Get(p) != nil) != has {
						c.Fail("get", "Get(%s#%d) = %v, overridden %v", n, sp, fs.Get(p), has)
					}
				}
			}
			w.checkDisk(c)

			// what the go command sees
			noLine := c.Bool()
			var maps []overlay.PathMapping
			if c.Bool() {
				maps = []overlay.PathMapping{{From: w.dir, To: "PROJECT"}}
			}
			gen := filepath.Join(w.dir, "gen")
			cyc := false
			for _, n := range names {
				seen := map[string]bool{}
				for t := w.true_(dirname, n); ; {
					if seen[t] {
						cyc = true
						break
					}
					seen[t] = true
					e, ok := m[t]
					if !ok || e.content || e.target == "" {
						break
					}
					t = e.target
				}
			}
			g, err := fs.MakeGoOverlay(gen, overlay.Options{NoLineDirective: noLine, PathMappings: maps})
			if err != nil {
				c.Fail("make", "%v", err)
			}
			opts := overlay.PathOptions{BaseDir: w.dir}
			o, err := overlay.ComposeGoOverlays(nil, g, opts)
			if cyc != (err != nil) {
				c.Fail("cycle", "cycle=%v, error %v", cyc, err)
			}
			w.checkDisk(c)
			if cyc {
				return
			}
			f := filepath.Join(w.dir, "gen.json")
			h.Must(o.Write(f))
			o, err = overlay.ReadGoOverlay(f)
			h.Must(err)
			h.Must(os.Remove(f))
			for _, n := range names {
				t := w.true_(dirname, n)
				e, over := m[t]
				for over && !e.content && e.target != "" {
					t = e.target
					e, over = m[t]
				}
				want, exists := w.disk[t]
				if over {
					want, exists = e.text, e.content
				}
				lits := map[string]bool{w.true_(dirname, n): true}
				for p := range used[w.true_(dirname, n)] {
					lits[p] = true
				}
				for lit := range lits {
					got, err := goSees(o, lit)
					if exists != (err == nil) {
						c.Fail("go-exists", "%s exists=%v, through the overlay file: %v", n, exists, err)
					}
					if !exists {
						continue
					}
					if over && e.content && !noLine {
						i := strings.IndexByte(got, '\n')
						if i < 0 || !strings.HasPrefix(got, "//line ") {
							c.Fail("line", "%s: no line directive in %q", n, got)
						}
						fset := token.NewFileSet()
						tf := fset.AddFile("gen.go", -1, len(got))
						var sc scanner.Scanner
						sc.Init(tf, []byte(got), nil, 0)
						pos, _, _ := sc.Scan()
						pp := fset.Position(pos)
						if w.canon(pp.Filename) != t || pp.Line != 1 {
							c.Fail("line", "%s: the code is at %s:%d", n, pp.Filename, pp.Line)
						}
						got = got[i+1:]
					}
					if got != want {
						c.Fail("go-read", "%s (%s): the go command sees %q, want %q", n, lit, got, want)
					}
				}
			}
			for k := range o.Replace {
				if _, ok := m[w.canon(string(k))]; !ok {
					c.Fail("extra", "the overlay file replaces %s, which nothing overrides", k)
				}
			}
		}
	}
}

// goSees reads as the go command does: literal path, one level.
func goSees(o *overlay.GoOverlay, p string) (string, error) {
	if t, ok := o.Replace[A(p)]; ok {
		if t == "" {
			return "", os.ErrNotExist
		}
		p = string(t)
	}
	b, err := os.ReadFile(p)
	return string(b), err
}

// compose: every pair of a caller's and a generated mapping of few files
func compose(nfiles int) func(int) func(*h.Ctx) {
	return func(depth int) func(*h.Ctx) {
		return func(c *h.Ctx) {
			base := "/no/such"
			name := func(i int) string { return string(rune('A'+i)) + ".go" }
			// 0: absent, 1: deleted, 2..: target
			gen := func(what string, targets, maxN int) (overlay.Replace, map[string]string) {
				r, m := overlay.Replace{}, map[string]string{}
				n := 0
				for i := 0; i < nfiles; i++ {
					x := c.Choose(targets + 2)
					if x == 0 {
						continue
					}
					if n++; n > maxN {
						c.Prune()
					}
					var t string
					if x >= 2 {
						t = name(x - 2)
					}
					k := name(i)
					// keys and targets are spelled in several ways
					sp := (i + x) % 3
					switch sp {
					case 0:
						k = base + "/" + k
					case 1:
						k = "./" + k
					}
					if t != "" {
						switch (i + 2*x) % 3 {
						case 0:
							t = base + "/x/../" + t
						case 1:
							t = "x/../" + t
						}
					}
					r[A(k)] = A(t)
					if t != "" {
						t = base + "/" + filepath.Base(t)
					}
					m[base+"/"+name(i)] = t
				}
				c.Logf("%s %v", what, r)
				return r, m
			}
			cr, cm := gen("caller", nfiles+1, depth)
			gr, gm := gen("generated", nfiles+1, depth)
			opts := overlay.PathOptions{BaseDir: base}
			c.Step()
			var caller *overlay.ParsedOverlay
			if len(cr) > 0 || c.Bool() {
				caller = overlay.ParseGoOverlay(&overlay.GoOverlay{Replace: cr}, opts)
			}
			before := fmt.Sprint(cr, gr)
			got, err := overlay.ComposeGoOverlays(caller, &overlay.GoOverlay{Replace: gr}, opts)
			if fmt.Sprint(cr, gr) != before {
				c.Fail("input", "the inputs were changed")
			}
			all := map[string]string{}
			for k, v := range cm {
				all[k] = v
			}
			for k, v := range gm {
				all[k] = v
			}
			c.State(fmt.Sprint(all))
			want := map[string]string{}
			cyc := false
			for k := range all {
				t, n := k, 0
				for {
					nx, ok := all[t]
					if !ok {
						break
					}
					t = nx
					if n++; n > len(all) {
						cyc = true
						break
					}
					if t == "" {
						break
					}
				}
				want[k] = t
			}
			if cyc != (err != nil) {
				c.Fail("cycle", "cycle=%v, error %v", cyc, err)
			}
			if cyc {
				return
			}
			caller.ProjectOntoCallerSources(got)
			if len(got.Replace) != len(want) {
				c.Fail("compose", "got %v want %v", got.Replace, want)
			}
			for k, v := range want {
				if g, ok := got.Replace[A(k)]; !ok || string(g) != v {
					c.Fail("compose", "%s -> %q, want %q", k, g, v)
				}
			}
		}
	}
}

// alias: a caller's overlay names a file through links; both xgo's own view
// and the composed overlay file agree on one replacement, the canonical
// spelling winning
func alias(depth int) func(*h.Ctx) {
	return func(c *h.Ctx) {
		w, rm := newWorld("real", []string{"a.go", "b.go", "r0.go", "r1.go", "r2.go"})
		defer rm()
		r := overlay.Replace{}
		rel := c.Bool()
		var last string
		for sp := 0; sp < 3; sp++ {
			x := c.Choose(3)
			if x == 0 {
				continue
			}
			p := w.spell("real", "a.go", sp)
			t := w.spell("real", fmt.Sprintf("r%d.go", sp), c.Choose(2))
			if rel {
				p = A(strings.TrimPrefix(string(p), w.dir+"/"))
				t = A(strings.TrimPrefix(string(t), w.dir+"/"))
			}
			if x == 2 {
				t = ""
			}
			r[p] = t
			last = string(t)
			c.Logf("%s -> %s", p, t)
		}
		c.Step()
		c.State(strings.ReplaceAll(fmt.Sprint(r), w.dir, ""))
		opts := overlay.PathOptions{BaseDir: w.dir}
		var first string
		// maps are iterated in random order: the outcome must not be
		for rep := 0; rep < 6; rep++ {
			po := overlay.ParseGoOverlay(&overlay.GoOverlay{Replace: r}, opts)
			fs := overlay.MakeOverlay()
			po.ApplyFileRedirects(fs)
			_, mem, merr := fs.Read(w.spell("real", "a.go", 0))
			inst := c.Bool() && rep == 0
			if inst {
				fs.OverrideContent(w.spell("real", "a.go", c.Choose(2)), "instrumented "+mem)
			}
			g, err := fs.MakeGoOverlay(filepath.Join(w.dir, "gen"), overlay.Options{NoLineDirective: true})
			h.Must(err)
			o, err := overlay.ComposeGoOverlays(po, g, opts)
			h.Must(err)
			po.ProjectOntoCallerSources(o)
			d := fmt.Sprint(mem, merr != nil)
			if rep == 0 {
				first = d
			} else if d != first {
				c.Fail("random", "the same overlay reads %q and %q", first, d)
			}
			if _, ok := r[w.spell("real", "a.go", 0)]; ok && !rel {
				want := ""
				if t := r[w.spell("real", "a.go", 0)]; t != "" {
					want = w.disk[w.canon(string(t))]
				}
				if (want == "") != (merr != nil) || want != mem {
					c.Fail("prefer", "the canonical spelling says %q, read %q (%v)", want, mem, merr)
				}
			} else if len(r) == 1 {
				want := ""
				if last != "" {
					t := last
					if rel {
						t = w.dir + "/" + t
					}
					want = w.disk[w.canon(t)]
				}
				if (want == "") != (merr != nil) || want != mem {
					c.Fail("redirect", "redirected to %q, read %q (%v)", want, mem, merr)
				}
			} else if len(r) == 0 && mem != w.disk[w.true_("real", "a.go")] {
				c.Fail("none", "read %q", mem)
			}
			// every spelling of the caller, as resolved by go
			want := mem
			if inst {
				want = "instrumented " + mem
			}
			for p := range r {
				lit := string(p)
				if !filepath.IsAbs(lit) {
					lit = filepath.Join(w.dir, lit)
				}
				got, gerr := goSees(o, filepath.Clean(lit))
				if (gerr != nil) != (merr != nil && !inst) || got != want {
					c.Fail("go-alias", "the go command reads %q (%v) from %s, xgo %q", got, gerr, lit, want)
				}
			}
		}
		os.RemoveAll(filepath.Join(w.dir, "gen"))
		w.checkDisk(c)
	}
}

func main() {
	h.Add("c14.ops", ops("real", []string{"a.go", "b.go", "n.go"}, 3))
	h.Add("c14.two", ops("re al", []string{"a.go", "b.go"}, 2))
	h.Add("c14.odd", ops("ré:1", []string{"a.go", "b:2.go"}, 1))
	h.Add("c14.compose", compose(3))
	h.Add("c14.compose4", compose(4))
	h.Add("c14.alias", alias)
	h.Main(os.Args[1:])
}
