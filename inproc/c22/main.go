package main

import (
	"errors"
	"fmt"
	"io/fs"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"syscall"

	"github.com/xhd2015/xgo/cmd/xgo/verifh/h"
	"github.com/xhd2015/xgo/support/filecopy"
	"github.com/xhd2015/xgo/support/fileutil"
)

// entry of a tree: 'f' file, 'd' directory, 'l' link
type entry struct {
	kind byte
	data string
}

type tree map[string]entry

func (t tree) String() string {
	var ks []string
	for k := range t {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	var out []string
	for _, k := range ks {
		e := t[k]
		out = append(out, fmt.Sprintf("%s %c %q", k, e.kind, e.data))
	}
	return strings.Join(out, ", ")
}

func (t tree) build(root string) {
	h.Must(os.MkdirAll(root, 0755))
	var ks []string
	for k := range t {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		p := filepath.Join(root, k)
		e := t[k]
		switch e.kind {
		case 'd':
			h.Must(os.MkdirAll(p, 0755))
		case 'f':
			h.Must(os.MkdirAll(filepath.Dir(p), 0755))
			h.Must(os.WriteFile(p, []byte(e.data), 0644))
		case 'l':
			h.Must(os.MkdirAll(filepath.Dir(p), 0755))
			h.Must(os.Symlink(e.data, p))
		}
	}
}

// snap reads a tree; nil when the root does not exist
func snap(root string) tree {
	st, err := os.Lstat(root)
	if err != nil {
		return nil
	}
	t := tree{}
	if !st.IsDir() {
		t[""] = entry{'?', st.Mode().String()}
		return t
	}
	var walk func(dir, rel string)
	walk = func(dir, rel string) {
		es, err := os.ReadDir(dir)
		h.Must(err)
		for _, e := range es {
			p := filepath.Join(dir, e.Name())
			r := filepath.Join(rel, e.Name())
			switch {
			case e.IsDir():
				t[r] = entry{'d', ""}
				walk(p, r)
			case e.Type()&fs.ModeSymlink != 0:
				l, err := os.Readlink(p)
				h.Must(err)
				t[r] = entry{'l', l}
			default:
				b, err := os.ReadFile(p)
				h.Must(err)
				t[r] = entry{'f', string(b)}
			}
		}
	}
	walk(root, "")
	return t
}

func (t tree) clone() tree {
	o := tree{}
	for k, v := range t {
		o[k] = v
	}
	return o
}

type filter struct {
	ignore, ignoreSuf, includeSuf []string
}

func (f filter) keeps(p string, e entry) bool {
	parts := strings.Split(p, "/")
	for i := range parts {
		sub := strings.Join(parts[:i+1], "/")
		for _, x := range f.ignore {
			if x == sub {
				return false
			}
		}
	}
	if e.kind == 'd' {
		return true
	}
	if len(f.includeSuf) > 0 {
		any := false
		for _, s := range f.includeSuf {
			any = any || strings.HasSuffix(p, s)
		}
		if !any {
			return false
		}
	}
	for _, s := range f.ignoreSuf {
		if strings.HasSuffix(p, s) {
			return false
		}
	}
	return true
}

func (f filter) String() string {
	return fmt.Sprintf("ignore=%v ignoreSuffix=%v includeSuffix=%v", f.ignore, f.ignoreSuf, f.includeSuf)
}

var filters = []filter{
	{}, {ignore: []string{"a.go"}}, {ignore: []string{"d"}}, {ignore: []string{"d/a.go", "b.txt"}}, {ignore: []string{"a", "d/", "e", "x/d"}},
	{includeSuf: []string{".go"}}, {ignoreSuf: []string{".txt", "zz"}}, {ignore: []string{"d/e"}, includeSuf: []string{".txt", "a.go"}, ignoreSuf: []string{"b.txt"}},
}

// want is what the destination must be after copying src over dst (nil, false
// when the copy cannot succeed)
func want(src, dst tree, f filter, replace, link bool, abs string) (tree, bool) {
	out := tree{}
	if !replace {
		out = dst.clone()
	}
	var ks []string
	for k := range src {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		e := src[k]
		if !f.keeps(k, e) {
			continue
		}
		old, exists := out[k]
		if link && e.kind != 'd' {
			e = entry{'l', filepath.Join(abs, k)}
		}
		if exists {
			switch {
			case e.kind == 'd' && old.kind != 'd', e.kind != 'd' && old.kind == 'd':
				return nil, false
			}
		}
		out[k] = e
	}
	return out, true
}

type how struct {
	f       filter
	replace bool
	link    bool
	conc    int
	plain   bool // by the package functions where there is one
}

func (x how) run(src, dst string) (err error) {
	if pe, p := h.Try(func() {
		if x.plain {
			if x.replace {
				err = filecopy.CopyReplaceDir(src, dst, x.link)
			} else if x.link {
				err = filecopy.LinkFiles(src, dst)
			} else {
				err = filecopy.Copy(src, dst)
			}
			return
		}
		o := filecopy.NewOptions().Ignore(x.f.ignore...).IgnoreSuffix(x.f.ignoreSuf...).IncludeSuffix(x.f.includeSuf...).Concurrent(x.conc)
		if x.link {
			o = o.UseLink()
		}
		if x.replace {
			err = o.CopyReplaceDir(src, dst)
		} else {
			err = o.Copy(src, dst)
		}
	}); p {
		panic(fmt.Sprintf("copy panics: %v", pe))
	}
	return err
}

func (x how) String() string {
	return fmt.Sprintf("replace=%v link=%v concurrent=%d %v", x.replace, x.link, x.conc, x.f)
}

// unlock makes everything removable again
func unlock(root string) {
	filepath.Walk(root, func(p string, info fs.FileInfo, err error) error {
		if info != nil && info.IsDir() {
			os.Chmod(p, 0755)
		}
		return nil
	})
}

func scratch() (string, func()) {
	d, rm := h.Scratch()
	return d, func() { unlock(d); unlock(d); rm() }
}

func execBits(src, dst string, t tree) string {
	for k, e := range t {
		if e.kind != 'f' {
			continue
		}
		a, err1 := os.Stat(filepath.Join(src, k))
		b, err2 := os.Stat(filepath.Join(dst, k))
		if err1 == nil && err2 == nil && a.Mode()&0700&^b.Mode() != 0 {
			return k
		}
	}
	return ""
}

// copies of every small tree
func trees(depth int) func(c *h.Ctx) {
	return func(c *h.Ctx) {
		root, rm := scratch()
		defer rm()
		src := tree{}
		put := func(p string, es ...entry) entry {
			k := c.Choose(len(es) + 1)
			if k == 0 {
				return entry{}
			}
			src[p] = es[k-1]
			return es[k-1]
		}
		other := filepath.Join(root, "other")
		h.Must(os.MkdirAll(other, 0755))
		h.Write(filepath.Join(other, "o.go"), "other")
		big := strings.Repeat("x", 70000)
		put("a.go", entry{'f', ""}, entry{'f', big}, entry{'l', "b.txt"}, entry{'l', other}, entry{'l', "nowhere"})
		put("b.txt", entry{'f', "b\n"})
		if put("d", entry{'d', ""}, entry{'l', "."}, entry{'f', "dd"}).kind == 'd' {
			put("d/a.go", entry{'f', "da"}, entry{'l', "../b.txt"})
			if put("d/e", entry{'d', ""}).kind == 'd' {
				put("d/e/c.txt", entry{'f', "c"})
			}
		}
		x := how{f: filters[c.Choose(len(filters))], replace: c.Bool(), link: c.Bool(), conc: []int{0, 3}[c.Choose(2)]}
		if x.f.ignore == nil && x.f.ignoreSuf == nil && x.f.includeSuf == nil {
			x.plain = c.Bool()
		}
		from := filepath.Join(root, "src")
		src.build(from)
		spell := 0
		if depth > 1 || (x.conc == 0 && x.f.ignore == nil && x.f.ignoreSuf == nil && x.f.includeSuf == nil) {
			spell = c.Choose(5)
		}
		arg := from
		switch spell {
		case 1:
			arg = from + "/"
		case 2: // a relative link
			arg = filepath.Join(root, "lnk")
			h.Must(os.Symlink("src", arg))
		case 3: // a chain of links, in another directory
			h.Must(os.Symlink("../src", filepath.Join(other, "l1")))
			arg = filepath.Join(root, "lnk")
			h.Must(os.Symlink("other/l1", arg))
		case 4:
			wd, _ := os.Getwd()
			r, err := filepath.Rel(wd, from)
			h.Must(err)
			arg = r
		}
		to := filepath.Join(root, "new/parent/dst")
		c.Logf("%v | %v spelling %d", src, x, spell)
		c.State(fmt.Sprint(strings.ReplaceAll(src.String(), root, ""), x, spell))
		before := snap(from)
		for i := 0; i < 2; i++ {
			c.Step()
			err := x.run(arg, to)
			if i == 1 && x.link && !x.replace {
				// linking over links: an error, or the same
				if err != nil {
					break
				}
			}
			if err != nil {
				c.Fail("copy-error", "copy %d fails: %v", i+1, err)
			}
			w, _ := want(src, tree{}, x.f, true, x.link, from)
			if got := snap(to); got.String() != w.String() {
				c.Fail("copy", "copy %d gives %v, expected %v", i+1, got, w)
			}
			if k := execBits(from, to, w); k != "" && !x.link {
				c.Fail("copy-mode", "%s lost permissions", k)
			}
			if got := snap(from); got.String() != before.String() {
				c.Fail("source", "the source became %v", got)
			}
		}
		if got := snap(other); len(got) > 2 || got["o.go"].data != "other" {
			c.Fail("outside", "a directory beside became %v", got)
		}
	}
}

// states: copies over every kind of existing destination
func states(depth int) func(c *h.Ctx) {
	return func(c *h.Ctx) {
		root, rm := scratch()
		defer rm()
		from, to := filepath.Join(root, "src"), filepath.Join(root, "dst")
		src := tree{"a.go": {'f', "aa"}, "d": {'d', ""}, "d/a.go": {'f', "dada"}, "d/l": {'l', "a.go"}}
		src.build(from)
		out := filepath.Join(root, "out")
		h.Write(out, "out")
		dst := tree{}
		for _, p := range []string{"a.go", "d/a.go", "d/l"} {
			e := src[p]
			switch c.Choose(7) {
			case 0:
			case 1:
				dst[p] = e
			case 2:
				dst[p] = entry{'f', "something longer"}
			case 3:
				dst[p] = entry{'l', filepath.Join(from, p)}
			case 4:
				dst[p] = entry{'l', out}
			case 5:
				dst[p] = entry{'l', filepath.Join(root, "dangling")}
			case 6:
				dst[p] = entry{'d', ""}
			}
			if _, ok := dst[p]; ok && strings.HasPrefix(p, "d/") {
				dst["d"] = entry{'d', ""}
			}
		}
		if len(dst) == 0 || c.Bool() {
			if _, ok := dst["d"]; !ok && c.Bool() {
				dst["d"] = entry{'f', "file"}
			}
			dst["x"] = entry{'d', ""}
			dst["x/extra"] = entry{'f', "extra"}
		}
		x := how{f: filters[[]int{0, 3}[c.Choose(2)]], replace: c.Bool(), link: c.Bool(), conc: []int{0, 2}[c.Choose(2)]}
		if x.link && !x.replace {
			x.replace = true
		}
		c.Logf("over %v | %v", dst, x)
		c.State(strings.ReplaceAll(fmt.Sprint(dst, x), root, ""))
		dst.build(to)
		before := snap(from)
		c.Step()
		err := x.run(from, to)
		if got := snap(from); got.String() != before.String() {
			c.Fail("source", "the source became %v", got)
		}
		if b, _ := os.ReadFile(out); string(b) != "out" {
			c.Fail("outside", "the copy wrote through a link: %q", b)
		}
		if _, err := os.Lstat(filepath.Join(root, "dangling")); err == nil {
			c.Fail("outside", "the copy wrote through a dangling link")
		}
		w, ok := want(src, dst, x.f, x.replace, x.link, from)
		if !x.replace && ok {
			// a link cannot take the place of a file without removing it: either way
			if d, has := dst["d/l"]; has && d.kind == 'f' && x.f.keeps("d/l", src["d/l"]) && err != nil {
				return
			}
		}
		if !ok {
			if err == nil {
				c.Fail("conflict", "a copy that cannot be made succeeds, giving %v", snap(to))
			}
			return
		}
		if err != nil {
			c.Fail("copy-error", "the copy fails: %v", err)
		}
		if got := snap(to); got.String() != w.String() {
			c.Fail("copy", "the copy gives %v, expected %v", got, w)
		}
	}
}

// faults: files and directories that cannot be read or written; then the copy again without them
func faults(depth int) func(c *h.Ctx) {
	src := tree{"a": {'f', "1"}, "b": {'f', "22"}, "c": {'d', ""}, "c/d": {'f', "333"}, "c/e": {'d', ""}, "c/e/f": {'f', "4"}, "g": {'l', "a"}, "z": {'f', "5"}}
	paths := []string{"a", "b", "c", "c/d", "c/e", "c/e/f", "g", "z"}
	return func(c *h.Ctx) {
		root, rm := scratch()
		defer rm()
		from, to := filepath.Join(root, "src"), filepath.Join(root, "dst")
		src.build(from)
		before := snap(from)
		x := how{conc: []int{0, 2, 5}[c.Choose(3)]}
		x.replace = c.Bool()
		var heal []func()
		hard := false // the copy cannot succeed
		n := 1 + c.Choose(depth)
		var did []string
		for i := 0; i < n; i++ {
			p := paths[c.Choose(len(paths))]
			k := c.Choose(4)
			s, d := filepath.Join(from, p), filepath.Join(to, p)
			isDir := src[p].kind == 'd'
			switch k {
			case 0: // unreadable source
				if src[p].kind == 'l' {
					c.Prune()
				}
				did = append(did, "unreadable "+p)
				os.Chmod(s, 0)
				heal = append(heal, func() {
					if isDir {
						os.Chmod(s, 0755)
					} else {
						os.Chmod(s, 0644)
					}
				})
				hard = true
			case 1: // something of another kind in the way
				if x.replace {
					c.Prune()
				}
				did = append(did, "blocked "+p)
				os.MkdirAll(filepath.Dir(d), 0755)
				if isDir {
					if os.WriteFile(d, nil, 0644) != nil {
						c.Prune()
					}
				} else if os.MkdirAll(filepath.Join(d, "in"), 0755) != nil {
					c.Prune()
				}
				heal = append(heal, func() { os.RemoveAll(d) })
				hard = true
			case 2: // a read-only file
				if x.replace || isDir || src[p].kind == 'l' {
					c.Prune()
				}
				did = append(did, "read-only "+p)
				if os.MkdirAll(filepath.Dir(d), 0755) != nil || os.WriteFile(d, []byte("old"), 0444) != nil {
					c.Prune()
				}
				heal = append(heal, func() { os.Chmod(d, 0644) })
			case 3: // a read-only directory
				if !isDir {
					c.Prune()
				}
				did = append(did, "read-only "+p)
				if os.MkdirAll(filepath.Join(d, "keep"), 0755) != nil {
					c.Prune()
				}
				os.Chmod(d, 0555)
				heal = append(heal, func() { os.Chmod(d, 0755); os.Remove(filepath.Join(d, "keep")) })
				hard = true
			}
		}
		c.Logf("%v; %v", did, x)
		c.Step()
		err := x.run(from, to)
		if err == nil && hard {
			got := tree{}
			h.Try(func() { got = snap(to) })
			c.Fail("failure-lost", "the copy reports success although it met %v; the destination is %v", did, got)
		}
		for i := len(heal) - 1; i >= 0; i-- {
			heal[i]()
		}
		for i := len(heal) - 1; i >= 0; i-- {
			heal[i]()
		}
		if got := snap(from); got.String() != before.String() {
			c.Fail("source", "the source became %v", got)
		}
		if err == nil {
			if got := snap(to); got.String() != before.String() {
				c.Fail("copy", "the copy succeeds and gives %v", got)
			}
		}
		c.Step()
		if err := x.run(from, to); err != nil {
			c.Fail("repair", "a later copy fails: %v", err)
		}
		if got := snap(to); got.String() != before.String() {
			c.Fail("repair", "a later copy gives %v", got)
		}
		c.Step()
		x.conc, x.replace = 0, true
		if err := x.run(from, to); err != nil {
			c.Fail("repair", "a replacing copy fails: %v", err)
		}
		if got := snap(to); got.String() != before.String() {
			c.Fail("repair", "a replacing copy gives %v", got)
		}
	}
}

// many: a tree of many files of which some fail, for every number of workers
func many(depth int) func(c *h.Ctx) {
	return func(c *h.Ctx) {
		root, rm := scratch()
		defer rm()
		from, to := filepath.Join(root, "src"), filepath.Join(root, "dst")
		n := []int{1, 2, 7, 40}[c.Choose(4)]
		src := tree{}
		for i := 0; i < n; i++ {
			src[fmt.Sprintf("d%d/f%02d", i%3, i)] = entry{'f', strings.Repeat("y", i)}
			src[fmt.Sprintf("d%d", i%3)] = entry{'d', ""}
		}
		src.build(from)
		x := how{conc: 1 + c.Choose(depth), replace: true}
		bad := c.Choose(4) // none, first, last, all
		var ks []string
		for k, e := range src {
			if e.kind == 'f' {
				ks = append(ks, k)
			}
		}
		sort.Strings(ks)
		var lock []string
		switch bad {
		case 1:
			lock = ks[:1]
		case 2:
			lock = ks[len(ks)-1:]
		case 3:
			lock = ks
		}
		for _, k := range lock {
			os.Chmod(filepath.Join(from, k), 0)
		}
		c.Logf("%d files, unreadable: %d; %v", n, bad, x)
		c.Step()
		err := x.run(from, to)
		if (err != nil) != (bad > 0) {
			c.Fail("failure-lost", "%d files, unreadable %v, %d workers: %v", n, lock, x.conc, err)
		}
		if err == nil {
			if got := snap(to); got.String() != src.String() {
				c.Fail("copy", "the copy gives %v", got)
			}
		}
	}
}

// overlap: source and destination that are, contain or reach one another
func overlap(depth int) func(c *h.Ctx) {
	return func(c *h.Ctx) {
		root, rm := scratch()
		defer rm()
		all := tree{"p": {'d', ""}, "p/src": {'d', ""}, "p/src/a": {'f', "a"}, "p/src/d": {'d', ""}, "p/src/d/b": {'f', "b"}, "p/q": {'f', "q"}}
		all.build(root)
		h.Must(os.Symlink("p", filepath.Join(root, "lp")))
		h.Must(os.Symlink("p/src", filepath.Join(root, "ls")))
		src := []string{"p/src", "lp/src", "ls", "p/src/"}[c.Choose(4)]
		dst := []string{"p/src", "p/src/d", "p/src/new", "p/src/d/new/x", "p", "lp", "ls", "lp/src", "p/../p/src", "ls/d", ".", "p/srcx", "p/src/a"}[c.Choose(13)]
		x := how{replace: c.Bool(), link: c.Bool(), conc: []int{0, 2}[c.Choose(2)]}
		if c.Bool() {
			x.f.ignore = []string{"d", "new"}
		}
		if x.link && !x.replace {
			c.Prune()
		}
		c.Logf("%s to %s, %v", src, dst, x)
		c.Step()
		err := x.run(filepath.Join(root, src), filepath.Join(root, dst))
		got := snap(filepath.Join(root, "p/src"))
		for _, k := range []string{"a", "d", "d/b"} {
			e := all["p/src/"+k]
			if strings.HasPrefix(k, "d/") && x.replace && (strings.HasSuffix(dst, "/d")) {
				continue // it was asked to replace that directory
			}
			if strings.HasSuffix(dst, "/a") && k == "a" {
				continue
			}
			if got[k] != e {
				c.Fail("source", "%s of the source became %v (err=%v)", k, got[k], err)
			}
		}
		if dst == "p/srcx" {
			if err != nil {
				c.Fail("copy-error", "copy beside the source: %v", err)
			}
			return
		}
		if err == nil && !x.link {
			// whatever it did, the files are there
			for _, k := range []string{"a", "d/b"} {
				if x.f.ignore != nil && k != "a" || strings.HasSuffix(dst, "/d") && x.replace {
					continue
				}
				if b, _ := os.ReadFile(filepath.Join(root, dst, k)); string(b) != all["p/src/"+k].data {
					c.Fail("copy", "success, but %s/%s is %q", dst, k, b)
				}
			}
		}
		if n := len(got); n > 40 {
			c.Fail("recursion", "the copy filled the source with %d entries", n)
		}
	}
}

var wdMu sync.Mutex

// dots: sources given relative to the working directory
func dots(depth int) func(c *h.Ctx) {
	return func(c *h.Ctx) {
		wdMu.Lock()
		defer wdMu.Unlock()
		root, rm := scratch()
		defer rm()
		wd, err := os.Getwd()
		h.Must(err)
		defer os.Chdir(wd)
		src := tree{}
		for _, p := range []string{"a", "ab", "d/a", "d/abc"} {
			if c.Bool() {
				src[p] = entry{'f', p}
				if strings.HasPrefix(p, "d/") {
					src["d"] = entry{'d', ""}
				}
			}
		}
		from := filepath.Join(root, "x/src")
		src.build(from)
		h.Must(os.MkdirAll(filepath.Join(from, "zz"), 0755))
		src["zz"] = entry{'d', ""}
		h.Must(os.Symlink("src", filepath.Join(root, "x/ln")))
		k := c.Choose(6)
		var arg string
		switch k {
		case 0, 1:
			h.Must(os.Chdir(from))
			arg = []string{".", "./"}[k]
		case 2:
			h.Must(os.Chdir(filepath.Join(from, "zz")))
			arg = ".."
		case 3:
			h.Must(os.Chdir(root))
			arg = "x/src"
		case 4:
			h.Must(os.Chdir(root))
			arg = "./x/ln"
		case 5:
			h.Must(os.Chdir(filepath.Join(root, "x")))
			arg = "ln"
		}
		x := how{link: c.Bool(), replace: true, conc: []int{0, 2}[c.Choose(2)], f: filters[[]int{0, 3}[c.Choose(2)]]}
		abs := c.Bool()
		to := filepath.Join(root, "dst")
		targ := to
		if !abs {
			cw, _ := os.Getwd()
			targ, err = filepath.Rel(cw, to)
			h.Must(err)
		}
		c.Logf("%v from %q (%d) to %q, %v", src, arg, k, filepath.Base(targ), x)
		c.Step()
		if err := x.run(arg, targ); err != nil {
			c.Fail("copy-error", "copy from %q fails: %v", arg, err)
		}
		w, _ := want(src, tree{}, x.f, true, x.link, from)
		if got := snap(to); got.String() != w.String() {
			c.Fail("copy", "copy from %q gives %v, expected %v", arg, got, w)
		}
		// walking
		var walked []string
		if k != 4 && k != 5 {
			if err := fileutil.WalkRelative(arg, func(path, rel string, d fs.DirEntry) error {
				r, e := filepath.Rel(arg, path)
				h.Must(e)
				if rel == "" && r == "." {
					r = ""
				}
				if r != rel {
					c.Fail("walk", "WalkRelative(%q) calls %q %q", arg, path, rel)
				}
				if rel != "" {
					walked = append(walked, rel)
				}
				return nil
			}); err != nil {
				c.Fail("walk", "WalkRelative(%q): %v", arg, err)
			}
			if len(walked) != len(src) {
				c.Fail("walk", "WalkRelative(%q) visits %v", arg, walked)
			}
		}
	}
}

// files: single file operations
func files(depth int) func(c *h.Ctx) {
	return func(c *h.Ctx) {
		root, rm := scratch()
		defer rm()
		a := filepath.Join(root, "a")
		content := []string{"", "abc", strings.Repeat("z", 100000)}[c.Choose(3)]
		h.Must(os.WriteFile(a, []byte(content), []os.FileMode{0644, 0755}[c.Choose(2)]))
		dst := filepath.Join(root, []string{"b", "x/y/b", "a", "ln", "hard", "dir", "old", "tofile"}[c.Choose(8)])
		h.Must(os.Symlink("a", filepath.Join(root, "ln")))
		h.Must(os.Link(a, filepath.Join(root, "hard")))
		h.Must(os.Mkdir(filepath.Join(root, "dir"), 0755))
		h.Write(filepath.Join(root, "old"), strings.Repeat("old", 50000))
		h.Must(os.Symlink("old", filepath.Join(root, "tofile")))
		src := a
		kind := c.Choose(4)
		if kind == 3 {
			src = filepath.Join(root, "missing")
			kind = c.Choose(2)
		}
		c.Logf("%d %s -> %s", kind, filepath.Base(src), strings.TrimPrefix(dst, root))
		c.Step()
		var err error
		switch kind {
		case 0:
			err = filecopy.CopyFile(src, dst)
		case 1:
			err = filecopy.CopyFileAll(src, dst)
		case 2:
			err = filecopy.LinkFile(src, dst)
		}
		if b, rerr := os.ReadFile(a); rerr != nil || string(b) != content {
			c.Fail("source", "copying %s to %s (%v) left the source with %d bytes of %d", filepath.Base(src), strings.TrimPrefix(dst, root), err, len(b), len(content))
		}
		base := filepath.Base(dst)
		nested := strings.Contains(dst, "x/y")
		switch {
		case src != a, base == "dir":
			if err == nil {
				c.Fail("failure-lost", "copying %s to %s succeeds", filepath.Base(src), dst)
			}
			return
		case kind == 2:
			if base == "b" && !nested {
				if l, e := os.Readlink(dst); err != nil || e != nil || l != a {
					c.Fail("link", "LinkFile: %v, the link is %q", err, l)
				}
			} else if err == nil {
				c.Fail("link", "linking over %s succeeds", base)
			}
			return
		case base == "a" || base == "ln" || base == "hard":
			return // the source is intact: fine either way
		case nested && kind == 0:
			if err == nil {
				c.Fail("failure-lost", "copying into a missing directory succeeds")
			}
			return
		}
		if err != nil {
			c.Fail("copy-error", "copy to %s: %v", dst, err)
		}
		if b, _ := os.ReadFile(dst); string(b) != content {
			c.Fail("copy", "copy to %s has %d bytes, expected %d", dst, len(b), len(content))
		}
	}
}

// helpers: read-modify-write
func helpers(depth int) func(c *h.Ctx) {
	type doc struct {
		A string                 `json:"a"`
		M map[string]interface{} `json:"m,omitempty"`
	}
	boom := errors.New("callback fails")
	return func(c *h.Ctx) {
		root, rm := scratch()
		defer rm()
		f := filepath.Join(root, "f")
		inits := []string{"", "old", `{"a":"x"}`, `{"a":"x","m":{"k":1}}`, "{bad", "missing", "unreadable", "directory"}
		init := inits[c.Choose(len(inits))]
		content := init
		switch init {
		case "missing":
			content = ""
		case "unreadable":
			h.Must(os.WriteFile(f, []byte(init), 0))
		case "directory":
			h.Must(os.Mkdir(f, 0755))
		default:
			h.Must(os.WriteFile(f, []byte(init), 0644))
		}
		now := func() string {
			os.Chmod(f, 0755)
			b, err := os.ReadFile(f)
			if err != nil {
				if os.IsNotExist(err) {
					return "missing"
				}
				return "directory"
			}
			return string(b)
		}
		is, ierr := fileutil.FileExists(f)
		isd, iderr := fileutil.DirExists(f)
		if ierr != nil || iderr != nil || is != (init != "missing" && init != "directory") || isd != (init == "directory") {
			c.Fail("exists", "%s: FileExists=%v %v DirExists=%v %v", init, is, ierr, isd, iderr)
		}
		op := c.Choose(3)
		cb := c.Choose(3) // change, keep, fail
		c.Logf("%s: op %d callback %d", init, op, cb)
		c.Step()
		var err error
		var saw string
		called := false
		want := init
		if init == "unreadable" || init == "directory" {
			want = init
		}
		switch op {
		case 0:
			err = fileutil.Patch(f, func(d []byte) ([]byte, error) {
				called, saw = true, string(d)
				switch cb {
				case 0:
					return []byte(string(d) + "!"), nil
				case 1:
					return d, nil
				}
				return []byte("partial"), boom
			})
			if cb == 0 {
				want = content + "!"
			}
		case 1:
			err = fileutil.UpdateFile(f, func(d []byte) (bool, []byte, error) {
				called, saw = true, string(d)
				switch cb {
				case 0:
					return true, []byte(string(d) + "!"), nil
				case 1:
					return false, []byte("ignored"), nil
				}
				return true, []byte("partial"), boom
			})
			if cb == 0 {
				want = content + "!"
			}
		case 2:
			err = fileutil.PatchJSONPretty(f, func(v *doc) error {
				called, saw = true, content
				if cb == 0 {
					v.A += "!"
				}
				if cb == 2 {
					return boom
				}
				return nil
			})
		}
		if init == "unreadable" || init == "directory" {
			if err == nil || called {
				c.Fail("update", "a file that cannot be read is updated (%v)", err)
			}
			if n := now(); n != init {
				c.Fail("update", "%s became %q", init, n)
			}
			return
		}
		badJSON := op == 2 && (init == "old" || init == "{bad")
		if badJSON {
			if err == nil || called {
				c.Fail("update", "malformed JSON %q is patched", init)
			}
			if n := now(); n != init {
				c.Fail("update", "malformed JSON %q became %q", init, n)
			}
			return
		}
		if !called || saw != content {
			c.Fail("update", "the callback saw %q of %q", saw, init)
		}
		if cb == 2 {
			if err != boom {
				c.Fail("update", "a failing callback gives %v", err)
			}
			if n := now(); n != init {
				c.Fail("update", "a failing callback changed %q to %q", init, n)
			}
			return
		}
		if err != nil {
			c.Fail("update", "%q: %v", init, err)
		}
		n := now()
		if op == 2 {
			x := "x"
			if init == "" || init == "missing" {
				x = ""
			}
			if cb == 0 {
				x += "!"
			}
			flat := strings.NewReplacer(" ", "", "\n", "").Replace(n)
			w := `{"a":"` + x + `"}`
			if strings.Contains(init, "m") && init != "missing" {
				w = `{"a":"` + x + `","m":{"k":1}}`
			}
			if flat != w {
				c.Fail("update", "patched JSON %q became %q, expected %s", init, n, w)
			}
			return
		}
		if n != want {
			c.Fail("update", "%q became %q, expected %q", init, n, want)
		}
	}
}

// unprivileged: permissions are faults only for an ordinary user
func unprivileged(out string) {
	if os.Getuid() != 0 {
		return
	}
	s := os.Getenv("VP_SCRATCH")
	for _, d := range []string{filepath.Dir(out), s, filepath.Dir(s)} {
		if strings.HasPrefix(filepath.Base(d), "vp-") || d == s {
			h.Must(os.Chmod(d, 0711))
		}
	}
	h.Must(os.WriteFile(out, nil, 0666))
	h.Must(os.Chmod(out, 0666))
	h.Must(os.Chown(s, 65534, 65534))
	h.Must(os.Chdir(s))
	h.Must(syscall.Setgroups([]int{65534}))
	h.Must(syscall.Setgid(65534))
	h.Must(syscall.Setuid(65534))
}

func main() {
	syscall.Umask(022)
	if len(os.Args) > 3 {
		unprivileged(os.Args[1])
	}
	h.Add("trees", trees)
	h.Add("states", states)
	h.Add("faults", faults)
	h.Add("many", many)
	h.Add("overlap", overlap)
	h.Add("dots", dots)
	h.Add("files", files)
	h.Add("helpers", helpers)
	h.Main(os.Args[1:])
}
