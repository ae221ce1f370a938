package main

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"os"
	"path/filepath"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"

	"github.com/xhd2015/xgo/cmd/xgo/verifh/h"
	"github.com/xhd2015/xgo/instrument/constants"
	"github.com/xhd2015/xgo/instrument/instrument_compiler"
	"github.com/xhd2015/xgo/instrument/instrument_go"
	"github.com/xhd2015/xgo/instrument/instrument_runtime"
	"github.com/xhd2015/xgo/instrument/patch"
	"github.com/xhd2015/xgo/support/fileutil"
	"github.com/xhd2015/xgo/support/goinfo"
)

// ---- one file

const pristine = "package p\n\nimport \"os\"\n\nfunc Now() int {\n\treturn os.Getpid()\n}\n\nfunc Other() {}\n"

type edit struct {
	name string
	f    func(s string) (string, error)
	// what it makes of the pristine content; err: it reports an error
	err bool
}

func up(s, mark string, seq []string, i int, pos patch.UpdatePosition, add string) string {
	return patch.UpdateContent(s, "/*<begin "+mark+">*/", "/*<end "+mark+">*/", seq, i, pos, add)
}

var boom = errors.New("boom")

var edits = []edit{
	{"v1", func(s string) (string, error) {
		return up(s, "a", []string{"func Now()", "{"}, 1, patch.UpdatePosition_After, "v1();"), nil
	}, false},
	{"v2", func(s string) (string, error) {
		s = up(s, "a", []string{"func Now()", "{"}, 1, patch.UpdatePosition_After, "version2();")
		return up(s, "b", []string{"func Other()"}, 0, patch.UpdatePosition_Before, "func New(){};"), nil
	}, false},
	{"v3", func(s string) (string, error) {
		return up(s, "c", []string{"os.Getpid()"}, 0, patch.UpdatePosition_Replace, "0"), nil
	}, false},
	{"import", func(s string) (string, error) {
		return patch.AddImportAfterName(s, "/*<begin i>*/", "/*<end i>*/", "x", "y/z"), nil
	}, false},
	{"lines", func(s string) (string, error) {
		return patch.UpdateContentLines(s, "/*<begin l>*/", "/*<end l>*/", []string{"func Other() {}", "\n"}, 1, patch.UpdatePosition_After, "\nvar l int\n"), nil
	}, false},
	{"nextline", func(s string) (string, error) {
		const a = "func Other() {}"
		return strings.Replace(s, a, "/*<next-line-original n>"+a+"</next-line-original>*/\nfunc Else() {}", 1), nil
	}, false},
	{"noop", func(s string) (string, error) { return s, nil }, false},
	{"error", func(s string) (string, error) { return "garbage", boom }, true},
	{"panic", func(s string) (string, error) { panic("no anchor") }, true},
	{"panicerr", func(s string) (string, error) { panic(boom) }, true},
	{"anchor", func(s string) (string, error) {
		return up(s, "a", []string{"func Missing()"}, 0, patch.UpdatePosition_After, "v;"), nil
	}, true},
	{"twice", func(s string) (string, error) {
		return up(s, "a", []string{"func "}, 0, patch.UpdatePosition_After, "v;"), nil
	}, true},
}

type stat struct {
	data  string
	ino   uint64
	mtime time.Time
	ok    bool
}

func statOf(f string) stat {
	fi, err := os.Stat(f)
	if err != nil {
		return stat{}
	}
	b, err := os.ReadFile(f)
	h.Must(err)
	return stat{string(b), fi.Sys().(*syscall.Stat_t).Ino, fi.ModTime(), true}
}

func file(base string) func(int) func(*h.Ctx) {
	return func(depth int) func(*h.Ctx) {
		return func(c *h.Ctx) {
			d, rm := h.Scratch()
			defer rm()
			f := filepath.Join(d, "f.go")
			h.Write(f, base)
			orig := base // the pristine content
			exists := true
			cur := base
			old := time.Unix(1000000000, 0)
			k := c.Choose(depth + 1)
			for i := 0; i < k; i++ {
				x := c.Choose(len(edits) + 3)
				c.Step()
				switch {
				case x == len(edits):
					c.Logf("restore")
					orig, cur, exists = base, base, true
					h.Write(f, base)
				case x == len(edits)+1:
					c.Logf("another original")
					orig = strings.Replace(base, "Other() {}", "Other() { println() }", 1)
					cur, exists = orig, true
					h.Write(f, orig)
				case x == len(edits)+2:
					c.Logf("remove")
					exists = false
					os.Remove(f)
				default:
					e := edits[x]
					c.Logf("%s", e.name)
					if exists {
						h.Must(os.Chtimes(f, old, old))
					}
					was := statOf(f)
					called := 0
					var got string
					err := patch.EditFile(f, func(s string) (string, error) {
						called++
						got = s
						return e.f(s)
					})
					now := statOf(f)
					if !exists {
						if err == nil || now.ok || called > 0 {
							c.Fail("missing", "editing a missing file: error %v, exists %v, edited %d times", err, now.ok, called)
						}
						continue
					}
					if called != 1 {
						c.Fail("called", "%s ran %d times", e.name, called)
					}
					if got != orig {
						c.Fail("pristine", "%s got %q, want the pristine %q", e.name, got, orig)
					}
					if e.err && orig != base && e.name == "twice" {
						// same
					}
					if e.err {
						if err == nil {
							c.Fail("error", "%s reported no error", e.name)
						}
						if !strings.Contains(err.Error(), f) {
							c.Fail("error", "the error %q does not name the file", err)
						}
						if e.name == "error" || e.name == "panicerr" {
							if !errors.Is(err, boom) {
								c.Fail("error", "the error %q is not the edit's", err)
							}
						}
						if now != was {
							c.Fail("error-changed", "after %s failed the file is %q, was %q", e.name, now.data, was.data)
						}
						continue
					}
					if err != nil {
						// an anchor that the other original lacks
						var want string
						_, p := h.Try(func() { want, _ = e.f(orig) })
						if !p {
							c.Fail("refused", "%s: %v, but the pristine content gives %q", e.name, err, want)
						}
						if now != was {
							c.Fail("error-changed", "after %s failed the file is %q, was %q", e.name, now.data, was.data)
						}
						continue
					}
					want, werr := e.f(orig)
					h.Must(werr)
					if now.data != want {
						c.Fail("content", "after %s the file is %q, want %q", e.name, now.data, want)
					}
					if want == cur && now != was {
						c.Fail("rewritten", "%s rewrote an unchanged file", e.name)
					}
					cur = want
					c.State(want)
				}
			}
		}
	}
}

// ---- fileutil.Patch, UpdateFile, PatchJSON

func generic(depth int) func(*h.Ctx) {
	return func(c *h.Ctx) {
		d, rm := h.Scratch()
		defer rm()
		f := filepath.Join(d, "f")
		if c.Bool() {
			f = filepath.Join(d, "no", "f")
		}
		old := time.Unix(1000000000, 0)
		cur, exists := "", false
		k := c.Choose(depth + 1)
		for i := 0; i < k; i++ {
			if exists {
				h.Must(os.Chtimes(f, old, old))
			}
			was := statOf(f)
			var got, want string
			var called int
			fail, write := false, true
			var err error
			c.Step()
			op := c.Choose(8)
			if strings.Contains(f, "/no/") {
				op = c.Choose(3)
			}
			switch op {
			case 0, 1, 2:
				// append, same, error through Patch
				c.Logf("Patch %d", op)
				want = cur
				err = fileutil.Patch(f, func(b []byte) ([]byte, error) {
					called++
					got = string(b)
					switch op {
					case 0:
						want = cur + "x"
						return []byte(want), nil
					case 1:
						return b, nil
					}
					return []byte("garbage"), boom
				})
				fail = op == 2
				write = op == 0
			case 3, 4, 5:
				c.Logf("UpdateFile %d", op)
				want = cur
				err = fileutil.UpdateFile(f, func(b []byte) (bool, []byte, error) {
					called++
					got = string(b)
					switch op {
					case 3:
						want = cur + "y"
						return true, []byte(want), nil
					case 4:
						return false, []byte("garbage"), nil
					}
					return true, []byte("garbage"), boom
				})
				fail = op == 5
				write = op == 3
			case 6:
				c.Logf("remove")
				os.Remove(f)
				cur, exists = "", false
				continue
			case 7:
				c.Logf("write")
				cur, exists = "z", true
				h.Write(f, cur)
				continue
			}
			if called != 1 || got != cur {
				c.Fail("read", "the edit ran %d times and got %q, want %q", called, got, cur)
			}
			if strings.Contains(f, "/no/") {
				if write != (err != nil) && !fail {
					c.Fail("nodir", "no directory: error %v", err)
				}
				continue
			}
			if fail != (err != nil) || fail && !errors.Is(err, boom) {
				c.Fail("error", "error %v", err)
			}
			now := statOf(f)
			if write {
				cur, exists = want, true
				if now.data != want || !now.ok {
					c.Fail("content", "the file is %q, want %q", now.data, want)
				}
			} else if now != was {
				c.Fail("changed", "the file is %v, was %v", now, was)
			}
			c.State(cur + strconv.FormatBool(exists))
		}
	}
}

type jv struct {
	A int      `json:"a"`
	B []string `json:"b,omitempty"`
}

func jsonFile(depth int) func(*h.Ctx) {
	return func(c *h.Ctx) {
		d, rm := h.Scratch()
		defer rm()
		f := filepath.Join(d, "f.json")
		var cur jv
		valid, exists := true, false
		old := time.Unix(1000000000, 0)
		k := c.Choose(depth + 1)
		for i := 0; i < k; i++ {
			if exists {
				h.Must(os.Chtimes(f, old, old))
			}
			was := statOf(f)
			c.Step()
			op := c.Choose(6)
			switch op {
			case 0, 1, 2, 3:
				c.Logf("PatchJSON %d", op)
				called := 0
				next := cur
				edit := func(v *jv) error {
					called++
					if fmt.Sprint(*v) != fmt.Sprint(cur) {
						c.Fail("json-read", "got %v want %v", *v, cur)
					}
					switch op {
					case 0:
						v.A++
					case 1:
						v.B = append(v.B, "<&>\"")
					case 3:
						v.A = 99
						return boom
					}
					next = *v
					return nil
				}
				var err error
				if c.Bool() {
					err = fileutil.PatchJSON(f, edit)
				} else {
					err = fileutil.PatchJSONPretty(f, edit)
				}
				now := statOf(f)
				if !valid || op == 3 {
					if err == nil || now != was {
						c.Fail("json-bad", "error %v, the file is %v, was %v", err, now, was)
					}
					continue
				}
				var got jv
				if err != nil || json.Unmarshal([]byte(now.data), &got) != nil || fmt.Sprint(got) != fmt.Sprint(next) {
					c.Fail("json", "error %v, the file is %q, want %v", err, now.data, next)
				}
				if was.ok && was.data == now.data && was != now {
					c.Fail("json-rewritten", "an unchanged file was rewritten")
				}
				cur, exists = next, true
				c.State(fmt.Sprint(cur))
			case 4:
				c.Logf("break")
				h.Write(f, "{")
				valid, exists = false, true
			case 5:
				c.Logf("remove")
				os.Remove(f)
				cur, valid, exists = jv{}, true, false
			}
		}
	}
}

// ---- the files of real Go installations

var repo = os.Getenv("VP_REPO")

type tree struct {
	dir     string // scratch GOROOT
	ver     *goinfo.GoVersion
	orig    map[string]string // pristine content of the files that applying touches; missing: added
	touched []string          // sorted by write order of the first application
	modes   []string
	fresh   map[string]map[string]string // mode -> file -> content
}

func snapshot(dir string) map[string]stat {
	m := map[string]stat{}
	filepath.Walk(dir, func(p string, i os.FileInfo, err error) error {
		h.Must(err)
		if i.Mode().IsRegular() {
			m[strings.TrimPrefix(p, dir+"/")] = statOf(p)
		}
		return nil
	})
	return m
}

func (t *tree) apply(mode string) error {
	switch mode {
	case "code", "code-debug", "code-other":
		tmpl, err := os.ReadFile(filepath.Join(repo, "runtime/internal/runtime", constants.XGO_TRAP_TEMPLATE_FILE))
		h.Must(err)
		if mode == "code-other" {
			// another version of the tool
			tmpl = append(tmpl, "\n// another version\n"...)
		}
		if err := instrument_go.BuildInstrument(t.dir, t.ver, mode == "code-debug", true); err != nil {
			return err
		}
		if err := instrument_go.InstrumentGoToolCover(t.dir, t.ver); err != nil {
			return err
		}
		if err := instrument_runtime.InstrumentRuntime(t.dir, t.ver, string(tmpl), instrument_runtime.InstrumentRuntimeOptions{
			Mode: instrument_runtime.InstrumentMode_ForceAndIgnoreMark,
		}); err != nil {
			return err
		}
		return instrument_compiler.BuildInstrument(t.dir, t.dir, t.ver, repo, mode == "code-debug", mode == "code-other", true)
	case "files":
		return patch.ApplyPatches(filepath.Join(repo, "patches", fmt.Sprintf("go1.%d", t.ver.Minor)), t.dir, repo,
			map[string]string{"XGO_SRC": repo, "INSTRUMENT_GOROOT": t.dir, "ORIG_GOROOT": t.dir, "GO_VERSION": "go" + t.ver.String(), "GOOS": runtime.GOOS, "GOARCH": runtime.GOARCH},
			nil, func(string, map[string]string) error { return nil })
	}
	panic(mode)
}

var dirs = []string{"src/runtime", "src/time", "src/testing", "src/encoding/json", "src/cmd/go", "src/cmd/cover", "src/cmd/test2json", "src/cmd/internal/test2json", "src/cmd/compile/internal/gc", "src/cmd/compile/internal/noder", "src/cmd/compile/internal/typecheck", "src/cmd/compile/internal/syntax"}

func newTree(minor int) *tree {
	roots, _ := filepath.Glob(fmt.Sprintf("/opt/veriftools/go1.%d.*", minor))
	if len(roots) == 0 {
		return nil
	}
	root := roots[0]
	v, err := goinfo.ParseGoVersion(strings.Replace(filepath.Base(root), "go", "go version go", 1) + " linux/amd64")
	if err != nil {
		v, err = goinfo.ParseGoVersionNumber(strings.TrimPrefix(filepath.Base(root), "go"))
		h.Must(err)
	}
	d, _ := h.Scratch()
	t := &tree{dir: d, ver: v, orig: map[string]string{}, fresh: map[string]map[string]string{}}
	for _, x := range dirs {
		filepath.Walk(filepath.Join(root, x), func(p string, i os.FileInfo, err error) error {
			if err != nil {
				return nil
			}
			if i.IsDir() && i.Name() == "testdata" {
				return filepath.SkipDir
			}
			if i.Mode().IsRegular() && strings.HasSuffix(p, ".go") && !strings.HasSuffix(p, "_test.go") {
				b, err := os.ReadFile(p)
				h.Must(err)
				h.Write(filepath.Join(d, strings.TrimPrefix(p, root+"/")), string(b))
			}
			return nil
		})
	}
	// building is not part of this: the go command of the tree does nothing
	h.Write(filepath.Join(d, "bin/go"), "#!/bin/sh\nexit 0\n")
	h.Must(os.Chmod(filepath.Join(d, "bin/go"), 0755))
	h.Must(os.MkdirAll(filepath.Join(d, "pkg/tool", runtime.GOOS+"_"+runtime.GOARCH), 0755))
	if minor <= 26 {
		t.modes = append(t.modes, "code", "code-debug", "code-other")
	}
	if minor >= 24 {
		t.modes = append(t.modes, "files")
	}
	return t
}

func (t *tree) reset() {
	for _, f := range t.touched {
		if s, ok := t.orig[f]; ok {
			h.Write(filepath.Join(t.dir, f), s)
		} else {
			os.Remove(filepath.Join(t.dir, f))
		}
	}
}

func (t *tree) prepare(c *h.Ctx) {
	all := snapshot(t.dir)
	order := map[string]time.Time{}
	for _, m := range t.modes {
		if err := t.apply(m); err != nil {
			c.Fail("apply", "go1.%d %s: %v", t.ver.Minor, m, err)
		}
		now := snapshot(t.dir)
		t.fresh[m] = map[string]string{}
		for f, s := range now {
			if w, ok := all[f]; !ok || w.data != s.data {
				t.fresh[m][f] = s.data
				order[f] = s.mtime
				if ok {
					t.orig[f] = w.data
				}
			}
		}
		for f := range all {
			if !now[f].ok {
				c.Fail("removed", "go1.%d %s removed %s", t.ver.Minor, m, f)
			}
		}
		t.touched = nil
		for f := range order {
			t.touched = append(t.touched, f)
		}
		t.reset()
	}
	sort.Slice(t.touched, func(i, j int) bool { return order[t.touched[i]].Before(order[t.touched[j]]) })
}

func (t *tree) compare(c *h.Ctx, mode string) {
	var first string
	for _, f := range t.touched {
		want, ok := t.fresh[mode][f]
		if !ok {
			continue
		}
		got, err := os.ReadFile(filepath.Join(t.dir, f))
		if err != nil || string(got) != want {
			i := 0
			for i < len(got) && i < len(want) && got[i] == want[i] {
				i++
			}
			lo := i - 80
			if lo < 0 {
				lo = 0
			}
			clip := func(s string) string {
				if len(s) < lo {
					return ""
				}
				s = s[lo:]
				if len(s) > 300 {
					s = s[:300]
				}
				return s
			}
			if first == "" {
				first = fmt.Sprintf("%s differs (%v)\n got: %q\nwant: %q", f, err, clip(string(got)), clip(want))
			}
		}
	}
	if first != "" {
		c.Fail("stale", "go1.%d: %s", t.ver.Minor, first)
	}
}

var (
	mu    sync.Mutex
	first = map[int]*tree{} // the prepared one
	idle  = map[int][]*tree{}
)

func acquire(c *h.Ctx, minor int) *tree {
	mu.Lock()
	defer mu.Unlock()
	if n := len(idle[minor]); n > 0 {
		t := idle[minor][n-1]
		idle[minor] = idle[minor][:n-1]
		return t
	}
	t := newTree(minor)
	if t == nil {
		c.Prune()
	}
	if f := first[minor]; f != nil {
		t.orig, t.touched, t.fresh = f.orig, f.touched, f.fresh
		return t
	}
	t.prepare(c)
	first[minor] = t
	return t
}

func release(minor int, t *tree) {
	mu.Lock()
	idle[minor] = append(idle[minor], t)
	mu.Unlock()
}

// real: histories of applying, interrupted at every file, over the sources of
// the installed Go releases
func real(styles int, minors ...int) func(int) func(*h.Ctx) {
	return func(depth int) func(*h.Ctx) {
		return func(c *h.Ctx) {
			minor := minors[c.Choose(len(minors))]
			t := acquire(c, minor)
			defer release(minor, t)
			t.reset()
			c.Logf("go1.%d", minor)
			k := 1 + c.Choose(depth)
			engine := ""
			for i := 0; i < k; i++ {
				m := t.modes[c.Choose(len(t.modes))]
				// setup copies the sources anew when it switches engines
				if e := m[:4]; engine == "" {
					engine = e
				} else if e != engine {
					c.Prune()
				}
				c.Step()
				// cut: only some of the files were written when it was interrupted
				n := len(t.touched)
				cut := n
				style := c.Choose(styles)
				if i == k-1 || style == 0 {
					if i == k-1 && style > 0 {
						c.Prune()
					}
				} else {
					cut = c.Choose(n)
				}
				was := map[string]string{}
				had := map[string]bool{}
				if cut < n {
					for _, f := range t.touched {
						b, err := os.ReadFile(filepath.Join(t.dir, f))
						was[f], had[f] = string(b), err == nil
					}
				}
				if err := t.apply(m); err != nil {
					c.Fail("reapply", "go1.%d %s: %v", minor, m, err)
				}
				if cut < n {
					c.Logf("%s interrupted (%d) at %s", m, style, t.touched[cut])
					for j, f := range t.touched {
						undo := j >= cut // written in order
						if style == 2 {
							undo = j == cut // only this one is old
						} else if style == 3 {
							undo = j != cut // only this one is new
						}
						if !undo {
							continue
						}
						if had[f] {
							h.Write(filepath.Join(t.dir, f), was[f])
						} else {
							os.Remove(filepath.Join(t.dir, f))
						}
					}
					c.State(fmt.Sprint(minor, m, style, cut))
					continue
				}
				c.Logf("%s", m)
				t.compare(c, m)
				c.State(fmt.Sprint(minor, m))
				if i == k-1 && strings.HasPrefix(m, "code") {
					// nothing to do: no file that is edited is written again
					old := time.Unix(1000000000, 0)
					for _, f := range t.touched {
						os.Chtimes(filepath.Join(t.dir, f), old, old)
					}
					h.Must(t.apply(m))
					t.compare(c, m)
					for _, f := range t.touched {
						if _, edited := t.orig[f]; !edited {
							continue
						}
						if fi, err := os.Stat(filepath.Join(t.dir, f)); err == nil && !fi.ModTime().Equal(old) {
							c.Fail("rewritten", "go1.%d %s: %s was written again", minor, m, f)
						}
					}
				}
			}
		}
	}
}

// missing: a file or anchor that is missing is reported, for every file
func missing(minors ...int) func(int) func(*h.Ctx) {
	return func(depth int) func(*h.Ctx) {
		return func(c *h.Ctx) {
			minor := minors[c.Choose(len(minors))]
			t := acquire(c, minor)
			defer release(minor, t)
			t.reset()
			defer t.reset()
			m := t.modes[c.Choose(len(t.modes))]
			var fs []string
			for _, f := range t.touched {
				_, a := t.orig[f]
				_, b := t.fresh[m][f]
				if a && b {
					fs = append(fs, f)
				}
			}
			f := fs[c.Choose(len(fs))]
			p := filepath.Join(t.dir, f)
			how := c.Choose(3)
			c.Step()
			switch how {
			case 0:
				h.Must(os.Remove(p))
			case 1:
				// nothing of what it looks for
				h.Write(p, "package "+filepath.Base(filepath.Dir(p))+"\n")
			case 2:
				h.Must(os.Remove(p))
				h.Must(os.Mkdir(p, 0755))
				defer os.Remove(p)
			}
			c.Logf("go1.%d %s: %s broken %d", minor, m, f, how)
			c.State(fmt.Sprint(minor, m, f, how))
			var err error
			pe, pan := h.Try(func() { err = t.apply(m) })
			if pan {
				c.Fail("panic", "go1.%d %s: %s broken (%d): panic %v", minor, m, f, how, pe)
			}
			if err == nil {
				c.Fail("silent", "go1.%d %s: %s broken (%d) and no error", minor, m, f, how)
			}
			if b, rerr := os.ReadFile(p); how == 1 && (rerr != nil || !bytes.HasPrefix(b, []byte("package ")) || len(b) > 40) {
				c.Fail("partial", "go1.%d %s: %s changed to %q although it cannot be edited", minor, m, f, b)
			}
		}
	}
}

func main() {
	h.Add("c19.file", file(pristine))
	h.Add("c19.crlf", file(strings.ReplaceAll(pristine, "\n\n", "\n\n\n")))
	h.Add("c19.generic", generic)
	h.Add("c19.json", jsonFile)
	h.Add("c19.real", real(4, 23, 24, 25, 26, 27))
	h.Add("c19.cut", real(2, 26, 27))
	h.Add("c19.missing", missing(23, 24, 25, 26, 27))
	h.Main(os.Args[1:])
}
