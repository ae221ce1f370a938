package main

import (
	"errors"
	"fmt"
	"go/version"
	"math/big"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strings"

	"github.com/xhd2015/xgo/cmd/xgo/verifh/h"
	"github.com/xhd2015/xgo/cmd/xgo/verifh/xmod/modfile"
	"github.com/xhd2015/xgo/cmd/xgo/verifh/xmod/semver"
	"github.com/xhd2015/xgo/support/goinfo"
	"github.com/xhd2015/xgo/support/testconfig"
)

func sign(n int) int {
	if n < 0 {
		return -1
	}
	if n > 0 {
		return 1
	}
	return 0
}

func words(alphabet []string, max int) []string {
	out := []string{""}
	seen := map[string]bool{"": true}
	last := out
	for i := 0; i < max; i++ {
		var next []string
		for _, w := range last {
			for _, a := range alphabet {
				x := w + a
				if !seen[x] {
					seen[x] = true
					next = append(next, x)
				}
			}
		}
		out = append(out, next...)
		last = next
	}
	return out
}

// --- go versions (1.21, 1.22rc1) ---

var goAlpha = []string{"0", "1", "9", "21", ".", "rc", "beta", "+", " ", "A", "x"}

// goVersions: every word, compared with the standard library's opinion of "go"+word
func goVersions(depth int) func(c *h.Ctx) {
	return func(c *h.Ctx) {
		w := h.Word(c, goAlpha, 0, depth)
		c.Logf("%q", w)
		c.Step()
		c.State(w)
		want := version.IsValid("go" + w)
		if got := goinfo.IsValidVersion(w); got != want {
			c.Fail("valid", "IsValidVersion(%q) = %v, the Go release scheme says %v", w, got, want)
		}
		v := goinfo.ParseVersion(w)
		if !want {
			if v != (goinfo.Version{}) {
				c.Fail("malformed", "ParseVersion(%q) = %+v for a malformed version", w, v)
			}
			return
		}
		// the parts spell the version
		m := regexp.MustCompile(`^(\d+)(?:\.(\d+))?(?:\.(\d+))?(?:([a-z]+)(\d*))?$`).FindStringSubmatch(w)
		if m == nil {
			c.Fail("parts", "reference cannot split %q", w)
		}
		if v.Major != m[1] || m[2] != "" && v.Minor != m[2] || m[3] != "" && v.Patch != m[3] || v.Kind != m[4] || v.Pre != m[5] {
			c.Fail("parts", "ParseVersion(%q) = %+v", w, v)
		}
		for _, tc := range []string{"go" + w, "go" + w + "-custom", "go" + w + " X:foo", "go" + w + "\tx"} {
			if got := goinfo.FromToolchain(tc); got != w {
				c.Fail("toolchain", "FromToolchain(%q) = %q, expected %q", tc, got, w)
			}
		}
		for _, tc := range []string{w, "gO" + w, "go" + w + "/x", "go" + w + "-a\\b", "go" + w + "A"} {
			if got := goinfo.FromToolchain(tc); got != "" {
				c.Fail("toolchain", "FromToolchain(%q) = %q, expected none", tc, got)
			}
		}
	}
}

// goOrder: every pair of words
func goOrder(depth int) func(c *h.Ctx) {
	ws := words(goAlpha, depth)
	var valid []string
	bad := []string{"", "x", "1.", "1.21.0rc1", "01", "1.2.3.4"}
	for _, w := range ws {
		if version.IsValid("go" + w) {
			valid = append(valid, w)
		}
	}
	sort.Strings(valid)
	all := append(append([]string{}, valid...), bad...)
	return func(c *h.Ctx) {
		x := all[c.Choose(len(all))]
		c.Logf("%q against all", x)
		for _, y := range all {
			c.Step()
			want := version.Compare("go"+x, "go"+y)
			if got := goinfo.CompareVersion(x, y); sign(got) != want {
				c.Fail("compare", "CompareVersion(%q, %q) = %d, the Go release order says %d", x, y, got, want)
			}
			if got := goinfo.ModCompare("go", x, y); sign(got) != want {
				c.Fail("compare", "ModCompare(go, %q, %q) = %d, expected %d", x, y, got, want)
			}
			if got := goinfo.ModCompare("toolchain", "go"+x, "go"+y); sign(got) != want && version.IsValid("go"+x) && version.IsValid("go"+y) {
				c.Fail("compare", "ModCompare(toolchain, go%s, go%s) = %d, expected %d", x, y, got, want)
			}
		}
	}
}

// --- semantic versions ---

var semAlpha = []string{"v", "0", "1", "10", ".", "-", "+", "a", "B"}

var semRe = regexp.MustCompile(`^v(0|[1-9]\d*)(?:\.(0|[1-9]\d*)(?:\.(0|[1-9]\d*)(?:-((?:0|[1-9]\d*|\d*[a-zA-Z-][0-9a-zA-Z-]*)(?:\.(?:0|[1-9]\d*|\d*[a-zA-Z-][0-9a-zA-Z-]*))*))?(?:\+([0-9a-zA-Z-]+(?:\.[0-9a-zA-Z-]+)*))?)?)?$`)

func bigOf(s string) *big.Int {
	if s == "" {
		s = "0"
	}
	n, _ := new(big.Int).SetString(s, 10)
	return n
}

// semCmp is semver.org's precedence
func semCmp(x, y string) int {
	mx, my := semRe.FindStringSubmatch(x), semRe.FindStringSubmatch(y)
	switch {
	case mx == nil && my == nil:
		return 0
	case mx == nil:
		return -1
	case my == nil:
		return 1
	}
	for i := 1; i <= 3; i++ {
		if c := bigOf(mx[i]).Cmp(bigOf(my[i])); c != 0 {
			return c
		}
	}
	px, py := mx[4], my[4]
	if px == py {
		return 0
	}
	if px == "" {
		return 1
	}
	if py == "" {
		return -1
	}
	ix, iy := strings.Split(px, "."), strings.Split(py, ".")
	for i := 0; i < len(ix) && i < len(iy); i++ {
		a, b := ix[i], iy[i]
		if a == b {
			continue
		}
		na := strings.Trim(a, "0123456789") == ""
		nb := strings.Trim(b, "0123456789") == ""
		switch {
		case na && nb:
			return bigOf(a).Cmp(bigOf(b))
		case na:
			return -1
		case nb:
			return 1
		default:
			return strings.Compare(a, b)
		}
	}
	return len(ix) - len(iy)
}

func semVersions(depth int) func(c *h.Ctx) {
	return func(c *h.Ctx) {
		w := h.Word(c, semAlpha, 0, depth)
		pre := []string{"", "v1", "v1.2", "v1.2.3", "v1.0.0-a"}[c.Choose(5)]
		w = pre + w
		c.Logf("%q", w)
		c.Step()
		c.State(w)
		want := semRe.MatchString(w)
		if want != semver.IsValid(w) {
			c.Fail("reference", "the references disagree on %q", w)
		}
		if got := goinfo.IsValidSemVer(w); got != want {
			c.Fail("semver-valid", "IsValidSemVer(%q) = %v, expected %v", w, got, want)
		}
	}
}

func semOrder(depth int) func(c *h.Ctx) {
	var all []string
	for _, core := range []string{"v0", "v1", "v9", "v10", "v1.0", "v1.2", "v1.0.0", "v1.2.0", "v1.10.0", "v1.0.9", "v1.0.10", "v2.0.0"} {
		all = append(all, core)
		if strings.Count(core, ".") != 2 {
			continue
		}
		for _, p := range words([]string{"0", "1", "10", ".", "-", "a", "B"}, depth) {
			if core != "v1.0.0" && len(p) > 2 {
				continue
			}
			if s := core + "-" + p; semRe.MatchString(s) {
				all = append(all, s)
				if len(p) < 2 {
					all = append(all, s+"+b", s+"+1.c")
				}
			}
		}
		all = append(all, core+"+b")
	}
	all = append(all, "", "1.0.0", "v", "v1.0.0.0", "v01", "v1-a", "v1.0.0-01", "v1.0.0-", "v1.0.0+")
	return func(c *h.Ctx) {
		x := all[c.Choose(len(all))]
		c.Logf("%q against all", x)
		for _, y := range all {
			c.Step()
			want := sign(semCmp(x, y))
			if want != semver.Compare(x, y) {
				c.Fail("reference", "the references disagree on %q, %q", x, y)
			}
			if got := goinfo.CompareSemVer(x, y); sign(got) != want {
				c.Fail("semver-compare", "CompareSemVer(%q, %q) = %d, expected %d", x, y, got, want)
			}
			if got := goinfo.ModCompare("a.com/b", x, y); sign(got) != want {
				c.Fail("semver-compare", "ModCompare(a.com/b, %q, %q) = %d, expected %d", x, y, got, want)
			}
		}
	}
}

// --- output of `go version` ---

func goVersionLine(depth int) func(c *h.Ctx) {
	alpha := []string{"0", "1", "23", ".", "rc", "beta", "-", "+", "_", " ", "x", "e"}
	numRe := regexp.MustCompile(`^(\d+)(?:\.(\d+)(?:\.(\d+))?)?$`)
	preRe := regexp.MustCompile(`^(\d+)\.(\d+)(?:rc|beta)(\d+)$`)
	return func(c *h.Ctx) {
		w := h.Word(c, alpha, 0, depth)
		c.Logf("%q", w)
		c.State(w)
		c.Step()
		v, err := goinfo.ParseGoVersionNumber(w)
		m := numRe.FindStringSubmatch(w)
		pre := preRe.FindStringSubmatch(w)
		switch {
		case m != nil || pre != nil:
			for _, d := range regexp.MustCompile(`\d+`).FindAllString(w, -1) {
				if len(d) > 9 {
					return // more than an int holds
				}
			}
			var want goinfo.GoVersion
			if m != nil {
				fmt.Sscan(m[1], &want.Major)
				for i, p := range []*int{&want.Minor, &want.Patch} {
					if m[2+i] != "" {
						*p = int(bigOf(m[2+i]).Int64())
					}
				}
				want.Major = int(bigOf(m[1]).Int64())
			} else {
				want.Major, want.Minor = int(bigOf(pre[1]).Int64()), int(bigOf(pre[2]).Int64())
			}
			if err != nil || *v != want {
				c.Fail("number", "ParseGoVersionNumber(%q) = %+v, %v; expected %+v", w, v, err, want)
			}
		default:
			// not the number of a release: an error, or at least the numbers that
			// the text starts with, when a suffix follows them
			if err == nil {
				lead := regexp.MustCompile(`^(\d+)\.(\d+)[^0-9.+-]`).FindStringSubmatch(w)
				if lead == nil {
					lead = regexp.MustCompile(`^(\d+)\.(\d+)[-+]`).FindStringSubmatch(w)
				}
				if lead == nil || strings.Count(w, ".") != 1 || v.Major != int(bigOf(lead[1]).Int64()) || v.Minor != int(bigOf(lead[2]).Int64()) || v.Patch != 0 {
					c.Fail("malformed-number", "ParseGoVersionNumber(%q) = %+v for a malformed version", w, v)
				}
			}
		}
		if strings.Contains(w, " ") {
			return
		}
		for _, mid := range []string{"", " X:loopvar", " (Red Hat 1.23-1.el9)"} {
			for _, oa := range [][2]string{{"linux", "amd64"}, {"darwin", "arm64"}} {
				line := "go version go" + w + mid + " " + oa[0] + "/" + oa[1]
				c.Step()
				l, lerr := goinfo.ParseGoVersion(line)
				if (lerr == nil) != (err == nil) {
					c.Fail("line", "ParseGoVersion(%q): %v, while ParseGoVersionNumber(%q): %v", line, lerr, w, err)
				}
				if lerr != nil {
					continue
				}
				want := *v
				want.OS, want.Arch = oa[0], oa[1]
				if *l != want {
					c.Fail("line", "ParseGoVersion(%q) = %+v, expected %+v", line, *l, want)
				}
				back, berr := goinfo.ParseGoVersion(l.String())
				if berr != nil || *back != *l {
					c.Fail("round-trip", "ParseGoVersion(%q) = %+v prints as %q, which parses as %+v, %v", line, *l, l.String(), back, berr)
				}
			}
		}
		for _, line := range []string{"go version " + w + " linux/amd64", "go " + w, "go version go" + w, "go version go" + w + "linux/amd64", "go version devel go" + w + " linux/amd64", "version go" + w + " linux/amd64", "go version go" + w + " linux"} {
			if l, lerr := goinfo.ParseGoVersion(line); lerr == nil {
				c.Fail("malformed-line", "ParseGoVersion(%q) = %+v for a malformed line", line, *l)
			}
		}
	}
}

func goConstraint(depth int) func(c *h.Ctx) {
	var vs []goinfo.GoVersion
	for _, a := range []int{0, 1, 2} {
		for _, b := range []int{0, 9, 17, 18, 100}[:depth] {
			for _, p := range []int{0, 1, 12}[:min(depth, 3)] {
				vs = append(vs, goinfo.GoVersion{Major: a, Minor: b, Patch: p, OS: "linux", Arch: "amd64"})
			}
		}
	}
	return func(c *h.Ctx) {
		x := vs[c.Choose(len(vs))]
		y := vs[c.Choose(len(vs))]
		c.Logf("%v %v", x, y)
		c.Step()
		want := sign(x.Major - y.Major)
		if want == 0 {
			want = sign(x.Minor - y.Minor)
		}
		if got := testconfig.CompareGoVersion(&x, &y, true); sign(got) != want {
			c.Fail("config-compare", "CompareGoVersion(%v, %v, ignore patch) = %d, expected %d", x, y, got, want)
		}
		if want == 0 {
			want = sign(x.Patch - y.Patch)
		}
		if got := testconfig.CompareGoVersion(&x, &y, false); sign(got) != want {
			c.Fail("config-compare", "CompareGoVersion(%v, %v) = %d, expected %d", x, y, got, want)
		}
	}
}

func min(a, b int) int {
	if a < b {
		return a
	}
	return b
}

// --- go.mod ---

var modLines = []string{
	"module a.com/b",
	"module\ta.com/t",
	"module \"a.com/q\"",
	"module `a.com/r`",
	"module (",
	"\ta.com/blk // c",
	")",
	"// module a.com/no",
	"  module   a.com/sp  // module a.com/no",
	"module a.com/v2//c",
	"modulex a.com/x",
	"go 1.18",
	"require (",
	"\tmodule v1.0.0",
	"require module v1.0.0",
	"replace module => ../m",
	"",
	"module",
	"retract v1.0.0 // module a",
}

func goMod(depth int) func(c *h.Ctx) {
	return func(c *h.Ctx) {
		n := c.Choose(depth + 1)
		var ls []string
		for i := 0; i < n; i++ {
			ls = append(ls, modLines[c.Choose(len(modLines))])
		}
		eol := []string{"\n", "\r\n"}[c.Choose(2)]
		text := strings.Join(ls, eol)
		if c.Bool() {
			text += eol
		}
		c.Logf("%q", text)
		c.State(text)
		c.Step()
		f, err := modfile.ParseLax("go.mod", []byte(text), nil)
		if err != nil {
			return // the go command rejects it
		}
		want := ""
		if f.Module != nil {
			want = f.Module.Mod.Path
		}
		d, rm := h.Scratch()
		defer rm()
		h.Write(filepath.Join(d, "go.mod"), text)
		sub, got, err := goinfo.ResolveMainModule(d)
		if want == "" {
			if err == nil {
				c.Fail("mod", "go.mod %q states no module path, but ResolveMainModule says %q", text, got)
			}
			if !errors.Is(err, goinfo.ErrGoModDoesNotHaveModule) {
				c.Fail("mod", "go.mod %q: %v", text, err)
			}
			return
		}
		if err != nil || got != want || len(sub) != 0 {
			c.Fail("mod", "go.mod %q: ResolveMainModule = %q, %q, %v; the module is %q", text, sub, got, err, want)
		}
	}
}

// goModDirs: trees a/b/c, each directory with or without a go.mod
func goModDirs(depth int) func(c *h.Ctx) {
	names := []string{"p", "q", "p", "r.x", "s"}
	return func(c *h.Ctx) {
		root, rm := h.Scratch()
		defer rm()
		dirs := []string{root}
		for i := 0; i < depth; i++ {
			dirs = append(dirs, filepath.Join(dirs[i], names[i]))
		}
		h.Must(os.MkdirAll(dirs[depth], 0755))
		kinds := make([]int, depth+1)
		at := -1
		start := c.Choose(depth + 1)
		for i := 0; i <= depth; i++ {
			kinds[i] = c.Choose(3)
			switch kinds[i] {
			case 1:
				h.Write(filepath.Join(dirs[i], "go.mod"), "module m"+fmt.Sprint(i)+".com/x\n")
				if i <= start {
					at = i
				}
			case 2:
				h.Must(os.Mkdir(filepath.Join(dirs[i], "go.mod"), 0755))
			}
		}
		spell := c.Choose(3)
		dir := dirs[start]
		switch spell {
		case 1:
			dir += "/"
		case 2:
			dir = filepath.Dir(dir) + "/./" + filepath.Base(dir) + "/x/.."
		}
		c.Logf("kinds=%v start=%d spell=%d", kinds, start, spell)
		c.Step()
		sub, mod, err := goinfo.ResolveMainModule(dir)
		sub2, at2, err2 := goinfo.FindGoModDirSubPath(dir)
		at3, err3 := goinfo.FindGoModDir(dir)
		main4, pkg4, err4 := goinfo.ResolveModulePkgPath(dir)
		if at < 0 {
			if err == nil || err2 == nil || err3 == nil || err4 == nil {
				c.Fail("no-mod", "no go.mod above, but: %q %v, %q %v, %q %v, %q %v", mod, err, at2, err2, at3, err3, pkg4, err4)
			}
			return
		}
		wantSub := fmt.Sprint(names[at:start])
		wantMod := "m" + fmt.Sprint(at) + ".com/x"
		if err != nil || mod != wantMod || fmt.Sprint(sub) != wantSub {
			c.Fail("find-mod", "ResolveMainModule = %q, %q, %v; expected %s, %q", sub, mod, err, wantSub, wantMod)
		}
		if err2 != nil || at2 != dirs[at] || fmt.Sprint(sub2) != wantSub {
			c.Fail("find-sub", "FindGoModDirSubPath = %q, level %d, %v; expected %s, level %d", sub2, strings.Count(at2, "/")-strings.Count(root, "/"), err2, wantSub, at)
		}
		if err3 != nil || at3 != dirs[at] {
			c.Fail("find-sub", "FindGoModDir: %v", err3)
		}
		wantPkg := strings.Join(append([]string{wantMod}, names[at:start]...), "/")
		if err4 != nil || main4 != wantMod || pkg4 != wantPkg {
			c.Fail("find-pkg", "ResolveModulePkgPath = %q, %q, %v; expected %q", main4, pkg4, err4, wantPkg)
		}
	}
}

func within(depth int) func(c *h.Ctx) {
	alpha := []string{"a", "b", "/", "."}
	return func(c *h.Ctx) {
		p := h.Word(c, alpha, 0, depth)
		m := h.Word(c, alpha, 1, depth-1)
		c.Logf("%q %q", p, m)
		c.Step()
		suf, ok := goinfo.PkgWithinModule(p, m)
		want := p == m || strings.HasPrefix(p, m+"/")
		wsuf := ""
		if want && p != m {
			wsuf = p[len(m)+1:]
		}
		if ok != want || suf != wsuf {
			c.Fail("within", "PkgWithinModule(%q, %q) = %q, %v", p, m, suf, ok)
		}
	}
}

// --- vendor/modules.txt ---

var venLines = []string{
	"# a.com/m v1.0.0",
	"# a.com/m v1.2.0 => ../m",
	"# a.com/n v0.1.0 => a.com/k v0.2.0",
	"# a.com/m => ./fork",
	"# a.com/n latest",
	"## explicit; go 1.17",
	"## explicit",
	"## go 1.20",
	"a.com/m/p",
	"a.com/n",
	"",
	"not a package",
}

func vendor(depth int) func(c *h.Ctx) {
	type meta struct {
		explicit bool
		repl, gv string
	}
	return func(c *h.Ctx) {
		n := c.Choose(depth + 1)
		var ls []string
		for i := 0; i < n; i++ {
			ls = append(ls, venLines[c.Choose(len(venLines))])
		}
		text := strings.Join(ls, "\n")
		c.Logf("%q", text)
		c.State(text)
		c.Step()
		// reference: one current module, at most
		cur := ""
		metas := map[string]meta{}
		pkgs := map[string]string{}
		vers := map[string]string{}
		var list, replaced []string
		for _, l := range ls {
			switch l {
			case "", "not a package":
			case "# a.com/m v1.0.0":
				cur = "a.com/m@v1.0.0"
			case "# a.com/m v1.2.0 => ../m":
				cur = "a.com/m@v1.2.0"
				x := metas[cur]
				x.repl = "../m@"
				metas[cur] = x
				replaced = append(replaced, cur)
			case "# a.com/n v0.1.0 => a.com/k v0.2.0":
				cur = "a.com/n@v0.1.0"
				x := metas[cur]
				x.repl = "a.com/k@v0.2.0"
				metas[cur] = x
				replaced = append(replaced, cur)
			case "# a.com/m => ./fork":
				cur = "a.com/m@"
				x := metas[cur]
				x.repl = "./fork@"
				metas[cur] = x
				replaced = append(replaced, cur)
			case "# a.com/n latest":
				cur = ""
			default:
				if cur == "" {
					continue
				}
				if strings.HasPrefix(l, "## ") {
					x := metas[cur]
					if strings.Contains(l, "explicit") {
						x.explicit = true
					}
					if i := strings.Index(l, "go "); i >= 0 {
						x.gv = l[i+3:]
					}
					metas[cur] = x
					continue
				}
				pkgs[l] = cur
				at := strings.Index(cur, "@")
				p, v := cur[:at], cur[at+1:]
				old, ok := vers[p]
				if !ok || semCmp(old, v) < 0 {
					list = append(list, cur)
					vers[p] = v
				}
			}
		}
		var got *goinfo.VendorInfo
		if c.Bool() {
			d, rm := h.Scratch()
			defer rm()
			h.Write(filepath.Join(d, "modules.txt"), text)
			arg := d
			if c.Bool() {
				arg = filepath.Join(d, "modules.txt")
			}
			g, err := goinfo.ParseVendor(arg)
			h.Must(err)
			got = g
		} else {
			got = goinfo.ParseVendorContent(text)
		}
		s := func(m goinfo.ModVersion) string { return m.Path + "@" + m.Version }
		var gl, gr []string
		for _, m := range got.VendorList {
			gl = append(gl, s(m))
		}
		for _, m := range got.VendorReplaced {
			gr = append(gr, s(m))
		}
		gp := map[string]string{}
		for k, v := range got.VendorPkgModule {
			gp[k] = s(v)
		}
		gm := map[string]meta{}
		for k, v := range got.VendorMeta {
			r := s(v.Replacement)
			if r == "@" {
				r = ""
			}
			gm[s(k)] = meta{v.Explicit, r, v.GoVersion}
		}
		for _, x := range [][2]interface{}{{gl, list}, {gr, replaced}, {gp, pkgs}, {gm, metas}, {got.VendorVersion, vers}} {
			if a, b := fmt.Sprint(x[0]), fmt.Sprint(x[1]); a != b {
				c.Fail("vendor", "modules.txt %q: got %s, expected %s", text, a, b)
			}
		}
	}
}

func main() {
	h.Add("gover", goVersions)
	h.Add("goorder", goOrder)
	h.Add("semver", semVersions)
	h.Add("semorder", semOrder)
	h.Add("goline", goVersionLine)
	h.Add("goconstraint", goConstraint)
	h.Add("gomod", goMod)
	h.Add("moddirs", goModDirs)
	h.Add("within", within)
	h.Add("vendor", vendor)
	h.Main(os.Args[1:])
}
