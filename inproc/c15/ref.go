package main

import (
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"regexp"
	"sort"
	"strings"
)

// The meaning of the patch DSL, written from PATCH_DSL.md: commands over one
// source text give a set of splices, or an error.

type cmd struct {
	op, a, b string
}

func (c cmd) line() string {
	switch c.op {
	case "newline":
		return "newline"
	case "copy_func":
		return "copy_func " + c.a + " as " + c.b + " append to file end"
	case "replace_directive":
		return "replace_directive " + c.a + " with " + c.b
	}
	return c.op + " " + c.a
}

type block struct {
	name string
	cmds []cmd
}

func (b block) text() string {
	s := "<patch " + b.name + ">\n"
	for _, c := range b.cmds {
		s += c.line() + "\n"
	}
	return s + "</patch>\n"
}

func text(bs []block) string {
	s := ""
	for _, b := range bs {
		s += b.text()
	}
	return s
}

type span struct{ s, e int }

type decl struct {
	span
	kind, name, recv string
	at               int // where goto puts the cursor
	lb, rb           int // braces, -1 if none
	fields           map[string]int
}

// decls lists the declarations, inner ones first.
func decls(src string) (ds []decl, body map[string]string, err error) {
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, "", src, 0)
	if err != nil {
		return nil, nil, err
	}
	off := func(p token.Pos) int { return fset.PositionFor(p, false).Offset }
	body = map[string]string{}
	for _, d := range f.Decls {
		switch d := d.(type) {
		case *ast.FuncDecl:
			x := decl{span: span{off(d.Pos()), off(d.End())}, kind: "func", name: d.Name.Name, at: off(d.Pos()), lb: -1, rb: -1}
			if d.Recv != nil {
				x.recv = src[off(d.Recv.Pos())+1 : off(d.Recv.End())-1]
			} else if _, ok := body[d.Name.Name]; !ok {
				body[d.Name.Name] = src[off(d.Pos()):off(d.Name.Pos())] + "\x00" + src[off(d.Name.End()):off(d.End())]
			}
			if d.Body != nil {
				x.lb, x.rb = off(d.Body.Lbrace), off(d.Body.Rbrace)
			}
			ds = append(ds, x)
		case *ast.GenDecl:
			for _, s := range d.Specs {
				x := decl{span: span{off(s.Pos()), off(s.End())}, lb: -1, rb: -1, kind: "other"}
				if t, ok := s.(*ast.TypeSpec); ok {
					x.name, x.at = t.Name.Name, off(t.Name.Pos())
					switch k := t.Type.(type) {
					case *ast.StructType:
						x.kind, x.lb, x.rb, x.fields = "struct", off(k.Fields.Opening), off(k.Fields.Closing), map[string]int{}
						for _, fl := range k.Fields.List {
							for _, n := range fl.Names {
								x.fields[n.Name] = off(n.Pos())
							}
						}
					case *ast.InterfaceType:
						x.kind, x.lb, x.rb = "interface", off(k.Methods.Opening), off(k.Methods.Closing)
					}
				}
				ds = append(ds, x)
			}
			ds = append(ds, decl{span: span{off(d.Pos()), off(d.End())}, lb: -1, rb: -1, kind: "group"})
		}
	}
	return ds, body, nil
}

var ident = regexp.MustCompile(`^[A-Za-z_][A-Za-z_0-9]*$`)
var recvRe = regexp.MustCompile(`^\s*(?:(\w+)\s+)?(\*?)\s*(\w+)\s*(\[.*\])?\s*$`)

// recvMatches: the pattern gives the type, optionally with name, star and type parameters.
func recvMatches(recv, pat string) bool {
	r, p := recvRe.FindStringSubmatch(recv), recvRe.FindStringSubmatch(pat)
	if r == nil || p == nil || r[3] != p[3] {
		return false
	}
	return (p[1] == "" || p[1] == r[1]) && (p[2] == "" || p[2] == r[2]) && (p[4] == "" || p[4] == r[4])
}

type sp struct {
	s, e int
	t    string
	ord  int
}

// eval gives the text without markers.
func eval(src string, b block) (string, error) {
	ds, bodies, err := decls(src)
	if err != nil {
		return "", err
	}
	var out []sp
	var app []string
	off, end, sel := 0, 0, -1
	seq := 0
	moved := false
	// texts of the current cursor: before (last first), replacement, after per offset
	var cur map[string][]string
	var last string
	flush := func() {}
	begin := func(o, e, s int) {
		flush()
		seq++
		off, end, sel, moved = o, e, s, false
		cur, last = map[string][]string{}, ""
		n := seq
		c, o0 := cur, o
		flush = func() {
			if x := c["b"]; x != nil {
				t := ""
				for _, y := range x {
					t = y + t
				}
				out = append(out, sp{o0, o0, t, n*10 + 0})
			}
			if x := c["r"]; x != nil {
				out = append(out, sp{o0, s, strings.Join(x, ""), n*10 + 1})
			}
			if x := c["a0"]; x != nil {
				out = append(out, sp{e, e, strings.Join(x, ""), n*10 + 2})
			}
			if x := c["a1"]; x != nil {
				out = append(out, sp{e + 1, e + 1, strings.Join(x, ""), n*10 + 2})
			}
		}
	}
	here := func() *decl {
		if seq == 0 {
			return nil
		}
		for i := range ds {
			if ds[i].s <= off && off <= ds[i].e {
				// the first declaration in the text, and in it the innermost part
				return &ds[i]
			}
		}
		return nil
	}
	put := func(k, t string) error {
		if seq == 0 {
			return fmt.Errorf("no cursor")
		}
		cur[k] = append(cur[k], t)
		last = k
		return nil
	}
	for _, c := range b.cmds {
		err = nil
		switch c.op {
		case "goto":
			w := strings.SplitN(c.a, " ", 2)
			switch w[0] {
			case "opening", "closing":
				d := here()
				if d == nil || d.lb < 0 {
					return "", fmt.Errorf("no braces")
				}
				if w[0] == "opening" {
					begin(d.lb, d.lb+1, -1)
				} else {
					begin(d.rb, d.rb+1, -1)
				}
			case "field":
				d := here()
				if d == nil || d.fields == nil {
					return "", fmt.Errorf("no struct")
				}
				p, ok := d.fields[w[1]]
				if !ok {
					return "", fmt.Errorf("no field")
				}
				begin(p, p, -1)
			case "struct", "interface":
				ok := false
				for _, d := range ds {
					if d.kind == w[0] && d.name == w[1] {
						begin(d.at, d.at, -1)
						ok = true
						break
					}
				}
				if !ok {
					return "", fmt.Errorf("no type")
				}
			case "func":
				recv, name := "", w[1]
				if strings.HasPrefix(name, "(") {
					i := strings.Index(name, ")")
					recv, name = name[1:i], strings.TrimSpace(name[i+1:])
				}
				ok := false
				for _, d := range ds {
					if d.kind != "func" || d.name != name {
						continue
					}
					if recv == "" && d.recv == "" || recv != "" && d.recv != "" && recvMatches(d.recv, recv) {
						begin(d.at, d.at, -1)
						ok = true
						break
					}
				}
				if !ok {
					return "", fmt.Errorf("no func")
				}
			default:
				return "", fmt.Errorf("bad goto")
			}
		case "match", "find_for_replace":
			s, e := 0, len(src)
			if d := here(); d != nil {
				s, e = d.s, d.e
			}
			i := -1
			if c.op == "find_for_replace" && seq > 0 && s > 0 && off > s && off <= e {
				// the nearest one before the cursor
				i = strings.LastIndex(src[s:off], c.a)
			}
			if i < 0 {
				i = strings.Index(src[s:e], c.a)
			}
			if i < 0 {
				return "", fmt.Errorf("no match")
			}
			x := -1
			if c.op != "match" {
				x = s + i + len(c.a)
			}
			begin(s+i, s+i+len(c.a), x)
		case "insert_before":
			err = put("b", c.a)
		case "insert_after":
			if moved && end < len(src) && src[end] == '\n' {
				err = put("a1", c.a)
			} else {
				err = put("a0", c.a)
			}
		case "insert_after_line":
			moved = true
			if end < len(src) && src[end] == '\n' {
				err = put("a1", c.a)
			} else {
				err = put("a0", c.a)
			}
		case "replace":
			if sel < 0 {
				return "", fmt.Errorf("nothing selected")
			}
			err = put("r", c.a)
		case "newline":
			if last == "" {
				return "", fmt.Errorf("nothing to extend")
			}
			x := cur[last]
			x[len(x)-1] += "\n"
		case "copy_func":
			t, ok := bodies[c.a]
			if !ok || !ident.MatchString(c.b) {
				return "", fmt.Errorf("no func")
			}
			app = append(app, strings.Replace(t, "\x00", c.b, 1))
		case "replace_directive":
			i := -1
			at := 0
			for _, l := range strings.Split(src, "\n") {
				if l == c.a && i < 0 {
					i = at
				}
				at += len(l) + 1
			}
			if i < 0 {
				return "", fmt.Errorf("no directive")
			}
			out = append(out, sp{i, i + len(c.a), c.b, 1 << 30})
		default:
			return "", fmt.Errorf("unknown command")
		}
		if err != nil {
			return "", err
		}
	}
	flush()
	sort.SliceStable(out, func(i, j int) bool {
		a, b := out[i], out[j]
		if a.s != b.s {
			return a.s < b.s
		}
		if (a.e == a.s) != (b.e == b.s) {
			return a.e == a.s
		}
		return a.ord < b.ord
	})
	res, p := "", 0
	for _, x := range out {
		if x.s < p {
			return "", fmt.Errorf("overlap")
		}
		if strings.Contains(src[x.s:x.e], "*/") {
			return "", fmt.Errorf("cannot be recorded")
		}
		res += src[p:x.s] + x.t
		p = x.e
	}
	res += src[p:]
	if app != nil {
		if !strings.HasSuffix(src, "\n") {
			res += "\n"
		}
		res += strings.Join(app, "\n")
	}
	return res, nil
}

var markers = regexp.MustCompile(`(?s)/\*<(begin|end) [^>]*>\*/|/\*old:.*?\*/|/\*<next-line-original [^>]*>.*?</next-line-original>\*/\n`)

// strip removes the bookkeeping comments.
func strip(s string) string { return markers.ReplaceAllString(s, "") }
