"""Generates packages holding every combination of receiver, type parameters,
parameters and results of a small grammar, with tables of their values."""
import os

RECV = [("", ""), ("t", "T"), ("t", "*T"), ("", "T"), ("", "*T"), ("_", "T"), ("_", "*T"),
        ("m", "Mp"), ("fn", "*Fn"), ("i", "Num"), ("em", "Em"), ("em", "*Em"), ("em", "*Em2"),
        ("g", "G[K]"), ("g", "*G[K]"), ("", "G[K]"), ("_", "*G[_]"), ("g", "G2[K, V]"), ("g", "*G2[K, V]")]
PARAM = ["", "a int", "int", "_ int", "a, b int", "a ...int", "ctx context.Context", "_ context.Context, b int",
         "context.Context, string", "a int, _ string", "f func(x int) (y int), T int", "x struct{ a, b int }, y *T, z map[string][]int", "...string", "a int, ee error", "c myctx, d int"]
RES = ["", "int", "(int)", "(r int)", "(_ int)", "(r int, err error)", "(int, error)", "error", "(p, q int)",
       "(_ int, _ error)", "func(int) error", "(r, _ int, s string, err error)", "(err error, n int)", "*myerr", "(re myerri)"]
PRE = """
type T struct{ X int }
type Mp map[string]int
type Fn func() int
type Num int
type Em struct{ T }
type Em2 struct{ *Em }
type G[K any] struct{ V K }
type G2[K comparable, V any] struct{ M map[K]V }
type myctx interface{ context.Context }
type myerr struct{}
func (*myerr) Error() string { return "" }
type myerri interface{ error }

type (
	I1 interface{}
	I2 interface { A(); B(int) string }
	i3 interface { I2; error }
	Con interface { ~int | ~string }
	NotAnInterface = T
)
type GI[P any] interface { Get() P }
type AliasI = interface{ Z() }
"""
INST = {"G": "G[int]", "G2": "G2[string, []int]"}


def combos(full):
    out = []
    for ri, r in enumerate(RECV):
        for pi, p in enumerate(PARAM):
            for qi, q in enumerate(RES):
                # every pair; every triple for functions and pointer methods
                if not (full and ri in (0, 2)) and (pi + 3 * ri) % 15 != qi and (not full or (pi * 7 + ri) % 15 != qi):
                    continue
                out.append((r, "", p, q))
    for pi, p in enumerate(PARAM):
        for qi, q in enumerate(RES):
            if not full and (pi + qi) % 5:
                continue
            out.append((("", ""), "[P any]", p, q))
            if full and (pi + qi) % 7 == 0:
                out.append((("", ""), "[P ~int, Q any]", p, q))
    return out


def gen(dst, pkg, full=True, perfile=200, prefix="M", limit=None):
    """Writes the package; returns the number of functions."""
    os.makedirs(dst)
    cs = combos(full)
    if limit and len(cs) > limit:
        step = len(cs) / limit
        cs = [cs[int(i * step)] for i in range(limit)]
    values, inst = [], []
    for base in range(0, len(cs), perfile):
        out = ["package " + pkg, "", 'import "context"', "", "var _ context.Context", ""]
        for n, ((rn, rt), tp, p, q) in enumerate(cs[base:base + perfile]):
            i = base + n
            name = "%s%d" % (prefix, i)
            if not rt and i % 3 == 1:
                name = "F%s_%d" % (prefix, i)
            recv = "(%s %s) " % (rn, rt) if rt else ""
            if n % 4 == 1:
                out.append("// doc of %s" % name)
            body = "{ panic(%d) }" % i if n % 2 else "{\n\tpanic(%d)\n}" % i
            if n % 5 == 2 and p:
                p = p.replace(", ", ",\n\t")
                out.append("func %s%s%s(\n\t%s,\n) %s %s" % (recv, name, tp, p, q, body))
            else:
                out.append("func %s%s%s(%s) %s %s" % (recv, name, tp, p, q, body))
            if n % 3 == 0:
                out.append("")
            t = rt.lstrip("*").split("[")[0]
            star = rt.startswith("*")
            gen_recv = "[" in rt
            ident = name if not rt else ("(*%s).%s" % (t, name) if star else "%s.%s" % (t, name))
            if gen_recv or tp:
                e = name + ("[int]" if tp == "[P any]" else "[int, string]") if tp else \
                    ("(*%s).%s" % (INST[t], name) if star else "%s.%s" % (INST[t], name))
                inst.append('\t"%s": %s,' % (ident, e))
            else:
                values.append('\t"%s": %s,' % (ident, ident))
        with open(os.path.join(dst, "s%d.go" % (base // perfile)), "w") as f:
            f.write("\n".join(out) + "\n")
    with open(os.path.join(dst, "types.go"), "w") as f:
        f.write("package %s\n\nimport \"context\"\n%s" % (pkg, PRE))
    with open(os.path.join(dst, "tables.go"), "w") as f:
        f.write("package %s\n\n// Values holds every function that is not generic.\nvar Values = map[string]interface{}{\n%s\n}\n\n"
                "// Inst holds instances of the generic ones.\nvar Inst = map[string]interface{}{\n%s\n}\n" % (pkg, "\n".join(values), "\n".join(inst)))
    return len(cs)


if __name__ == "__main__":
    import sys
    print(gen(sys.argv[1], "shapes"))
