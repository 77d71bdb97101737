package main

import (
	"fmt"
	"strings"
)

// SizeCase is a gofmt'ed source file that is large in one construct.
type SizeCase struct {
	Shape string `json:"shape"`
	Size  int    `json:"size"` // about so many bytes
}

var sizeShapes = []struct {
	name string
	max  int // largest useful size
	unit int // bytes of an element
	mk   func(n int) string
}{
	{"many comment lines", 1 << 30, 18, func(n int) string { return "package p\n\n" + strings.Repeat("// a comment line\n", n/18+1) }},
	{"long line comment", 1 << 30, 4, func(n int) string { return "package p\n\n// " + strings.Repeat("x \"'", n/4+1) + "x\nvar x = 1\n" }},
	{"long block comment", 1 << 30, 13, func(n int) string {
		return "package p\n\n/*\n" + strings.Repeat("a line of it\n", n/13+1) + "*/\nvar x = 1\n\nfunc f() {}\n"
	}},
	{"long raw string", 1 << 30, 27, func(n int) string {
		return "package p\n\nvar x = `" + strings.Repeat("raw \\ \" // text\nfunc f() {\n", n/27+1) + "`\n\nfunc f() {}\n"
	}},
	{"long string", 1 << 30, 17, func(n int) string {
		return "package p\n\nvar x = \"" + strings.Repeat("ab \\\" c\\\\ // 世", n/17+1) + "\"\n\nvar y = 1\n"
	}},
	{"long identifier", 1 << 18, 1, func(n int) string {
		id := "x" + strings.Repeat("y", n)
		return "package p\n\nvar " + id + " = 1\n\nfunc (r *" + id + ") F" + id + "(a" + id + " int) T" + id + " {\n\treturn " + id + "\n}\n\ntype T" + id + " struct {\n\tF int\n}\n"
	}},
	{"long number", 1 << 20, 1, func(n int) string { return "package p\n\nconst x = " + strings.Repeat("1", n+1) + "\n\nvar y = 1\n" }},
	{"many variables", 1 << 20, 42, func(n int) string {
		return "package p\n" + strings.Repeat("\nvar _ = map[string]int{\"a\": 1, \"b\": 2}\n", n/42+1)
	}},
	{"many functions", 1 << 20, 82, func(n int) string {
		return "package p\n" + strings.Repeat("\n// F does it.\nfunc (r *T) F(a, b int, c ...string) (x error) {\n\treturn g(a, b)\n}\n", n/82+1)
	}},
	{"many types", 1 << 20, 81, func(n int) string {
		return "package p\n" + strings.Repeat("\ntype T struct {\n\tA, B int\n\tC    []string\n}\n\ntype I interface {\n\tM(a int) error\n}\n", n/81+1)
	}},
	{"long function", 1 << 20, 53, func(n int) string {
		return "package p\n\nfunc f(a int) (b error) {\n" + strings.Repeat("\tif x := g(a, \"s\"); x != nil {\n\t\treturn h(x, 'c')\n\t}\n", n/53+1) + "\treturn nil\n}\n\nfunc g() {}\n"
	}},
	{"long struct", 1 << 19, 34, func(n int) string {
		return "package p\n\ntype T struct {\n" + strings.Repeat("\tA, B map[string]*x.Y `json:\"a\"`\n", n/34+1) + "}\n\nfunc g() {}\n"
	}},
	{"long interface", 1 << 19, 34, func(n int) string {
		return "package p\n\ntype T interface {\n" + strings.Repeat("\tM(a, b int, c ...*x.Y) (d error)\n", n/34+1) + "}\n\nfunc g() {}\n"
	}},
	{"many parameters", 1 << 17, 18, func(n int) string {
		return "package p\n\nfunc f(" + strings.Repeat("a, b int, c *x.Y, ", n/18+1) + "z ...T) (" + strings.Repeat("a error, ", n/18+1) + "y T) {\n}\n\nfunc g() {}\n"
	}},
	{"long type", 1 << 13, 13, func(n int) string {
		return "package p\n\nvar x " + strings.Repeat("map[string][]", n/13+1) + "int\n\nfunc f(a " + strings.Repeat("map[string]*", n/13+1) + "T) " + strings.Repeat("[]", n/13+1) + "T {\n}\n\ntype A " + strings.Repeat("chan *", n/13+1) + "T\n"
	}},
	{"many type parameters", 1 << 15, 8, func(n int) string {
		ps := "A" + strings.Repeat(", BB", n/8)
		return "package p\n\nfunc (r *T[" + ps + "]) M(a int) error {\n}\n\nfunc (T[" + ps + "]) N() {\n}\n\ntype S[" + ps + " any] struct {\n\tx, y T[" + ps + "]\n}\n\nfunc f[" + ps + " any](a T[" + ps + "]) (b int) {\n}\n\ntype I[" + ps + " any] interface {\n\tM(a T[" + ps + "]) error\n}\n"
	}},
	{"long array type", 1 << 13, 6, func(n int) string {
		return "package p\n\nfunc f() " + strings.Repeat("[4]", n/6) + "T {\n}\n\nfunc g(a " + strings.Repeat("[4]", n/6) + "T) (b error) {\n}\n\ntype A " + strings.Repeat("[4]", n/6) + "T\n"
	}},
	{"deep nesting", 1 << 13, 20, func(n int) string {
		k := n/20 + 1
		return "package p\n\nvar x = " + strings.Repeat("f(", k) + strings.Repeat(")", k) + "\n\nvar y = " + strings.Repeat("[]any{", k) + strings.Repeat("}", k) + "\n\nfunc f(a " + strings.Repeat("func(b ", k) + "T" + strings.Repeat(")", k) + ") {\n}\n"
	}},
	{"deep blocks", 1 << 16, 1, func(n int) string {
		k := 2
		for k*k < n {
			k++
		}
		var b strings.Builder
		b.WriteString("package p\n\nfunc f() {\n")
		for i := range k {
			b.WriteString(strings.Repeat("\t", i+1) + "{\n")
		}
		for i := range k {
			b.WriteString(strings.Repeat("\t", k-i) + "}\n")
		}
		b.WriteString("}\n\nfunc g() {}\n")
		return b.String()
	}},
	{"many imports", 1 << 18, 16, func(n int) string {
		var b strings.Builder
		b.WriteString("package p\n\nimport (\n")
		for i := range n/16 + 1 {
			fmt.Fprintf(&b, "\t\"a/b%07d\"\n", i)
		}
		b.WriteString(")\n\nfunc f() {}\n")
		return b.String()
	}},
	{"long line", 1 << 18, 12, func(n int) string {
		return "package p\n\nvar x = " + strings.Repeat("f(1, \"a\") + ", n/12+1) + "1\n\nvar y = 1\n"
	}},
}

func (c SizeCase) text() string {
	for _, s := range sizeShapes {
		if s.name == c.Shape {
			return s.mk(c.Size)
		}
	}
	return "package p\n"
}

// sizeCases lists sizes around the usual buffer sizes for every shape up to max bytes, and larger ones for
// a shape or two that change with the seed.
func sizeCases(max, large int) func(tier string, seed uint64) []SizeCase {
	return func(tier string, seed uint64) []SizeCase {
		sizes := []int{100, 1030, 4100, 16400, 33000, 66000, 132000}
		if tier == "thorough" {
			sizes = []int{70, 130, 260, 520, 1000, 1030, 2050, 4000, 4100, 8200, 10000, 16400, 33000, 50000, 66000, 100000, 132000, 263000, 525000}
			large *= 4
		}
		var out []SizeCase
		for i, s := range sizeShapes {
			for j, n := range sizes {
				if n <= min(max, s.max) {
					out = append(out, SizeCase{s.name, n + int(hash64("size", fmt.Sprint(seed, i, j))%17)})
				}
			}
			for _, v := range theDict().newInts { // about as many elements, or bytes, as a number of the code
				for _, n := range []int{(v - 2) * s.unit, v * s.unit, v} {
					if n > 60 && n <= min(large, s.max) {
						out = append(out, SizeCase{s.name, n})
					}
				}
			}
			if int(seed)%4 == i%4 || s.max > 1<<20 && int(seed)%2 == i%2 || tier == "thorough" {
				if n := min(large, s.max); n > max {
					out = append(out, SizeCase{s.name, n})
				}
			}
		}
		return out
	}
}

// sizedSub makes a sub-check of a property over large gofmt'ed sources.
func sizedSub(max, large int, check func(string, *Obs) error) *Sub {
	return listed("sized", "gofmt'ed source file that is large in one construct (sizes around powers of two from 100 bytes); non-trivial: 4000 bytes",
		sizeCases(max, large), func(c SizeCase, o *Obs) error {
			src := c.text()
			o.Label(c.Shape)
			var o2 Obs
			err := check(src, &o2)
			if len(src) >= 4000 {
				o.Nontrivial()
			}
			return err
		})
}
