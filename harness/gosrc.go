package main

// A generator of syntactically valid Go source files, drawn with rapid. The oracles read the source
// with go/parser and go/scanner, so the generator only has to produce variety, not to remember it.

import (
	"fmt"
	"go/format"
	"go/scanner"
	"go/token"
	"strconv"
	"strings"

	"pgregory.net/rapid"
)

type gen struct {
	big   int // histories on long chains: so many nodes
	t     *rapid.T
	noLit bool // no composite literal here (if, for and switch headers)
	nl    int
	o     srcOpts

	turned bool
	turn   uint64
}

type srcOpts struct {
	MaxDecls  int
	Comments  bool // comments between declarations and at line ends
	Injected  bool // comments between any two tokens
	Bodies    bool // func bodies with statements
	NoGroups  bool
	TypesOnly bool // only func and type declarations
}

var intGens = map[int]*rapid.Generator[int]{}

// n draws an int in [0,k).
func (g *gen) n(k int) int {
	if k <= 1 {
		return 0
	}
	ig := intGens[k]
	if ig == nil {
		ig = rapid.IntRange(0, k-1)
		intGens[k] = ig
	}
	return ig.Draw(g.t, "")
}

// p is true in about c of 100 cases; false is the simple choice.
func (g *gen) p(c int) bool { return g.n(100) >= 100-c }

// pick draws an element. rapid prefers small numbers, so half of the generators begin the lists at another place.
func (g *gen) pick(s []string) string {
	if !g.turned {
		g.turned = true
		if x := rapid.Uint64().Draw(g.t, ""); x%2 == 1 {
			x = (x ^ x>>31) * 0x9E3779B97F4A7C15
			g.turn = (x ^ x>>29) * 0xBF58476D1CE4E5B9 >> 33
		}
	}
	return s[(g.n(len(s))+int(g.turn%uint64(len(s))))%len(s)]
}

func (g *gen) many(max int, f func(i int) string, sep string) string {
	k := g.n(max + 1)
	parts := make([]string, 0, k)
	for i := range k {
		parts = append(parts, f(i))
	}
	return strings.Join(parts, sep)
}

var plainIdents = []string{
	"a", "b", "x", "foo", "Bar", "T", "err", "ctx", "fn", "ok", "i", "val", "names", "Server", "handler",
	"funcs", "functor", "typed", "typeName", "types", "packages", "packageName", "imports", "important", "variable",
	"vars", "constant", "consts", "structs", "structure", "interfaceX", "interfaces", "mapper", "maps", "channel", "chans",
	"_x", "x_y", "A1", "int8x", "stringer", "returns", "goo", "gopher", "deferred", "breaker", "ranges",
	"é", "世界", "Ωmega", "ñandú", "x世", "日本語の長い名前", "Raw", "Comment", "String", "Func", "Type", "x1234567890",
	"__", "_1", "l", "O0", "e1", "E9", "p", "selfʹ"[:4], "main", "init", "Package",
}

var predeclared = []string{
	"int", "string", "bool", "byte", "rune", "float64", "uint", "uintptr", "complex128", "error", "any", "comparable",
	"len", "cap", "nil", "true", "false", "iota", "int8", "int16", "int32", "int64", "uint8", "uint16", "uint32", "uint64",
	"float32", "complex64", "append", "make", "new", "panic",
}

var basicTypes = []string{
	"int", "string", "bool", "byte", "rune", "int8", "int16", "int32", "int64", "uint", "uint8", "uint16", "uint32",
	"uint64", "uintptr", "float32", "float64", "complex64", "complex128",
}

func (g *gen) ident() string {
	if w, ok := g.wordIdent(); ok {
		return w
	}
	switch k := g.n(20); {
	case k < 15:
		return g.pick(plainIdents)
	case k < 17:
		return g.pick(predeclared)
	case k == 17:
		return g.pick(plainIdents) + strconv.Itoa(g.n(100))
	case k == 18 && g.p(70):
		return g.uniIdent()
	case k == 18:
		return "long" + strings.Repeat("Name", g.n(80))
	default:
		// a keyword, an operator word or an odd character at one end of a name
		w := g.pick([]string{"func", "type", "package", "struct", "interface", "import", "map", "chan", "var", "const", "func", "struct", "interface",
			"Struct", "世", "_", "Import", "range", "go", "case", "default", "int", "string", "error", "any", "iota", "nil", "x", "e", "\u0661"})
		switch g.n(4) {
		case 0:
			return "my" + w
		case 1:
			if w[0] < 0x80 {
				return w + g.pick([]string{"s", "_", "0", "Map", "é"})
			}
			return "_" + w
		}
		return g.pick(plainIdents) + w
	}
}

// name is the name of a declaration or parameter.
func (g *gen) name() string {
	if g.p(4) {
		return "_"
	}
	return g.ident()
}

func (g *gen) typeIdent() string {
	switch g.n(5) {
	case 0, 1:
		return g.pick(basicTypes)
	case 2:
		return g.pick([]string{"error", "any"})
	default:
		return g.ident()
	}
}

func (g *gen) qualified() string {
	return g.pick([]string{"context", "http", "pkg", "x", "tést"}) + "." + g.pick([]string{"Context", "Request", "T", "Type", "Funcs", "Ünit"})
}

func (g *gen) typ(d int) string {
	if d <= 0 {
		if g.p(20) {
			return g.qualified()
		}
		return g.typeIdent()
	}
	switch g.n(21) {
	case 20: // a long type
		pre := ""
		for range 1 + g.n(8) {
			pre += g.pick([]string{"[]", "*", "[4]", "[n]", "map[int]", "map[A]", "map[[2]T]", "map[p.K]"})
		}
		return pre + g.typ(d-1)
	case 0, 1, 2, 3:
		return g.typeIdent()
	case 4:
		return g.qualified()
	case 5, 6:
		return "*" + g.typ(d-1)
	case 7, 8:
		return "[]" + g.typ(d-1)
	case 9:
		return "[" + g.pick([]string{"3", "0", "n", "2*n", "len(x)", "1 << 4", "len([1][len([1][len([2]int{})]int{})]int{})", "'a'", "len(\"a]b\")", "len(`x}`)"}) + "]" + g.typ(d-1)
	case 10, 11:
		return "map[" + g.typ(d-1) + "]" + g.typ(d-1)
	case 12:
		return "chan " + g.typ(d-1)
	case 13:
		return "<-chan " + g.typ(d-1)
	case 14:
		return "chan<- " + g.typ(d-1)
	case 15, 16:
		return "func" + g.signature(d-1)
	case 17:
		return g.structType(d-1, g.p(50))
	case 18:
		return g.interfaceType(d-1, g.p(50))
	default:
		if g.p(20) {
			return "(" + g.typ(d-1) + ")"
		}
		base := g.ident()
		if g.p(30) {
			base = g.qualified()
		}
		s := base + "[" + g.typ(d-1)
		if g.p(40) {
			s += ", " + g.typ(d-1)
		}
		return s + "]"
	}
}

// signature is parameters and results.
func (g *gen) signature(d int) string {
	s := g.params(d, true)
	switch g.n(5) {
	case 0, 1:
	case 2, 3:
		// a single result without parentheses
		r := g.typ(d)
		s += " " + r
	case 4:
		s += " " + g.params(d, false)
		if strings.HasSuffix(s, " ()") && g.p(50) {
			s = strings.TrimSuffix(s, " ()")
		}
	}
	return s
}

func (g *gen) params(d int, variadic bool) string {
	k := g.n(5)
	if k == 0 {
		return "()"
	}
	named := g.p(60)
	multi := g.p(15)
	var parts []string
	for i := range k {
		ty := g.typ(d)
		if variadic && i == k-1 && g.p(15) {
			ty = "..." + ty
			if named {
				ty = g.name() + " " + ty
			}
			parts = append(parts, ty)
			continue
		}
		if named {
			names := g.name()
			for range g.n(3) {
				if g.p(40) {
					names += ", " + g.name()
				}
			}
			ty = names + " " + ty
		}
		parts = append(parts, ty)
	}
	if multi {
		return "(\n" + strings.Join(parts, ",\n") + ",\n)"
	}
	return "(" + strings.Join(parts, ", ") + ")"
}

func (g *gen) typeParams() string {
	k := 1 + g.n(3)
	var parts []string
	for range k {
		names := g.name()
		if g.p(20) {
			names += ", " + g.name()
		}
		parts = append(parts, names+" "+g.constraint())
	}
	return "[" + strings.Join(parts, ", ") + "]"
}

func (g *gen) constraint() string {
	return g.pick([]string{
		"any", "comparable", "~int", "int | string", "~int | ~string | Foo", "interface{ ~int }", "interface{ M() }",
		"Seq[map[K][]A[B[C[int]]]]", "~[]List[Pair[[4]A[B[[2]int]], C[D[E[F]]]]]", "interface{ ~map[A[B[C[D[E]]]]]func(a A[B[[1]C[D]]]) }",
		"constraints.Ordered", "fmt.Stringer", "interface {\n\t~int | ~int8\n\tString() string\n}", "[]byte | string", "Foo[int]",
	})
}

func (g *gen) structType(d int, oneLine bool) string {
	k := g.n(5)
	if k == 0 {
		return "struct{}"
	}
	var rows []string
	for range k {
		rows = append(rows, g.field(d))
	}
	if oneLine && k < 3 {
		return "struct{ " + strings.Join(rows, "; ") + " }"
	}
	sep := "\n"
	s := "struct" + g.brace()
	for _, r := range rows {
		if g.o.Comments && g.p(12) {
			s += g.commentLine() + "\n"
		}
		s += r
		if g.o.Comments && g.p(12) {
			s += " " + g.lineComment()
		}
		s += sep
		if g.p(8) {
			s += "\n"
		}
	}
	return s + "}"
}

func (g *gen) field(d int) string {
	tag := ""
	if g.p(15) {
		tag = " " + g.pick([]string{"`json:\"x\"`", "`a:\"b,c\" // x`", "\"tag\"", "`{}()`", "`func type`", "\"\\\"q\\\"\""})
	}
	switch g.n(8) {
	case 0:
		return g.embedded() + tag
	case 1:
		return g.name() + ", " + g.name() + " " + g.typ(d) + tag
	case 2:
		return g.name() + ", " + g.name() + ", " + g.name() + " " + g.typ(d) + tag
	default:
		return g.name() + " " + g.typ(d) + tag
	}
}

func (g *gen) embedded() string {
	star := ""
	if g.p(30) {
		star = "*"
	}
	switch g.n(4) {
	case 0:
		return star + g.qualified()
	case 1:
		return star + g.ident() + "[" + g.typ(0) + "]"
	default:
		return star + g.typeIdent()
	}
}

func (g *gen) interfaceType(d int, oneLine bool) string {
	k := g.n(5)
	if k == 0 {
		return "interface{}"
	}
	var rows []string
	for range k {
		switch g.n(6) {
		case 0:
			rows = append(rows, g.ident())
		case 1:
			rows = append(rows, g.pick([]string{"fmt.Stringer", "io.Reader", "~int | ~string", "Foo | Bar", "error", "comparable", "interface{ M() }"}))
		default:
			if !oneLine && g.o.Comments && g.p(6) { // a result with a body of its own
				body := g.pick([]string{"struct" + g.oddBrace() + "\tA, B int\n}", "interface" + g.oddBrace() + "\tM(a int)\n}", "interface" + g.oddBrace() + "}", "struct" + g.oddBrace() + "}"})
				rows = append(rows, g.name()+"("+g.pick([]string{"", "int", "a T", "a, b int"})+") "+body)
				continue
			}
			rows = append(rows, g.name()+g.signature(d-1))
		}
	}
	if oneLine && k < 3 {
		return "interface{ " + strings.Join(rows, "; ") + " }"
	}
	s := "interface" + g.brace()
	for _, r := range rows {
		if g.o.Comments && g.p(12) {
			s += g.commentLine() + "\n"
		}
		s += r
		if g.o.Comments && g.p(12) {
			s += " " + g.lineComment()
		}
		s += "\n"
	}
	return s + "}"
}

// brace is the opening brace of a body with lines, now and then with something in front of it.
func (g *gen) brace() string {
	if g.o.Comments && g.p(5) {
		return g.oddBrace()
	}
	return " {\n"
}

func (g *gen) oddBrace() string {
	return g.pick([]string{" " + g.lineComment() + "\n{\n", " " + g.lineComment() + "\n\n\t{\n", " " + g.blockComment(false) + " {\n", " // a\n// b\n{\n", "\n{\n"})
}

// ---- literals and comments ----

var trickyBits = []string{
	"func f() {", "type T struct {", "package main", "import \"x\"", "// c", "/* c */", "/*", "*/", "//", "(", ")", "{", "}",
	"[", "]", "'", " ", "\t", "x", "var v = 1", "const c", "世界", "é", "\U0001F600", ";", ",", ":", "%d", "a b", "0", "end", "\\",
	"\u00a0", "\u2028", "\u0085", "\u200b", "\ufffd", "e\u0301", "\u202e", "#", "$x", "^", "~", "|", "&", "\x7f", "\x01",
}

func (g *gen) stringLit() string {
	if w, ok := g.wordText(); ok {
		if g.p(30) {
			return "`" + strings.ReplaceAll(w, "`", "") + "`"
		}
		return strconv.Quote(w)
	}
	switch g.n(8) {
	case 0:
		return `"` + g.pick([]string{"", "x", "a b", "hello, world"}) + `"`
	case 1:
		return `"` + g.pick([]string{`\\`, `\"`, `\\\"`, `\\\\`, `a\\`, `\"\"`, `\n`, `\x00`, `\u4e16`, `\'`[:0], `\\" + "\\`, `\t\"{`, `//`, `/*`, `*/`, "`", `'`, `func`, `{`, `)`}) + `"`
	case 2, 3:
		return "`" + strings.ReplaceAll(g.rawContent(), "`", "") + "`"
	default:
		s := ""
		for range g.n(6) {
			s += g.pick(trickyBits)
		}
		if g.p(20) {
			s += `"`
		}
		if g.p(3) {
			s += strings.Repeat("long ", 50*g.n(60))
		}
		if g.p(30) { // all characters as they are
			return `"` + strings.NewReplacer(`\`, `\\`, `"`, `\"`, "\n", `\n`).Replace(s) + `"`
		}
		return strconv.Quote(s)
	}
}

func (g *gen) rawContent() string {
	s := ""
	for range g.n(7) {
		s += g.pick(trickyBits)
		if g.p(40) {
			s += "\n"
		}
		if g.p(10) {
			s += `"`
		}
	}
	return s
}

func (g *gen) runeLit() string {
	return g.pick([]string{
		`'a'`, `'"'`, `'{'`, `'}'`, `'('`, `')'`, "'`'", `'\''`, `'\\'`, `'/'`, `'*'`, `'\n'`, `' '`, `'\t'`, `'世'`, `'\x41'`, `'\u00e9'`, `'\377'`,
		`'['`, `']'`, `','`, `';'`, `':'`, `'0'`, `'#'`,
	})
}

func (g *gen) numLit() string {
	if k, ok := g.size(10, 300); ok {
		return strings.Repeat("7", k)
	}
	if k, ok := g.size(10, 1<<30); ok {
		return strconv.Itoa(k)
	}
	if g.p(10) {
		return strings.Repeat(g.pick([]string{"1", "9", "10", "37"}), 1+g.n(30))
	}
	return g.pick([]string{"0", "1", "42", "007", "0x1F", "0b101", "0o17", "1_000", "3.14", ".5", "1e9", "1E-3", "0x1p-2", "2i", "1.", "9223372036854775807"})
}

func (g *gen) commentText() string {
	if w, ok := g.wordText(); ok {
		return w
	}
	switch g.n(4) {
	case 0:
		return g.pick([]string{" comment", "", " TODO: x", "go:generate x", " a \"quote", " it's", " `raw", " {", " )", " func f() {}", " type T", " package p", "/", " /* x", "*", " 世界", " \\", "\t tab", " x := '\"'",
			" Deprecated: x", "nolint", "nolint:all", "go:noinline", "go:embed x", "go:linkname a b", "export F", " Output:", " Code generated by x. DO NOT EDIT.", "lint:ignore x y", " BUG(x): y", " #include <x.h>", "#cgo x", " indirect", "region x", "-", "=", "!", "sys 1", "extern x", "x", " @x y", "revive:disable"})
	default:
		s := " "
		if g.p(30) {
			s = g.pick([]string{"", "\\", "!", "\"", "'", "`", "#", "$", "%", "&", "(", ")", "*", "+", ",", "-", ".", ":", ";", "<", "=", ">", "?", "@", "[", "]", "^", "_", "{", "|", "}", "~", "0", "x", "é", "世", "\u00a0", "\t", "line x.go:7", "export ", "nolint", "go:generate ", "TODO"})
			if strings.HasPrefix(s, "line ") {
				return s
			}
		}
		for range g.n(5) {
			s += g.pick(trickyBits)
		}
		if g.p(3) {
			s += strings.Repeat("word ", 40*g.n(60))
		}
		return s
	}
}

func (g *gen) lineComment() string { return "//" + strings.TrimRight(g.commentText(), " \t") }

func (g *gen) blockComment(multi bool) string {
	s := g.commentText()
	if multi && !strings.HasPrefix(s, "line ") {
		for range g.n(4) {
			s += "\n" + g.commentText()
		}
		if g.p(20) {
			s += "\n"
		}
	}
	for strings.Contains(s, "*/") {
		s = strings.ReplaceAll(s, "*/", "* ")
	}
	if strings.HasSuffix(s, "*") && g.p(50) {
		s += " "
	}
	return "/*" + s + "*/"
}

func (g *gen) commentLine() string {
	switch g.n(4) {
	case 0:
		return g.blockComment(false)
	case 1:
		return g.blockComment(true)
	default:
		return g.lineComment()
	}
}

// ---- expressions and statements ----

func (g *gen) expr(d int) string {
	if d <= 0 {
		switch g.n(6) {
		case 0:
			return g.numLit()
		case 1:
			return g.stringLit()
		case 2:
			return g.runeLit()
		default:
			return g.ident()
		}
	}
	switch g.n(18) {
	case 0, 1:
		return g.ident()
	case 2:
		return g.numLit()
	case 3, 4:
		return g.stringLit()
	case 5:
		return g.runeLit()
	case 6, 7:
		return g.expr(d-1) + g.pick([]string{" + ", " - ", "*", " / ", " && ", " || ", " == ", " != ", " < ", " << ", " &^ ", "%", " | "}) + g.expr(d-1)
	case 8, 9:
		args := g.many(3, func(int) string { return g.expr(d - 1) }, ", ")
		return g.callee(d) + "(" + args + ")"
	case 10:
		return g.ident() + "." + g.ident0()
	case 11:
		return g.ident() + "[" + g.expr(d-1) + "]"
	case 12:
		return g.ident() + "[" + g.pick([]string{":", "1:", ":2", "1:2", "1:2:3"}) + "]"
	case 13:
		return g.pick([]string{"-", "!", "&", "*", "<-", "^"}) + g.ident()
	case 14:
		return "(" + g.inner(func() string { return g.expr(d - 1) }) + ")"
	case 15:
		if g.noLit {
			return g.ident()
		}
		return g.compositeLit(d)
	case 16:
		if g.noLit {
			return g.ident()
		}
		return "func" + g.signature(1) + " {\n" + g.stmts(d-1) + "}"
	default:
		return g.ident() + ".(" + g.typ(1) + ")"
	}
}

func (g *gen) ident0() string { return g.pick([]string{"X", "Name", "funcs", "typeOf", "é", "Do"}) }

func (g *gen) callee(d int) string {
	switch g.n(5) {
	case 0:
		return g.ident() + "." + g.ident0()
	case 1:
		return "[]" + g.typeIdent()
	case 2:
		if !g.noLit && g.p(20) {
			return "func" + g.params(1, true) + " {\n" + g.stmts(d-1) + "}"
		}
		return g.ident()
	default:
		return g.ident()
	}
}

func (g *gen) inner(f func() string) string {
	old := g.noLit
	g.noLit = false
	s := f()
	g.noLit = old
	return s
}

func (g *gen) header(f func() string) string {
	old := g.noLit
	g.noLit = true
	s := f()
	g.noLit = old
	return s
}

func (g *gen) compositeLit(d int) string {
	ty := g.pick([]string{"T", "[]int", "map[string]int", "[2]string", "[...]byte", "pkg.T", "struct{ x int }", "[]struct {\n\ta int\n}", "Foo[int]", "[]func(a int) error", "&T"})
	keyed := g.p(40)
	k := g.n(4)
	multi := g.p(40)
	var parts []string
	for range k {
		e := g.inner(func() string { return g.expr(d - 1) })
		if keyed {
			e = g.pick([]string{"a", "\"k\"", "1", "'x'", "Name"}) + ": " + e
		}
		if !keyed && g.p(10) {
			e = "{" + g.numLit() + "}"
		}
		parts = append(parts, e)
	}
	if multi && k > 0 {
		return ty + "{\n" + strings.Join(parts, ",\n") + ",\n}"
	}
	return ty + "{" + strings.Join(parts, ", ") + "}"
}

func (g *gen) stmts(d int) string {
	var b strings.Builder
	k := g.n(4)
	for range k {
		if g.o.Comments && g.p(10) {
			b.WriteString(g.commentLine() + "\n")
		}
		b.WriteString(g.stmt(d))
		if g.o.Comments && g.p(8) {
			b.WriteString(" " + g.lineComment())
		}
		b.WriteString("\n")
		if g.p(6) {
			b.WriteString("\n")
		}
	}
	return b.String()
}

func (g *gen) block(d int) string { return "{\n" + g.inner(func() string { return g.stmts(d) }) + "}" }

func (g *gen) stmt(d int) string {
	ex := func() string { return g.expr(max(0, d)) }
	hx := func() string { return g.header(func() string { return g.expr(min(1, max(0, d))) }) }
	if d <= 0 {
		switch g.n(6) {
		case 0:
			return g.ident() + " := " + ex()
		case 1:
			return "return " + ex()
		case 2:
			return g.ident() + "++"
		case 3:
			return g.ident() + "(" + ex() + ")"
		case 4:
			return g.ident() + " = " + ex()
		default:
			return "return"
		}
	}
	switch g.n(24) {
	case 0, 1:
		return g.ident() + " := " + ex()
	case 2:
		return g.ident() + ", " + g.ident() + " = " + ex() + ", " + ex()
	case 3:
		return "return " + ex()
	case 4, 5:
		s := "if " + hx() + " " + g.block(d-1)
		if g.p(30) {
			s += " else " + g.block(d-1)
		} else if g.p(20) {
			s += " else if " + hx() + " " + g.block(d-1)
		}
		return s
	case 6:
		return "if v := " + hx() + "; v != nil " + g.block(d-1)
	case 7:
		return "for " + g.block(d-1)
	case 8:
		return "for i := 0; i < " + g.header(func() string { return g.expr(0) }) + "; i++ " + g.block(d-1)
	case 9:
		return "for " + g.pick([]string{"k, v := range ", "k := range ", "range ", "_, x = range "}) + g.header(func() string { return g.ident() }) + " " + g.block(d-1)
	case 10:
		s := "switch " + g.pick([]string{"", "x ", "y := x; y "}) + "{\n"
		for range g.n(3) {
			s += "case " + g.inner(func() string { return g.expr(0) }) + ":\n" + g.stmts(d-1)
		}
		if g.p(40) {
			s += "default:\n" + g.stmts(d-1)
		}
		return s + "}"
	case 11:
		s := "switch v := x.(type) {\n"
		for range g.n(3) {
			s += "case " + g.typ(1) + ":\n" + g.stmts(d-1)
		}
		return s + "}"
	case 12:
		s := "select {\n"
		for range g.n(3) {
			s += "case " + g.pick([]string{"<-ch", "v := <-ch", "ch <- 1", "v, ok := <-ch"}) + ":\n" + g.stmts(d-1)
		}
		if g.p(40) {
			s += "default:\n"
		}
		return s + "}"
	case 13:
		return g.pick([]string{"go ", "defer "}) + g.ident() + "(" + ex() + ")"
	case 14:
		return "defer func() {\n" + g.inner(func() string { return g.stmts(d - 1) }) + "}()"
	case 15:
		return "ch <- " + ex()
	case 16:
		return "var " + g.ident() + " " + g.typ(1) + g.pick([]string{"", " = nil"})
	case 17:
		return "const " + g.ident() + " = " + g.numLit()
	case 18:
		return "type " + g.ident() + " " + g.typ(2)
	case 19:
		return "Label" + strconv.Itoa(g.n(9)) + ":\n" + g.stmt(d-1)
	case 20:
		return g.pick([]string{"break", "continue", "goto Label1", "x += 1", "x <<= 2", "x--", "x &^= y", "_ = x"})
	case 21:
		return g.block(d - 1)
	case 22:
		return "func" + g.params(1, true) + " {\n" + g.inner(func() string { return g.stmts(d - 1) }) + "}(" + g.ident() + ")"
	default:
		return g.ident() + "." + g.ident0() + "(" + ex() + ")"
	}
}

// ---- declarations ----

func (g *gen) importDecl() string {
	spec := func() string {
		return g.pick([]string{"", "", "", "x ", ". ", "_ ", "été "}) + g.pick([]string{`"fmt"`, `"os"`, `"a/b"`, "`raw`", `"github.com/x/y-z"`, `"context"`, `"type"`, `"func"`})
	}
	if g.p(50) || g.o.NoGroups {
		return "import " + spec()
	}
	s := "import (\n"
	for range g.n(4) {
		if g.o.Comments && g.p(10) {
			s += g.lineComment() + "\n"
		}
		s += spec()
		if g.o.Comments && g.p(10) {
			s += " " + g.lineComment()
		}
		s += "\n"
	}
	return s + ")"
}

func (g *gen) valueSpec(kw string) string {
	switch g.n(5) {
	case 0:
		if kw == "const" {
			return g.name() + " = " + g.expr(1)
		}
		return g.name() + " " + g.typ(2)
	case 1:
		return g.name() + ", " + g.name() + " = " + g.expr(1) + ", " + g.expr(1)
	case 2:
		return g.name() + " " + g.typ(1) + " = " + g.expr(2)
	default:
		return g.name() + " = " + g.expr(2)
	}
}

func (g *gen) valueDecl(kw string) string {
	if g.p(60) || g.o.NoGroups {
		return kw + " " + g.valueSpec(kw)
	}
	s := kw + " (\n"
	for i := range g.n(5) {
		if g.o.Comments && g.p(10) {
			s += g.commentLine() + "\n"
		}
		if kw == "const" && i > 0 && g.p(30) {
			s += g.name()
		} else {
			s += g.valueSpec(kw)
		}
		if g.o.Comments && g.p(10) {
			s += " " + g.lineComment()
		}
		s += "\n"
	}
	return s + ")"
}

func (g *gen) typeSpec() string {
	name := g.name()
	switch g.n(9) {
	case 0:
		return name + " = " + g.typ(1)
	case 1:
		return name + g.typeParams() + " " + g.structType(2, g.p(20))
	case 2:
		return name + g.typeParams() + " " + g.interfaceType(2, g.p(20))
	case 3, 4:
		return name + " " + g.structType(2, g.p(20))
	case 5, 6:
		return name + " " + g.interfaceType(2, g.p(20))
	case 7:
		return name + " func" + g.signature(2)
	default:
		return name + " " + g.typ(2)
	}
}

func (g *gen) typeDecl() string {
	if g.p(90) || g.o.NoGroups {
		return "type " + g.typeSpec()
	}
	s := "type (\n"
	for range g.n(4) {
		s += g.typeSpec() + "\n"
	}
	return s + ")"
}

func (g *gen) funcDecl() string {
	s := "func "
	isMethod := g.p(50)
	if isMethod {
		base := g.ident()
		ty := base
		if g.p(20) {
			ty += "[" + g.name()
			if g.p(40) {
				ty += ", " + g.name()
			}
			if g.p(10) { // far from the func keyword to the name
				for i := range g.n(200) {
					ty += fmt.Sprintf(", P%d", i)
				}
			}
			ty += "]"
		}
		if g.p(60) {
			ty = "*" + ty
		}
		if g.p(75) {
			ty = g.name() + " " + ty
		}
		s += "(" + ty + ") "
	}
	s += g.name()
	if g.p(15) && (!isMethod || g.p(40)) {
		s += g.typeParams()
	}
	s += g.signature(2)
	switch {
	case g.p(6):
		return s // declared without a body
	case g.p(20):
		return s + " {}"
	case g.p(10):
		return s + " { " + g.pick([]string{"return", "x()", "return nil", "panic(\"{\")"}) + " }"
	}
	if !g.o.Bodies {
		return s + " {\n\treturn\n}"
	}
	return s + " {\n" + g.stmts(2) + "}"
}

func (g *gen) decl() string {
	if g.o.TypesOnly {
		if g.p(50) {
			return g.typeDecl()
		}
		return g.funcDecl()
	}
	switch g.n(10) {
	case 0:
		return g.valueDecl("var")
	case 1:
		return g.valueDecl("const")
	case 2, 3, 4, 5:
		return g.typeDecl()
	default:
		return g.funcDecl()
	}
}

func (g *gen) file() string {
	var b strings.Builder
	cm := func(c int) {
		for g.o.Comments && g.p(c) {
			b.WriteString(g.commentLine() + "\n")
			if g.p(30) {
				b.WriteString("\n")
			}
		}
	}
	if g.o.Comments && g.p(8) {
		b.WriteString("//go:build linux && !x\n\n")
	}
	cm(30)
	pkg := g.ident()
	if g.o.Comments && g.p(5) {
		b.WriteString(g.pick([]string{"package\n// c\n", "package\n/* package */\n", "package /* c */ ", "package\n\n", "package // c\n", "package\n/* func\n*/\n// c\n"}) + pkg)
	} else {
		b.WriteString("package " + pkg)
	}
	if g.o.Comments && g.p(15) {
		b.WriteString(" " + g.lineComment())
	}
	b.WriteString("\n\n")
	for range g.n(3) {
		if g.p(40) && !g.o.TypesOnly {
			cm(15)
			b.WriteString(g.importDecl() + "\n")
		}
	}
	if k, ok := g.size(4, 300); ok { // as many scopes as some number of the code
		for i := range k {
			b.WriteString("\n" + []string{"var x int", "func F() {}", "type T struct{}", "const c = 1"}[(i+g.n(2))%4] + "\n")
		}
	}
	k := g.n(g.o.MaxDecls + 1)
	for range k {
		b.WriteString("\n")
		cm(25)
		b.WriteString(g.decl())
		if g.o.Comments && g.p(8) {
			b.WriteString(" " + g.lineComment())
		}
		b.WriteString("\n")
	}
	cm(15)
	s := b.String()
	if g.o.Injected {
		s = g.inject(s)
	}
	switch g.n(12) {
	case 0:
		s = strings.TrimRight(s, "\n")
	case 1:
		s += "\n\n"
	}
	return s
}

type tok struct {
	pos, end int
	tok      token.Token
	lit      string
}

// scan lists the tokens (without automatic semicolons) and comments of a source.
func scan(src string) (toks []tok, ok bool) {
	fs := token.NewFileSet()
	f := fs.AddFile("x.go", -1, len(src))
	var s scanner.Scanner
	ok = true
	s.Init(f, []byte(src), func(token.Position, string) { ok = false }, scanner.ScanComments)
	for {
		p, t, l := s.Scan()
		if t == token.EOF {
			return toks, ok
		}
		if t == token.SEMICOLON && l == "\n" {
			continue
		}
		if t == token.SEMICOLON && l == "" { // automatic, at the end of the file
			continue
		}
		n := len(l)
		if !t.IsLiteral() && t != token.COMMENT && !t.IsKeyword() {
			n = len(t.String())
		}
		off := f.Offset(p)
		toks = append(toks, tok{off, off + n, t, l})
	}
}

// endsLine tells whether a newline behind the token ends a statement, or a comment.
func endsLine(t token.Token) bool {
	switch t {
	case token.IDENT, token.INT, token.FLOAT, token.IMAG, token.CHAR, token.STRING, token.BREAK, token.CONTINUE, token.FALLTHROUGH,
		token.RETURN, token.INC, token.DEC, token.RPAREN, token.RBRACK, token.RBRACE, token.COMMENT:
		return true
	}
	return false
}

// inject puts comments between tokens.
func (g *gen) inject(s string) string {
	toks, ok := scan(s)
	if !ok {
		return s
	}
	dens := 1 + g.n(30)
	breaks := g.p(30)
	var b strings.Builder
	last := 0
	for i, t := range toks {
		b.WriteString(s[last:t.pos])
		if i > 0 && g.p(dens) && t.tok != token.PERIOD && toks[i-1].tok != token.PERIOD && toks[i-1].tok != token.COMMENT {
			b.WriteString(" " + g.blockComment(false) + " ")
		}
		b.WriteString(s[t.pos:t.end])
		last = t.end
		if breaks && g.p(dens/3+1) && i+1 < len(toks) && toks[i+1].tok != token.PERIOD && t.tok != token.PERIOD && !endsLine(t.tok) {
			b.WriteString(" " + g.pick([]string{g.lineComment(), g.blockComment(false), g.blockComment(true)}) + "\n")
		}
		if i+1 < len(toks) && strings.Contains(s[t.end:toks[i+1].pos], "\n") && t.tok != token.COMMENT && g.p(dens) {
			if g.p(50) {
				b.WriteString(" " + g.lineComment())
			} else {
				b.WriteString(" " + g.blockComment(true))
			}
		}
	}
	b.WriteString(s[last:])
	return b.String()
}

// Src is a case that is a Go source text.
type Src struct {
	Src Text `json:"src"`
}

// genSrc draws an unformatted valid source file.
func genSrc(t *rapid.T, o srcOpts) string {
	g := &gen{t: t, o: o}
	s := g.file()
	if _, err := format.Source([]byte(s)); err != nil {
		return badSource(s, err)
	}
	return s
}

// genOpts draws what the file may contain.
func genOpts(t *rapid.T, maxDecls int) srcOpts {
	g := &gen{t: t}
	return srcOpts{MaxDecls: maxDecls, Comments: g.p(70), Injected: g.p(35), Bodies: g.p(70)}
}

// genFormatted draws a gofmt'ed source file.
func genFormatted(t *rapid.T, o srcOpts) string {
	return formatted(genSrc(t, o))
}
