package main

// Generators that aim at one construct.

import (
	"bytes"
	"go/format"
	"os"
	"regexp"
	"strings"

	"github.com/yanun0323/goast/kind"
	"pgregory.net/rapid"
)

// oddTexts are texts that some code could treat in its own way.
var oddTexts = []string{"\r", "\r\n", "\f", "\v", "\x00", "\xff", "\ufeff", "\u00a0", "\u2028", "\u0085", "\u200b", "\ufffd", "\U0001F600", "é", "e\u0301",
	"```", "`", "\"", "\"\"", "'", "\\", "/*", "*/", "/**/", "//", "// x", "/* y */", "#!", "%s", "%!d(", "<nil>", "nil", "...", ":=", "<-", "&^=", "->", "·", "\\n", "$HOME",
	"-1", "1", "1.5", "0x1F", "1_000", "iota", "any", "error", "int", "string", "complex128", "documentation", "embed", "C", "_", "__", "interface", "struct", "map", "chan",
	"go", "defer", "return", "package", "import", "var", "const", "type", "func", "func()", "a.b", "[]", "*T", " ", "  ", "\t", "\t\t", "\n", "\n\n\n", " a ", "a\n", "\na",
	"(", ")", "{", "}", "[", "]", ",", ":", ";", "=", "Raw", "None", "*Node.", " .... "}

// text draws one of the texts, at times an odd one.
func (g *gen) text(usual ...string) Text {
	if w, ok := g.word(10); ok {
		return Text(w)
	}
	switch k := g.n(20); {
	case k < 14 && len(usual) != 0:
		return Text(g.pick(usual))
	case k < 19:
		return Text(g.pick(oddTexts))
	default:
		s := ""
		for range 1 + g.n(5) {
			s += g.pick(oddTexts)
		}
		return Text(s)
	}
}

var regexpFalseStart = regexp.MustCompile("(?m)^[ \t]*(func|type|var|const|import|package)[A-Za-z0-9_]|(?s)`[^`]*\n(func|type|var|const|import|package|//|/\\*)[^`]*`")

func formatted(s string) string {
	b, err := format.Source([]byte(s))
	if err != nil {
		return badSource(s, err)
	}
	for range 4 { // gofmt does not always reach its own form at once
		again, err := format.Source(b)
		if err != nil {
			break // gofmt moved a comment and broke the code
		}
		if bytes.Equal(again, b) {
			return string(b)
		}
		b = again
	}
	return "package p\n" // gofmt has no form for it
}

// badSource is called with a generated source that is not valid, a bug of the generator. It is none of
// the code under test: such a case becomes an empty file, unless VH_STRICT is set.
func badSource(s string, err error) string {
	if os.Getenv("VH_STRICT") != "" {
		panic(internalError{"generated source is not valid: " + err.Error() + "\n" + clip(s, 4000)})
	}
	return "package p\n"
}

// genLookalikes draws a gofmt'ed file full of lines that look like the start of a declaration.
func genLookalikes(t *rapid.T) string {
	g := &gen{t: t, o: srcOpts{MaxDecls: 2, Comments: true, Bodies: true}}
	var b strings.Builder
	for range g.n(3) {
		b.WriteString(g.commentLine() + "\n")
		if g.p(50) {
			b.WriteString("\n")
		}
	}
	b.WriteString("package " + g.ident() + "\n\n")
	starts := []string{"func f() {", "type T struct {", "var x = 1", "const c", "import \"x\"", "package p", "// comment", "/* c */", "func", "type", "*/", "/*", "", " ", "x"}
	raw := func() string {
		s := ""
		for range g.n(6) {
			s += g.pick(starts) + g.pick([]string{"\n", "\n", "\n", "\n\n", " ", "\t"})
		}
		return "`" + s + "`"
	}
	multi := func() string {
		s := ""
		for range g.n(5) {
			s += strings.ReplaceAll(g.pick(starts), "*/", "*") + g.pick([]string{"\n", "\n", "\n\n", " "})
		}
		return "/*" + s + g.pick([]string{"", "\n", " "}) + "*/"
	}
	word := func() string {
		return g.pick([]string{"funcs", "typeOf", "variable", "constant", "important", "packages", "func_", "type世", "var1", "constX", "importer", "packageé"})
	}
	for range 1 + g.n(6) {
		switch g.n(9) {
		case 0:
			b.WriteString("var " + g.name() + " = " + raw() + g.pick([]string{"", " // c", " /* c */", " + `\n`"}) + "\n\n")
		case 1:
			b.WriteString(multi() + "\n" + g.pick([]string{"", "\n"}))
		case 2:
			b.WriteString("func " + word() + "() {\n" + word() + "(" + raw() + ")\n" + multi() + "\n" + word() + ":\n\tfor {\nbreak " + "\n}\n}\n\n")
		case 3:
			b.WriteString("func " + g.name() + "(a string) {\n\tx(a,\n" + raw() + ")\n" + "//line x.go:1\n" + word() + " := 1\nfunc() {}()\ntype t int\nvar y int\nconst z = 1\n}\n\n")
		case 4:
			b.WriteString("// " + g.pick(starts) + "\n" + "//" + g.pick(starts) + "\n" + g.pick([]string{"", "\n"}))
		case 5:
			b.WriteString("type " + word() + " struct {\n" + word() + " int `" + g.pick([]string{"a", "\nfunc x() {\n", "\ntype T\n"}) + "`\n" + multi() + "\n// func\n" + word() + "\n}\n\n")
		case 6:
			b.WriteString("var (\n" + word() + " = func() {}\n" + g.name() + " = " + raw() + "\n)\n\n")
		case 7:
			b.WriteString("const (\n" + word() + " = iota\n// c\n" + word() + "1 /* c */\n)\n\n")
		default:
			b.WriteString(g.decl() + "\n\n")
		}
	}
	if g.p(40) {
		b.WriteString(g.decl() + "\n")
	}
	if g.p(30) {
		b.WriteString(multi())
	} else if g.p(30) {
		b.WriteString("// " + g.pick(starts))
	}
	return formatted(b.String())
}

// genLiterals draws a gofmt'ed file of literals and comments.
func genLiterals(t *rapid.T) string {
	g := &gen{t: t, o: srcOpts{MaxDecls: 2, Comments: true, Bodies: true}}
	var b strings.Builder
	b.WriteString("package p\n\n")
	pieces := []string{`\\`, `\"`, `'`, "`", `//`, `/*`, `*/`, `{`, `}`, `(`, `)`, ` `, `a`, `\n`, `\t`, `func`, `;`, `世`, `\u4e16`, `\x5c`, `\x22`, `\134`, `[`, `]`, `,`, `:`, `%q`, `\a`}
	str := func() string {
		s := ""
		for range g.n(6) {
			s += g.pick(pieces)
		}
		return `"` + s + `"`
	}
	lit := func() string {
		switch g.n(6) {
		case 0:
			return g.runeLit()
		case 1:
			return g.stringLit()
		case 2:
			s := ""
			for range g.n(6) {
				s += g.pick([]string{`\`, `"`, `'`, `//`, `/*`, `*/`, "\n", `{`, `}`, `a`, ` `, "\t", `\\`, `\"`})
			}
			return "`" + s + "`"
		case 3:
			return g.numLit()
		default:
			return str()
		}
	}
	comment := func() string {
		if g.p(60) {
			return g.blockComment(g.p(30))
		}
		return g.pick([]string{"/**/", "/***/", "/*/ */", "/*//*/", "/* \" */", "/* ' */", "/* ` */", "/*\\*/", "/* \\\" */", "/****/", "/* // */", "/*\n*/"})
	}
	for range 1 + g.n(8) {
		switch g.n(6) {
		case 0:
			b.WriteString("var " + g.name() + " = " + lit() + g.pick([]string{"", " // \"", " /* ` */", " //"}) + "\n\n")
		case 1:
			b.WriteString("var " + g.name() + " = []any{" + lit() + "," + lit() + " , " + lit() + strings.ReplaceAll(comment(), "\n", " ") + "," + lit() + "}\n\n")
		case 2:
			b.WriteString("const " + g.name() + " = " + lit() + "+" + lit() + "\n\n")
		case 3:
			b.WriteString("func " + g.name() + "() { f(" + lit() + "," + lit() + ")\n\tswitch x {\n\tcase " + lit() + ":\n\tcase " + lit() + "," + lit() + ": y()\n}\n\tx[" + lit() + "] = m[" + lit() + ":]" + "\n" + comment() + "\n}\n\n")
		case 4:
			b.WriteString(comment() + "\n\n")
		default:
			b.WriteString("type " + g.name() + " struct {\n" + g.name() + " int " + strings.NewReplacer("\r", "").Replace(g.pick([]string{str(), "`a:\"b\"`", "`'`", "`//`", "`\\`"})) + " " + comment() + "\n}\n\n")
		}
	}
	return formatted(b.String())
}

// genDecls draws a gofmt'ed file of func and type declarations.
func genDecls(t *rapid.T) string {
	g := &gen{t: t}
	g.o = srcOpts{MaxDecls: 8, TypesOnly: true, Bodies: g.p(20), Comments: g.p(40), NoGroups: true}
	return formatted(g.file())
}

// refKind classifies a text as documented.
func refKind(s string) kind.Kind {
	if k, ok := ownKinds[s]; ok {
		return k
	}
	only := func(set string) bool { return strings.Trim(s, set) == "" }
	switch {
	case s == "":
		return kind.None
	case only("0123456789"):
		return kind.Number
	case s == "\r":
		return kind.Separator
	case s[0] == '"' || s[0] == '`':
		return kind.String
	case refKeywords[s]:
		return kind.Keyword
	case isBasicName(s):
		return kind.Basic
	case s == "_" || only("+-*/%&|^<>=!()[]{},;.:~"):
		return kind.Symbol
	}
	return kind.Raw
}

var ownKinds = map[string]kind.Kind{
	"\t": kind.Tab, " ": kind.Space, ",": kind.Comma, ":": kind.Colon, "\n": kind.NewLine, ";": kind.Semicolon,
	"(": kind.ParenthesisLeft, ")": kind.ParenthesisRight, "{": kind.CurlyBracketLeft, "}": kind.CurlyBracketRight,
	"[": kind.SquareBracketLeft, "]": kind.SquareBracketRight,
	"import": kind.Import, "var": kind.Var, "const": kind.Const, "map": kind.Map, "chan": kind.Channel, "func": kind.Func,
	"type": kind.Type, "struct": kind.Struct, "interface": kind.Interface, "package": kind.Package,
}

var refKeywords = map[string]bool{
	"break": true, "default": true, "select": true, "case": true, "defer": true, "go": true, "else": true, "goto": true,
	"switch": true, "fallthrough": true, "if": true, "range": true, "continue": true, "for": true, "return": true,
}

// genSweep draws a source file in which every printable character (or a part of them) stands between the same
// two drawn texts, in a string, a raw string, both forms of comments and a rune literal.
func genSweep(t *rapid.T) string {
	esc := rapid.SampledFrom([]string{"", "", `\\`, `\"`, `\n`, `\x41`, `\\\\`, `\\\"`, "'", "`", "//", "/*", "{", "(", "a", " ", "世", `\u4e16`, `\101`, "_", "0", ".", ";", "\t"})
	pre, post := esc.Draw(t, "pre")+esc.Draw(t, "pre2"), esc.Draw(t, "post")+esc.Draw(t, "post2")
	chars := []string{"é", "世", "\u00a0", "\u2028", "\U0001F600", "\ufffd", "\x7f", "\x01", "\f", "\v", "\b"}
	for c := byte(' '); c < 0x7f; c++ {
		chars = append(chars, string(c))
	}
	from := rapid.IntRange(0, len(chars)-1).Draw(t, "from")
	n := rapid.SampledFrom([]int{1, 1 + len(chars)/2, len(chars), len(chars)}).Draw(t, "n")
	twice := rapid.Bool().Draw(t, "twice")

	var b strings.Builder
	b.WriteString("package p\n\n")
	for i := range n {
		c := chars[(from+i)%len(chars)]
		if twice {
			c += c
		}
		q := c
		switch {
		case strings.ContainsAny(c, "\"\\"):
			q = strings.NewReplacer(`\`, `\\`, `"`, `\"`).Replace(c)
		}
		b.WriteString("var x = []any{\"" + pre + q + post + "\", `" + strings.ReplaceAll(pre+c+post, "`", "'") + "`, ")
		r := chars[(from+i)%len(chars)]
		if r == "'" || r == `\` {
			r = `\` + r
		}
		b.WriteString("'" + r + "'")
		b.WriteString(" /*" + strings.ReplaceAll(pre+c+post, "*/", "* /") + " */}\n\n")
		b.WriteString("//" + strings.TrimSpace(pre+c+post) + "\n")
		b.WriteString("func f() { g(\"" + post + q + pre + "\", y) }\n\n")
	}
	return formatted(b.String())
}
