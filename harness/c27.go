package main

// C27: names, numbers and what is written in comments, strings and runes do not matter.

import (
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"strings"
	"unicode"

	"github.com/yanun0323/goast"
	"pgregory.net/rapid"
)

// Reworded is a source and the same source in other words.
type Reworded struct {
	Src Text `json:"src"`
	New Text `json:"new"`
}

var (
	ordinaryNames = []string{"error", "any", "comparable", "len", "nil", "true", "iota", "make", "x", "init", "main", "structs", "interfaceX", "myfunc", "世", "é", "T",
		"_x", "__", "typ", "types", "Struct", "packageName", "imports", "varx", "e1", "E", "x0", "l", "O", "fun", "funcs", "maps", "Chan", "ˈx"[2:], "If", "int_", "str", "strings",
		"string_", "Byte", "int1", "float", "uint7", "complex", "error_", "aVeryLongNameOfSomethingThatGoesOnForQuiteAWhileAndDoesNotEndBeforeItHasMoreThanAHundredCharactersInIt"}
	conventions = []string{" Deprecated: x", "nolint", "go:noinline", "go:linkname a b", "export F", " Output:", " Code generated by x. DO NOT EDIT.", "lint:ignore x y", " BUG(x): y",
		" #include <x.h>", "#cgo x", " indirect", "region x", "-", "=", "!", "extern x", "x", " @x y"}
	otherRunes  = []string{`'a'`, `'"'`, `'{'`, `'}'`, `'('`, `')'`, "'`'", `'\''`, `'\\'`, `'/'`, `'*'`, `'\n'`, `' '`, `'世'`, `'\x41'`, `'['`, `'0'`, `';'`}
	otherInts   = []string{"0", "1", "7", "42", "123456789", "007"}
	otherHexes  = []string{"0x1F", "0b101", "0o17", "1_000", "0XfuncE"[:3] + "F"}
	otherFloats = []string{"3.14", "1e9", "1E-3", "0x1p-2", "1.5e+10"}
	otherImags  = []string{"2i", "1.5i", "0i"}
	otherPaths  = []string{"fmt", "a/b.c/d", "x-y/z_1", "struct", "func", "v2", "世", "unsafe", "type/interface"}
	otherWords  = []string{"", " ", "x", "func f() {", "type T struct {", "package p", "import (", "var x = 1", "const c", "//", "/*", "// x", "'", `\"`, `\\`, "(", ")", "{", "}", "[", "]",
		",", ";", ":", "=", "\t", "世界", "é", "struct", "interface", "func", "go:build x", "go:embed y", "line x:7", "0", "12", "%d", "#", "$", "@", "~", "!", "nolint", "TODO", "\u2028", "\u00a0", "string", "int", "_"}
)

// reword writes other names, numbers and contents into a source, of the same classes and with as many lines.
func reword(src string, n func(int) int) (string, bool) {
	toks, ok := scan(src)
	if !ok {
		return "", false
	}
	fs := token.NewFileSet()
	f, err := parser.ParseFile(fs, "x.go", src, parser.SkipObjectResolution)
	if err != nil {
		return "", false
	}
	path := map[int]bool{}
	for _, d := range f.Decls {
		if d, ok := d.(*ast.GenDecl); ok && d.Tok == token.IMPORT {
			for _, s := range d.Specs {
				path[fs.PositionFor(s.(*ast.ImportSpec).Path.Pos(), false).Offset] = true
			}
		}
	}
	pick := func(s []string) string { return s[n(len(s))] }
	d := theDict()
	// a word of the code under test, or as long as one of its numbers
	known := func() (string, bool) {
		switch {
		case len(d.newInts) != 0 && n(30) == 0:
			if k := d.newInts[n(len(d.newInts))]; k < 3000 {
				return strings.Repeat("n", max(1, k-1+n(3))), true
			}
		case len(d.newWords) != 0 && n(8) == 0:
			return pick(d.newWords), true
		case len(d.words) != 0 && n(60) == 0:
			return pick(d.words), true
		}
		return "", false
	}
	unusual := func(s []string) string {
		if w, ok := known(); ok {
			if n(2) == 0 {
				w = pick([]string{"x", "_", "X"}) + w
			}
			if n(2) == 0 {
				w += pick([]string{"x", "_", "0"})
			}
			if token.IsIdentifier(w) && !isBasicName(w) && w != "_" {
				return w
			}
		}
		if n(6) == 0 {
			w := ""
			for range 1 + n(4) {
				r := rune(0xC0 + n(0x190))
				if n(4) == 0 {
					r = rune(0x370 + n(0x5000))
				}
				if unicode.IsLetter(r) {
					w += string(r)
				}
			}
			if w != "" {
				return w
			}
		}
		return pick(s)
	}
	same := map[string]string{}
	consistent := n(2) == 0
	rate := 1 + n(3) // how many are left as they are
	words := func(lines int, bad ...string) string {
		var b strings.Builder
		for i := 0; ; i++ {
			if w, ok := known(); ok {
				if n(2) == 0 {
					w = strings.Trim(strings.TrimLeft(w, "/*\"`'"), "\"`'")
				}
				b.WriteString(strings.NewReplacer("\n", "", "\r", "", "\x00", "", "\ufeff", "").Replace(strings.ToValidUTF8(w, "?")))
			} else if n(8) == 0 {
				b.WriteString(pick(conventions))
			}
			for range n(4) {
				b.WriteString(pick(otherWords))
			}
			if n(60) == 0 {
				b.WriteString(strings.Repeat(pick(otherWords), n(300)))
			}
			if i == lines {
				break
			}
			b.WriteByte('\n')
		}
		s := b.String()
		for _, x := range bad {
			s = strings.ReplaceAll(s, x, "")
		}
		return s
	}
	escaped := func(s string) string {
		return strings.NewReplacer(`\`, `\\`, `"`, `\"`).Replace(s)
	}
	var b strings.Builder
	last := 0
	for _, t := range toks {
		lit := src[t.pos:t.end]
		new := lit
		if n(4) >= rate-1 {
			switch t.tok {
			case token.IDENT:
				switch {
				case lit == "_":
				case isBasicName(lit):
					new = pick(basicTypes)
				default:
					new = unusual(ordinaryNames)
					if n(12) == 0 {
						new += "_" + pick(ordinaryNames)
					}
				}
				if consistent {
					if s, ok := same[lit]; ok {
						new = s
					}
					same[lit] = new
				}
			case token.STRING:
				switch {
				case path[t.pos]:
					new = `"` + pick(otherPaths) + `"`
				case lit[0] == '`':
					new = "`" + words(strings.Count(lit, "\n"), "`", "\r") + "`"
				default:
					new = `"` + escaped(words(0)) + `"`
				}
			case token.CHAR:
				new = pick(otherRunes)
			case token.INT:
				if strings.Trim(lit, "0123456789") == "" {
					new = pick(otherInts)
					if n(6) == 0 {
						new = strings.Repeat(pick([]string{"1", "9", "10"}), 1+n(40))
					}
				} else {
					new = pick(otherHexes)
				}
			case token.FLOAT:
				new = pick(otherFloats)
			case token.IMAG:
				new = pick(otherImags)
			case token.COMMENT:
				if strings.HasPrefix(lit, "//") {
					new = "//" + words(0)
				} else {
					new = "/*" + strings.ReplaceAll(words(strings.Count(lit, "\n")), "*/", "* /") + "*/"
				}
			}
		} else if consistent && t.tok == token.IDENT {
			if s, ok := same[lit]; ok {
				new = s
			} else {
				same[lit] = lit
			}
		}
		b.WriteString(src[last:t.pos])
		b.WriteString(new)
		last = t.end
	}
	b.WriteString(src[last:])
	return b.String(), true
}

func checkReworded(c Reworded, o *Obs) error {
	src, new := string(c.Src), string(c.New)
	a, ok1 := scan(src)
	b, ok2 := scan(new)
	if !ok1 || !ok2 || len(a) != len(b) {
		return errNotGo
	}
	for i := range a {
		if a[i].tok != b[i].tok {
			return errNotGo
		}
	}
	for _, s := range []string{src, new} {
		if _, err := parser.ParseFile(token.NewFileSet(), "x.go", s, parser.SkipObjectResolution); err != nil {
			return errNotGo
		}
	}
	// where the tokens of the source are in the new one
	at := func(off int, i *int) (int, bool) {
		for *i < len(a) && a[*i].end <= off {
			*i++
		}
		if *i == len(a) {
			return off - len(src) + len(new), true
		}
		if off > a[*i].pos { // inside of a token
			return 0, false
		}
		return b[*i].pos - (a[*i].pos - off), true
	}
	all := func(s string) (scs []goast.Scope, ns []nodeAt, err error) {
		scs, err = goast.ParseScope(0, []byte(s))
		if err != nil {
			return
		}
		ns, err = flatten(scs, len(s), 0)
		total := len(textOf(ns))
		for i := range ns {
			ns[i].off += len(s) - total
		}
		return
	}
	s1, n1, err := all(src)
	if err != nil {
		return err
	}
	s2, n2, err := all(new)
	if err != nil {
		return fmt.Errorf("in other words: %w", err)
	}
	if len(s1) != len(s2) {
		return fmt.Errorf("%d scopes, in other words %d", len(s1), len(s2))
	}
	ti, operator := 0, 0
	for i, n := range n1 {
		if i >= len(n2) {
			return fmt.Errorf("%d nodes, in other words %d", len(n1), len(n2))
		}
		m := n2[i]
		off, ok := at(n.off, &ti)
		if !ok {
			// an operator may be more than one node
			if t := a[ti].tok; t.IsLiteral() || t == token.COMMENT {
				return fmt.Errorf("node %d, %s, begins inside of a token", i, n.n.Description())
			}
			off = b[ti].pos + n.off - a[ti].pos
			operator++
		}
		if n.scope != m.scope || off != m.off || n.n.Kind() != m.n.Kind() || n.n.Line() != m.n.Line() {
			return fmt.Errorf("node %d, %s at byte %d of scope %d, is in other words %s at byte %d (not %d) of scope %d",
				i, n.n.Description(), n.off, n.scope, m.n.Description(), m.off, off, m.scope)
		}
	}
	if len(n1) != len(n2) {
		return fmt.Errorf("%d nodes, in other words %d", len(n1), len(n2))
	}
	j := 0
	for i := range s1 {
		if s1[i].Kind() != s2[i].Kind() || s1[i].Line() != s2[i].Line() {
			return fmt.Errorf("scope %d, a %v of line %d, is in other words a %v of line %d", i, s1[i].Kind(), s1[i].Line(), s2[i].Kind(), s2[i].Line())
		}
		// a name is that of a node at the same place
		words := map[string]map[string]bool{}
		for ; j < len(n1) && n1[j].scope == i; j++ {
			t := n1[j].n.Text()
			if words[t] == nil {
				words[t] = map[string]bool{}
			}
			words[t][n2[j].n.Text()] = true
		}
		for k, get := range nameGetters {
			x, ok1 := get(s1[i])
			y, ok2 := get(s2[i])
			if ok1 != ok2 || ok1 && !words[x][y] {
				return fmt.Errorf("scope %d of line %d: name %d is %q %v, in other words %q %v", i, s1[i].Line(), k, x, ok1, y, ok2)
			}
		}
	}
	if src != new && len(n1) > 20 {
		o.Nontrivial()
	}
	o.LabelIf(operator > 0, "an operator of several nodes")
	o.LabelIf(len(s1) > 5, "more than five scopes")
	return nil
}

var nameGetters = []func(goast.Scope) (string, bool){
	goast.Scope.GetTypeName, goast.Scope.GetStructName, goast.Scope.GetInterfaceName, goast.Scope.GetFuncName, goast.Scope.GetMethodName, goast.Scope.GetMethodReceiver,
}

func skipNotGo[C any](check func(C, *Obs) error) func(C, *Obs) error {
	return func(c C, o *Obs) error {
		err := check(c, o)
		if err == errNotGo {
			*o = Obs{dir: o.dir}
			o.Label("not valid Go in other words, skipped")
			return nil
		}
		return err
	}
}

func genReworded(t *rapid.T) Reworded {
	g := &gen{t: t}
	var src string
	switch g.n(5) {
	case 0: // not formatted
		g.o = genOpts(t, 4)
		src = g.file()
	case 1:
		src = genDecls(t)
	default:
		src = genFormatted(t, genOpts(t, 5))
	}
	n := g.n
	if g.p(70) {
		n = seeded(rapid.Uint64().Draw(t, ""))
	}
	new, ok := reword(src, n)
	if !ok {
		new = src
	}
	return Reworded{Text(src), Text(new)}
}

// seeded makes numbers from a seed.
func seeded(x uint64) func(int) int {
	return func(k int) int {
		x += 0x9E3779B97F4A7C15
		z := (x ^ x>>30) * 0xBF58476D1CE4E5B9
		z = (z ^ z>>27) * 0x94D049BB133111EB
		return int((z ^ z>>31) >> 1 % uint64(k))
	}
}

func init() {
	register(&Prop{ID: "C27", Subs: []*Sub{
		sub("generated", "generated source file, mostly gofmt'ed, and the same with other names, numbers, comments, strings and runes; non-trivial: they differ, more than 20 nodes",
			40000, 2000000, genReworded, skipNotGo(checkReworded)),
		listed("real", "file of the Go source tree, as it is, and the same in other words; non-trivial: they differ, more than 20 nodes", corpusCases(600, 20000),
			skipNotGo(func(c FileCase, o *Obs) error {
				b, err := os.ReadFile(c.Path)
				if err != nil || strings.Contains(string(b), "\r") {
					return errNotGo
				}
				new, ok := reword(string(b), seeded(hash64(c.Path)))
				if !ok {
					return errNotGo
				}
				return checkReworded(Reworded{Text(b), Text(new)}, o)
			})),
	}})
}
