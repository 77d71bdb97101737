package main

// A fuzzing dictionary: the literals of the code under test. What the code compares its input with is a good
// input. Literals that are not in dict_base.txt, those of the tree the checks were written for, are drawn more
// often. The dictionary only feeds the generators, no oracle looks at it.

import (
	_ "embed"
	"fmt"
	"go/ast"
	"go/constant"
	"go/parser"
	"go/token"
	"io/fs"
	"os"
	"path/filepath"
	"runtime/debug"
	"slices"
	"strconv"
	"strings"
	"sync"
	"unicode"
	"unicode/utf8"
)

//go:embed dict_base.txt
var dictBase string

type dictionary struct {
	words, newWords []string
	newInts         []int
}

// dictLiterals lists the literals of the directory tree.
func dictLiterals(root string) (out []string) {
	_ = filepath.WalkDir(root, func(path string, e fs.DirEntry, err error) error {
		if err != nil {
			return nil
		}
		if e.IsDir() {
			if n := e.Name(); path != root && (n[0] == '.' || n == "testdata" || n == "exported") {
				return filepath.SkipDir
			}
			return nil
		}
		if !strings.HasSuffix(path, ".go") || strings.HasSuffix(path, "_test.go") {
			return nil
		}
		b, err := os.ReadFile(path)
		if err != nil {
			return nil
		}
		f, err := parser.ParseFile(token.NewFileSet(), path, b, parser.SkipObjectResolution)
		if err != nil {
			return nil
		}
		add := func(v constant.Value) {
			switch v.Kind() {
			case constant.String:
				if s := constant.StringVal(v); s != "" && len(s) <= 200 {
					out = append(out, "s "+strconv.Quote(s))
				}
			case constant.Int:
				if i, ok := constant.Int64Val(v); ok && i > 1 && i <= 1<<21 {
					out = append(out, fmt.Sprintf("i %d", i))
				}
			}
		}
		ast.Inspect(f, func(n ast.Node) bool {
			switch n := n.(type) {
			case *ast.ImportSpec:
				return false
			case *ast.BasicLit:
				if v := constant.MakeFromLiteral(n.Value, n.Kind, 0); v.Kind() != constant.Unknown {
					add(v)
				}
			case *ast.BinaryExpr:
				x, ok1 := n.X.(*ast.BasicLit)
				y, ok2 := n.Y.(*ast.BasicLit)
				if ok1 && ok2 && x.Kind == token.INT && y.Kind == token.INT {
					a, b := constant.MakeFromLiteral(x.Value, x.Kind, 0), constant.MakeFromLiteral(y.Value, y.Kind, 0)
					switch n.Op {
					case token.SHL:
						if s, ok := constant.Uint64Val(b); ok && s < 40 {
							add(constant.Shift(a, token.SHL, uint(s)))
						}
					case token.ADD, token.SUB, token.MUL:
						add(constant.BinaryOp(a, n.Op, b))
					}
				}
			}
			return true
		})
		return nil
	})
	slices.Sort(out)
	return out
}

// dictRoot is the directory of the code under test.
func dictRoot() string {
	if bi, ok := debug.ReadBuildInfo(); ok {
		for _, d := range bi.Deps {
			if d.Path == "github.com/yanun0323/goast" && d.Replace != nil && filepath.IsAbs(d.Replace.Path) {
				return d.Replace.Path
			}
		}
	}
	return "/repo"
}

var theDict = sync.OnceValue(func() *dictionary {
	base := map[string]int{}
	for _, l := range strings.Split(dictBase, "\n") {
		base[l]++
	}
	d := &dictionary{}
	seen := map[string]bool{}
	add := func(w string, isNew bool) {
		if w == "" || seen[fmt.Sprint(isNew, w)] {
			return
		}
		seen[fmt.Sprint(isNew, w)] = true
		if isNew {
			d.newWords = append(d.newWords, w)
		} else {
			d.words = append(d.words, w)
		}
	}
	for _, l := range dictLiterals(dictRoot()) {
		base[l]--
		isNew := base[l] < 0
		v := l
		switch {
		case strings.HasPrefix(v, "s "):
			s, _ := strconv.Unquote(v[2:])
			add(s, isNew)
			if t := strings.TrimSpace(s); t != s {
				add(t, isNew)
			}
		case isNew:
			i, _ := strconv.Atoi(v[2:])
			if !slices.Contains(d.newInts, i) {
				d.newInts = append(d.newInts, i)
			}
			if i < 256 {
				add(string([]byte{byte(i)}), true)
			}
			if i > 32 && i < 0x20000 && utf8.ValidRune(rune(i)) {
				add(string(rune(i)), true)
			}
		}
	}
	return d
})

// word draws a word of the dictionary, in about c of 100 cases if it has new ones.
func (g *gen) word(c int) (string, bool) {
	d := theDict()
	switch {
	case len(d.newWords) != 0:
		if !g.p(c) {
			return "", false
		}
		if g.p(85) || len(d.words) == 0 {
			return g.pick(d.newWords), true
		}
		return g.pick(d.words), true
	case len(d.words) != 0:
		if g.n(400) >= 400-c {
			return g.pick(d.words), true
		}
	}
	return "", false
}

// size draws a number near one of the code under test, up to max.
func (g *gen) size(c, max int) (int, bool) {
	d := theDict()
	if len(d.newInts) == 0 || !g.p(c) {
		return 0, false
	}
	i := d.newInts[g.n(len(d.newInts))] + g.n(3) - 1
	return i, i > 0 && i <= max
}

// wordIdent draws an identifier made of a word of the dictionary, or as long as a number of it.
func (g *gen) wordIdent() (string, bool) {
	if k, ok := g.size(3, 600); ok {
		return "n" + strings.Repeat(g.pick([]string{"n", "_", "0"}), k-1), true
	}
	w, ok := g.word(6)
	if !ok {
		return "", false
	}
	w = strings.Map(func(r rune) rune {
		if r == '_' || unicode.IsLetter(r) || unicode.IsDigit(r) {
			return r
		}
		return -1
	}, strings.ToValidUTF8(w, ""))
	switch g.n(5) {
	case 0:
		w = "x" + w
	case 1:
		w += "x"
	case 2:
		w = g.pick(plainIdents) + w
	}
	return w, token.IsIdentifier(w) && w != "_"
}

// wordText draws the content of a comment or string from the dictionary, without newlines.
func (g *gen) wordText() (string, bool) {
	if k, ok := g.size(3, 3000); ok {
		return strings.Repeat(g.pick([]string{"x", " x", "\t", "世"}), k), true
	}
	w, ok := g.word(8)
	if !ok {
		return "", false
	}
	w = strings.ToValidUTF8(w, "?")
	if g.p(50) {
		w = strings.Trim(strings.TrimLeft(w, "/*\"`'"), "\"`'")
	}
	switch g.n(5) {
	case 0:
		w = " " + w
	case 1:
		w += " x"
	case 2:
		w = "x" + w
	case 3:
		w += w
	}
	w = strings.Map(func(r rune) rune {
		if r == '\n' || r == '\r' || r == 0 || r == '\ufeff' {
			return -1
		}
		return r
	}, w)
	return w, true
}

// uniIdent draws an identifier of random letters and digits.
func (g *gen) uniIdent() string {
	w := ""
	for range 1 + g.n(5) {
		r := rune(0xC0 + g.n(0x190))
		switch g.n(6) {
		case 0:
			r = rune('0' + g.n(0x4b))
		case 1:
			r = rune(0x370 + g.n(0x400))
		case 2:
			r = rune(0x4E00 + g.n(0x1000))
		case 3:
			r = rune(0x10400 + g.n(0x40))
		}
		if r == '_' || unicode.IsLetter(r) || w != "" && unicode.IsDigit(r) {
			w += string(r)
		}
	}
	if !token.IsIdentifier(w) || w == "_" {
		return "é" + w
	}
	return w
}
