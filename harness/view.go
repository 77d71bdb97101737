package main

// Reading what the code under test returned, and the corpus of real Go files.

import (
	"errors"
	"fmt"
	"go/ast"
	"go/format"
	"go/parser"
	"go/token"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"sync"

	"github.com/yanun0323/goast"
	"github.com/yanun0323/goast/kind"
	"github.com/yanun0323/goast/scope"
)

type nodeAt struct {
	off, scope int
	n          *goast.Node
}

// chain lists the nodes from n on, and fails on a chain of more than limit nodes (a cycle).
func chain(n *goast.Node, limit int) ([]*goast.Node, error) {
	var out []*goast.Node
	for ; n != nil; n = n.Next() {
		if len(out) > limit {
			return nil, fmt.Errorf("the chain has more than %d nodes, more than there are bytes: a cycle", limit)
		}
		out = append(out, n)
	}
	return out, nil
}

// flatten lists the nodes of all scopes with their offsets, counted from base.
func flatten(scs []goast.Scope, limit, base int) ([]nodeAt, error) {
	var out []nodeAt
	for i, s := range scs {
		c, err := chain(s.Node(), limit)
		if err != nil {
			return nil, fmt.Errorf("scope %d: %w", i, err)
		}
		for _, n := range c {
			out = append(out, nodeAt{base, i, n})
			base += len(n.Text())
		}
		if len(out) > 2*limit+10 {
			return nil, fmt.Errorf("more than %d nodes for %d bytes", len(out), limit)
		}
	}
	return out, nil
}

func textOf(ns []nodeAt) string {
	var b strings.Builder
	for _, n := range ns {
		b.WriteString(n.n.Text())
	}
	return b.String()
}

func scopeText(s goast.Scope, limit int) (string, error) {
	c, err := chain(s.Node(), limit)
	var b strings.Builder
	for _, n := range c {
		b.WriteString(n.Text())
	}
	return b.String(), err
}

// parsed is a gofmt'ed source with its syntax tree, and the scopes the code under test made of it.
type parsed struct {
	src   string
	fs    *token.FileSet
	f     *ast.File
	scs   []goast.Scope
	nodes []nodeAt
	toks  []tok
	types [][2]int
}

func (p *parsed) off(pos token.Pos) int  { return p.fs.PositionFor(pos, false).Offset }
func (p *parsed) line(pos token.Pos) int { return p.fs.PositionFor(pos, false).Line }
func (p *parsed) col(pos token.Pos) int  { return p.fs.PositionFor(pos, false).Column }

// at returns the node that covers the offset.
func (p *parsed) at(off int) *nodeAt {
	i := sort.Search(len(p.nodes), func(i int) bool { return p.nodes[i].off > off }) - 1
	if i < 0 {
		return nil
	}
	return &p.nodes[i]
}

// errNotGo is returned for a case that go/parser rejects: gofmt moves comments so that, now and then, a
// valid source becomes an invalid one.
var errNotGo = errors.New("not valid Go")

// srcCheck skips such cases.
func srcCheck(check func(string, *Obs) error) func(Src, *Obs) error {
	return func(c Src, o *Obs) error {
		err := check(string(c.Src), o)
		if err == errNotGo {
			*o = Obs{dir: o.dir}
			o.Label("gofmt broke the source, skipped")
			return nil
		}
		return err
	}
}

// parseBoth parses src with go/parser and with the code under test, errNotGo if go/parser rejects it.
func parseBoth(src string) (*parsed, error) {
	p := &parsed{src: src, fs: token.NewFileSet()}
	var err error
	p.f, err = parser.ParseFile(p.fs, "x.go", src, parser.ParseComments|parser.SkipObjectResolution)
	if err != nil {
		return nil, errNotGo
	}
	p.scs, err = goast.ParseScope(0, []byte(src))
	if err != nil {
		return nil, fmt.Errorf("ParseScope of valid source: %w", err)
	}
	p.nodes, err = flatten(p.scs, len(src), 0)
	if err != nil {
		return nil, err
	}
	total := len(textOf(p.nodes))
	if total > len(src) {
		return nil, fmt.Errorf("the nodes hold %d bytes of text, the source %d", total, len(src))
	}
	for i := range p.nodes { // the text before the first scope is dropped
		p.nodes[i].off += len(src) - total
	}
	if got := textOf(p.nodes); got != src[len(src)-total:] {
		return nil, fmt.Errorf("the nodes do not hold the source: %s", firstDiff(got, src[len(src)-total:]))
	}
	return p, nil
}

func firstDiff(got, want string) string {
	i := 0
	for i < len(got) && i < len(want) && got[i] == want[i] {
		i++
	}
	a := max(0, i-20)
	return fmt.Sprintf("at byte %d: got %q, want %q", i, clip(got[a:], 80), clip(want[a:], 80))
}

// declsStartLines tells whether every top-level declaration starts in the first column.
func (p *parsed) declsStartLines() bool {
	if p.col(p.f.Package) != 1 {
		return false
	}
	for _, d := range p.f.Decls {
		if p.col(d.Pos()) != 1 {
			return false
		}
	}
	return true
}

func isBasicName(s string) bool {
	for _, b := range basicTypes {
		if s == b {
			return true
		}
	}
	return false
}

func kindName(k kind.Kind) string { return k.String() }

var scopeOfTok = map[token.Token]scope.Kind{
	token.IMPORT: scope.Import, token.VAR: scope.Variable, token.CONST: scope.Const, token.TYPE: scope.Type,
}

// declScopes maps each declaration to the scope that starts where it starts.
func (p *parsed) declScopes() (map[ast.Decl]goast.Scope, error) {
	starts := map[int]goast.Scope{}
	o := -1
	for _, n := range p.nodes {
		if n.scope != o {
			o = n.scope
			starts[n.off] = p.scs[n.scope]
		}
	}
	out := map[ast.Decl]goast.Scope{}
	for _, d := range p.f.Decls {
		s := starts[p.off(d.Pos())]
		if s == nil {
			return nil, fmt.Errorf("no scope starts at the declaration of line %d", p.line(d.Pos()))
		}
		out[d] = s
	}
	return out, nil
}

// ---- the corpus ----

var corpusOnce = sync.OnceValue(func() []string {
	root := os.Getenv("VH_GOROOT")
	if root == "" {
		b, err := exec.Command("go", "env", "GOROOT").Output()
		if err != nil {
			return nil
		}
		root = strings.TrimSpace(string(b))
	}
	var out []string
	_ = filepath.Walk(filepath.Join(root, "src"), func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			return nil
		}
		if fi.IsDir() {
			if fi.Name() == "testdata" {
				return filepath.SkipDir
			}
			return nil
		}
		if strings.HasSuffix(p, ".go") && fi.Size() < 200_000 {
			out = append(out, p)
		}
		return nil
	})
	sort.Strings(out)
	return out
})

// FileCase names a file of the Go source tree.
type FileCase struct {
	Path string `json:"path"`
	Cut  int    `json:"cut,omitempty"` // bytes to keep, 0: all
}

// corpusCases picks quick (or thorough) files of the Go source tree.
func corpusCases(quick, thorough int) func(tier string, seed uint64) []FileCase {
	return func(tier string, seed uint64) []FileCase {
		files := corpusOnce()
		n := quick
		if tier == "thorough" {
			n = thorough
		}
		if len(files) == 0 {
			return nil
		}
		n = min(n, len(files))
		stride := max(1, len(files)/n)
		start := int(hash64("corpus", fmt.Sprint(seed)) % uint64(stride))
		var out []FileCase
		for i := start; i < len(files) && len(out) < n; i += stride {
			out = append(out, FileCase{Path: files[i]})
		}
		return out
	}
}

// formatted reads the file and gofmt's it; ok is false if it is no valid Go.
func (c FileCase) formatted() (string, bool) {
	b, err := os.ReadFile(c.Path)
	if err != nil {
		return "", false
	}
	b, err = format.Source(b)
	if err != nil {
		return "", false
	}
	if _, err := parser.ParseFile(token.NewFileSet(), "x.go", b, parser.SkipObjectResolution|parser.ParseComments); err != nil {
		return "", false
	}
	return string(b), true
}

// srcSubs makes the sub-checks of a property over gofmt'ed sources: generated ones, and real ones.
func srcSubs(rule string, quick, thorough, corpusQuick, corpusThorough int, check func(string, *Obs) error) []*Sub {
	return []*Sub{
		sub("generated", "generated gofmt'ed source file; "+rule, quick, thorough, func(t *rapidT) Src {
			return Src{Text(genFormatted(t, genOpts(t, 6)))}
		}, srcCheck(check)),
		sub("large", "generated gofmt'ed source file with many declarations; "+rule, quick/60, thorough/60, func(t *rapidT) Src {
			return Src{Text(genLarge(t))}
		}, srcCheck(check)),
		listed("real", "file of the Go source tree, gofmt'ed; "+rule, corpusCases(corpusQuick, corpusThorough),
			func(c FileCase, o *Obs) error {
				s, ok := c.formatted()
				if !ok {
					o.Label("not valid Go, skipped")
					return nil
				}
				return check(s, o)
			}),
	}
}

// genLarge draws a file with many declarations, long lines and long literals.
func genLarge(t *rapidT) string {
	g := &gen{t: t, o: genOpts(t, 8)}
	var b strings.Builder
	b.WriteString(g.file() + "\n")
	reps := 2 + g.n(12)
	for range reps {
		d := g.decl() + "\n\n"
		if g.o.Comments && g.p(40) {
			d = g.commentLine() + "\n" + d
		}
		// the same declaration many times over: size, not variety
		b.WriteString(strings.Repeat(d, 1+g.n(40)))
	}
	switch g.n(4) {
	case 0:
		b.WriteString("var long = `" + strings.Repeat("func x() {\n// y\n", g.n(3000)) + "`\n\n")
	case 1:
		b.WriteString("var deep = " + strings.Repeat("(", 1+g.n(200)) + "1")
		s := b.String()
		b.WriteString(strings.Repeat(")", strings.Count(s[strings.LastIndex(s, "var deep"):], "(")) + "\n\n")
	case 2:
		b.WriteString("/*" + strings.Repeat(" type T\n", g.n(3000)) + "*/\n\n")
	}
	b.WriteString(g.decl() + "\n")
	return formatted(b.String())
}
