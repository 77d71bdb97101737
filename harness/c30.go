package main

// C30: comments at line ends, at line starts and on lines of their own do not matter.

import (
	"fmt"
	"go/format"
	"go/parser"
	"go/token"
	"os"
	"regexp"
	"slices"
	"strings"

	"github.com/yanun0323/goast"
	"github.com/yanun0323/goast/kind"
	"pgregory.net/rapid"
)

const mark = "\u2e2e" // in added comments, and nowhere else

var marked = regexp.MustCompile("(?s)/\\*" + mark + ".*?" + mark + "\\*/|//" + mark + "[^\n]*")

// annotate adds comments with the given text.
func annotate(src string, texts []string, n func(int) int) (string, bool) {
	toks, ok := scan(src)
	if !ok || strings.Contains(src, mark) {
		return "", false
	}
	line := func() string {
		return "//" + mark + strings.NewReplacer("\n", " ", "\r", " ").Replace(texts[n(len(texts))])
	}
	block := func(oneLine bool) string {
		s := strings.NewReplacer("*/", "* /", "\r", " ").Replace(texts[n(len(texts))])
		if oneLine || n(3) != 0 {
			s = strings.ReplaceAll(s, "\n", " ")
		}
		return "/*" + mark + s + mark + "*/"
	}
	on := [4]int{}
	for i := range on {
		on[i] = n(2)
	}
	var b strings.Builder
	last, rate, depth := 0, 1+n(12), 0
	for i, t := range toks {
		gap := src[last:t.pos]
		if i > 0 && n(rate) == 0 {
			prev := toks[i-1]
			lineComment := prev.tok == token.COMMENT && strings.HasPrefix(src[prev.pos:], "//")
			if strings.HasSuffix(gap, "\t") && strings.Contains(gap, "\n") {
				tabs := gap[strings.LastIndex(gap, "\n")+1:]
				for range n(3) * on[0] {
					if n(3) == 0 {
						gap += block(false) + "\n" + tabs
					} else {
						gap += line() + "\n" + tabs
					}
				}
				if on[1] == 1 && n(3) != 0 {
					gap += block(true) + " "
				}
			}
			if depth == 0 && strings.HasSuffix(gap, "\n") && prev.tok != token.COMMENT && on[2] == 1 {
				if n(3) == 0 {
					gap += block(false) + "\n"
				} else {
					gap += line() + "\n"
				}
				gap += strings.Repeat("\n", n(2))
			}
			if strings.Contains(gap, "\n") && !lineComment && on[3] == 1 {
				space := []string{" ", " ", " ", "", "\t", "  "}[n(6)]
				if n(2) == 0 {
					gap = space + block(false) + gap
				} else {
					gap = space + line() + gap
				}
			}
		}
		switch t.tok {
		case token.LPAREN, token.LBRACE, token.LBRACK:
			depth++
		case token.RPAREN, token.RBRACE, token.RBRACK:
			depth--
		}
		b.WriteString(gap)
		b.WriteString(src[t.pos:t.end])
		last = t.end
	}
	b.WriteString(src[last:])
	return b.String(), true
}

// unannotated lists the nodes without added comments, blanks and semicolons, by the scopes that have any.
func unannotated(src string) (out []string, scopes string, err error) {
	scs, err := goast.ParseScope(0, []byte(src))
	if err != nil {
		return
	}
	ns, err := flatten(scs, len(src), 0)
	if err != nil {
		return
	}
	var b strings.Builder
	k, last := 0, -1
	for _, n := range ns {
		text := strings.NewReplacer("\n", "", "\t", "", " ", "", ";", "").Replace(marked.ReplaceAllString(n.n.Text(), ""))
		if text == "" {
			continue
		}
		if n.scope != last {
			k, last = k+1, n.scope
			fmt.Fprintf(&b, "scope %d: %v, %s\n", k, scs[n.scope].Kind(), namesOf(scs[n.scope]))
		}
		end := ""
		if s := n.n.Text(); strings.TrimSpace(s) != s && n.n.Kind() != kind.Comment {
			end = " with blanks at an end"
		}
		out = append(out, fmt.Sprintf("%q%s %v of scope %d", text, end, n.n.Kind(), k))
	}
	return out, b.String(), nil
}

func checkAnnotated(c Relaid, o *Obs) error {
	src, new := string(c.Src), string(c.New)
	tokens := func(s string) (r []string) {
		toks, ok := scan(s)
		if !ok {
			return nil
		}
		for _, t := range toks {
			if text := s[t.pos:t.end]; t.tok != token.COMMENT || !marked.MatchString(text) && t.tok != token.SEMICOLON {
				r = append(r, text)
			}
		}
		return
	}
	if a, b := tokens(src), tokens(new); a == nil || !slices.Equal(a, b) || strings.Contains(src, mark) {
		return errNotGo
	}
	if b, err := format.Source([]byte(src)); err != nil || string(b) != src {
		return errNotGo
	}
	for _, s := range []string{src, new} {
		if _, err := parser.ParseFile(token.NewFileSet(), "x.go", s, parser.SkipObjectResolution); err != nil {
			return errNotGo
		}
	}
	n1, s1, err := unannotated(src)
	if err != nil {
		return err
	}
	n2, s2, err := unannotated(new)
	if err != nil {
		return fmt.Errorf("with more comments: %w", err)
	}
	if s1 != s2 {
		return fmt.Errorf("with more comments, the scopes are others: %s", firstDiff(s2, s1))
	}
	for i := range n1 {
		if i < len(n2) && n1[i] != n2[i] {
			return fmt.Errorf("node %s is with more comments %s", n1[i], n2[i])
		}
	}
	if len(n1) != len(n2) {
		return fmt.Errorf("%d nodes, with more comments %d", len(n1), len(n2))
	}
	if src != new && len(n1) > 20 {
		o.Nontrivial()
	}
	return nil
}

var plainComments = []string{"", " c", " TODO: x", " func f() {", " }", " (", " )", " \"", " `", "'", " //", " /*", " type T struct {", "\n", " a\nb ", " ;", ",", "go:generate x"}

func genAnnotated(t *rapid.T) Relaid {
	g := &gen{t: t}
	var src string
	switch g.n(5) {
	case 0:
		b, err := format.Source([]byte(genDecls(t)))
		if err != nil {
			b = []byte("package p\n")
		}
		src = string(b)
	default:
		src = genFormatted(t, genOpts(t, 5))
	}
	n := g.n
	if g.p(70) {
		n = seeded(rapid.Uint64().Draw(t, ""))
	}
	texts := slices.Clone(plainComments)
	for range g.n(3) {
		texts = append(texts, strings.NewReplacer(mark, "", "*/", "").Replace(g.commentText()))
	}
	if g.p(30) {
		texts = texts[len(texts)-1:]
	}
	new, ok := annotate(src, texts, n)
	if !ok {
		new = src
	}
	return Relaid{Text(src), Text(new)}
}

// genTogether adds comments, blanks, semicolons and blank lines.
func genTogether(t *rapid.T) Relaid {
	c := genAnnotated(t)
	new := string(c.New)
	n := seeded(rapid.Uint64().Draw(t, ""))
	for _, edit := range []func(string, func(int) int) (string, bool){respace, relay} {
		if s, ok := edit(new, n); ok {
			new = s
		}
	}
	return Relaid{c.Src, Text(new)}
}

func init() {
	register(&Prop{ID: "C30", Subs: []*Sub{
		sub("generated", "generated gofmt'ed source file, and the same with more comments at line ends, line starts and on lines of their own; non-trivial: they differ, more than 20 nodes",
			40000, 2000000, genAnnotated, skipNotGo(checkAnnotated)),
		sub("together", "generated gofmt'ed source file, and the same with more comments and all changes of C28 and C29; non-trivial: they differ, more than 20 nodes",
			20000, 1000000, genTogether, skipNotGo(checkAnnotated)),
		listed("real", "gofmt'ed file of the Go source tree, and the same with more comments; non-trivial: they differ, more than 20 nodes", corpusCases(600, 20000),
			skipNotGo(func(c FileCase, o *Obs) error {
				b, err := os.ReadFile(c.Path)
				if err != nil || strings.Contains(string(b), "\r") {
					return errNotGo
				}
				new, ok := annotate(string(b), plainComments, seeded(hash64(c.Path)))
				if !ok {
					return errNotGo
				}
				return checkAnnotated(Relaid{Text(b), Text(new)}, o)
			})),
	}})
}
