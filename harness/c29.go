package main

// C29: the number of blanks, trailing blanks and the form of a statement's end do not matter.

import (
	"fmt"
	"go/format"
	"go/parser"
	"go/token"
	"os"
	"slices"
	"strings"

	"github.com/yanun0323/goast"
	"pgregory.net/rapid"
)

// respace adds blanks where blanks are, blanks and semicolons at line ends, indents by blanks, and joins lines by
// semicolons.
func respace(src string, n func(int) int) (string, bool) {
	toks, ok := scan(src)
	if !ok {
		return "", false
	}
	var b strings.Builder
	last, rate := 0, 1+n(12)
	on := [5]bool{}
	for i := range on {
		on[i] = n(2) == 0
	}
	deep := n(8) == 0
	ints := theDict().newInts
	many := func(k int) int {
		switch {
		case len(ints) != 0 && n(40) == 0:
			return max(1, min(ints[n(len(ints))], 300)-1+n(3))
		case deep && n(6) == 0:
			return k + n(1<<n(6))
		}
		return k
	}
	blanks := func(k int) string { return strings.Repeat(" ", many(1+n(k))) }
	for i, t := range toks {
		gap := src[last:t.pos]
		if i > 0 && n(rate) == 0 {
			prev := toks[i-1]
			ends := strings.HasPrefix(gap, "\n") && endsLine(prev.tok)
			comment := prev.tok == token.COMMENT || t.tok == token.COMMENT
			switch {
			case strings.Trim(gap, " ") == "":
				if gap != "" && on[0] {
					gap += blanks(3)
				}
			case ends && !comment && on[1] && strings.Trim(gap[1:], "\t") == "" && len(gap) > 1 && t.tok != token.RBRACE && t.tok != token.RPAREN:
				gap = ";" + blanks(2)
			default:
				if strings.HasSuffix(gap, "\t") && strings.Contains(gap, "\n") && on[2] {
					if n(2) == 0 {
						gap = strings.TrimRight(gap, "\t")
					}
					gap += blanks(4)
				}
				if ends && prev.tok != token.COMMENT && on[3] {
					gap = ";" + gap
				}
				if strings.Contains(gap, "\n") && on[4] && prev.tok != token.COMMENT {
					if n(3) == 0 {
						gap = strings.Repeat("\t", many(1+n(2))) + gap
					} else {
						gap = blanks(2) + gap
					}
				}
			}
		}
		b.WriteString(gap)
		b.WriteString(src[t.pos:t.end])
		last = t.end
	}
	b.WriteString(src[last:])
	return b.String(), true
}

// unspaced lists the nodes without blanks and semicolons.
func unspaced(src string) (out []string, scopes string, err error) {
	scs, err := goast.ParseScope(0, []byte(src))
	if err != nil {
		return
	}
	ns, err := flatten(scs, len(src), 0)
	if err != nil {
		return
	}
	for _, n := range ns {
		text := strings.NewReplacer("\n", "", "\t", "", " ", "", ";", "").Replace(n.n.Text())
		if text != "" {
			end := ""
			if strings.Trim(n.n.Text(), " \t\n;") != n.n.Text() { // comments only, in gofmt'ed files
				end = " with blanks at an end"
			}
			out = append(out, fmt.Sprintf("%q%s %v of scope %d", text, end, n.n.Kind(), n.scope))
		}
	}
	var b strings.Builder
	for i, s := range scs {
		fmt.Fprintf(&b, "scope %d: %v, %s\n", i, s.Kind(), namesOf(s))
	}
	return out, b.String(), nil
}

func checkRespaced(c Relaid, o *Obs) error {
	src, new := string(c.Src), string(c.New)
	tokens := func(s string) (r []string) {
		toks, ok := scan(s)
		if !ok {
			return nil
		}
		for _, t := range toks {
			if t.tok != token.SEMICOLON {
				r = append(r, s[t.pos:t.end])
			}
		}
		return
	}
	if a, b := tokens(src), tokens(new); a == nil || !slices.Equal(a, b) {
		return errNotGo
	}
	if b, err := format.Source([]byte(src)); err != nil || string(b) != src {
		return errNotGo
	}
	for _, s := range []string{src, new} {
		if _, err := parser.ParseFile(token.NewFileSet(), "x.go", s, parser.SkipObjectResolution); err != nil {
			return errNotGo
		}
	}
	n1, s1, err := unspaced(src)
	if err != nil {
		return err
	}
	n2, s2, err := unspaced(new)
	if err != nil {
		return fmt.Errorf("with more blanks and semicolons: %w", err)
	}
	if s1 != s2 {
		return fmt.Errorf("with more blanks and semicolons, the scopes are others: %s", firstDiff(s2, s1))
	}
	for i := range n1 {
		if i < len(n2) && n1[i] != n2[i] {
			return fmt.Errorf("node %s is with more blanks and semicolons %s", n1[i], n2[i])
		}
	}
	if len(n1) != len(n2) {
		return fmt.Errorf("%d nodes, with more blanks and semicolons %d", len(n1), len(n2))
	}
	if src != new && len(n1) > 20 {
		o.Nontrivial()
	}
	return nil
}

func genRespaced(t *rapid.T) Relaid {
	g := &gen{t: t}
	var src string
	switch g.n(5) {
	case 0:
		b, err := format.Source([]byte(genDecls(t)))
		if err != nil {
			b = []byte("package p\n")
		}
		src = string(b)
	default:
		src = genFormatted(t, genOpts(t, 5))
	}
	n := g.n
	if g.p(70) {
		n = seeded(rapid.Uint64().Draw(t, ""))
	}
	new, ok := respace(src, n)
	if !ok {
		new = src
	}
	return Relaid{Text(src), Text(new)}
}

func init() {
	register(&Prop{ID: "C29", Subs: []*Sub{
		sub("generated", "generated source file, gofmt'ed, and the same with more blanks, blanks, tabs and semicolons at line ends, and lines joined by semicolons; non-trivial: they differ, more than 20 nodes",
			40000, 2000000, genRespaced, skipNotGo(checkRespaced)),
		listed("real", "gofmt'ed file of the Go source tree and the same with more blanks and semicolons; non-trivial: they differ, more than 20 nodes", corpusCases(600, 20000),
			skipNotGo(func(c FileCase, o *Obs) error {
				b, err := os.ReadFile(c.Path)
				if err != nil || strings.Contains(string(b), "\r") {
					return errNotGo
				}
				new, ok := respace(string(b), seeded(hash64(c.Path)))
				if !ok {
					return errNotGo
				}
				return checkRespaced(Relaid{Text(b), Text(new)}, o)
			})),
	}})
}
