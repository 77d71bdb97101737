package main

// C28: blank lines and indentation do not matter.

import (
	"fmt"
	"go/parser"
	"go/token"
	"os"
	"strings"

	"github.com/yanun0323/goast"
	"pgregory.net/rapid"
)

// Relaid is a source and the same source with other blank lines and indentation.
type Relaid struct {
	Src Text `json:"src"`
	New Text `json:"new"`
}

// relay adds blank lines and tabs where there are line breaks and indentation between two tokens.
func relay(src string, n func(int) int) (string, bool) {
	toks, ok := scan(src)
	if !ok {
		return "", false
	}
	var b strings.Builder
	last, rate := 0, 1+n(12)
	deep := n(8) == 0
	ints := theDict().newInts
	many := func(k int) int {
		switch {
		case len(ints) != 0 && n(40) == 0:
			return max(0, min(ints[n(len(ints))], 300)-1+n(3))
		case deep && n(6) == 0:
			return k + n(1<<n(6))
		}
		return k
	}
	gap := func(s string) {
		for i := range len(s) {
			b.WriteByte(s[i])
			if n(rate) != 0 {
				continue
			}
			switch {
			case s[i] == '\n' && n(4) != 0:
				for range many(1 + n(3)*n(2)) {
					b.WriteString(strings.Repeat("\t", many(n(3)*n(2))) + "\n")
				}
			case s[i] == '\t' && strings.TrimRight(s[:i], "\t") != s[:i] || s[i] == '\n' && i+1 < len(s) && s[i+1] == '\t':
				b.WriteString(strings.Repeat("\t", many(1+n(2))))
			}
		}
	}
	for _, t := range toks {
		gap(src[last:t.pos])
		b.WriteString(src[t.pos:t.end])
		last = t.end
	}
	gap(src[last:])
	return b.String(), true
}

type solid struct {
	scope, line int // the line that has this number if only the lines with text count
	desc        string
}

// solids lists the nodes without those of gaps between tokens.
func solids(src string) (out []solid, scopes string, err error) {
	scs, err := goast.ParseScope(0, []byte(src))
	if err != nil {
		return
	}
	ns, err := flatten(scs, len(src), 0)
	if err != nil {
		return
	}
	// number the lines
	number, k := []int{}, 0
	toks, _ := scan(src)
	blank := make([]bool, strings.Count(src, "\n")+1)
	for i := range blank {
		blank[i] = true
	}
	line, ti := 0, 0
	for i := range len(src) {
		for ti < len(toks) && toks[ti].end <= i {
			ti++
		}
		if ti < len(toks) && i >= toks[ti].pos {
			blank[line] = false
		}
		if src[i] == '\n' {
			line++
		}
	}
	for _, b := range blank {
		number = append(number, k)
		if !b {
			k++
		}
	}
	at := func(l int) int {
		if l < 0 || l >= len(number) {
			return -1
		}
		return number[l]
	}
	for _, n := range ns {
		text := strings.NewReplacer("\n", "", "\t", "").Replace(n.n.Text())
		if text == "" {
			continue
		}
		out = append(out, solid{n.scope, at(n.n.Line()), fmt.Sprintf("%q %v", text, n.n.Kind())})
	}
	var b strings.Builder
	for i, s := range scs {
		fmt.Fprintf(&b, "scope %d: %v of line %d, %s\n", i, s.Kind(), at(s.Line()-1), namesOf(s))
	}
	return out, b.String(), nil
}

func checkRelaid(c Relaid, o *Obs) error {
	src, new := string(c.Src), string(c.New)
	a, ok1 := scan(src)
	b, ok2 := scan(new)
	if !ok1 || !ok2 || len(a) != len(b) {
		return errNotGo
	}
	for i := range a {
		if a[i].tok != b[i].tok || src[a[i].pos:a[i].end] != new[b[i].pos:b[i].end] {
			return errNotGo
		}
	}
	for _, s := range []string{src, new} {
		if _, err := parser.ParseFile(token.NewFileSet(), "x.go", s, parser.SkipObjectResolution); err != nil {
			return errNotGo
		}
	}
	n1, s1, err := solids(src)
	if err != nil {
		return err
	}
	n2, s2, err := solids(new)
	if err != nil {
		return fmt.Errorf("with other blank lines: %w", err)
	}
	if s1 != s2 {
		return fmt.Errorf("with other blank lines and indentation, the scopes are others: %s", firstDiff(s2, s1))
	}
	for i := range n1 {
		if i < len(n2) && n1[i] != n2[i] {
			return fmt.Errorf("node %s of scope %d and line %d is with other blank lines and indentation %s of scope %d and line %d (lines counted without blank ones)",
				n1[i].desc, n1[i].scope, n1[i].line, n2[i].desc, n2[i].scope, n2[i].line)
		}
	}
	if len(n1) != len(n2) {
		return fmt.Errorf("%d nodes, with other blank lines %d", len(n1), len(n2))
	}
	if src != new && len(n1) > 20 {
		o.Nontrivial()
	}
	return nil
}

func genRelaid(t *rapid.T) Relaid {
	g := &gen{t: t}
	var src string
	switch g.n(5) {
	case 0: // not formatted
		g.o = genOpts(t, 4)
		src = g.file()
	case 1:
		src = genDecls(t)
	default:
		src = genFormatted(t, genOpts(t, 5))
	}
	n := g.n
	if g.p(70) {
		n = seeded(rapid.Uint64().Draw(t, ""))
	}
	new, ok := relay(src, n)
	if !ok {
		new = src
	}
	return Relaid{Text(src), Text(new)}
}

func init() {
	register(&Prop{ID: "C28", Subs: []*Sub{
		sub("generated", "generated source file, mostly gofmt'ed, and the same with more blank lines and tabs; non-trivial: they differ, more than 20 nodes",
			40000, 2000000, genRelaid, skipNotGo(checkRelaid)),
		listed("real", "file of the Go source tree, as it is, and the same with more blank lines and tabs; non-trivial: they differ, more than 20 nodes", corpusCases(600, 20000),
			skipNotGo(func(c FileCase, o *Obs) error {
				b, err := os.ReadFile(c.Path)
				if err != nil || strings.Contains(string(b), "\r") {
					return errNotGo
				}
				new, ok := relay(string(b), seeded(hash64(c.Path)))
				if !ok {
					return errNotGo
				}
				return checkRelaid(Relaid{Text(b), Text(new)}, o)
			})),
	}})
}
