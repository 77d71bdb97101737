package main

import (
	"fmt"
	"math"
	"os"
	"regexp"
	"strings"

	"github.com/yanun0323/goast"
	"github.com/yanun0323/goast/scope"
	"pgregory.net/rapid"
)

type rapidT = rapid.T

// ---- texts of any kind ----

var soupTokens = []string{
	"package", "import", "var", "const", "type", "func", "struct", "interface", "map", "chan", "return", "x", "T", "Foo", "int",
	"string", "byte", "a.B", "*T", "...", "=", ":=", "+", "-", "*", "/", "&", "<-", "1", "42", ".", "_", "é", "世",
	" ", " ", " ", "\n", "\n", "\n", "\t", "\r", "\r\n", ",", ";", ":", "(", ")", "{", "}", "[", "]", "()", "{}", "[]",
	"\"", "`", "'", "\\", "\\\\", "\\\"", "\"x\"", "`x`", "'x'", "'\\''", "'\"'", "\"\\\\\"", "//", "/*", "*/", "/**/", "/*/", "// c\n", "/* c */",
	"\x00", "\xff", "\xe4\xb8", "packages", "functor", "types", "func(", "type T struct {\n", "func f() {\n", "}\n",
	"\npackage p\n", "\nfunc f()", "\ntype T ", "\n// c\n", "\nvar x ", "\nimport \"x\"\n", "func (r *T) M", "interface{", "struct{", "map[", "chan<- ",
	"\f", "\v", "\u00a0", "\u2028", "\u0085", "\ufeff", "\x7f", "\x1a", "\a",
}

func genSoup(t *rapid.T, max int) string {
	g := &gen{t: t}
	var b strings.Builder
	if g.p(50) {
		b.WriteString(g.pick([]string{"package p\n", "func ", "type ", "// c\n", "/* c */\n", "import ", "var ", "const ", "type T ", "func f", "func (", "package"}))
	}
	for range g.n(max) {
		tok := g.pick(soupTokens)
		if w, ok := g.word(8); ok {
			tok = w
		}
		if k, ok := g.size(2, 2000); ok {
			tok = strings.Repeat(tok, k)
		} else if g.p(2) { // a run
			tok = strings.Repeat(tok, 2+g.n(1<<(1+g.n(8))))
		}
		b.WriteString(tok)
	}
	return b.String()
}

// genMutated draws a valid source and damages it.
func genMutated(t *rapid.T) string {
	g := &gen{t: t}
	s := genSrc(t, genOpts(t, 4))
	for range 1 + g.n(3) {
		if len(s) == 0 {
			return s
		}
		i := rapid.IntRange(0, len(s)).Draw(t, "")
		switch g.n(5) {
		case 0:
			s = s[:i]
		case 1:
			s = s[i:]
		case 2:
			j := min(len(s), i+1+g.n(5))
			s = s[:i] + s[j:]
		case 3:
			s = s[:i] + g.pick(soupTokens) + s[i:]
		case 4:
			j := min(len(s), i+1+g.n(30))
			s = s[:j] + s[i:j] + s[j:]
		}
	}
	return s
}

// genBig draws a text that is large in one dimension.
func genBig(t *rapid.T) string {
	g := &gen{t: t}
	n := 1 + g.n(1<<uint(4+g.n(10)))
	if k, ok := g.size(50, 100000); ok {
		n = k
	}
	unit := g.pick([]string{"(", "{", "[", "\"", "`", "'", "\\", "\n", " ", "x", "x ", "/", "*", "func ", "type T ", "package p\n", "// c\n", "/* c */ ", "()",
		"{}", "a, ", "func f() {}\n", "type T struct {\n\tA int\n}\n", "func(", "map[", "interface{", "struct{\n", "/*", "\"\\\"\"", "[]", "chan ", "*", "T[", "func (r *T) M(a, b int) error {}\n"})
	if len(unit) > 6 {
		n = min(n, 3000)
	}
	if strings.ContainsAny(unit, "({[") && !strings.ContainsAny(unit, ")}]") {
		n = min(n, 1500) // nesting
	}
	s := g.pick([]string{"", "package p\n\n", "type T ", "func f", "func (r T) ", "var x = ", "func f("}) + strings.Repeat(unit, n)
	if g.p(50) {
		cl := map[string]string{"(": ")", "{": "}", "[": "]", "func(": ")", "map[": "]x", "interface{": "}", "struct{\n": "}", "T[": "]"}[unit]
		s += g.pick([]string{"", "x", "\n"}) + strings.Repeat(cl, n)
	}
	if g.p(50) {
		s += g.pick([]string{"\n", "\n\nfunc g() {}\n", "*/\n", "\"", "`\n", "'"})
	}
	return s
}

// TextCase is any text, and the line it starts on.
type TextCase struct {
	Text Text `json:"text"`
	Line int  `json:"line"`
}

func genLine(t *rapid.T) int {
	g := &gen{t: t}
	switch g.n(6) {
	case 0, 1, 2:
		return 0
	case 3:
		return g.n(1000)
	case 4:
		return -g.n(10)
	default:
		return rapid.SampledFrom([]int{1, -1, -2, 65535, 65536, math.MaxInt32, math.MaxInt32 + 1, math.MinInt32, 1 << 40, math.MaxInt - 1<<40, math.MinInt + 1<<40, 999, 1000}).Draw(t, "")
	}
}

func textSubs(rule string, quick, thorough int, check func(TextCase, *Obs) error) []*Sub {
	mk := func(f func(*rapid.T) string) func(*rapid.T) TextCase {
		return func(t *rapid.T) TextCase { return TextCase{Text(f(t)), genLine(t)} }
	}
	return []*Sub{
		sub("soup", "text of Go tokens in any order; "+rule, quick, thorough, mk(func(t *rapid.T) string { return genSoup(t, 40) }), check),
		sub("mutated", "valid source with bytes cut, moved and inserted; "+rule, quick/3, thorough/3, mk(genMutated), check),
		sub("bytes", "random bytes; "+rule, quick/5, thorough/5, mk(func(t *rapid.T) string {
			return string(rapid.SliceOfN(rapid.Byte(), 0, 60).Draw(t, ""))
		}), check),
		sub("valid", "valid source, not formatted; "+rule, quick/5, thorough/5, mk(func(t *rapid.T) string {
			s := genSrc(t, genOpts(t, 5))
			if (&gen{t: t}).p(15) {
				s = strings.ReplaceAll(s, "\n", "\r\n")
			}
			return s
		}), check),
		sizedSub(150000, 1300000, func(src string, o *Obs) error { return check(TextCase{Text(src), 0}, o) }),
		sub("big", "text that is long or deeply nested in one construct; "+rule, quick/100, thorough/100, mk(genBig), check),
		listed("real", "file of the Go source tree, whole, as it is, and cut off somewhere; "+rule, func(tier string, seed uint64) []TextCase {
			var out []TextCase
			for i, f := range corpusCases(120, 3000)(tier, seed) {
				b, err := os.ReadFile(f.Path)
				if err != nil {
					continue
				}
				b = b[:min(len(b), 40000)]
				out = append(out, TextCase{Text(b), 0})
				if len(b) > 0 {
					h := int(hash64(f.Path, fmt.Sprint(seed)) % uint64(len(b)))
					out = append(out, TextCase{Text(b[:h]), i})
				}
			}
			return out
		}, check),
	}
}

var (
	itemStart    = regexp.MustCompile(`^(//|/\*|(package|import|var|const|type|func)([ \n\t(){}\[\],:;\r]|$))`)
	anyLineStart = regexp.MustCompile(`(?m)^(//|/\*|package|import|var|const|type|func)`)
)

func parseText(c TextCase) ([]goast.Scope, []nodeAt, int, error) {
	scs, err := goast.ParseScope(c.Line, []byte(c.Text))
	if err != nil {
		return nil, nil, 0, fmt.Errorf("ParseScope returned the error %w", err)
	}
	ns, err := flatten(scs, len(c.Text), 0)
	if err != nil {
		return nil, nil, 0, err
	}
	total := 0
	for _, n := range ns {
		total += len(n.n.Text())
	}
	base := len(c.Text) - total
	if base < 0 {
		return nil, nil, 0, fmt.Errorf("the nodes hold %d bytes of text, the input %d", total, len(c.Text))
	}
	for i := range ns {
		ns[i].off += base
	}
	if got := textOf(ns); got != string(c.Text)[base:] {
		return nil, nil, 0, fmt.Errorf("the nodes do not hold a suffix of the input: %s", firstDiff(got, string(c.Text)[base:]))
	}
	return scs, ns, base, nil
}

func checkLossless(c TextCase, o *Obs) error {
	s := string(c.Text)
	scs, ns, base, err := parseText(c)
	if err != nil {
		return err
	}
	if itemStart.MatchString(s) {
		o.Label("starts with an item")
		if base != 0 {
			return fmt.Errorf("the first %d bytes are lost although the text starts with a top-level item: %q", base, clip(s, 200))
		}
		if len(scs) == 0 {
			return fmt.Errorf("no scope for a text that starts with a top-level item")
		}
	}
	if !anyLineStart.MatchString(s) && !strings.ContainsAny(s, "\"`'") && !strings.Contains(s, "/*") && len(scs) != 0 {
		return fmt.Errorf("%d scopes although no line starts with a top-level item", len(scs))
	}
	for i, sc := range scs {
		if sc.Node() == nil {
			return fmt.Errorf("scope %d has no node", i)
		}
		if sc.Kind() == scope.Unknown {
			return fmt.Errorf("scope %d has no kind", i)
		}
	}
	if base > 0 && len(scs) > 0 {
		o.Label("text before the first scope")
	}
	o.LabelIf(len(scs) > 1, "several scopes")
	o.LabelIf(len(s) > 10000, "over 10 kB")
	if len(scs) > 0 && len(ns) > 5 {
		o.Nontrivial()
	}
	return nil
}

func checkLines(c TextCase, o *Obs) error {
	scs, ns, base, err := parseText(c)
	if err != nil {
		return err
	}
	line := c.Line + strings.Count(string(c.Text)[:base], "\n")
	last, multi := -1, false
	for _, n := range ns {
		if n.n.Line() != line {
			return fmt.Errorf("node %q at byte %d reports line %d, it starts on line %d", clip(n.n.Text(), 60), n.off, n.n.Line(), line)
		}
		if n.scope != last {
			last = n.scope
			if got := scs[n.scope].Line(); got != line+1 {
				return fmt.Errorf("scope %d reports line %d, its first node starts on line %d", n.scope, got, line)
			}
		}
		k := strings.Count(n.n.Text(), "\n")
		if k > 0 && n.n.Text() != "\n" {
			multi = true
		}
		line += k
	}
	o.LabelIf(multi, "a node of several lines")
	o.LabelIf(c.Line < 0, "negative start line")
	if multi || line > c.Line+3 && len(ns) > 8 {
		o.Nontrivial()
	}
	return nil
}

// NodesCase is a list of texts for NewNodes.
type NodesCase struct {
	Line  int    `json:"line"`
	Texts []Text `json:"texts"`
}

func genNodesCase(t *rapid.T) NodesCase {
	g := &gen{t: t}
	c := NodesCase{Line: genLine(t)}
	for range g.n(12) {
		c.Texts = append(c.Texts, g.text("a", "\n", "a\nb", "\n\n", "", "x y", "`\n\n\n`", "func", "\t", "世\n", "\r\n"))
		if g.p(4) {
			k := g.n(1 << g.n(12))
			if n, ok := g.size(30, 5000); ok {
				k = n
			}
			c.Texts[len(c.Texts)-1] = Text("/*" + strings.Repeat(g.pick([]string{"\n", "a\n", "\n\t\n"}), k))
		}
	}
	return c
}

func checkNewNodes(c NodesCase, o *Obs) error {
	texts := make([]string, len(c.Texts))
	for i := range c.Texts {
		texts[i] = string(c.Texts[i])
	}
	head := goast.NewNodes(c.Line, texts...)
	ns, err := chain(head, len(texts))
	if err != nil {
		return err
	}
	if len(ns) != len(texts) {
		return fmt.Errorf("NewNodes made %d nodes of %d texts", len(ns), len(texts))
	}
	line := c.Line
	for i, n := range ns {
		if n.Text() != texts[i] {
			return fmt.Errorf("node %d has the text %q, want %q", i, n.Text(), texts[i])
		}
		if n.Line() != line {
			return fmt.Errorf("node %d (%q) reports line %d, want %d", i, n.Text(), n.Line(), line)
		}
		if (i == 0) != (n.Prev() == nil) || i > 0 && n.Prev() != ns[i-1] {
			return fmt.Errorf("node %d has a wrong previous node", i)
		}
		line += strings.Count(texts[i], "\n")
	}
	if line > c.Line && len(ns) > 1 {
		o.Nontrivial()
	}
	return nil
}

// ShiftCase parses a text at two start lines.
func checkShift(c TextCase, o *Obs) error {
	a, an, _, err := parseText(TextCase{c.Text, 0})
	if err != nil {
		return err
	}
	b, bn, _, err := parseText(c)
	if err != nil {
		return err
	}
	if len(a) != len(b) || len(an) != len(bn) {
		return fmt.Errorf("start line %d changes the result: %d scopes of %d nodes, at 0 it is %d of %d", c.Line, len(b), len(bn), len(a), len(an))
	}
	for i := range a {
		if a[i].Kind() != b[i].Kind() || a[i].Line()+c.Line != b[i].Line() {
			return fmt.Errorf("scope %d is %v at line %d with start line %d, and %v at line %d with start line 0", i, b[i].Kind(), b[i].Line(), c.Line, a[i].Kind(), a[i].Line())
		}
	}
	for i := range an {
		x, y := an[i], bn[i]
		if x.n.Text() != y.n.Text() || x.n.Kind() != y.n.Kind() || x.n.Line()+c.Line != y.n.Line() || x.scope != y.scope {
			return fmt.Errorf("node %d is %s with start line %d, and %s with start line 0", i, y.n.Description(), c.Line, x.n.Description())
		}
	}
	if c.Line != 0 && len(a) > 0 {
		o.Nontrivial()
	}
	return nil
}

// IterCase parses a text (or builds a chain) and iterates from a node to a node.
type IterCase struct {
	Text  Text   `json:"text"`
	Texts []Text `json:"texts,omitempty"` // build this chain instead
	Picks []int  `json:"picks"`           // where to start, and where to stop
}

func genIter(t *rapid.T) IterCase {
	g := &gen{t: t}
	var c IterCase
	switch g.n(4) {
	case 0:
		c.Text = Text(genSoup(t, 40))
	case 1:
		c.Text = Text(genMutated(t))
	case 2:
		c.Text = Text(genFormatted(t, genOpts(t, 4)))
	default:
		for range g.n(30) {
			c.Texts = append(c.Texts, g.text("a", "", "b\n", "(", "世"))
		}
	}
	for range 6 {
		c.Picks = append(c.Picks, rapid.IntRange(0, 1<<20).Draw(t, ""))
	}
	return c
}

func checkWellFormed(scs []goast.Scope, limit int) ([][]*goast.Node, error) {
	owner := map[*goast.Node]int{}
	var chains [][]*goast.Node
	for i, s := range scs {
		head := s.Node()
		if head == nil {
			return nil, fmt.Errorf("scope %d has no node", i)
		}
		if head.Prev() != nil {
			return nil, fmt.Errorf("the first node of scope %d has a previous node %q", i, clip(head.Prev().Text(), 60))
		}
		ns, err := chain(head, limit)
		if err != nil {
			return nil, fmt.Errorf("scope %d: %w", i, err)
		}
		for j, n := range ns {
			if o, ok := owner[n]; ok {
				return nil, fmt.Errorf("node %q of scope %d is also in scope %d", clip(n.Text(), 60), i, o)
			}
			owner[n] = i
			if n.Text() == "" {
				return nil, fmt.Errorf("node %d of scope %d has no text", j, i)
			}
			if j > 0 && n.Prev() != ns[j-1] {
				return nil, fmt.Errorf("scope %d: the node %q is not the previous node of its next node %q", i, clip(ns[j-1].Text(), 60), clip(n.Text(), 60))
			}
		}
		chains = append(chains, ns)
	}
	return chains, nil
}

func checkIter(ns []*goast.Node, from, stop int) error {
	n := ns[from]
	if got := n.First(); got != ns[0] {
		return fmt.Errorf("First of node %d of %d is not the first node", from, len(ns))
	}
	if got := n.Last(); got != ns[len(ns)-1] {
		return fmt.Errorf("Last of node %d of %d is not the last node", from, len(ns))
	}
	for _, fwd := range []bool{true, false} {
		iter, name := n.IterNext, "IterNext"
		if !fwd {
			iter, name = n.IterPrev, "IterPrev"
		}
		var seen []*goast.Node
		ret := iter(func(x *goast.Node) bool {
			if len(seen) > len(ns) {
				return false
			}
			seen = append(seen, x)
			return x != ns[stop]
		})
		var want []*goast.Node
		i := from
		hit := false
		for i >= 0 && i < len(ns) {
			want = append(want, ns[i])
			if i == stop {
				hit = true
				break
			}
			if fwd {
				i++
			} else {
				i--
			}
		}
		if len(seen) != len(want) {
			return fmt.Errorf("%s from node %d stopping at %d of %d calls its callback %d times, want %d", name, from, stop, len(ns), len(seen), len(want))
		}
		for j := range seen {
			if seen[j] != want[j] {
				return fmt.Errorf("%s from node %d: call %d is for the wrong node", name, from, j)
			}
		}
		if hit && ret != ns[stop] || !hit && ret != nil {
			return fmt.Errorf("%s from node %d stopping at %d of %d returns the wrong node", name, from, stop, len(ns))
		}
	}
	return nil
}

func checkChains(c IterCase, o *Obs) error {
	var chains [][]*goast.Node
	if c.Texts != nil {
		texts := make([]string, len(c.Texts))
		for i := range c.Texts {
			texts[i] = string(c.Texts[i])
		}
		ns, err := chain(goast.NewNodes(3, texts...), len(texts))
		if err != nil {
			return err
		}
		chains = append(chains, ns)
	} else {
		scs, err := goast.ParseScope(0, []byte(c.Text))
		if err != nil {
			return err
		}
		if chains, err = checkWellFormed(scs, len(c.Text)); err != nil {
			return err
		}
	}
	for i := 0; i+2 < len(c.Picks) && len(chains) > 0; i += 3 {
		ns := chains[c.Picks[i]%len(chains)]
		if err := checkIter(ns, c.Picks[i+1]%len(ns), c.Picks[i+2]%len(ns)); err != nil {
			return err
		}
		if len(ns) > 3 {
			o.Nontrivial()
		}
	}
	o.LabelIf(len(chains) > 1, "several scopes")
	o.LabelIf(c.Texts != nil, "built chain")
	return nil
}

// LongCase is a chain of many nodes.
type LongCase struct {
	Count int  `json:"count"`
	Parse bool `json:"parse,omitempty"` // the nodes of one scope
}

func checkLong(c LongCase, o *Obs) error {
	o.Nontrivial()
	var ns []*goast.Node
	if c.Parse {
		scs, err := goast.ParseScope(0, []byte("var x = "+strings.Repeat("+ ", c.Count)))
		if err != nil {
			return err
		}
		chains, err := checkWellFormed(scs, 2*c.Count+20)
		if err != nil {
			return err
		}
		if len(chains) != 1 {
			return fmt.Errorf("%d scopes, want one", len(chains))
		}
		ns = chains[0]
		if len(ns) < 2*c.Count {
			return fmt.Errorf("%d nodes, want at least %d", len(ns), 2*c.Count)
		}
	} else {
		texts := make([]string, c.Count)
		for i := range texts {
			texts[i] = "a"
		}
		var err error
		if ns, err = chain(goast.NewNodes(0, texts...), c.Count); err != nil {
			return err
		}
		if len(ns) != c.Count {
			return fmt.Errorf("NewNodes made %d nodes of %d texts", len(ns), c.Count)
		}
	}
	last := len(ns) - 1
	for _, p := range [][2]int{{0, last}, {last, 0}, {last / 2, last}, {last / 3, 0}} {
		if err := checkIter(ns, p[0], p[1]); err != nil {
			return err
		}
	}
	return nil
}

func init() {
	register(&Prop{ID: "C01", Subs: textSubs("non-trivial: at least one scope and six nodes", 240000, 12000000, checkLossless)})

	register(&Prop{ID: "C05", Subs: append(
		textSubs("non-trivial: several lines, or a token of several lines", 120000, 6000000, checkLines),
		sub("shift", "token soup parsed at start line 0 and another one; non-trivial: another start line and a scope", 40000, 2000000,
			func(t *rapid.T) TextCase { return TextCase{Text(genSoup(t, 40)), genLine(t)} }, checkShift),
		sub("shift-valid", "valid source parsed at start line 0 and another one; non-trivial: another start line and a scope", 15000, 700000,
			func(t *rapid.T) TextCase { return TextCase{Text(genSrc(t, genOpts(t, 5))), genLine(t)} }, checkShift),
		sub("newnodes", "texts for NewNodes; non-trivial: a newline and two nodes", 40000, 1000000, genNodesCase, checkNewNodes),
	)})

	register(&Prop{ID: "C04", Subs: append(
		textSubs("non-trivial: several scopes", 120000, 6000000, func(c TextCase, o *Obs) error {
			scs, err := goast.ParseScope(c.Line, []byte(c.Text))
			if err != nil {
				return err
			}
			chains, err := checkWellFormed(scs, len(c.Text))
			if err != nil {
				return err
			}
			if len(chains) > 1 {
				o.Nontrivial()
			}
			if k := len(chains); k > 0 {
				ns := chains[k-1]
				return checkIter(ns, len(ns)/2, len(ns)-1)
			}
			return nil
		}),
		listed("long", "chain of many nodes, built or parsed, iterated from some nodes to others; non-trivial: always", func(tier string, seed uint64) []LongCase {
			out := []LongCase{{Count: 300000}, {Count: 150000, Parse: true}}
			if tier == "thorough" || seed%2 == 1 {
				out = append(out, LongCase{Count: 1100000})
			}
			for _, v := range theDict().newInts {
				out = append(out, LongCase{Count: v + 1}, LongCase{Count: min(v, 200000)/2 + 1, Parse: true}, LongCase{Count: min(v, 400000) + 1, Parse: true})
			}
			return out
		}, checkLong),
		sub("iterate", "parsed or built chain, iterated from any node to any node; non-trivial: four nodes in the chain", 60000, 3000000, genIter, checkChains),
	)})
}
