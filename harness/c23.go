package main

// C23: what Save writes after edits of the tree.

import (
	"fmt"
	"go/format"
	"os"
	"path/filepath"
	"slices"
	"strings"

	"github.com/yanun0323/goast"
	"github.com/yanun0323/goast/scope"
	"pgregory.net/rapid"
)

// SaveOp is an edit of nodes (as in C09) or of the list of scopes.
type SaveOp struct {
	NodeOp
	Texts []Text `json:"texts,omitempty"`
	Src   Text   `json:"src,omitempty"`
}

// SaveHistory parses a source, edits what it got, and saves now and then.
type SaveHistory struct {
	Src Text     `json:"src"`
	Ops []SaveOp `json:"ops"`
}

var newTexts = []string{"x", "func", " ", "\n", "(", ")", "{", "}", "// c", "/* c */", "type", "var", "1", "", ",", "世", "\t", "\"s\"", "=", "package", "T", "\n\n", "\r", "\r\n", "\f", "\x00", "\xff", "\ufeff", "  ", "*/", "`"}

func genSnippet(g *gen) string {
	switch g.n(4) {
	case 0:
		return formattedSnippet(g.decl())
	case 1:
		return "// added " + g.ident() + "\n"
	case 2:
		return "func added" + g.ident0() + "(a, b int) (string, error) {\n\treturn \"x\", nil\n}\n\n"
	default:
		return formattedSnippet(g.decl()) + "\n" + formattedSnippet(g.decl())
	}
}

// formattedSnippet formats a declaration, or gives another one.
func formattedSnippet(s string) string {
	b, err := format.Source([]byte("package p\n\n" + s + "\n"))
	if err != nil {
		return "var added = 1\n"
	}
	return strings.TrimPrefix(string(b), "package p\n\n")
}

func genSaveHistory(t *rapid.T) SaveHistory { return saveHistory(t, 3, 1, 10, 16) }

// genLongSaveHistory draws a history of a larger file that is saved often.
func genLongSaveHistory(t *rapid.T) SaveHistory { return saveHistory(t, 16, 6, 16, 22) }

func saveHistory(t *rapid.T, decls, min, more, ops int) SaveHistory {
	g := &gen{t: t, o: genOpts(t, 2)}
	h := SaveHistory{Src: Text(genFormatted(t, genOpts(t, decls)))}
	node := func() int { return rapid.IntRange(0, 400).Draw(t, "") }
	for range min + g.n(more) {
		var op SaveOp
		switch g.n(ops) {
		case 0, 1, 2:
			op.NodeOp = NodeOp{Op: "SetText", A: node(), S: g.text(newTexts...)}
		case 3, 4:
			op.NodeOp = NodeOp{Op: g.pick(linkOps), A: node(), B: node()}
		case 5:
			op.NodeOp = NodeOp{Op: g.pick(unaryOps), A: node()}
		case 6:
			op.NodeOp = NodeOp{Op: g.pick([]string{"CombinePrev", "CombineNext"}), A: node(), K: g.n(len(someKinds))}
			for range 1 + g.n(3) {
				op.B2 = append(op.B2, node())
			}
		case 7:
			op.NodeOp = NodeOp{Op: g.pick([]string{"Isolate", "SetKind"}), A: node(), K: g.n(len(someKinds))}
		case 8, 9:
			op.NodeOp = NodeOp{Op: g.pick([]string{"addNext", "addPrev"}), A: node(), K: g.n(50)}
			for range 1 + g.n(4) {
				op.Texts = append(op.Texts, g.text(newTexts...))
			}
		case 10:
			op.NodeOp = NodeOp{Op: "drop", A: g.n(20)}
		case 11:
			op.NodeOp = NodeOp{Op: g.pick([]string{"move", "copy"}), A: g.n(20), B: g.n(20)}
		case 12:
			op.NodeOp = NodeOp{Op: g.pick([]string{"parsed", "appendParsed"}), A: g.n(20)}
			op.Src = Text(genSnippet(g))
		case 13:
			op.NodeOp = NodeOp{Op: g.pick([]string{"scopeAt", "newScope"}), A: node(), B: g.n(20), K: g.n(8)}
			for range 1 + g.n(4) {
				op.Texts = append(op.Texts, g.text(newTexts...))
			}
		case 14:
			op.NodeOp = NodeOp{Op: "copyAst", A: 0}
		default:
			op.NodeOp = NodeOp{Op: "save", A: 0}
		}
		h.Ops = append(h.Ops, op)
	}
	return h
}

// savedAs is what Save must write for the text.
func savedAs(text string) string {
	b, err := format.Source([]byte(text))
	if err != nil {
		return text
	}
	return string(b)
}

type editedAst struct {
	m    nodeModel
	real []*goast.Node
	ids  map[*goast.Node]int
	head []int // the node of each scope
	a    goast.Ast
}

// adopt takes the chain of a real node into the model, where its texts are known.
func (e *editedAst) adopt(n *goast.Node, texts []string) error {
	ns, at, err := chainAround(n, len(texts)+1)
	if err != nil {
		return err
	}
	if len(ns) != len(texts) {
		return fmt.Errorf("a new chain has %d nodes, want %d", len(ns), len(texts))
	}
	_ = at
	last := -1
	for i, x := range ns {
		if x.Text() != texts[i] {
			return fmt.Errorf("node %d of a new chain is %q, want %q", i, x.Text(), texts[i])
		}
		id := e.m.add(mnode{x.Line(), x.Kind(), texts[i]})
		if old, dup := e.ids[x]; dup {
			return fmt.Errorf("a new chain holds node #%d of another chain", old)
		}
		e.ids[x] = id
		e.real = append(e.real, x)
		e.m.join(last, id)
		last = id
	}
	return nil
}

// adoptParsed takes parsed scopes in.
func (e *editedAst) adoptParsed(scs []goast.Scope, src string) (heads []int, err error) {
	var b strings.Builder
	for _, s := range scs {
		ns, err := chain(s.Node(), len(src)+1)
		if err != nil {
			return nil, err
		}
		var texts []string
		for _, n := range ns {
			texts = append(texts, n.Text())
			b.WriteString(n.Text())
		}
		if err := e.adopt(s.Node(), texts); err != nil {
			return nil, err
		}
		heads = append(heads, e.ids[s.Node()])
	}
	if !strings.HasSuffix(src, b.String()) {
		return nil, fmt.Errorf("parsing does not give the text back: %s", firstDiff(b.String(), src))
	}
	return heads, nil
}

func (e *editedAst) text() string {
	var b strings.Builder
	for _, h := range e.head {
		c, i := e.m.find(h)
		for _, id := range e.m.chains[c][i:] {
			b.WriteString(e.m.nodes[id].text)
		}
	}
	return b.String()
}

// save saves the Ast and compares; then parses what was written.
func (e *editedAst) save(o *Obs, file, what string) error {
	want := e.text()
	err := e.a.Save(file)
	if want == "" {
		return nil // C14
	}
	if err != nil {
		return fmt.Errorf("%s: Save: %w", what, err)
	}
	b, err := os.ReadFile(file)
	if err != nil {
		return fmt.Errorf("%s: after Save: %w", what, err)
	}
	return compareSaved(o, file, string(b), want, what)
}

func compareSaved(o *Obs, file, got, want, what string) error {
	out := savedAs(want)
	if got != out {
		return fmt.Errorf("%s: Save wrote something else than the nodes hold: %s", what, firstDiff(got, out))
	}
	o.LabelIf(out != want, "saved text was formatted")
	again, err := goast.ParseAst(file)
	if err != nil || !parses(out) {
		o.Label("saved text is no file that can be parsed")
		return nil
	}
	f := savedAs(out)
	if !anyLineStart.MatchString(f[:min(len(f), 20)]) || anyLineStart.FindStringIndex(f)[0] != 0 {
		return nil
	}
	var t strings.Builder
	for _, s := range again.Scope() {
		x, err := scopeText(s, len(f)+1)
		if err != nil {
			return fmt.Errorf("%s: re-parsed: %w", what, err)
		}
		t.WriteString(x)
	}
	if t.String() != f {
		return fmt.Errorf("%s: parsing the saved file does not give it back: %s", what, firstDiff(t.String(), f))
	}
	o.Label("saved text parsed again")
	return nil
}

func checkSaveHistory(h SaveHistory, o *Obs) error {
	src := string(h.Src)
	in := filepath.Join(o.dir, "edit-in.go")
	must(os.WriteFile(in, []byte(src), 0o644))
	file := filepath.Join(o.dir, "edit-out.go")
	a, err := goast.ParseAst(in)
	if err != nil {
		o.Label("not parsed, skipped")
		return nil // C12, C13
	}
	e := &editedAst{ids: map[*goast.Node]int{}, a: a}
	if e.head, err = e.adoptParsed(a.Scope(), savedAs(src)); err != nil {
		return err
	}
	start := e.text()
	kinds := []scope.Kind{scope.Comment, scope.Func, scope.Type, scope.Variable, scope.Unknown, scope.Package, scope.Import, scope.Const}
	edits := 0
	for step, op := range h.Ops {
		what := fmt.Sprintf("step %d (%s)", step, op.Op)
		// the nodes that can still be seen, and all others
		A, B := wrapNode(op.A, len(e.real)), wrapNode(op.B, len(e.real))
		sc := e.a.Scope()
		at := 0
		if len(sc) > 0 {
			at = op.A % len(sc)
		}
		set := func(scs []goast.Scope, head []int) {
			e.a = e.a.SetScope(scs)
			e.head = head
			edits++
		}
		switch op.Op {
		case "save":
			if err := e.save(o, file, what); err != nil {
				return err
			}
		case "addNext", "addPrev":
			var ss []string
			for _, t := range op.Texts {
				ss = append(ss, string(t))
			}
			var n *goast.Node
			if len(ss) == 1 {
				n = goast.NewNode(op.K, ss[0])
			} else {
				n = goast.NewNodes(op.K, ss...)
			}
			if err := e.adopt(n, ss); err != nil {
				return fmt.Errorf("%s: %w", what, err)
			}
			first := e.ids[n]
			last := first + len(ss) - 1
			// one by one, as a caller would
			prev := A
			for id := first; id <= last; id++ {
				if op.Op == "addNext" {
					e.m.run(NodeOp{Op: "InsertNext", A: prev, B: id})
					e.real[prev].InsertNext(e.real[id])
					prev = id
				} else {
					e.m.run(NodeOp{Op: "InsertPrev", A: A, B: id})
					e.real[A].InsertPrev(e.real[id])
				}
			}
			edits++
		case "drop":
			if len(sc) == 0 {
				continue
			}
			set(slices.Delete(slices.Clone(sc), at, at+1), slices.Delete(slices.Clone(e.head), at, at+1))
		case "move":
			if len(sc) == 0 {
				continue
			}
			to := op.B % len(sc)
			s, hd := sc[at], e.head[at]
			scs, head := slices.Delete(slices.Clone(sc), at, at+1), slices.Delete(slices.Clone(e.head), at, at+1)
			set(slices.Insert(scs, to, s), slices.Insert(head, to, hd))
		case "copy":
			if len(sc) == 0 {
				continue
			}
			d := sc[at].Copy()
			hd, err := e.adoptCopy(d.Node(), e.head[at])
			if err != nil {
				return fmt.Errorf("%s: %w", what, err)
			}
			to := op.B % (len(sc) + 1)
			set(slices.Insert(slices.Clone(sc), to, d), slices.Insert(slices.Clone(e.head), to, hd))
		case "parsed", "appendParsed":
			scs, err := goast.ParseScope(step, []byte(op.Src))
			if err != nil {
				return fmt.Errorf("%s: %w", what, err)
			}
			heads, err := e.adoptParsed(scs, string(op.Src))
			if err != nil {
				return fmt.Errorf("%s: %w", what, err)
			}
			if op.Op == "appendParsed" {
				e.a.AppendScope(scs...)
				e.head = append(e.head, heads...)
				edits++
				break
			}
			set(slices.Insert(slices.Clone(sc), at, scs...), slices.Insert(slices.Clone(e.head), at, heads...))
		case "scopeAt":
			e.a.AppendScope(goast.NewScope(op.K, kinds[op.K%len(kinds)], e.real[A]))
			e.head = append(e.head, A)
			edits++
		case "newScope":
			var ss []string
			for _, t := range op.Texts {
				ss = append(ss, string(t))
			}
			n := goast.NewNodes(op.K, ss...)
			if err := e.adopt(n, ss); err != nil {
				return fmt.Errorf("%s: %w", what, err)
			}
			to := op.B % (len(sc) + 1)
			set(slices.Insert(slices.Clone(sc), to, goast.NewScope(op.K, kinds[op.K%len(kinds)], n)), slices.Insert(slices.Clone(e.head), to, e.ids[n]))
		case "copyAst":
			c := e.a.Copy()
			if len(c.Scope()) != len(e.head) {
				return fmt.Errorf("%s: the copy has %d scopes, want %d", what, len(c.Scope()), len(e.head))
			}
			head := make([]int, len(e.head))
			for i, s := range c.Scope() {
				if head[i], err = e.adoptCopy(s.Node(), e.head[i]); err != nil {
					return fmt.Errorf("%s: %w", what, err)
				}
			}
			// the old one still says what it said
			if err := e.save(o, file, what+", the original"); err != nil {
				return err
			}
			e.a, e.head = c, head
		default:
			nop := op.NodeOp
			nop.A, nop.B, nop.B2 = A, B, nil
			var args []*goast.Node
			for _, x := range op.B2 {
				x = wrapNode(x, len(e.real))
				nop.B2 = append(nop.B2, x)
				args = append(args, e.real[x])
			}
			if e.m.ring(op.Op, A, B) {
				continue
			}
			e.m.run(nop)
			realOp(nop, e.real[A], e.real[B], args)
			edits++
		}
		o.Label(op.Op)
		if len(e.real) > 6000 {
			break
		}
	}
	if err := e.save(o, file, "in the end"); err != nil {
		return err
	}
	if edits > 0 && e.text() != start {
		o.Nontrivial()
	}
	return nil
}

// adoptCopy takes in the copy of the chain of a node.
func (e *editedAst) adoptCopy(n *goast.Node, of int) (int, error) {
	c, i := e.m.find(of)
	var texts []string
	for _, id := range e.m.chains[c] {
		texts = append(texts, e.m.nodes[id].text)
	}
	if err := e.adopt(n, texts); err != nil {
		return 0, fmt.Errorf("copy: %w", err)
	}
	_, j := e.m.find(e.ids[n])
	if i != j {
		return 0, fmt.Errorf("copy: node %d of the chain, want %d", j, i)
	}
	return e.ids[n], nil
}

// ---- edits with a known place in the source ----

// PlaceEdit changes one place of a source.
type PlaceEdit struct {
	Op  string `json:"op"` // rename, insertDecl, deleteDecl, deleteComment, insertAfter
	I   int    `json:"i"`
	Src Text   `json:"src,omitempty"`
}

// PlaceCase is a source and edits of it.
type PlaceCase struct {
	Src   Text        `json:"src"`
	Edits []PlaceEdit `json:"edits"`
}

func genPlaces(t *rapid.T) PlaceCase {
	g := &gen{t: t, o: genOpts(t, 2)}
	c := PlaceCase{Src: Text(genFormatted(t, genOpts(t, 4)))}
	for range 1 + g.n(6) {
		e := PlaceEdit{Op: g.pick([]string{"rename", "rename", "rename", "insertDecl", "deleteDecl", "deleteComment", "insertAfter"}), I: rapid.IntRange(0, 400).Draw(t, "")}
		switch e.Op {
		case "rename":
			e.Src = Text(g.pick([]string{"renamed", "x", "Ünï", "typeName", "_v", "funcs", "aVeryMuchLongerNameThanBefore"}))
		case "insertDecl":
			e.Src = Text(genSnippet(g))
		case "insertAfter":
			e.Src = Text(g.pick([]string{" /* new */", "\n// new\n", ", 1", "\n"}))
		}
		c.Edits = append(c.Edits, e)
	}
	return c
}

func checkPlaces(src string, edits []PlaceEdit, o *Obs) error {
	p, err := parseBoth(src)
	if err != nil {
		return err
	}
	if len(p.nodes) == 0 || p.nodes[0].off != 0 {
		o.Label("not parsed from the start, skipped")
		return nil
	}
	a, err := goast.NewAst(p.scs...)
	if err != nil {
		o.Label("no package, skipped")
		return nil
	}
	toks, ok := scan(src)
	if !ok {
		return errNotGo
	}
	var idents, comments []tok
	for i, t := range toks {
		switch {
		case t.tok.String() == "IDENT":
			if i > 0 && toks[i-1].lit == "package" {
				continue
			}
			idents = append(idents, t)
		case t.tok.String() == "COMMENT":
			comments = append(comments, t)
		}
	}

	// the source, cut into scopes, as places that can each be replaced once
	type splice struct {
		pos, end int
		text     string
	}
	var sp []splice
	free := func(pos, end int) bool {
		for _, s := range sp {
			if pos <= s.end && s.pos <= end {
				return false
			}
		}
		return true
	}
	starts := make([]int, len(p.scs)+1)
	for i := range starts {
		starts[i] = -1
	}
	for _, n := range p.nodes {
		if starts[n.scope] < 0 {
			starts[n.scope] = n.off
		}
	}
	starts[len(p.scs)] = len(src)
	type listEdit struct {
		at  int
		add []goast.Scope
	}
	var lists []listEdit
	var dos []func()
	spliced := map[int][]splice{} // by node offset
	for _, e := range edits {
		switch e.Op {
		case "rename":
			if len(idents) == 0 {
				continue
			}
			t := idents[e.I%len(idents)]
			if !free(t.pos, t.end) {
				continue
			}
			n := p.at(t.pos)
			if n == nil || n.off+len(n.n.Text()) < t.end {
				return fmt.Errorf("no node holds the identifier %s", t.lit)
			}
			s := splice{t.pos, t.end, string(e.Src)}
			sp = append(sp, s)
			spliced[n.off] = append(spliced[n.off], s)
		case "deleteComment":
			if len(comments) == 0 {
				continue
			}
			t := comments[e.I%len(comments)]
			n := p.at(t.pos)
			if n == nil || n.off+len(n.n.Text()) < t.end {
				return fmt.Errorf("no node holds the comment %q", t.lit)
			}
			if !free(t.pos, t.end) {
				continue
			}
			if n.off != t.pos || n.off+len(n.n.Text()) != t.end { // a part of a type
				x := splice{t.pos, t.end, ""}
				sp = append(sp, x)
				spliced[n.off] = append(spliced[n.off], x)
				continue
			}
			sp = append(sp, splice{t.pos, t.end, ""})
			if prev := n.n.Prev(); prev != nil {
				dos = append(dos, func() {
					if got := n.n.Prev().TakeNext(); got != n.n {
						n.n.Isolate()
					}
				})
			} else {
				dos = append(dos, func() { n.n.SetText("") })
			}
		case "insertAfter":
			n := p.nodes[e.I%len(p.nodes)]
			end := n.off + len(n.n.Text())
			if !free(end, end) {
				continue
			}
			sp = append(sp, splice{end, end, string(e.Src)})
			dos = append(dos, func() { n.n.InsertNext(goast.NewNode(n.n.Line(), string(e.Src))) })
		case "deleteDecl", "insertDecl":
			i := e.I % len(p.scs)
			if e.Op == "insertDecl" {
				if !free(starts[i], starts[i]) {
					continue
				}
				scs, err := goast.ParseScope(0, []byte(e.Src))
				if err != nil {
					return err
				}
				var b strings.Builder
				for _, s := range scs {
					x, err := scopeText(s, len(e.Src)+1)
					if err != nil {
						return err
					}
					b.WriteString(x)
				}
				if b.String() != string(e.Src) {
					return fmt.Errorf("parsing %q does not give it back: %q", e.Src, b.String())
				}
				sp = append(sp, splice{starts[i], starts[i], string(e.Src)})
				lists = append(lists, listEdit{i, scs})
				continue
			}
			if p.scs[i].Kind() == scope.Package || !free(starts[i], starts[i+1]) {
				continue
			}
			sp = append(sp, splice{starts[i], starts[i+1], ""})
			lists = append(lists, listEdit{i, nil})
		}
		o.Label(e.Op)
	}
	if len(sp) == 0 {
		return nil
	}

	// on the source
	slices.SortFunc(sp, func(a, b splice) int { return b.pos - a.pos })
	want := src
	for _, s := range sp {
		want = want[:s.pos] + s.text + want[s.end:]
	}
	// on the tree
	for off, ss := range spliced {
		n := p.at(off)
		slices.SortFunc(ss, func(a, b splice) int { return b.pos - a.pos })
		for _, s := range ss {
			x := n.n.Text()
			n.n.SetText(x[:s.pos-off] + s.text + x[s.end-off:])
		}
	}
	for _, do := range dos {
		do()
	}
	scs := slices.Clone(a.Scope())
	slices.SortFunc(lists, func(a, b listEdit) int { return b.at - a.at })
	for _, l := range lists {
		if l.add == nil {
			scs = slices.Delete(scs, l.at, l.at+1)
		} else {
			scs = slices.Insert(scs, l.at, l.add...)
		}
	}
	file := filepath.Join(o.dir, "places.go")
	b := a.SetScope(scs)
	if want == "" {
		return nil
	}
	if err := b.Save(file); err != nil {
		return fmt.Errorf("Save: %w", err)
	}
	got, err := os.ReadFile(file)
	if err != nil {
		return fmt.Errorf("after Save: %w", err)
	}
	if err := compareSaved(o, file, string(got), want, "edited source"); err != nil {
		return err
	}
	o.LabelIf(parses(want), "still valid Go")
	o.Nontrivial()
	return nil
}

func init() {
	register(&Prop{
		ID:          "C23",
		Assumptions: []string{"go/format decides what is valid Go, and how it is formatted"},
		Subs: []*Sub{
			sub("histories", "a generated file is parsed, and up to 10 edits of nodes (texts, links, combining, new nodes) and of the list of scopes (drop, move, copy, append, insert parsed or built ones) are made, with saves and copies of the Ast between; the saved bytes must be what a model of lists of texts holds, formatted; non-trivial: the text has changed", 40000, 200000, genSaveHistory, checkSaveHistory),
			sub("long histories", "the same with up to 16 declarations and 6 to 22 edits, and a save after every fourth edit or so; non-trivial: the text has changed", 2500, 30000, genLongSaveHistory, checkSaveHistory),
			sub("places", "a generated file is parsed, and up to 6 identifiers renamed, declarations inserted or deleted, comments deleted or nodes inserted; the saved bytes must be the source with those places spliced, formatted; non-trivial: something was edited", 40000, 200000, genPlaces, func(c PlaceCase, o *Obs) error {
				err := checkPlaces(string(c.Src), c.Edits, o)
				if err == errNotGo {
					return nil
				}
				return err
			}),
			listed("real", "the same with files of the Go source tree and edits drawn from the seed; non-trivial: something was edited", func(tier string, seed uint64) []PlaceFile {
				var out []PlaceFile
				for i, f := range corpusCases(60, 1500)(tier, seed) {
					var es []PlaceEdit
					for k := range 6 {
						r := int(hash64(f.Path, fmt.Sprint(seed, k)) % 1000000)
						op := []string{"rename", "rename", "deleteDecl", "deleteComment", "insertAfter", "insertDecl"}[(k+i)%6]
						e := PlaceEdit{Op: op, I: r}
						switch op {
						case "rename":
							e.Src = "renamed"
						case "insertAfter":
							e.Src = " /* new */"
						case "insertDecl":
							e.Src = "func added() {}\n\n"
						}
						es = append(es, e)
					}
					out = append(out, PlaceFile{f, es})
				}
				return out
			}, func(c PlaceFile, o *Obs) error {
				s, ok := c.File.formatted()
				if !ok {
					o.Label("not valid Go, skipped")
					return nil
				}
				err := checkPlaces(s, c.Edits, o)
				if err == errNotGo {
					return nil
				}
				return err
			}),
		},
	})
}

// PlaceFile is a real file and edits.
type PlaceFile struct {
	File  FileCase    `json:"file"`
	Edits []PlaceEdit `json:"edits"`
}
