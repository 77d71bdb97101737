package main

// C10: copies. C11: what an Ast holds. C12: the package name.

import (
	"errors"
	"fmt"
	"go/format"
	"go/parser"
	"go/token"
	"path/filepath"
	"slices"
	"strings"

	"github.com/yanun0323/goast"
	"github.com/yanun0323/goast/kind"
	"github.com/yanun0323/goast/scope"
	"pgregory.net/rapid"
)

// ---- C10 ----

// Edit is a change of one side.
type Edit struct {
	Side int    `json:"side"` // 0: the original, 1: the copy
	Op   string `json:"op"`
	I    int    `json:"i"` // which node (or scope), modulo their number
	J    int    `json:"j,omitempty"`
	S    Text   `json:"text,omitempty"`
}

// CopyCase copies something, then edits both sides.
type CopyCase struct {
	Src   Text        `json:"src"`             // a source that is parsed, or
	Texts []Text      `json:"texts,omitempty"` // the texts of a chain
	Lists []ScopeSpec `json:"lists,omitempty"` // or the scopes of an Ast behind its package clause
	What  string      `json:"what"`            // node, chain, scope, ast, file
	Pre   []Edit      `json:"pre,omitempty"`   // edits before the copy is made
	Pick  int         `json:"pick"`            // which node or scope to copy
	Edits []Edit      `json:"edits"`
}

var editOps = []string{"SetText", "SetKind", "Isolate", "TakeNext", "TakePrev", "RemoveNext", "RemovePrev", "InsertNew", "PrependNew", "InsertNode", "ReplaceNext", "CombineNext", "CombinePrev"}

func genEdits(g *gen, max int, ops []string) []Edit {
	var out []Edit
	for range g.n(max + 1) {
		out = append(out, Edit{Side: g.n(2), Op: g.pick(ops), I: rapid.IntRange(0, 300).Draw(g.t, ""), J: rapid.IntRange(0, 300).Draw(g.t, ""),
			S: g.text("x", "", "// new\n", "世", "func")})
	}
	return out
}

func genCopy(t *rapid.T) CopyCase {
	g := &gen{t: t}
	c := CopyCase{What: g.pick([]string{"node", "chain", "scope", "ast", "file"}), Pick: rapid.IntRange(0, 300).Draw(t, "")}
	switch {
	case c.What == "node" || c.What == "chain" || c.What == "scope" && g.p(40):
		if g.p(50) {
			for range 1 + g.n(12) {
				c.Texts = append(c.Texts, g.text("a", "b", "", "\n", "func", "(", ")", "世", "// c", "1"))
			}
			break
		}
		fallthrough
	case c.What == "ast" && g.p(40):
		for range 1 + g.n(4) {
			s := ScopeSpec{Kind: g.n(len(allScopeKinds)), From: g.n(3)}
			for range g.n(4) {
				s.Texts = append(s.Texts, g.text("// c", "a", "\n", "func", "", "x\n", "(", ")"))
			}
			c.Lists = append(c.Lists, s)
		}
	default:
		c.Src = Text(genFormatted(t, genOpts(t, 3)))
	}
	if g.p(30) {
		c.Pre = genEdits(g, 4, editOps)
	}
	ops := editOps
	if c.What == "ast" || c.What == "file" {
		ops = append(slices.Clone(editOps), "AppendScope", "SetElement", "AppendScope", "SetElement")
	}
	c.Edits = genEdits(g, 8, ops)
	return c
}

// genBigCopy draws a long chain.
func genBigCopy(t *rapid.T) CopyCase {
	g := &gen{t: t}
	c := CopyCase{What: g.pick([]string{"chain", "scope"}), Pick: rapid.IntRange(0, 100000).Draw(t, "")}
	for range 1 + g.n(3000) {
		c.Texts = append(c.Texts, "x")
	}
	c.Texts = append(c.Texts, "(", "y\n", ")")
	c.Edits = genEdits(g, 4, editOps)
	return c
}

// side is one of the two things that must be independent.
type side struct {
	ast    goast.Ast
	scopes []goast.Scope
	nodes  []*goast.Node
	states []string
	links  [][2]*goast.Node
	kinds  []kind.Kind
	scs    []scopeState
	meta   string
}

type scopeState struct {
	kind  scope.Kind
	line  int
	node  *goast.Node
	names names
}

func stateOf(n *goast.Node) string { return fmt.Sprintf("%d %q", n.Line(), n.Text()) }

func metaOf(a goast.Ast) string {
	p, err := a.Package()
	return fmt.Sprintf("%q %q %q %q %q %v", a.File(), a.Dir(), a.Filename(), a.Ext(), p, err)
}

// chainAround lists the chain of n from its first node on, and the position of n in it.
func chainAround(n *goast.Node, limit int) (ns []*goast.Node, at int, err error) {
	if n == nil {
		return nil, -1, nil
	}
	first := n
	for i := 0; first.Prev() != nil; i++ {
		if i > limit {
			return nil, 0, fmt.Errorf("more than %d nodes before a node: a cycle", limit)
		}
		first = first.Prev()
	}
	ns, err = chain(first, limit)
	return ns, slices.Index(ns, n), err
}

// take records the present state.
func (s *side) take() {
	s.states, s.links, s.kinds, s.scs = s.states[:0], s.links[:0], s.kinds[:0], s.scs[:0]
	for _, n := range s.nodes {
		s.states = append(s.states, stateOf(n))
		s.links = append(s.links, [2]*goast.Node{n.Prev(), n.Next()})
		s.kinds = append(s.kinds, n.Kind())
	}
	if s.ast != nil {
		s.scopes = slices.Clone(s.ast.Scope())
		s.meta = metaOf(s.ast)
	}
	for _, sc := range s.scopes {
		s.scs = append(s.scs, scopeState{sc.Kind(), sc.Line(), sc.Node(), namesOf(sc)})
	}
}

// changed tells how the present state differs from the recorded one.
func (s *side) changed() string {
	for i, n := range s.nodes {
		if stateOf(n) != s.states[i] || n.Kind() != s.kinds[i] {
			return fmt.Sprintf("node %d is %s %v, it was %s %v", i, stateOf(n), n.Kind(), s.states[i], s.kinds[i])
		}
		if n.Prev() != s.links[i][0] || n.Next() != s.links[i][1] {
			return fmt.Sprintf("node %d (%q) has other neighbours", i, n.Text())
		}
	}
	if s.ast != nil {
		if !slices.Equal(s.ast.Scope(), s.scopes) {
			return fmt.Sprintf("the Ast has other scopes (%d, it had %d)", len(s.ast.Scope()), len(s.scopes))
		}
		if m := metaOf(s.ast); m != s.meta {
			return "the Ast is " + m + ", it was " + s.meta
		}
	}
	for i, sc := range s.scopes {
		if got := (scopeState{sc.Kind(), sc.Line(), sc.Node(), namesOf(sc)}); got != s.scs[i] {
			return fmt.Sprintf("scope %d changed", i)
		}
	}
	return ""
}

// edit changes the side.
func (s *side) edit(e Edit) {
	if len(s.nodes) == 0 {
		return
	}
	n := s.nodes[e.I%len(s.nodes)]
	m := s.nodes[e.J%len(s.nodes)]
	fresh := goast.NewNode(1000, string(e.S))
	switch e.Op {
	case "SetText":
		n.SetText(string(e.S))
	case "SetKind":
		n.SetKind(someKinds[e.J%len(someKinds)])
	case "Isolate":
		n.Isolate()
	case "TakeNext":
		n.TakeNext()
	case "TakePrev":
		n.TakePrev()
	case "RemoveNext":
		n.RemoveNext()
	case "RemovePrev":
		n.RemovePrev()
	case "InsertNew":
		n.InsertNext(fresh)
		s.nodes = append(s.nodes, fresh)
	case "PrependNew":
		n.InsertPrev(fresh)
		s.nodes = append(s.nodes, fresh)
	case "InsertNode":
		n.InsertNext(m)
	case "ReplaceNext":
		n.ReplaceNext(fresh)
		s.nodes = append(s.nodes, fresh)
	case "CombineNext":
		n.CombineNext(someKinds[e.J%len(someKinds)], n.Next(), n.Next().Next())
	case "CombinePrev":
		n.CombinePrev(someKinds[e.J%len(someKinds)], n.Prev(), m)
	case "AppendScope":
		if s.ast != nil {
			s.ast.AppendScope(goast.NewScope(7, scope.Comment, fresh))
			s.nodes = append(s.nodes, fresh)
		}
	case "SetElement":
		if s.ast != nil && len(s.ast.Scope()) > 0 {
			s.ast.Scope()[e.J%len(s.ast.Scope())] = goast.NewScope(8, scope.Comment, fresh)
			s.nodes = append(s.nodes, fresh)
		}
	default:
		panic(internalError{"unknown edit " + e.Op})
	}
}

// equalChains compares two chains by what their nodes hold.
func equalChains(a, b *goast.Node, limit int) (an, bn []*goast.Node, err error) {
	an, ai, err := chainAround(a, limit)
	if err != nil {
		return nil, nil, fmt.Errorf("the original: %w", err)
	}
	bn, bi, err := chainAround(b, limit)
	if err != nil {
		return nil, nil, fmt.Errorf("the copy: %w", err)
	}
	if ai != bi || len(an) != len(bn) {
		return nil, nil, fmt.Errorf("the original is node %d of %d, the copy node %d of %d", ai, len(an), bi, len(bn))
	}
	for i := range an {
		if stateOf(an[i]) != stateOf(bn[i]) || an[i].Kind() != bn[i].Kind() {
			return nil, nil, fmt.Errorf("node %d of the original is %s %v, of the copy %s %v", i, stateOf(an[i]), an[i].Kind(), stateOf(bn[i]), bn[i].Kind())
		}
		if i > 0 && (bn[i].Prev() != bn[i-1]) {
			return nil, nil, fmt.Errorf("node %d of the copy has a wrong previous node", i)
		}
	}
	return an, bn, nil
}

func checkCopy(c CopyCase, o *Obs) error {
	limit := len(c.Src) + len(c.Texts) + len(c.Pre) + len(c.Edits) + 10
	var sides [2]side
	x, y := &sides[0], &sides[1]
	var scs []goast.Scope
	var nodes []*goast.Node
	var a goast.Ast
	if c.Texts != nil {
		texts := make([]string, len(c.Texts))
		for i, s := range c.Texts {
			texts[i] = string(s)
		}
		ns, err := chain(goast.NewNodes(3, texts...), limit)
		if err != nil {
			return err
		}
		if len(ns) == 0 {
			return fmt.Errorf("NewNodes made no nodes")
		}
		nodes = ns
		scs = []goast.Scope{goast.NewScope(11, []scope.Kind{scope.Func, scope.Type, scope.Unknown, scope.Comment}[c.Pick%4], ns[c.Pick%len(ns)])}
	} else if c.Lists != nil {
		head := goast.NewNodes(0, "package", " ", "p")
		pn, err := chain(head, 3)
		if err != nil {
			return err
		}
		nodes = pn
		scs = append(scs, goast.NewScope(0, scope.Package, head))
		for i, l := range c.Lists {
			var texts []string
			for _, x := range l.Texts {
				texts = append(texts, string(x))
			}
			limit += len(texts) + 1
			ns, err := chain(goast.NewNodes(4+i*c.Pick, texts...), limit)
			if err != nil {
				return err
			}
			var head *goast.Node
			if len(ns) > 0 {
				head = ns[l.From%len(ns)]
			}
			nodes = append(nodes, ns...)
			scs = append(scs, goast.NewScope(9-i, allScopeKinds[l.Kind%len(allScopeKinds)], head))
		}
	} else {
		var err error
		if c.What == "file" {
			dir, done := o.scratch()
			defer done()
			f := filepath.Join(dir, "in.go")
			write(f, string(c.Src))
			a, err = goast.ParseAst(f)
			if errors.Is(err, goast.ErrNoPackage) {
				o.Label("no package scope, skipped")
				return nil
			}
			if err != nil {
				if _, ferr := format.Source([]byte(c.Src)); ferr != nil {
					o.Label("gofmt broke the source, skipped")
					return nil
				}
				return fmt.Errorf("ParseAst: %w", err)
			}
			scs = a.Scope()
		} else {
			scs, err = goast.ParseScope(5, []byte(c.Src))
			if err != nil {
				return err
			}
		}
		for _, s := range scs {
			ns, err := chain(s.Node(), limit)
			if err != nil {
				return err
			}
			nodes = append(nodes, ns...)
		}
		if len(nodes) == 0 {
			o.Label("no nodes, skipped")
			return nil
		}
	}
	x.nodes = nodes
	for _, e := range c.Pre {
		x.edit(e)
	}
	nodes = x.nodes
	walked := map[*goast.Node]bool{}
	for _, n := range nodes {
		if len(c.Pre) == 0 || walked[n] {
			continue
		}
		ns, _, err := chainAround(n, limit+len(c.Pre))
		if err != nil {
			o.Label("a cycle, skipped") // C09
			return nil
		}
		for _, n := range ns {
			walked[n] = true
		}
	}

	equalScopes := func(s, d goast.Scope) error {
		_, bn, err := equalChains(s.Node(), d.Node(), limit)
		if err != nil {
			return err
		}
		y.nodes = append(y.nodes, bn...)
		if s.Kind() != d.Kind() || s.Line() != d.Line() || namesOf(s) != namesOf(d) {
			return fmt.Errorf("the scope %v of line %d (%+v) has the copy %v of line %d (%+v)", s.Kind(), s.Line(), namesOf(s), d.Kind(), d.Line(), namesOf(d))
		}
		if s == d {
			return fmt.Errorf("the copy of the scope is the scope itself")
		}
		return nil
	}

	switch c.What {
	case "node":
		n := nodes[c.Pick%len(nodes)]
		x.take()
		d := n.Copy()
		if c.Pick%2 == 0 {
			d = n.Copy(false)
		}
		if d == nil {
			return fmt.Errorf("Copy returned nil")
		}
		if d.Prev() != nil || d.Next() != nil {
			return fmt.Errorf("a copy without relatives has neighbours")
		}
		if stateOf(n) != stateOf(d) || n.Kind() != d.Kind() {
			return fmt.Errorf("node %s %v has the copy %s %v", stateOf(n), n.Kind(), stateOf(d), d.Kind())
		}
		y.nodes = []*goast.Node{d}
	case "chain":
		n := nodes[c.Pick%len(nodes)]
		x.take()
		d := n.Copy(true)
		if d == nil {
			return fmt.Errorf("Copy returned nil")
		}
		_, bn, err := equalChains(n, d, limit)
		if err != nil {
			return err
		}
		y.nodes = bn
	case "scope":
		s := scs[c.Pick%len(scs)]
		x.scopes = []goast.Scope{s}
		x.take()
		d := s.Copy()
		if d == nil {
			return fmt.Errorf("Copy returned nil")
		}
		if err := equalScopes(s, d); err != nil {
			return err
		}
		y.scopes = []goast.Scope{d}
	case "ast", "file":
		if a == nil {
			var err error
			a, err = goast.NewAst(scs...)
			if errors.Is(err, goast.ErrNoPackage) {
				o.Label("no package scope, skipped")
				return nil
			}
			if err != nil {
				return err
			}
		}
		x.ast = a
		x.take()
		d := a.Copy()
		if d == nil {
			return fmt.Errorf("Copy returned nil")
		}
		if metaOf(a) != metaOf(d) {
			return fmt.Errorf("the Ast %s has the copy %s", metaOf(a), metaOf(d))
		}
		if len(a.Scope()) != len(d.Scope()) {
			return fmt.Errorf("the Ast has %d scopes, its copy %d", len(a.Scope()), len(d.Scope()))
		}
		for i := range d.Scope() {
			if err := equalScopes(a.Scope()[i], d.Scope()[i]); err != nil {
				return fmt.Errorf("scope %d: %w", i, err)
			}
		}
		if a.Description() != d.Description() {
			return fmt.Errorf("the copy has another description")
		}
		y.ast = d
	}
	if d := x.changed(); d != "" {
		return fmt.Errorf("copying changed the original: %s", d)
	}
	seen := map[*goast.Node]bool{}
	for _, n := range x.nodes {
		seen[n] = true
	}
	for _, n := range y.nodes {
		if seen[n] {
			return fmt.Errorf("the copy shares the node %q with the original", n.Text())
		}
	}
	y.take()
	for i, e := range c.Edits {
		s, other := &sides[e.Side%2], &sides[1-e.Side%2]
		s.edit(e)
		if d := other.changed(); d != "" {
			return fmt.Errorf("edit %d (%s) of the %s changed the %s: %s", i, e.Op, []string{"original", "copy"}[e.Side%2], []string{"copy", "original"}[e.Side%2], d)
		}
		s.take()
	}
	o.Label("copied: " + c.What)
	o.LabelIf(len(c.Edits) > 0, "edited")
	o.LabelIf(len(c.Pre) > 0, "edited before it was copied")
	o.LabelIf(c.Lists != nil, "built scopes")
	if len(x.nodes) > 2 && len(c.Edits) > 0 {
		o.Nontrivial()
	}
	return nil
}

// ---- C11 ----

// AstOp is a call on one of the Asts made so far.
type AstOp struct {
	Op     string `json:"op"`
	A      int    `json:"a"`
	B      int    `json:"b,omitempty"`      // another Ast, or a number
	Scopes []int  `json:"scopes,omitempty"` // numbers of scopes
	Cap    int    `json:"cap,omitempty"`    // spare capacity of the slice that is passed
	Lo     int    `json:"lo,omitempty"`
	Hi     int    `json:"hi,omitempty"`
}

// AstHistory is a history of calls.
type AstHistory struct {
	File bool    `json:"file"` // the first Ast is a parsed file
	Ops  []AstOp `json:"ops"`
}

func genAstHistory(t *rapid.T) AstHistory {
	g := &gen{t: t}
	h := AstHistory{File: g.p(15)}
	many := 5
	if g.p(5) {
		many = 200
	}
	some := func() []int {
		var out []int
		for range g.n(many) {
			out = append(out, g.n(20))
		}
		return out
	}
	for range 1 + g.n(16) {
		op := AstOp{A: g.n(12), B: g.n(12), Cap: g.n(4)}
		switch g.n(14) {
		case 0:
			op.Op, op.Scopes = "NewAst", append([]int{0}, some()...)
		case 1, 2:
			op.Op, op.Scopes = "SetScope", some()
		case 3, 4:
			op.Op = "SetScopeOf" // the slice another Ast returns
		case 5:
			op.Op, op.Lo, op.Hi = "SetScopePart", g.n(6), g.n(6)
		case 6, 7, 8, 9:
			op.Op, op.Scopes = "AppendScope", some()
		case 10:
			op.Op = "AppendScopeOf"
		case 11:
			op.Op = "Copy"
		case 12:
			op.Op = "IterScope"
			if g.p(40) { // the callback changes the list
				op.Scopes, op.Lo = some(), 1+g.n(3)
			}
		default:
			op.Op = "SetScopeNil"
		}
		h.Ops = append(h.Ops, op)
	}
	return h
}

func checkAstHistory(h AstHistory, o *Obs) error {
	pool := make([]goast.Scope, 20)
	for i := range pool {
		if i == 0 {
			pool[i] = goast.NewScope(0, scope.Package, goast.NewNodes(0, "package", " ", "p", "\n"))
		} else {
			n := goast.NewNode(i, fmt.Sprintf("scope%d", i))
			switch i % 7 {
			case 3:
				n = nil // a scope without nodes
			case 4:
				n = goast.NewNode(i, "")
			case 5:
				n = goast.NewNodes(i, "/* c */", "\n", fmt.Sprintf("scope%d", i))
			}
			pool[i] = goast.NewScope(i, []scope.Kind{scope.Func, scope.Type, scope.Comment, scope.Unknown}[i%4], n)
		}
	}
	type mast struct {
		scopes []goast.Scope
		meta   [4]string
	}
	var asts []goast.Ast
	var model []*mast
	if h.File {
		dir, done := o.scratch()
		defer done()
		f := filepath.Join(dir, "a.b.go")
		write(f, "package q\n\nfunc f() {}\n\ntype T int\n")
		a, err := goast.ParseAst(f)
		if err != nil {
			return err
		}
		if len(a.Scope()) != 3 {
			return fmt.Errorf("ParseAst of a file of three declarations gives %d scopes", len(a.Scope()))
		}
		asts = append(asts, a)
		model = append(model, &mast{slices.Clone(a.Scope()), [4]string{f, dir, "a.b.go", ".go"}})
	} else {
		a, err := goast.NewAst(pool[0], pool[1])
		if err != nil {
			return err
		}
		asts = append(asts, a)
		model = append(model, &mast{scopes: []goast.Scope{pool[0], pool[1]}})
	}
	compare := func(what string) error {
		for i, a := range asts {
			m := model[i]
			got := a.Scope()
			if len(got) != len(m.scopes) {
				return fmt.Errorf("after %s: Ast %d has %d scopes, want %d", what, i, len(got), len(m.scopes))
			}
			for j := range got {
				if got[j] != m.scopes[j] {
					return fmt.Errorf("after %s: scope %d of Ast %d is another one", what, j, i)
				}
			}
			if g := [4]string{a.File(), a.Dir(), a.Filename(), a.Ext()}; g != m.meta {
				return fmt.Errorf("after %s: Ast %d has the file %q, want %q", what, i, g, m.meta)
			}
		}
		return nil
	}
	changes := 0
	for step, op := range h.Ops {
		if len(asts) > 10 && op.Op != "AppendScope" && op.Op != "IterScope" {
			continue
		}
		i := op.A % len(asts)
		j := op.B % len(asts)
		a, m := asts[i], model[i]
		list := make([]goast.Scope, 0, len(op.Scopes)+op.Cap)
		for _, s := range op.Scopes {
			list = append(list, pool[s%len(pool)])
		}
		what := fmt.Sprintf("step %d, %s on Ast %d", step, op.Op, i)
		add := func(b goast.Ast, want []goast.Scope, meta [4]string) error {
			if b == nil {
				return fmt.Errorf("%s returned nil", what)
			}
			if slices.Contains(asts, b) {
				return fmt.Errorf("%s returned an Ast that was there before", what)
			}
			asts = append(asts, b)
			model = append(model, &mast{slices.Clone(want), meta})
			return nil
		}
		var err error
		switch op.Op {
		case "NewAst":
			var b goast.Ast
			b, err = goast.NewAst(list...)
			if err != nil {
				return fmt.Errorf("%s: %w", what, err)
			}
			err = add(b, list, [4]string{})
		case "SetScope":
			err = add(a.SetScope(list), list, m.meta)
		case "SetScopeNil":
			err = add(a.SetScope(nil), nil, m.meta)
		case "SetScopeOf":
			err = add(a.SetScope(asts[j].Scope()), model[j].scopes, m.meta)
			o.Label("shared slice")
		case "SetScopePart":
			s := asts[j].Scope()
			lo := min(op.Lo, len(s))
			hi := max(lo, min(op.Hi, len(s)))
			err = add(a.SetScope(s[lo:hi]), model[j].scopes[lo:hi], m.meta)
			o.Label("shared slice")
		case "AppendScope":
			a.AppendScope(list...)
			m.scopes = append(slices.Clone(m.scopes), list...)
		case "AppendScopeOf":
			if len(m.scopes)+len(model[j].scopes) > 1000 {
				continue
			}
			want := append(slices.Clone(m.scopes), model[j].scopes...)
			a.AppendScope(asts[j].Scope()...)
			m.scopes = want
			o.Label("appended another Ast's scopes")
		case "Copy":
			b := a.Copy()
			if b == nil {
				return fmt.Errorf("%s returned nil", what)
			}
			got := slices.Clone(b.Scope())
			if len(got) != len(m.scopes) {
				return fmt.Errorf("%s: the copy has %d scopes, want %d", what, len(got), len(m.scopes))
			}
			for k := range got {
				if got[k] == nil || got[k] == m.scopes[k] || got[k].Kind() != m.scopes[k].Kind() || got[k].Line() != m.scopes[k].Line() || got[k].Node().Text() != m.scopes[k].Node().Text() {
					return fmt.Errorf("%s: scope %d of the copy is no copy of scope %d", what, k, k)
				}
			}
			err = add(b, got, m.meta)
		case "IterScope":
			stop := op.B
			var seen []goast.Scope
			want := m.scopes
			a.IterScope(func(s goast.Scope) bool {
				seen = append(seen, s)
				if len(seen) == op.Lo && len(list) > 0 {
					a.AppendScope(list...)
					m.scopes = append(slices.Clone(m.scopes), list...)
					o.Label("appended while iterating")
				}
				return len(seen) != stop && len(seen) <= len(want)
			})
			if stop > 0 && stop < len(want) {
				want = want[:stop]
				o.Label("iteration stopped")
			}
			if !slices.Equal(seen, want) {
				return fmt.Errorf("%s, stopping at %d, visits %d scopes, or other ones, want the first %d", what, stop, len(seen), len(want))
			}
		}
		if err != nil {
			return err
		}
		if err := compare(what); err != nil {
			return err
		}
		o.Label(op.Op)
		changes++
	}
	if changes > 3 && len(asts) > 2 {
		o.Nontrivial()
	}
	return nil
}

// ---- C12 ----

// PackageFile is a source file, as text.
type PackageFile struct {
	Src Text `json:"src"`
}

func genPackageFile(t *rapid.T) PackageFile {
	g := &gen{t: t}
	var b strings.Builder
	inline := func() string {
		if g.p(60) {
			return " "
		}
		switch g.n(6) {
		case 0:
			return g.pick([]string{" /* package x */ ", "\n// package x\n", "\n/* package x */\n", "\n/*\npackage x*/"})
		case 1:
			return "/*" + strings.ReplaceAll(g.commentText(), "*", "") + "*/"
		case 2:
			return " // package y\n\t"
		case 3:
			return "\n\n"
		case 4:
			s := " "
			for range 1 + g.n(1<<(1+g.n(7))) {
				s += g.pick([]string{"// package w\n", "/* c */ ", "/*\n\n\n*/\n", "//\n", "/**/"})
			}
			return s
		default:
			return " /*\n package z\n*/\n"
		}
	}
	for range g.n(4) {
		switch g.n(5) {
		case 0:
			b.WriteString("// package a\n")
		case 1:
			b.WriteString("/* package b */\n")
		case 2:
			b.WriteString("/*\npackage c\n*/\n\n")
		case 3:
			b.WriteString("//go:build x\n\n")
		default:
			b.WriteString(g.commentLine() + "\n\n")
		}
	}
	name := g.pick([]string{"p", "main", "int", "string", "x_test", "été", "世界", "p2", "Package", "packages", "types", "funcs", "byte", "error", "any", "nil", "x", "_x", "__", "importer", "a1b2", "true", "uintptr", "main_test", g.ident(), g.ident(), strings.Repeat("p", 1+g.n(300)), "v2", "P", "go2", "vars", g.ident(), g.pick([]string{"documentation", "builtin", "all", "std", "test", "ignore", "internal", "vendor", "testdata", "unsafe", "C", "cmd", "tool", "embed", "any", "iota", "init", "plugin", "tests", "p_", "p_test", "a_b_c", "main_"})})
	sp := inline()
	if sp[0] != ' ' && sp[0] != '/' && sp[0] != '\n' {
		sp = " " + sp
	}
	b.WriteString("package" + sp + name)
	switch g.n(6) {
	case 0:
		b.WriteString(";")
	case 1:
		b.WriteString(" // import \"x\" package q")
	case 2:
		b.WriteString(" /* c */")
	case 3:
		b.WriteString(" /* package\n q */")
	}
	b.WriteString("\n\n")
	for range g.n(4) {
		switch g.n(5) {
		case 0:
			b.WriteString("var " + g.name() + " = `\npackage r\n`\n\n")
		case 1:
			b.WriteString("/*\npackage s\n*/\n\n")
		case 2:
			b.WriteString("// package t\n\n")
		default:
			b.WriteString(g.decl() + "\n\n")
		}
	}
	return PackageFile{Text(b.String())}
}

func checkPackageFile(c PackageFile, o *Obs) error {
	src := formatted(string(c.Src))
	f, err := parser.ParseFile(token.NewFileSet(), "x.go", src, parser.SkipObjectResolution)
	if err != nil || !packageStartsLine(src) {
		o.Label("skipped")
		return nil
	}
	want := f.Name.Name
	dir, done := o.scratch()
	defer done()
	path := filepath.Join(dir, "in.go")
	write(path, string(c.Src))
	a, err := goast.ParseAst(path)
	if err != nil {
		return fmt.Errorf("ParseAst: %w", err)
	}
	ask := func(what string, a goast.Ast) error {
		if got, err := a.Package(); err != nil || got != want {
			return fmt.Errorf("Package of %s is %q, %v, want %q", what, got, err, want)
		}
		return nil
	}
	if err := ask("the parsed file", a); err != nil {
		return err
	}
	b, err := goast.NewAst(a.Scope()...)
	if err != nil {
		return fmt.Errorf("NewAst of the scopes of a file: %w", err)
	}
	if err := ask("an Ast of its scopes", b); err != nil {
		return err
	}
	if err := ask("a copy", a.Copy()); err != nil {
		return err
	}
	if err := ask("an Ast with the scopes set", b.SetScope(a.Scope())); err != nil {
		return err
	}
	if err := ask("the parsed file, again", a); err != nil {
		return err
	}
	// without its package scopes
	var rest []goast.Scope
	for _, s := range a.Scope() {
		if s.Kind() != scope.Package {
			rest = append(rest, s)
		}
	}
	if x, err := goast.NewAst(rest...); !errors.Is(err, goast.ErrNoPackage) || x != nil {
		return fmt.Errorf("NewAst without a package scope returns the error %v, want ErrNoPackage and no Ast", err)
	}
	if p, err := a.SetScope(rest).Package(); !errors.Is(err, goast.ErrNoPackage) {
		return fmt.Errorf("Package without a package scope is %q, %v", p, err)
	}
	if i := strings.Index(src, "package"); strings.Count(src, "package") > 1 || i > 0 {
		o.Nontrivial()
	}
	return nil
}

// ScopeSpec describes a scope to build.
type ScopeSpec struct {
	Kind  int    `json:"kind"`
	Texts []Text `json:"texts"`
	From  int    `json:"from,omitempty"` // the node that the scope gets
}

var allScopeKinds = []scope.Kind{scope.Unknown, scope.Package, scope.Comment, scope.InnerComment, scope.Import, scope.Variable, scope.Const, scope.Type, scope.Func}

func genScopeSpecs(t *rapid.T) []ScopeSpec {
	g := &gen{t: t}
	var out []ScopeSpec
	many := g.n(6)
	if g.p(3) {
		many = g.n(150)
	}
	for range many {
		s := ScopeSpec{Kind: g.n(len(allScopeKinds))}
		if g.p(50) && (many < 6 || g.p(5)) {
			s.Kind = 1
		}
		for range g.n(8) {
			s.Texts = append(s.Texts, g.text("package", "package", " ", "\n", "p", "int", "世界", "func", "// package q", "/* x */", "\"s\"", "a.b", "1", "", "*", "nil", "type", "packages", "p2", "2p", "a-b", "é", "var", "\t", "x", "string", "subpackage", "package ", " package", "Package", "package\n", "_package"))
		}
		if g.p(15) {
			s.From = g.n(8)
		}
		out = append(out, s)
	}
	return out
}

func checkScopeSpecs(c []ScopeSpec, o *Obs) error {
	var scs []goast.Scope
	want, found, first := "", false, true
	for _, s := range c {
		var texts []string
		for _, x := range s.Texts {
			texts = append(texts, string(x))
		}
		ns, err := chain(goast.NewNodes(0, texts...), len(texts))
		if err != nil {
			return err
		}
		if len(ns) != len(texts) {
			return fmt.Errorf("NewNodes made %d nodes of %d texts", len(ns), len(texts))
		}
		k := allScopeKinds[s.Kind%len(allScopeKinds)]
		var head *goast.Node
		from := 0
		if len(ns) > 0 {
			from = s.From % len(ns)
			head = ns[from]
		}
		scs = append(scs, goast.NewScope(0, k, head))
		if k == scope.Package && first {
			first = false
			i := slices.Index(texts[from:], "package")
			if i >= 0 {
				for _, x := range texts[from+i+1:] {
					if token.IsIdentifier(x) {
						want, found = x, true
						break
					}
				}
			}
		}
	}
	a, err := goast.NewAst(scs...)
	if found {
		if err != nil || a == nil {
			return fmt.Errorf("NewAst fails with %v, the package is %q", err, want)
		}
		if got, err := a.Package(); err != nil || got != want {
			return fmt.Errorf("Package is %q, %v, want %q", got, err, want)
		}
	} else {
		if !errors.Is(err, goast.ErrNoPackage) {
			return fmt.Errorf("NewAst returns the error %v, want ErrNoPackage", err)
		}
		if a != nil {
			return fmt.Errorf("NewAst returns ErrNoPackage and an Ast")
		}
	}
	base, err := goast.NewAst(goast.NewScope(0, scope.Package, goast.NewNodes(0, "package", " ", "base")))
	if err != nil {
		return err
	}
	got, err := base.SetScope(scs).Package()
	if found && (err != nil || got != want) || !found && !errors.Is(err, goast.ErrNoPackage) {
		return fmt.Errorf("Package after SetScope is %q, %v, want %q", got, err, want)
	}
	if got, err := base.Package(); err != nil || got != "base" {
		return fmt.Errorf("Package after SetScope made another Ast is %q, %v", got, err)
	}
	o.LabelIf(found, "found")
	o.LabelIf(!found && !first, "package scope without a name")
	if !first && len(c) > 1 {
		o.Nontrivial()
	}
	return nil
}

func init() {
	register(&Prop{ID: "C10", Subs: []*Sub{
		sub("copy", "a node, chain, scope, Ast or parsed file is copied and both sides are edited, the other side must stay as it was; non-trivial: three nodes and an edit",
			120000, 6000000, genCopy, checkCopy),
		sub("long", "the same for chains of up to 3000 nodes; non-trivial: three nodes and an edit", 400, 20000, genBigCopy, checkCopy),
	}})
	register(&Prop{ID: "C11", Assumptions: []string{"callers do not write into slices they passed to or got from an Ast"}, Subs: []*Sub{
		sub("history", "up to 16 calls on up to ten Asts that are made from one another's scopes; the scopes of every Ast are compared with a model after each; non-trivial: four changes and three Asts",
			400000, 15000000, genAstHistory, checkAstHistory),
	}})
	register(&Prop{ID: "C12", Subs: []*Sub{
		sub("file", "source file with comments around and inside the package clause, and the word package in other places; the name go/parser reports is the oracle; non-trivial: the word package occurs elsewhere, or comments come first",
			60000, 2500000, genPackageFile, checkPackageFile),
		sub("scopes", "list of scopes of any kind with any nodes; the first identifier behind the first \"package\" of the first package scope is the oracle; non-trivial: two scopes, one of them of the package kind",
			300000, 10000000, genScopeSpecs, checkScopeSpecs),
		listed("real", "file of the Go source tree; non-trivial: the word package occurs elsewhere, or comments come first", corpusCases(300, 20000), func(c FileCase, o *Obs) error {
			s, ok := c.formatted()
			if !ok {
				o.Label("skipped")
				return nil
			}
			return checkPackageFile(PackageFile{Text(s)}, o)
		}),
	}})
}
