package main

// C31: a scope's accessors report its tree as it is now.

import (
	"fmt"
	"slices"
	"strings"

	"github.com/yanun0323/goast"
	"github.com/yanun0323/goast/kind"
	"github.com/yanun0323/goast/scope"
	"pgregory.net/rapid"
)

// ScopeHistory is a scope, parsed or built, and edits of its nodes.
type ScopeHistory struct {
	Src   Text       `json:"src,omitempty"` // parsed, if not empty
	Line  int        `json:"line"`
	Kind  int        `json:"kind"` // of a built scope
	Nodes []KindNode `json:"nodes,omitempty"`
	At    int        `json:"at"` // the scope, or the node that the built scope begins with
	Ops   []ScopeOp  `json:"ops"`
}

// KindNode is a node to build; Kind -1 is the kind of its text.
type KindNode struct {
	Text Text `json:"text"`
	Kind int  `json:"kind"`
}

// ScopeOp is an edit of the node with the number At (from the scope's node on).
type ScopeOp struct {
	Op   string   `json:"op"`
	At   int      `json:"at"`
	Node KindNode `json:"node"`
}

var nodeKinds = []kind.Kind{kind.FuncName, kind.TypeName, kind.MethodReceiverType, kind.MethodReceiverName, kind.Struct, kind.Interface, kind.Space, kind.Comment, kind.ParamType, kind.NewLine, kind.Func, kind.Type}

var nodeTexts = []string{"A", "b", "struct", "interface", " ", "\t", "\n", "/* c */", "// d", "=", "func", "type", "*T", "T", "(", ")", "{", "}", "", "int", "_", "x y"}

func (k KindNode) build(line int) *goast.Node {
	switch {
	case k.Kind < 0:
		return goast.NewNode(line, string(k.Text))
	case k.Kind < len(nodeKinds):
		return goast.NewNode(line, string(k.Text), nodeKinds[k.Kind])
	default:
		return goast.NewNode(line, string(k.Text), allKinds[k.Kind%len(allKinds)].k)
	}
}

func (k KindNode) kind() kind.Kind { return k.build(0).Kind() }

func genKindNode(g *gen) KindNode {
	k := KindNode{Text: g.text(nodeTexts...), Kind: -1}
	switch {
	case g.p(50):
		k.Text = Text(g.pick(nodeTexts))
	case g.p(20):
		k.Text = Text(g.ident())
	}
	if g.p(50) {
		k.Kind = g.n(len(nodeKinds) + 3)
		switch {
		case g.p(40):
			k.Kind = g.n(6)
		case g.p(20):
			k.Kind = g.n(100)
		}
	}
	return k
}

var scopeOps = []string{"text", "kind", "name", "name", "name", "insert next", "insert prev", "take next", "take prev", "replace next", "remove next", "combine", "copy", "ask"}

func genScopeHistory(t *rapid.T) ScopeHistory {
	g := &gen{t: t}
	c := ScopeHistory{Line: g.n(40), Kind: g.n(len(allScopeKinds)), At: g.n(20)}
	if g.p(65) {
		if g.p(50) {
			c.Src = Text(genDecls(t))
		} else {
			c.Src = Text(genFormatted(t, genOpts(t, 2)))
		}
	} else {
		if g.p(70) {
			c.Kind = len(allScopeKinds) - 1 - g.n(2) // type, func
		}
		for range g.n(14) {
			c.Nodes = append(c.Nodes, genKindNode(g))
		}
	}
	for range 1 + g.n(12) {
		op := ScopeOp{Op: g.pick(scopeOps), At: g.n(12), Node: genKindNode(g)}
		if g.p(15) {
			op.At = g.n(200)
		}
		c.Ops = append(c.Ops, op)
	}
	return c
}

// expectNames reads the names off the chain; sure is false if struct and interface names are open, since square
// brackets follow the name of the type.
func expectNames(k scope.Kind, ns []*goast.Node) (n names, sure bool) {
	first := func(k kind.Kind) (string, bool) {
		for _, n := range ns {
			if n.Kind() == k {
				return n.Text(), true
			}
		}
		return "", false
	}
	switch k {
	case scope.Func:
		n.fn, n.okFn = first(kind.FuncName)
		n.recv, n.okR = first(kind.MethodReceiverType)
		if n.okR {
			n.method, n.okM = n.fn, n.okFn
		}
	case scope.Type:
		n.typ, n.okT = first(kind.TypeName)
		i := slices.IndexFunc(ns, func(n *goast.Node) bool { return n.Kind() == kind.TypeName })
		if i < 0 {
			break
		}
		for i++; i < len(ns); i++ {
			switch k := ns[i].Kind(); {
			case k == kind.Space || k == kind.Tab || k == kind.NewLine || k == kind.Comment || ns[i].Text() == "=":
				continue
			case k == kind.SquareBracketLeft:
				return n, false
			case k == kind.Struct:
				n.strct, n.okS = n.typ, true
			case k == kind.Interface:
				n.iface, n.okI = n.typ, true
			}
			break
		}
	}
	return n, true
}

func checkScopeHistory(c ScopeHistory, o *Obs) error {
	var s goast.Scope
	if len(c.Src) != 0 {
		scs, err := goast.ParseScope(c.Line, []byte(c.Src))
		if err != nil {
			return err
		}
		if len(scs) == 0 {
			return nil
		}
		if c.Kind%4 != 0 { // rather one with names
			if named := slices.DeleteFunc(slices.Clone(scs), func(s goast.Scope) bool { return s.Kind() != scope.Func && s.Kind() != scope.Type }); len(named) != 0 {
				scs = named
			}
		}
		s = scs[c.At%len(scs)]
	} else {
		var at *goast.Node
		last := (*goast.Node)(nil)
		for i, k := range c.Nodes {
			n := k.build(c.Line)
			if last != nil {
				last.InsertNext(n)
			}
			last = n
			if i == c.At%len(c.Nodes) {
				at = n
			}
		}
		s = goast.NewScope(c.Line, allScopeKinds[c.Kind%len(allScopeKinds)], at)
		if s.Node() != at || s.Kind() != allScopeKinds[c.Kind%len(allScopeKinds)] || s.Line() != c.Line+1 {
			return fmt.Errorf("a scope made of line %d and kind %q has line %d and kind %q, or another node", c.Line, allScopeKinds[c.Kind%len(allScopeKinds)], s.Line(), s.Kind())
		}
	}
	node, line, sk := s.Node(), s.Line(), s.Kind()
	list := func() (ns []*goast.Node) {
		for n := node; n != nil; n = n.Next() {
			ns = append(ns, n)
		}
		return
	}
	seen := map[names]bool{}
	ask := func(what string) error {
		ns := list()
		want, sure := expectNames(sk, ns)
		for range 2 {
			got := namesOf(s)
			if !sure {
				got.strct, got.okS, got.iface, got.okI = "", false, "", false
			}
			if got != want {
				return fmt.Errorf("%s: the scope says %+v, its nodes are those of %+v", what, got, want)
			}
		}
		if s.Node() != node || s.Line() != line || s.Kind() != sk {
			return fmt.Errorf("%s: the scope has another node, line or kind", what)
		}
		if after := list(); !slices.Equal(ns, after) {
			return fmt.Errorf("%s: asking for names changes the nodes", what)
		}
		seen[want] = true
		return nil
	}
	if err := ask("at first"); err != nil {
		return err
	}
	for i, op := range c.Ops {
		ns := list()
		if len(ns) == 0 {
			break
		}
		at := ns[op.At%len(ns)]
		switch op.Op {
		case "text":
			at.SetText(string(op.Node.Text))
		case "kind":
			at.SetKind(op.Node.kind())
		case "name": // the name that is reported gets another text or kind
			for _, n := range ns {
				if k := n.Kind(); k == kind.FuncName || k == kind.TypeName || k == kind.MethodReceiverType {
					at = n
					if op.At%3 != 0 {
						break
					}
				}
			}
			if op.At%5 == 0 {
				at.SetKind(op.Node.kind())
			} else {
				at.SetText(string(op.Node.Text))
			}
		case "insert next":
			at.InsertNext(op.Node.build(line))
		case "insert prev":
			at.InsertPrev(op.Node.build(line))
		case "take next":
			at.TakeNext()
		case "take prev":
			if at != node {
				at.TakePrev()
			}
		case "replace next":
			at.ReplaceNext(op.Node.build(line))
		case "remove next":
			if op.At%4 == 0 {
				at.RemoveNext()
			}
		case "combine":
			if next := at.Next(); next != nil {
				rest := next.Next()
				at.CombineNext(op.Node.kind(), next)
				at.ReplaceNext(rest)
			}
		case "copy": // names of the copy, which is then changed, or goes on instead
			d := s.Copy()
			if got, want := namesOf(d), namesOf(s); got != want {
				return fmt.Errorf("op %d: the copy says %+v, the scope %+v", i, got, want)
			}
			if op.At%2 == 0 {
				s, node = d, d.Node()
			} else {
				d.Node().SetText(string(op.Node.Text))
				d.Node().SetKind(op.Node.kind())
			}
		}
		if err := ask(fmt.Sprintf("after op %d (%s)", i, op.Op)); err != nil {
			return err
		}
	}
	if len(seen) > 1 {
		o.Nontrivial()
		o.LabelIf(len(seen) > 3, "more than three answers")
	}
	o.LabelIf(strings.TrimSpace(string(c.Src)) == "", "built scope")
	return nil
}

func init() {
	register(&Prop{ID: "C31", Subs: []*Sub{
		sub("histories", "scope parsed of a generated file or built of nodes with drawn texts and kinds, and a history of edits of its nodes; non-trivial: the names to report change at least once",
			150000, 5000000, genScopeHistory, checkScopeHistory),
	}})
}
