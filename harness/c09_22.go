package main

// C09, C20, C22: histories of operations on nodes, against a model that keeps chains as lists.

import (
	"fmt"
	"slices"
	"strings"

	"github.com/yanun0323/goast"
	"github.com/yanun0323/goast/kind"
	"pgregory.net/rapid"
)

// NodeOp is one call. A and B are node numbers (-1: the nil node), B2 further arguments.
type NodeOp struct {
	Op string `json:"op"`
	A  int    `json:"a"`
	B  int    `json:"b,omitempty"`
	B2 []int  `json:"nodes,omitempty"`
	K  int    `json:"kind,omitempty"`
	S  Text   `json:"text,omitempty"`

	Body []NodeOp `json:"body,omitempty"` // what the callback of an iteration does at its visits, one after the other; node -2 is the visited one
}

// NodeHistory builds chains and runs operations on their nodes. Node numbers count the nodes in the order
// in which they are made, and are taken modulo the number of nodes.
type NodeHistory struct {
	Line   int      `json:"line"`
	Chains [][]Text `json:"chains"`
	Ops    []NodeOp `json:"ops"`
}

var someKinds = []kind.Kind{kind.None, kind.Raw, kind.ParamType, kind.String, kind.Comment, kind.NewLine, kind.Func, kind.ParenthesisLeft, kind.TypeName, {"x", "y"}}

var (
	linkOps  = []string{"InsertPrev", "InsertNext", "ReplacePrev", "ReplaceNext"}
	unaryOps = []string{"TakePrev", "TakeNext", "RemovePrev", "RemoveNext"}
)

type mnode struct {
	line int
	kind kind.Kind
	text string
}

// nodeModel keeps each chain as a list of node numbers.
type nodeModel struct {
	nodes  []mnode
	chains [][]int
}

func (m *nodeModel) find(id int) (c, i int) {
	for c, ch := range m.chains {
		if i := slices.Index(ch, id); i >= 0 {
			return c, i
		}
	}
	panic(internalError{"model lost a node"})
}

func (m *nodeModel) add(n mnode) int {
	m.nodes = append(m.nodes, n)
	id := len(m.nodes) - 1
	m.chains = append(m.chains, []int{id})
	return id
}

func (m *nodeModel) prev(id int) int {
	if id < 0 {
		return -1
	}
	c, i := m.find(id)
	if i == 0 {
		return -1
	}
	return m.chains[c][i-1]
}

func (m *nodeModel) next(id int) int {
	if id < 0 {
		return -1
	}
	c, i := m.find(id)
	if i == len(m.chains[c])-1 {
		return -1
	}
	return m.chains[c][i+1]
}

// cutAfter splits the chain of id behind it; cutBefore before it.
func (m *nodeModel) cutAfter(id int) {
	if m.next(id) < 0 {
		return
	}
	c, i := m.find(id)
	ch := m.chains[c]
	m.chains[c] = slices.Clone(ch[:i+1])
	m.chains = append(m.chains, slices.Clone(ch[i+1:]))
}

func (m *nodeModel) cutBefore(id int) {
	if p := m.prev(id); p >= 0 {
		m.cutAfter(p)
	}
}

func (m *nodeModel) cut(id int) {
	m.cutBefore(id)
	m.cutAfter(id)
}

// join appends the chain that begins with b to the chain that ends with a.
func (m *nodeModel) join(a, b int) {
	if a < 0 || b < 0 {
		return
	}
	ca, i := m.find(a)
	cb, j := m.find(b)
	if ca == cb || i != len(m.chains[ca])-1 || j != 0 {
		panic(internalError{"model joins what is not an end"})
	}
	m.chains[ca] = append(slices.Clone(m.chains[ca]), m.chains[cb]...)
	m.chains = slices.Delete(m.chains, cb, cb+1)
}

// ring tells whether the operation would join a chain to itself.
func (m *nodeModel) ring(op string, n, nn int) bool {
	if n < 0 || nn < 0 || n == nn {
		return false
	}
	ca, i := m.find(n)
	cb, j := m.find(nn)
	if ca != cb {
		return false
	}
	return op == "ReplacePrev" && j > i || op == "ReplaceNext" && j < i
}

func (m *nodeModel) run(h NodeOp) (r1, r2 int) {
	r1, r2 = -1, -1
	n, nn := h.A, h.B
	switch h.Op {
	case "InsertPrev", "InsertNext":
		next := h.Op == "InsertNext"
		side := m.prev
		if next {
			side = m.next
		}
		if n == nn || side(n) == nn {
			return
		}
		if nn < 0 { // the receiver loses its neighbour
			if next {
				m.cutAfter(n)
			} else {
				m.cutBefore(n)
			}
			return
		}
		r1, r2 = m.prev(nn), m.next(nn)
		m.cut(nn)
		if n < 0 {
			return
		}
		if next {
			x := m.next(n)
			m.cutAfter(n)
			m.join(n, nn)
			m.join(nn, x)
		} else {
			x := m.prev(n)
			m.cutBefore(n)
			m.join(x, nn)
			m.join(nn, n)
		}
	case "ReplacePrev":
		if n == nn || m.prev(n) == nn {
			return
		}
		r1, r2 = m.prev(n), m.next(nn)
		m.cutBefore(n)
		m.cutAfter(nn)
		m.join(nn, n)
	case "ReplaceNext":
		if n == nn || m.next(n) == nn {
			return
		}
		r1, r2 = m.prev(nn), m.next(n)
		m.cutAfter(n)
		m.cutBefore(nn)
		m.join(n, nn)
	case "TakePrev":
		if r1 = m.prev(n); r1 >= 0 {
			p := m.prev(r1)
			m.cut(r1)
			m.join(p, n)
		}
	case "TakeNext":
		if r1 = m.next(n); r1 >= 0 {
			x := m.next(r1)
			m.cut(r1)
			m.join(n, x)
		}
	case "RemovePrev":
		r1 = m.prev(n)
		m.cutBefore(n)
	case "RemoveNext":
		r1 = m.next(n)
		m.cutAfter(n)
	case "Isolate":
		if n >= 0 {
			m.cut(n)
		}
	case "SetText":
		if n >= 0 {
			m.nodes[n].text = string(h.S)
		}
	case "SetKind":
		if n >= 0 {
			m.nodes[n].kind = someKinds[h.K%len(someKinds)]
		}
	case "CombinePrev", "CombineNext":
		rest := h.B2
		for n < 0 && len(rest) > 0 {
			n, rest = rest[0], rest[1:]
		}
		r1 = n
		if n < 0 {
			return
		}
		m.nodes[n].kind = someKinds[h.K%len(someKinds)]
		s := m.nodes[n].text
		for _, x := range rest {
			if x < 0 || x == n {
				continue
			}
			if h.Op == "CombineNext" {
				s = s + m.nodes[x].text
			} else {
				s = m.nodes[x].text + s
			}
			m.cut(x)
		}
		m.nodes[n].text = s
	}
	return
}

// realOp calls the method on the real nodes.
func realOp(op NodeOp, n, nn *goast.Node, args []*goast.Node) (g1, g2 *goast.Node) {
	switch op.Op {
	case "InsertPrev":
		g1, g2 = n.InsertPrev(nn)
	case "InsertNext":
		g1, g2 = n.InsertNext(nn)
	case "ReplacePrev":
		g1, g2 = n.ReplacePrev(nn)
	case "ReplaceNext":
		g1, g2 = n.ReplaceNext(nn)
	case "TakePrev":
		g1 = n.TakePrev()
	case "TakeNext":
		g1 = n.TakeNext()
	case "RemovePrev":
		g1 = n.RemovePrev()
	case "RemoveNext":
		g1 = n.RemoveNext()
	case "Isolate":
		n.Isolate()
	case "SetText":
		n.SetText(string(op.S))
	case "SetKind":
		n.SetKind(someKinds[op.K%len(someKinds)])
	case "CombinePrev":
		g1 = n.CombinePrev(someKinds[op.K%len(someKinds)], args...)
	case "CombineNext":
		g1 = n.CombineNext(someKinds[op.K%len(someKinds)], args...)
	default:
		panic(internalError{"unknown operation " + op.Op})
	}
	return g1, g2
}

// wrapNode takes node numbers modulo the number of nodes.
func wrapNode(id, n int) int {
	if id < 0 || n == 0 {
		return -1
	}
	return id % n
}

func checkHistory(h NodeHistory, o *Obs) error {
	var (
		m    = &nodeModel{}
		real []*goast.Node
		ids  = map[*goast.Node]int{}
	)
	line := h.Line
	for _, texts := range h.Chains {
		ss := make([]string, len(texts))
		for i, t := range texts {
			ss[i] = string(t)
		}
		ns, err := chain(goast.NewNodes(line, ss...), len(ss))
		if err != nil {
			return err
		}
		if len(ns) != len(ss) {
			return fmt.Errorf("NewNodes made %d nodes of %d texts", len(ns), len(ss))
		}
		last := -1
		for i, n := range ns {
			id := m.add(mnode{n.Line(), n.Kind(), ss[i]})
			ids[n] = id
			real = append(real, n)
			m.join(last, id)
			last = id
		}
		line += 10
	}
	name := func(id int) string {
		if id < 0 {
			return "nil"
		}
		return fmt.Sprintf("#%d", id)
	}
	num := func(n *goast.Node) (int, bool) {
		if n == nil {
			return -1, true
		}
		id, ok := ids[n]
		return id, ok
	}
	compare := func(what string) error {
		for id, n := range real {
			w := m.nodes[id]
			if n.Text() != w.text {
				return fmt.Errorf("after %s: node #%d has the text %q, want %q", what, id, clip(n.Text(), 200), clip(w.text, 200))
			}
			if n.Kind() != w.kind {
				return fmt.Errorf("after %s: node #%d has the kind %v, want %v", what, id, n.Kind(), w.kind)
			}
			if n.Line() != w.line {
				return fmt.Errorf("after %s: node #%d has the line %d, want %d", what, id, n.Line(), w.line)
			}
			p, ok1 := num(n.Prev())
			x, ok2 := num(n.Next())
			if !ok1 || !ok2 {
				return fmt.Errorf("after %s: a neighbour of node #%d is no known node", what, id)
			}
			if p != m.prev(id) || x != m.next(id) {
				return fmt.Errorf("after %s: node #%d is between %s and %s, want between %s and %s", what, id, name(p), name(x), name(m.prev(id)), name(m.next(id)))
			}
		}
		return nil
	}
	if err := compare("NewNodes"); err != nil {
		return err
	}
	get := func(id int) *goast.Node {
		if id < 0 {
			return nil
		}
		return real[id]
	}

	changes := 0
	for step, op := range h.Ops {
		op.A = wrapNode(op.A, len(real))
		op.B = wrapNode(op.B, len(real))
		b2 := make([]int, len(op.B2))
		args := make([]*goast.Node, len(op.B2))
		for i, id := range op.B2 {
			b2[i] = wrapNode(id, len(real))
			args[i] = get(b2[i])
		}
		op.B2 = b2
		n, nn := get(op.A), get(op.B)
		if m.ring(op.Op, op.A, op.B) {
			o.Label("ring skipped")
			continue
		}
		what := fmt.Sprintf("step %d, %s.%s(%s)", step, name(op.A), op.Op, name(op.B))
		if len(b2) > 0 {
			what = fmt.Sprintf("step %d, %s.%s(%v)", step, name(op.A), op.Op, b2)
		}
		before := fmt.Sprint(m.chains)
		if n != nil && nn != nil && slices.Contains(linkOps, op.Op) {
			c1, i := m.find(op.A)
			c2, j := m.find(op.B)
			switch {
			case op.A == op.B:
				o.Label("itself")
			case c1 != c2:
				o.Label("other chain")
			case j-i == 1 || i-j == 1:
				o.Label("neighbours")
			default:
				o.Label("same chain")
			}
		}
		w1, w2 := m.run(op)
		var g1, g2 *goast.Node
		switch op.Op {
		case "New":
			if len(real) < 40 {
				n = goast.NewNode(op.K, string(op.S))
				if n == nil {
					return fmt.Errorf("%s: no node", what)
				}
				ids[n] = m.add(mnode{op.K, refKind(string(op.S)), string(op.S)})
				real = append(real, n)
			}
		case "Ask":
			if err := askNil(op.K, what); err != nil {
				return err
			}
		case "IterNext", "IterPrev":
			var err error
			g1, w1, err = iterate(op, n, m, get, num, o)
			if err != nil {
				return fmt.Errorf("%s: %w", what, err)
			}
		default:
			g1, g2 = realOp(op, n, nn, args)
		}
		x1, ok1 := num(g1)
		x2, ok2 := num(g2)
		if !ok1 || !ok2 {
			return fmt.Errorf("%s returned a node that is not one of those made", what)
		}
		if x1 != w1 || x2 != w2 {
			return fmt.Errorf("%s returned %s, %s, want %s, %s", what, name(x1), name(x2), name(w1), name(w2))
		}
		if err := compare(what); err != nil {
			return err
		}
		if fmt.Sprint(m.chains) != before {
			changes++
		}
		for _, a := range args {
			o.LabelIf(a == nil, "nil argument")
			o.LabelIf(a != nil && a == n, "the receiver as argument")
		}
		o.LabelIf(len(args) > 1 && slices.Contains(args[1:], args[0]), "repeated argument")
		o.LabelIf(op.A < 0, "nil receiver")
		o.Label(op.Op)
	}
	if changes >= 2 {
		o.Nontrivial()
	}
	return nil
}

// iterate runs an iteration with a callback that changes the chain, and tells where it has to stop.
func iterate(op NodeOp, n *goast.Node, m *nodeModel, get func(int) *goast.Node, num func(*goast.Node) (int, bool), o *Obs) (got *goast.Node, want int, err error) {
	side, iter := m.next, n.IterNext
	if op.Op == "IterPrev" {
		side, iter = m.prev, n.IterPrev
	}
	wantAt, visits, changed := op.A, 0, false
	want = -1
	got = iter(func(x *goast.Node) bool {
		id, ok := num(x)
		if !ok || id != wantAt {
			if err == nil {
				err = fmt.Errorf("visit %d is of node #%d (known: %v), want #%d", visits, id, ok, wantAt)
			}
			return false
		}
		if visits < len(op.Body) {
			b := op.Body[visits]
			at := func(k int) int {
				if k == -2 {
					return id
				}
				return wrapNode(k, len(m.nodes))
			}
			b.A, b.B = at(b.A), at(b.B)
			args := make([]*goast.Node, len(b.B2))
			b.B2 = slices.Clone(b.B2)
			for i, k := range b.B2 {
				b.B2[i] = at(k)
				args[i] = get(b.B2[i])
			}
			if !m.ring(b.Op, b.A, b.B) && b.Op != "New" && b.Op != "Ask" {
				before := side(id)
				m.run(b)
				realOp(b, get(b.A), get(b.B), args)
				changed = changed || side(id) != before
			}
		}
		visits++
		if visits-1 == op.K || visits > 700 {
			want = id
			return false
		}
		wantAt = side(id)
		return true
	})
	if err == nil && want < 0 && wantAt >= 0 {
		err = fmt.Errorf("the iteration ends after %d visits, want one of node #%d", visits, wantAt)
	}
	o.LabelIf(changed, "the callback changes what is next")
	return got, want, err
}

// askNil calls a method of the nil node that is no operation on links.
func askNil(which int, what string) error {
	var n *goast.Node
	bad := func(m string, got any) error { return fmt.Errorf("%s: %s of the nil node is %v", what, m, got) }
	called := false
	count := func(*goast.Node) bool { called = true; return false }
	switch which % 16 {
	case 0:
		if c := n.Copy(); c != nil {
			return bad("Copy()", c.Description())
		}
	case 1:
		if c := n.Copy(true); c != nil {
			return bad("Copy(true)", c.Description())
		}
	case 2:
		if c := n.Copy(false); c != nil {
			return bad("Copy(false)", c.Description())
		}
	case 3:
		if c := n.IterPrev(count); c != nil || called {
			return bad("IterPrev", "not nil, or calls back")
		}
	case 4:
		if c := n.IterNext(count); c != nil || called {
			return bad("IterNext", "not nil, or calls back")
		}
	case 5:
		if n.Prev() != nil || n.Next() != nil {
			return bad("Prev or Next", "not nil")
		}
	case 6:
		if n.First() != nil {
			return bad("First", "not nil")
		}
	case 7:
		if n.Last() != nil {
			return bad("Last", "not nil")
		}
	case 8:
		if n.Line() != -2 {
			return bad("Line", n.Line())
		}
	case 9:
		if n.Kind() != kind.None {
			return bad("Kind", n.Kind())
		}
	case 10:
		if n.Text() != "" {
			return bad("Text", n.Text())
		}
	case 11:
		if n.Description() != "<nil>" {
			return bad("Description", n.Description())
		}
	case 12:
		out, err := stderrOf(func() { n.Print() })
		if err == nil && out != "\t <nil>\n" {
			return bad("Print", fmt.Sprintf("%q", out))
		}
	case 13:
		n.SetKind(kind.Func)
		n.SetText("x")
		if n.Kind() != kind.None || n.Text() != "" {
			return bad("SetKind and SetText", "not nothing")
		}
	case 14:
		n.Isolate()
	case 15:
		if n.CombineNext(kind.Raw) != nil || n.CombinePrev(kind.Raw) != nil || n.CombineNext(kind.Raw, nil) != nil || n.CombinePrev(kind.Raw, nil, nil) != nil {
			return bad("combining nothing", "not nil")
		}
	}
	return nil
}

func genHistory(t *rapid.T, max int, genOp func(g *gen) NodeOp) NodeHistory {
	g := &gen{t: t}
	h := NodeHistory{Line: rapid.SampledFrom([]int{0, 1, 7, -3, 1000}).Draw(t, "")}
	for range 1 + g.n(4) {
		var ch []Text
		for range 1 + g.n(6) {
			ch = append(ch, g.text("a", "b", "", "func", "x\n", "(", "世", "\"s\"", "\n", "int"))
		}
		h.Chains = append(h.Chains, ch)
	}
	for range 1 + g.n(max) {
		h.Ops = append(h.Ops, genOp(g))
	}
	return h
}

// genBigHistory draws a history on a long chain and a shorter one, with nodes of many kinds.
func genBigHistory(t *rapid.T, genOp func(g *gen) NodeOp) NodeHistory {
	g := &gen{t: t, big: 1 << (3 + g0(t, 7))}
	if k, ok := g.size(40, 5000); ok {
		g.big = k
	}
	h := NodeHistory{Line: rapid.SampledFrom([]int{0, 1, -3, 70000}).Draw(t, "")}
	for _, n := range []int{g.big, 1 + g.n(9)} {
		var ch []Text
		for range n {
			ch = append(ch, Text(g.pick(kindTexts)))
		}
		for range g.n(4) {
			if w, ok := g.word(20); ok {
				ch[g.n(len(ch))] = Text(w)
			}
		}
		if g.p(20) {
			ch[g.n(len(ch))] = Text(strings.Repeat(g.pick([]string{"long ", "世", "\n"}), 1+g.n(3000)))
		}
		h.Chains = append(h.Chains, ch)
	}
	for range 1 + g.n(8) {
		h.Ops = append(h.Ops, genOp(g))
	}
	return h
}

func g0(t *rapid.T, n int) int { return (&gen{t: t}).n(n) }

func (g *gen) nodeNo() int {
	if g.big > 0 {
		return rapid.IntRange(0, g.big+9).Draw(g.t, "")
	}
	return g.n(24)
}

func (g *gen) nodeOrNil(c int) int {
	if g.p(c) {
		return -1
	}
	return g.nodeNo()
}

func (g *gen) someNodes(nilChance int) []int {
	var out []int
	if g.big > 0 && g.p(50) { // a run of neighbours
		a := g.nodeNo()
		for i := range rapid.IntRange(0, g.big).Draw(g.t, "") {
			out = append(out, a+i)
		}
		return out
	}
	for range g.n(5) {
		out = append(out, g.nodeOrNil(nilChance))
	}
	return out
}

func genLinkOp(g *gen) NodeOp {
	if g.p(10) {
		op := NodeOp{Op: g.pick([]string{"IterNext", "IterPrev"}), A: g.nodeNo(), K: g.n(12) - 1}
		if g.p(60) {
			op.K = -1
		}
		for range g.n(7) {
			b := genFlatLinkOp(g)
			if g.p(50) {
				b.A = -2
			} else if g.p(50) {
				b.B = -2
			}
			op.Body = append(op.Body, b)
		}
		return op
	}
	return genFlatLinkOp(g)
}

func genFlatLinkOp(g *gen) NodeOp {
	switch g.n(14) {
	case 0, 1, 2, 3, 4, 5, 6, 7:
		return NodeOp{Op: g.pick(linkOps), A: g.nodeNo(), B: g.nodeNo()}
	case 8, 9, 10, 11:
		return NodeOp{Op: g.pick(unaryOps), A: g.nodeNo()}
	case 12:
		return NodeOp{Op: "New", A: 0, K: g.n(100), S: g.text("n", "", "\n", "type")}
	default:
		return NodeOp{Op: g.pick([]string{"SetText", "SetKind", "Isolate"}), A: g.nodeNo(), K: g.n(len(someKinds)), S: "t"}
	}
}

func genNilOp(g *gen) NodeOp {
	switch g.n(8) {
	case 0:
		return NodeOp{Op: "Ask", A: -1, K: g.n(16)}
	case 1, 2:
		return NodeOp{Op: g.pick(linkOps), A: -1, B: g.nodeOrNil(15)}
	case 3, 4:
		return NodeOp{Op: g.pick(linkOps), A: g.nodeNo(), B: -1}
	case 5:
		return NodeOp{Op: g.pick(append([]string{"Isolate", "SetText", "SetKind"}, unaryOps...)), A: -1, K: g.n(len(someKinds)), S: "t"}
	case 6:
		return NodeOp{Op: g.pick([]string{"CombinePrev", "CombineNext"}), A: -1, B2: g.someNodes(40), K: g.n(len(someKinds))}
	default:
		return genLinkOp(g)
	}
}

func genCombineOp(g *gen) NodeOp {
	switch g.n(8) {
	case 0, 1, 2, 3:
		op := NodeOp{Op: g.pick([]string{"CombinePrev", "CombineNext"}), A: g.nodeOrNil(12), B2: g.someNodes(12), K: g.n(len(someKinds))}
		if g.p(15) && len(op.B2) > 0 { // the receiver, or a node twice
			op.B2 = append(op.B2, []int{op.A, op.B2[0]}[g.n(2)])
		}
		return op
	case 4, 5:
		return NodeOp{Op: "Isolate", A: g.nodeOrNil(5)}
	default:
		return genLinkOp(g)
	}
}

// enumHistories lists every sequence of link operations of the given length over two small chains.
func enumHistories(tier string, seed uint64) []NodeHistory {
	type cfg struct {
		sizes []int
		len   int
	}
	cfgs := []cfg{{[]int{3, 2}, 2}, {[]int{4}, 2}, {[]int{1, 1, 1}, 2}, {[]int{2}, 3}}
	if tier == "thorough" {
		cfgs = append(cfgs, cfg{[]int{5, 2}, 2}, cfg{[]int{3}, 3}, cfg{[]int{2, 2}, 3}, cfg{[]int{4, 3}, 2})
	}
	var out []NodeHistory
	for _, c := range cfgs {
		h := NodeHistory{}
		n := 0
		for _, k := range c.sizes {
			var ch []Text
			for range k {
				ch = append(ch, Text(strings.Repeat("x", n+1)))
				n++
			}
			h.Chains = append(h.Chains, ch)
		}
		var ops []NodeOp
		for a := range n {
			for b := range n {
				for _, op := range linkOps {
					ops = append(ops, NodeOp{Op: op, A: a, B: b})
				}
			}
			for _, op := range append([]string{"Isolate"}, unaryOps...) {
				ops = append(ops, NodeOp{Op: op, A: a})
			}
		}
		var rec func(pre []NodeOp)
		rec = func(pre []NodeOp) {
			if len(pre) == c.len {
				out = append(out, NodeHistory{Chains: h.Chains, Ops: slices.Clone(pre)})
				return
			}
			for _, op := range ops {
				rec(append(pre[:len(pre):len(pre)], op))
			}
		}
		rec(nil)
	}
	return out
}

// enumNil lists every call with a nil receiver or argument on a few chains.
func enumNil(string, uint64) []NodeHistory {
	chains := [][]Text{{"a", "b", "c"}, {"d", "e"}}
	var out []NodeHistory
	add := func(ops ...NodeOp) { out = append(out, NodeHistory{Chains: chains, Ops: ops}) }
	for id := -1; id < 5; id++ {
		for _, op := range linkOps {
			add(NodeOp{Op: op, A: -1, B: id})
			if id >= 0 {
				add(NodeOp{Op: op, A: id, B: -1})
				add(NodeOp{Op: op, A: id, B: -1}, NodeOp{Op: op, A: -1, B: id})
			}
		}
		for _, op := range []string{"CombinePrev", "CombineNext"} {
			add(NodeOp{Op: op, A: -1, K: 2, B2: []int{id}})
			add(NodeOp{Op: op, A: -1, K: 2, B2: []int{-1, id, -1, 2}})
			add(NodeOp{Op: op, A: id, K: 2, B2: []int{-1}})
		}
	}
	for _, op := range append([]string{"Isolate", "SetText", "SetKind"}, unaryOps...) {
		add(NodeOp{Op: op, A: -1, K: 2, S: "x"})
	}
	for k := range 16 {
		add(NodeOp{Op: "Ask", A: -1, K: k})
	}
	return out
}

func init() {
	rule := "non-trivial: two operations that change links"
	register(&Prop{ID: "C09", Assumptions: []string{"the model (chains as lists of node numbers) states what list surgery means"}, Subs: []*Sub{
		sub("history", "up to four chains of up to six nodes, and up to 30 operations on any of the nodes; every node's links, text, kind and line and every result is compared with the model after each; "+rule,
			600000, 20000000, func(t *rapid.T) NodeHistory { return genHistory(t, 30, genLinkOp) }, checkHistory),
		sub("long", "the same on a chain of up to 512 nodes and another; "+rule, 4000, 200000, func(t *rapid.T) NodeHistory { return genBigHistory(t, genLinkOp) }, checkHistory),
		listed("exhaustive", "every sequence of two or three operations over small chains; "+rule, enumHistories, checkHistory),
	}})
	register(&Prop{ID: "C20", Assumptions: []string{"the model (chains as lists of node numbers) states what a call with nil does"}, Subs: []*Sub{
		sub("history", "histories of operations in which receivers and arguments are often the nil node, and calls of every other method of the nil node; "+rule,
			500000, 15000000, func(t *rapid.T) NodeHistory { return genHistory(t, 20, genNilOp) }, checkHistory),
		sub("long", "the same on a chain of up to 512 nodes and another; "+rule, 2000, 100000, func(t *rapid.T) NodeHistory { return genBigHistory(t, genNilOp) }, checkHistory),
		listed("exhaustive", "every method with a nil receiver, every operation with a nil argument on every node; "+rule, enumNil, checkHistory),
	}})
	register(&Prop{ID: "C22", Assumptions: []string{"the model (chains as lists of node numbers) states what combining and isolating mean"}, Subs: []*Sub{
		sub("history", "histories of combining and isolating among other operations, with nil, repeated and own nodes as arguments; "+rule,
			600000, 20000000, func(t *rapid.T) NodeHistory { return genHistory(t, 20, genCombineOp) }, checkHistory),
		sub("long", "the same on a chain of up to 512 nodes and another, combining up to 512 nodes; "+rule, 4000, 200000, func(t *rapid.T) NodeHistory { return genBigHistory(t, genCombineOp) }, checkHistory),
	}})
}
