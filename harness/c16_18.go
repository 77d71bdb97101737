package main

// C16: classification of texts. C17: helpers and sets. C24: descriptions.

import (
	"bytes"
	"fmt"
	"slices"
	"strings"

	"github.com/yanun0323/goast"
	"github.com/yanun0323/goast/charset"
	"github.com/yanun0323/goast/helper"
	"github.com/yanun0323/goast/kind"
	"github.com/yanun0323/goast/scope"
	"pgregory.net/rapid"
)

// ---- C16 ----

// KindCase is a text to classify.
type KindCase struct {
	Text Text `json:"text"`
}

var kindTexts = func() []string {
	var out []string
	for s := range ownKinds {
		out = append(out, s)
	}
	for s := range refKeywords {
		out = append(out, s)
	}
	out = append(out, basicTypes...)
	out = append(out, "any", "error", "comparable", "true", "nil", "iota", "...", "<-", ":=", "&^=", "_", "__", "~", "'", "\"", "`", "\\", "0", "12", "1a", "a1", "0x1", "1.5", "é", "世", "\r", "\r\n", "#", "@", "$", "?", "//", "/*", "\x80", "\xff", "+", "=", "!", "|", "%", ".", "\v", "\f", "\u00a0", "٣", "１", "Ⅷ", "x")
	slices.Sort(out)
	return slices.Compact(out)
}()

func genKindCase(t *rapid.T) KindCase {
	g := &gen{t: t}
	var b strings.Builder
	if w, ok := g.word(25); ok {
		b.WriteString(w)
	}
	if k, ok := g.size(5, 3000); ok {
		b.WriteString(strings.Repeat(g.pick([]string{"1", "a", "+", "é", "\"", "("}), k))
	}
	switch g.n(6) {
	case 0:
		b.WriteString(g.pick(kindTexts))
	case 1, 2:
		for range 1 + g.n(4) {
			b.WriteString(g.pick(kindTexts))
		}
	case 3:
		b.WriteString(rapid.StringOfN(rapid.RuneFrom([]rune("0123456789")), 1, 12, -1).Draw(t, ""))
		if g.p(20) {
			b.WriteString(strings.Repeat(g.pick([]string{"0", "9", "17", "a", "é"}), 1+g.n(150)))
		}
		if g.p(40) {
			b.WriteString(g.pick([]string{"a", ".", " ", "_", "é", "e9", "\x80"}))
		}
	case 4:
		b.WriteString(rapid.StringOfN(rapid.RuneFrom([]rune("+-*/%&|^<>=!.~_:,;()[]{}")), 1, 8, -1).Draw(t, ""))
		if g.p(10) {
			b.WriteString(strings.Repeat(g.pick([]string{"+", "=", "/", "&^"}), 1+g.n(100)))
		}
		if g.p(40) {
			b.WriteString(g.pick([]string{"a", "1", " ", "é", "\"", "\x80", "?"}))
		}
	default:
		b.WriteString(string(rapid.SliceOfN(rapid.Byte(), 0, 8).Draw(t, "")))
	}
	s := b.String()
	if g.p(15) && s != "" { // a letter more, less or in the other case
		i := g.n(len(s))
		switch g.n(3) {
		case 0:
			s = s[:i] + s[i+1:]
		case 1:
			s = s[:i] + strings.ToUpper(s[i:i+1]) + s[i+1:]
		default:
			s = s[:i] + g.pick([]string{"s", "_", " ", "8"}) + s[i:]
		}
	}
	return KindCase{Text(s)}
}

func checkKind(c KindCase, o *Obs) error {
	s := string(c.Text)
	want := refKind(s)
	if got := kind.New(s); got != want {
		return fmt.Errorf("the text %q has the kind %v, want %v", s, got, want)
	}
	if n := goast.NewNode(3, s); n.Kind() != want || n.Text() != s || n.Line() != 3 {
		return fmt.Errorf("a new node of the text %q is %s %v, want %v", s, stateOf(n), n.Kind(), want)
	}
	head := goast.NewNodes(0, "x", s)
	if n := head.Next(); n.Kind() != want || n.Text() != s {
		return fmt.Errorf("a node of the text %q in a new chain is %s %v, want %v", s, stateOf(n), n.Kind(), want)
	}
	for _, k := range []kind.Kind{kind.ParamType, kind.None, {"a", "b"}} {
		if n := goast.NewNode(0, s, k); n.Kind() != k || n.Text() != s {
			return fmt.Errorf("a new node of the text %q and the kind %v is %s %v", s, k, stateOf(n), n.Kind())
		}
	}
	o.Label(want.String())
	if want != kind.Raw && want != kind.None {
		o.Nontrivial()
	}
	return nil
}

func genParsedText(t *rapid.T) AnyText {
	g := &gen{t: t}
	c := AnyText{Line: g.n(3)}
	switch g.n(4) {
	case 0:
		c.Text = Text(genSoup(t, 40))
	case 1:
		c.Text = Text(genMutated(t))
	default:
		var b strings.Builder
		b.WriteString(g.pick([]string{"package", "func", "type", "var", "const", "import", "// c\n"}) + g.pick([]string{" ", "", "\n", "(", "\t"}))
		for range g.n(20) {
			b.WriteString(string(genKindCase(t).Text))
			b.WriteString(g.pick([]string{" ", " ", "\n", "\t", ",", ";", ""}))
		}
		c.Text = Text(b.String())
	}
	return c
}

// checkParsedKinds parses a text: the kind of each node is a role, or that of its text.
func checkParsedKinds(c AnyText, o *Obs) error {
	scs, err := goast.ParseScope(c.Line, []byte(c.Text))
	if err != nil {
		return err
	}
	ns, err := flatten(scs, len(c.Text), 0)
	if err != nil {
		return err
	}
	words := 0
	for _, n := range ns {
		k, s := n.n.Kind(), n.n.Text()
		want := refKind(s)
		if strings.HasPrefix(s, "//") || strings.HasPrefix(s, "/*") {
			want = kind.Comment
		}
		if want == kind.Raw || want == kind.Number {
			words++
		}
		if k != want && (!roleKinds[k] || want == kind.Comment) {
			return fmt.Errorf("the node %s that is parsed has the kind %v, want %v", stateOf(n.n), k, want)
		}
	}
	o.LabelIf(len(scs) == 0, "no scope")
	if words > 2 {
		o.Nontrivial()
	}
	return nil
}

// allKinds are the kinds with the name each prints.
var allKinds = []struct {
	k    kind.Kind
	name string
}{
	{kind.Raw, "Raw"}, {kind.Comment, "Comment"}, {kind.Number, "Number"}, {kind.Symbol, "Symbol"}, {kind.Basic, "BasicType"}, {kind.Separator, "Separator"}, {kind.Keyword, "Keyword"},
	{kind.Tab, "Tab"}, {kind.Space, "Space"}, {kind.Comma, "Comma"}, {kind.Colon, "Colon"}, {kind.NewLine, "NewLine"}, {kind.Semicolon, "Semicolon"},
	{kind.ParenthesisLeft, "ParenthesisLeft"}, {kind.ParenthesisRight, "ParenthesisRight"}, {kind.CurlyBracketLeft, "CurlyBracketLeft"}, {kind.CurlyBracketRight, "CurlyBracketRight"},
	{kind.SquareBracketLeft, "SquareBracketLeft"}, {kind.SquareBracketRight, "SquareBracketRight"}, {kind.Pointer, "Pointer"}, {kind.Address, "Address"},
	{kind.Import, "Import"}, {kind.Var, "Var"}, {kind.Const, "Const"}, {kind.Map, "Map"}, {kind.Channel, "Channel"}, {kind.Func, "Func"}, {kind.Type, "Type"}, {kind.Struct, "Struct"}, {kind.Interface, "Interface"}, {kind.Package, "Package"},
	{kind.FuncName, "FuncName"}, {kind.TypeName, "TypeName"}, {kind.TypeAliasType, "TypeAliasType"}, {kind.ParamName, "ParamName"}, {kind.ParamType, "ParamType"},
	{kind.MethodReceiverName, "MethodReceiverName"}, {kind.MethodReceiverType, "MethodReceiverType"}, {kind.String, "String"}, {kind.Method, "Method"}, {kind.None, ""},
}

var closes = map[kind.Kind]kind.Kind{
	kind.ParenthesisLeft: kind.ParenthesisRight, kind.ParenthesisRight: kind.ParenthesisLeft,
	kind.CurlyBracketLeft: kind.CurlyBracketRight, kind.CurlyBracketRight: kind.CurlyBracketLeft,
	kind.SquareBracketLeft: kind.SquareBracketRight, kind.SquareBracketRight: kind.SquareBracketLeft,
}

var scopeNames = map[scope.Kind]string{
	scope.Unknown: "Unknown", scope.Package: "Package", scope.Comment: "Comment", scope.InnerComment: "InnerComment", scope.Import: "Import",
	scope.Variable: "Variable", scope.Const: "Const", scope.Type: "Type", scope.Func: "Func",
}

var scopeNodeKinds = map[scope.Kind]kind.Kind{
	scope.Package: kind.Package, scope.Comment: kind.Comment, scope.InnerComment: kind.Comment, scope.Import: kind.Import,
	scope.Variable: kind.Var, scope.Const: kind.Const, scope.Type: kind.Type, scope.Func: kind.Func,
}

// NumCase picks a member of a table.
type NumCase struct {
	N int `json:"n"`
}

func checkKindTable(c NumCase, o *Obs) error {
	if c.N < len(allKinds) {
		x := allKinds[c.N]
		if x.k.String() != x.name {
			return fmt.Errorf("the kind %q prints as %q", x.name, x.k.String())
		}
		if k := x.k; k.PointerString() != x.name {
			return fmt.Errorf("the kind %q prints as %q from a pointer", x.name, k.PointerString())
		}
		for _, y := range allKinds[:c.N] {
			if y.k == x.k || y.k.String() == x.k.String() {
				return fmt.Errorf("the kinds %q and %q are not told apart", x.name, y.name)
			}
		}
		got, ok := x.k.GetClose()
		want, wok := closes[x.k]
		if got != want || ok != wok {
			return fmt.Errorf("the close of %v is %v, %v, want %v, %v", x.k, got, ok, want, wok)
		}
		o.Nontrivial()
		return nil
	}
	k := allScopeKinds[(c.N-len(allKinds))%len(allScopeKinds)]
	if k.String() != scopeNames[k] {
		return fmt.Errorf("the scope kind %q prints as %q, want %q", string(k), k.String(), scopeNames[k])
	}
	if want, ok := scopeNodeKinds[k]; ok && k.ToKind() != want {
		return fmt.Errorf("the scope kind %v maps to the kind %v, want %v", k, k.ToKind(), want)
	}
	var none *kind.Kind
	if none.PointerString() != "" {
		return fmt.Errorf("the nil kind prints as %q", none.PointerString())
	}
	o.Nontrivial()
	return nil
}

// ---- C17 ----

// BytesCase is a byte string and another.
type BytesCase struct {
	S Text `json:"s"`
	P Text `json:"p"`
}

func genBytesCase(t *rapid.T) BytesCase {
	g := &gen{t: t}
	long := g.p(5)
	piece := func(max int) string {
		if long {
			max *= 1 << g.n(7)
		}
		if w, ok := g.word(20); ok {
			return w
		}
		if k, ok := g.size(5, 3000); ok {
			return strings.Repeat("a", k)
		}
		switch g.n(4) {
		case 0:
			return string(rapid.SliceOfN(rapid.Byte(), 0, max).Draw(t, ""))
		case 1:
			return rapid.StringOfN(rapid.RuneFrom([]rune("ab")), 0, max, -1).Draw(t, "")
		case 2:
			return strings.Repeat(g.pick([]string{"a", "世", "\xff", "é", ".go", "\x00"}), g.n(max))
		default:
			return rapid.StringN(0, max, -1).Draw(t, "")
		}
	}
	c := BytesCase{S: Text(piece(12))}
	s := string(c.S)
	cut := 0
	if len(s) > 0 {
		cut = g.n(len(s) + 1)
	}
	var p string
	switch g.n(6) {
	case 0:
		p = piece(12)
	case 1:
		p = s[:cut]
	case 2:
		p = s[cut:]
	case 3:
		p = s + piece(3)
	case 4:
		p = piece(3) + s
	default:
		p = s
	}
	if g.p(40) && len(p) > 0 { // one byte differs
		i := g.n(len(p))
		p = p[:i] + string([]byte{p[i] + byte(1+g.n(255))}) + p[i+1:]
	}
	c.P = Text(p)
	return c
}

func checkBytes(c BytesCase, o *Obs) error {
	s, p := []byte(c.S), string(c.P)
	for _, b := range [][]byte{s, append(make([]byte, 0, len(s)+20), s...)} {
		b = b[:len(b):cap(b)]
		if got := helper.HasPrefix(b, p); got != strings.HasPrefix(string(c.S), p) {
			return fmt.Errorf("HasPrefix(%q, %q) is %v", b, p, got)
		}
		if got := helper.HasSuffix(b, p); got != strings.HasSuffix(string(c.S), p) {
			return fmt.Errorf("HasSuffix(%q, %q) is %v", b, p, got)
		}
		if !bytes.Equal(b, s) {
			return fmt.Errorf("the bytes %q became %q", s, b)
		}
	}
	if len(s) == 0 {
		if helper.HasPrefix(nil, p) != (p == "") || helper.HasSuffix(nil, p) != (p == "") {
			return fmt.Errorf("no bytes have the prefix or suffix %q, or not the empty one", p)
		}
	}
	if len(p) > 1 && len(s) > 1 {
		o.Nontrivial()
	}
	o.LabelIf(strings.HasPrefix(string(c.S), p), "prefix")
	o.LabelIf(strings.HasSuffix(string(c.S), p), "suffix")
	o.LabelIf(len(p) > len(s), "longer")
	return nil
}

// ListCase is some lists of numbers.
type ListCase struct {
	Lists [][]int `json:"lists"`
	Cap   int     `json:"cap"`
}

func genLists(t *rapid.T) ListCase {
	g := &gen{t: t}
	c := ListCase{Cap: g.n(5)}
	lists, most, values := 2+g.n(2), 6, 6
	if g.p(5) {
		lists, most, values = 2+g.n(20), 1<<g.n(9), 600
	}
	for range lists {
		var l []int
		for range g.n(most) {
			l = append(l, g.n(values))
		}
		c.Lists = append(c.Lists, l)
	}
	return c
}

func checkLists(c ListCase, o *Obs) error {
	a, b := c.Lists[0], c.Lists[1]
	var want []int
	want = append(want, a...)
	rest := b
	if len(a) > 0 && len(b) > 0 && a[len(a)-1] == b[0] {
		rest = b[1:]
		o.Label("repeated element")
	}
	want = append(want, rest...)
	got := helper.AppendUnrepeatable(append(make([]int, 0, len(a)+c.Cap), a...), slices.Clone(b)...)
	if !slices.Equal(got, want) {
		return fmt.Errorf("appending %v to %v without repeating gives %v, want %v", b, a, got, want)
	}
	str := func(l []int) []string {
		var out []string
		for _, x := range l {
			out = append(out, strings.Repeat("s", x))
		}
		return out
	}
	if got := helper.AppendUnrepeatable(str(a), str(b)...); !slices.Equal(got, str(want)) {
		return fmt.Errorf("appending %q to %q without repeating gives %q, want %q", str(b), str(a), got, str(want))
	}
	if got := helper.AppendUnrepeatable(nil, b...); !slices.Equal(got, b) {
		return fmt.Errorf("appending %v to nothing without repeating gives %v", b, got)
	}

	var all []int
	for _, l := range c.Lists {
		all = append(all, l...)
	}
	set := charset.New(a...)
	sets := charset.NewSlice(c.Lists...)
	var none charset.Set[int]
	top := 8
	if len(all) > 0 {
		top = max(8, slices.Max(all)+2)
	}
	for x := -1; x < top; x++ {
		if set.Contain(x) != slices.Contains(a, x) {
			return fmt.Errorf("the set of %v contains %d: %v", a, x, set.Contain(x))
		}
		if sets.Contain(x) != slices.Contains(all, x) {
			return fmt.Errorf("the set of %v contains %d: %v", c.Lists, x, sets.Contain(x))
		}
		if none.Contain(x) {
			return fmt.Errorf("the nil set contains %d", x)
		}
	}
	ss := charset.New(str(a)...)
	for x := range top {
		if s := strings.Repeat("s", x); ss.Contain(s) != slices.Contains(a, x) {
			return fmt.Errorf("the set of %q contains %q: %v", str(a), s, ss.Contain(s))
		}
	}
	if len(a) > 0 && len(b) > 0 {
		o.Nontrivial()
	}
	return nil
}

// tidy is the definition of tidying, byte by byte.
func tidy(s string) string {
	var b strings.Builder
	for i := range len(s) {
		switch s[i] {
		case '\n':
			b.WriteString(`\n`)
		case '\r', ' ':
			b.WriteString("·")
		case '\t':
			b.WriteString(" -> ")
		default:
			b.WriteByte(s[i])
		}
	}
	return b.String()
}

func genTidy(t *rapid.T) KindCase {
	g := &gen{t: t}
	var b strings.Builder
	for range g.n(12) {
		b.WriteString(g.pick([]string{"\n", "\t", " ", "\r", "a", "世", `\n`, "·", "->", " -> ", "\r\n", "\xff", "\v", "\u00a0", "\\", "n", "\x00", "%s", "%d"}))
	}
	return KindCase{Text(b.String())}
}

func checkTidy(c KindCase, o *Obs) error {
	s := string(c.Text)
	if got := helper.TidyText(s); got != tidy(s) {
		return fmt.Errorf("tidying %q gives %q, want %q", s, got, tidy(s))
	}
	if strings.ContainsAny(s, "\n\r\t ") {
		o.Nontrivial()
	}
	return nil
}

// LongHelp is a long text, and a list of as many numbers.
type LongHelp struct {
	Unit Text `json:"unit"`
	N    int  `json:"n"`
	Tail Text `json:"tail"`
	Cut  int  `json:"cut"`
}

func genLongHelp(t *rapid.T) LongHelp {
	g := &gen{t: t}
	bits := []string{"a", "ab", " ", "\n", "\t", "x\n", "世", "\xff", "\x00", "a b\tc\r\n", "·", "word "}
	return LongHelp{Text(g.pick(bits)), 1<<g.n(21) + g.n(5) - 2, Text(g.pick(append(bits, ""))), g.n(1 << g.n(22))}
}

func checkLongHelp(c LongHelp, o *Obs) error {
	s := strings.Repeat(string(c.Unit), max(c.N, 0)) + string(c.Tail)
	cut := min(c.Cut, len(s))
	for _, p := range []string{s, s[:cut], s[cut:], s[:cut] + "\x01", "\x01" + s[cut:], s + "a", "a" + s, s[:len(s)/2], s[len(s)/2:]} {
		if got := helper.HasPrefix([]byte(s), p); got != strings.HasPrefix(s, p) {
			return fmt.Errorf("HasPrefix of %d bytes, with a prefix of %d, is %v", len(s), len(p), got)
		}
		if got := helper.HasSuffix([]byte(s), p); got != strings.HasSuffix(s, p) {
			return fmt.Errorf("HasSuffix of %d bytes, with a suffix of %d, is %v", len(s), len(p), got)
		}
	}
	if got := helper.TidyText(s); got != tidy(s) {
		return fmt.Errorf("tidying %d bytes gives another text: %s", len(s), firstDiff(got, tidy(s)))
	}
	n := min(max(c.N, 1), 1<<18)
	list := make([]int, n)
	for i := range list {
		list[i] = i / 2
	}
	cut %= n
	if got := helper.AppendUnrepeatable(slices.Clone(list[:cut]), list[cut:]...); !slices.Equal(got, append(slices.Clone(list[:cut]), list[min(n, cut+cond(cut > 0 && list[cut-1] == list[cut])):]...)) {
		return fmt.Errorf("appending %d numbers to %d without repeating gives other numbers", n-cut, cut)
	}
	set, sets := charset.New(list...), charset.NewSlice(list[:cut], list[cut:])
	for i := -3; i < n; i++ {
		if want := i >= 0 && i <= list[n-1]; set.Contain(i) != want || sets.Contain(i) != want {
			return fmt.Errorf("a set of %d numbers contains %d: %v and %v", n, i, set.Contain(i), sets.Contain(i))
		}
	}
	if len(s) > 1000 {
		o.Nontrivial()
	}
	return nil
}

func cond(b bool) int {
	if b {
		return 1
	}
	return 0
}

// ---- C24 ----

// DescribeCase is a parsed or built Ast.
type DescribeCase struct {
	Src    Text        `json:"src,omitempty"`
	Line   int         `json:"line"`
	Scopes []ScopeSpec `json:"scopes,omitempty"`
	Kinds  []int       `json:"kinds,omitempty"`
	Moved  []int       `json:"moved,omitempty"` // in every scope, a node of another line is put behind the node of this number
	Print  bool        `json:"print"`
}

func genDescribe(t *rapid.T) DescribeCase {
	g := &gen{t: t}
	c := DescribeCase{Line: genLine(t), Print: g.p(10)}
	if g.p(40) {
		for range 1 + g.n(4) {
			c.Moved = append(c.Moved, g.n(40))
		}
	}
	switch g.n(4) {
	case 0:
		c.Src = Text(genSrc(t, genOpts(t, 3)))
	case 1:
		c.Src = Text("package p\n" + genSoup(t, 30))
	default:
		for range 1 + g.n(4) {
			s := ScopeSpec{Kind: g.n(len(allScopeKinds)), From: g.n(3)}
			for range g.n(6) {
				s.Texts = append(s.Texts, Text(g.pick([]string{"\n", "\t", " ", "\r\n", "a b\tc\n", "func", "世", "", "%s%d", "\"x\n\"", "\\n", "·", "123", "(", "// c", "\xff"})))
			}
			c.Scopes = append(c.Scopes, s)
		}
		for range g.n(4) {
			c.Kinds = append(c.Kinds, g.n(len(allKinds)))
		}
	}
	return c
}

func checkDescribe(c DescribeCase, o *Obs) error {
	var scs []goast.Scope
	limit := 10
	if c.Scopes == nil {
		var err error
		scs, err = goast.ParseScope(c.Line, []byte(c.Src))
		if err != nil {
			return err
		}
		limit += len(c.Src)
	}
	for i, s := range c.Scopes {
		var texts []string
		for _, x := range s.Texts {
			texts = append(texts, string(x))
		}
		limit += len(texts)
		ns, err := chain(goast.NewNodes(c.Line+i, texts...), len(texts))
		if err != nil {
			return err
		}
		for j, n := range ns {
			if len(c.Kinds) > 0 {
				n.SetKind(allKinds[c.Kinds[j%len(c.Kinds)]].k)
			}
		}
		var head *goast.Node
		if len(ns) > 0 {
			head = ns[s.From%len(ns)]
		}
		scs = append(scs, goast.NewScope(c.Line-i, allScopeKinds[s.Kind%len(allScopeKinds)], head))
	}
	for i, sc := range scs {
		ns, err := chain(sc.Node(), limit)
		if err != nil {
			return err
		}
		for j, m := range c.Moved {
			if len(ns) == 0 {
				break
			}
			n := ns[m%len(ns)]
			limit++
			if j%2 == 0 {
				n.InsertNext(goast.NewNode(7*i-5*j, "moved\n"))
			} else {
				n.ReplaceNext(goast.NewNode(c.Line-j, "put here"))
				ns, err = chain(sc.Node(), limit)
				if err != nil {
					return err
				}
			}
		}
	}
	base, err := goast.NewAst(goast.NewScope(0, scope.Package, goast.NewNodes(0, "package", " ", "base")))
	if err != nil {
		return err
	}
	a := base.SetScope(scs)
	s := side{ast: a}
	for _, sc := range scs {
		ns, err := chain(sc.Node(), limit)
		if err != nil {
			return err
		}
		s.nodes = append(s.nodes, ns...)
	}
	s.take()

	var whole strings.Builder
	for i, sc := range scs {
		want := fmt.Sprintf("%d .... *Scope.%s", sc.Line(), scopeNames[sc.Kind()])
		if got := sc.Description(); got != want {
			return fmt.Errorf("scope %d describes itself as %q, want %q", i, got, want)
		}
		whole.WriteString(want)
		if c.Print && i < 2 {
			if out, err := stderrOf(sc.Print); err == nil && out != want+"\n" {
				return fmt.Errorf("scope %d prints %q, want %q and a newline", i, out, want)
			}
			o.Label("printed")
		}
		ns, err := chain(sc.Node(), limit)
		if err != nil {
			return err
		}
		for j, n := range ns {
			want := fmt.Sprintf("%d .... %s .... *Node.%s", n.Line()+1, tidy(n.Text()), n.Kind()[1])
			if got := n.Description(); got != want {
				return fmt.Errorf("a node describes itself as %q, want %q", got, want)
			}
			whole.WriteString(want)
			if c.Print && i < 2 && j < 2 {
				if out, err := stderrOf(n.Print); err == nil && out != "\t "+want+"\n" {
					return fmt.Errorf("a node prints %q, want a tab, a blank, %q and a newline", out, want)
				}
			}
		}
	}
	if got := a.Description(); got != whole.String() {
		return fmt.Errorf("the Ast describes itself wrongly: %s", firstDiff(got, whole.String()))
	}
	if d := s.changed(); d != "" {
		return fmt.Errorf("describing changed something: %s", d)
	}
	o.LabelIf(len(c.Scopes) > 0, "built")
	o.LabelIf(len(c.Scopes) == 0, "parsed")
	o.LabelIf(len(c.Moved) > 0, "nodes of other lines put in")
	if len(s.nodes) > 2 && len(scs) > 0 {
		o.Nontrivial()
	}
	return nil
}

func init() {
	register(&Prop{ID: "C16", Assumptions: []string{"the reference classifier of the harness states the documented rules"}, Subs: []*Sub{
		sub("texts", "text put together from keywords, types, digits, operators, separators, quotes and bytes; a reference classifier is the oracle, for kind.New, NewNode and NewNodes; non-trivial: the kind is not raw",
			600000, 20000000, genKindCase, checkKind),
		listed("short", "every text of one byte and (a sixteenth of, in the quick tier) every text of two bytes, and every keyword and type with each of 30 bytes before or behind it; non-trivial: the kind is not raw", func(tier string, seed uint64) []KindCase {
			out := []KindCase{{""}}
			for a := range 256 {
				out = append(out, KindCase{Text(string([]byte{byte(a)}))})
				for b := range 256 {
					if tier == "thorough" || (a+b+int(seed%16))%16 == 0 || a < 128 && b < 128 && strings.ContainsRune(" \n\t_0a\"`(+", rune(a)) {
						out = append(out, KindCase{Text(string([]byte{byte(a), byte(b)}))})
					}
				}
			}
			for _, s := range kindTexts {
				out = append(out, KindCase{Text(s)})
				for _, b := range []string{" ", "\n", "\t", "_", "0", "a", "A", "\"", "`", "(", ")", "{", "[", ",", ".", "*", "+", "\x00", "\xff", "é", "s", "8", "\r", "'", "/", ":", ";", "}", "]", "-"} {
					out = append(out, KindCase{Text(s + b)}, KindCase{Text(b + s)})
				}
			}
			return out
		}, checkKind),
		sub("parsed", "any text, parsed: each node has a role in a declaration, or the kind of its text; non-trivial: three words", 60000, 3000000, genParsedText, checkParsedKinds),
		listed("tables", "every kind and scope kind: name, close, node kind; non-trivial: all", func(string, uint64) []NumCase {
			var out []NumCase
			for i := range len(allKinds) + len(allScopeKinds) {
				out = append(out, NumCase{i})
			}
			return out
		}, checkKindTable),
	}})
	register(&Prop{ID: "C17", Assumptions: []string{"package strings of the standard library is the oracle for prefixes and suffixes"}, Subs: []*Sub{
		sub("affixes", "byte string, and a prefix, suffix, extension or variation of it; non-trivial: both have two bytes", 800000, 20000000, genBytesCase, checkBytes),
		sub("lists", "lists of numbers and strings, appended and made sets of; non-trivial: both lists have elements", 400000, 10000000, genLists, checkLists),
		sub("long", "texts of up to 10 MB cut in two, and lists of up to 262144 numbers; non-trivial: more than 1000 bytes", 400, 20000, genLongHelp, checkLongHelp),
		sub("tidy", "text of whitespace and others; a byte-wise definition is the oracle; non-trivial: there is whitespace", 300000, 10000000, genTidy, checkTidy),
	}})
	register(&Prop{ID: "C24", Subs: []*Sub{
		sub("describe", "parsed source or soup, or built scopes with nodes of any text, kind and line; non-trivial: a scope and three nodes", 80000, 4000000, genDescribe, checkDescribe),
		listed("real", "file of the Go source tree; non-trivial: a scope and three nodes", corpusCases(200, 10000), func(c FileCase, o *Obs) error {
			s, ok := c.formatted()
			if !ok {
				o.Label("skipped")
				return nil
			}
			return checkDescribe(DescribeCase{Src: Text(s), Print: true}, o)
		}),
	}})
}
