P = []
def p(id, prop, edits, needs, breaks, demo, **kw):
    if isinstance(edits, tuple): edits = [edits]
    P.append(dict(id=id, prop=prop, edits=edits, needs=needs, breaks=breaks, demo=demo, **kw))

# ---------------------------------------------------------------- C08, C10, C11 again
p('c08-slice', 'C08', ('kind_resetter_type.go', """		case kind.Struct:
			jumpTo = structResetter{}.Run(n, hooks...)
			skipAll = jumpTo == nil
			return true
		case kind.Func:
			jumpTo = funcResetter{isNotMethod: true}""", """		case kind.Struct:
			if jumpTo = structResetter{}.Run(n, hooks...); n.Next().Kind() == kind.CurlyBracketLeft {
				jumpTo = n.Next()
			}
			skipAll = jumpTo == nil || n.Prev().Kind() == kind.SquareBracketRight
			return true
		case kind.Func:
			jumpTo = funcResetter{isNotMethod: true}"""),
  'x', 'x', 'func TestDemo(t *testing.T) {}')
P.pop()
p('c08-nested', 'C08', ('kind_resetter_type.go', """	var (
		skipAll bool
		jumpTo  *Node

		paramNameCount = r.getRowNameCount(head)
	)
""", """	var (
		skipAll bool
		jumpTo  *Node

		paramNameCount = min(r.getRowNameCount(head), 4)
	)
"""),
  'a struct field row with more than four names', 'the names from the fifth on are taken for types',
  """func TestDemo(t *testing.T) {
	want(t, "kind", kindOf(t, "package a\\n\\ntype S struct {\\n\\tA, B, C, D, E int\\n}\\n", "E", 0), "ParamName")
}""")
p('c08-method2', 'C08', ('kind_resetter_func.go', """		if isMethod { // '('
			isMethod = false
			jumpTo = parenthesisResetter{isReceiver: true}.Run(n, hooks...)
			skipAll = jumpTo == nil
			return true
		}
""", """		if isMethod { // '('
			isMethod = false
			jumpTo = parenthesisResetter{isReceiver: true}.Run(n, hooks...).Next()
			head = jumpTo
			skipAll = jumpTo == nil
			return true
		}
"""),
  'x', 'x', """func TestDemo(t *testing.T) {
	src := "package a\\n\\nfunc (r T) M(p Q) R {\\n}\\n"
	want(t, "kind of M", kindOf(t, src, "M", 0), "FuncName")
	want(t, "kind of p", kindOf(t, src, "p", 0), "ParamName")
	want(t, "kind of r", kindOf(t, src, "r", 0), "MethodReceiverName")
	src = "package a\\n\\nfunc (r T[K]) /* c */ M(p Q) (R, error) {\\n}\\n"
	want(t, "kind of M", kindOf(t, src, "M", 0), "FuncName")
	want(t, "kind of p", kindOf(t, src, "p", 0), "ParamName")
	want(t, "kind of r", kindOf(t, src, "r", 0), "MethodReceiverName")
}""")
P.pop()
p('c08-findnext', 'C08', ('node.go', """		if targetKindSet.Contain(n.Kind()) {
			return opt.TargetReverse
		}

		return !opt.TargetReverse
	})
}""", """		if targetKindSet.Contain(n.Kind()) {
			return opt.TargetReverse
		}

		return !opt.TargetReverse || n.Kind() == kind.Tab
	})
}"""), 'x', 'x', 'func TestDemo(t *testing.T) {}')
P.pop()
p('c08-multiline', 'C08', ('kind_resetter_parenthesis.go', """	nameKind := kind.ParamName
	typeKind := kind.ParamType
	if isReceiver {""", """	nameKind := kind.ParamName
	typeKind := kind.ParamType
	if isReceiver && head.Prev().Kind() == kind.ParenthesisLeft {"""),
  'a receiver with something between its ( and its name: a comment or a line break', 'name and type of the receiver are taken for a parameter',
  """func TestDemo(t *testing.T) {
	src := "package a\\n\\nfunc ( /* c */ r T) M() {\\n}\\n"
	want(t, "kind of r", kindOf(t, src, "r", 0), "MethodReceiverName")
}""")
p('c10-astcopy', 'C10', ('ast.go', """	for _, sc := range f.scope {
		scs = append(scs, sc.Copy())
	}
""", """	for _, sc := range f.scope {
		if n := sc.Node(); n.Prev() == n.Next() { // a single node
			scs = append(scs, NewScope(sc.Line()-1, sc.Kind(), n))
		} else {
			scs = append(scs, sc.Copy())
		}
	}
"""),
  'Copy of an Ast with a scope of a single node (a comment at the end of the file), and an edit of it later', 'the copy shares the node',
  """func TestDemo(t *testing.T) {
	a, err := goast.NewAst(parse(t, "package a\\n\\n// end")...)
	if err != nil {
		t.Fatal(err)
	}
	c := a.Copy()
	a.Scope()[1].Node().SetText("// changed")
	want(t, "text of the copy", c.Scope()[1].Node().Text(), "// end")
}""")
p('c10-deep', 'C10', ('node.go', """	nn.prev = prev
	nn.next = next

	return nn
}""", """	nn.prev, nn.next = prev, next
	if next == nil && prev != nil && prev.prev == nil && n.next == nil {
		nn.line = prev.line + strings.Count(prev.text, "\\n") // of two nodes
	}

	return nn
}"""),
  'a deep copy of a chain of two nodes whose lines do not follow from their texts', 'the line of the second node changes',
  """func TestDemo(t *testing.T) {
	n := goast.NewNode(3, "a")
	n.InsertNext(goast.NewNode(8, "b"))
	want(t, "line", n.Copy(true).Next().Line(), 8)
}""")
p('c11-empty', 'C11', ('ast.go', """	if f == nil {
		return nil
	}

	return f.scope
}""", """	if f == nil || len(f.scope) == 0 {
		return nil
	}

	if last := len(f.scope) - 1; f.scope[last].Node() == nil { // an empty scope at the end
		return f.scope[:last]
	}

	return f.scope
}"""),
  'an Ast whose last scope has no node', 'the scope is not listed', """func TestDemo(t *testing.T) {
	a := load(t, "package a\\n")
	a.AppendScope(goast.NewScope(1, "func", nil))
	want(t, "scopes", len(a.Scope()), 2)
}""")

# ---------------------------------------------------------------- C16
p('c16-number', 'C16', ('kind/kind.go', """			isNumber = isNumber && charset.NumberCharset.Contain(s[i])""", """			isNumber = isNumber && i < 20 && charset.NumberCharset.Contain(s[i])"""),
  'a number of more than 20 digits', 'it is raw', """func TestDemo(t *testing.T) {
	want(t, "kind", kind.New(strings.Repeat("1", 21)).String(), "Number")
}""")
p('c16-close', 'C16', ('kind/kind.go', """	case CurlyBracketRight:
		return CurlyBracketLeft, true""", """	case CurlyBracketRight:
		return CurlyBracketRight, true"""),
  'GetClose of }', 'it is its own counterpart', """func TestDemo(t *testing.T) {
	k, _ := kind.CurlyBracketRight.GetClose()
	want(t, "kind", k.String(), "CurlyBracketLeft")
}""")
p('c16-symbol', 'C16', ('charset/charset.go', """		[]byte("~"),
""", """		[]byte("~="),
		[]byte("$"),
"""),
  'the text $', 'it is a symbol', """func TestDemo(t *testing.T) {
	want(t, "kind", kind.New("$").String(), "Raw")
}""")
p('c16-string', 'C16', ('kind/kind.go', 'helper.HasPrefix(buf, "\\"") || helper.HasPrefix(buf, "`") {', 'len(buf) > 1 && helper.HasPrefix(buf, "\\"") || helper.HasPrefix(buf, "`") {'),
  'the text of a single double quote', 'it is raw', """func TestDemo(t *testing.T) {
	want(t, "kind", kind.New("\\"").String(), "String")
}""")
p('c16-scope', 'C16', ('scope/scope_kind.go', """	case InnerComment:
		return kind.Comment
	case Import:""", """	case InnerComment + "*":
		return kind.Comment
	case Import:"""),
  'ToKind of the inner comment', 'no kind', """func TestDemo(t *testing.T) {
	want(t, "kind", parse(t, "package a\\n\\n/* c */\\n")[1].Kind().ToKind().String(), "Comment")
}""")
p('c16-basic', 'C16', ('charset/charset.go', """		"complex128",
	)""", """		"complex128", "any", "error",
	)"""),
  'the texts any and error', 'they are basic types', """func TestDemo(t *testing.T) {
	want(t, "kind", kind.New("any").String(), "Raw")
}""")
p('c16-newnode', 'C16', ('node.go', """	return &Node{line: line, kind: kind.New(text), text: text}""", """	return &Node{line: line, kind: kind.New(strings.TrimRight(text, "\\x00")), text: text}"""),
  'NewNode of a text that ends with a NUL byte', 'the kind is that of the text without it', """func TestDemo(t *testing.T) {
	want(t, "kind", goast.NewNode(0, "int\\x00").Kind().String(), "Raw")
}""")

# ---------------------------------------------------------------- C17
p('c17-append', 'C17', ('helper/helper.go', """	if slice[len(slice)-1] == elems[0] {
		elems = elems[1:]
	}
""", """	for len(elems) != 0 && slice[len(slice)-1] == elems[0] {
		elems = elems[1:]
	}
"""),
  'AppendUnrepeatable of several elements equal to the last one', 'all of them are left out', """func TestDemo(t *testing.T) {
	want(t, "slice", helper.AppendUnrepeatable([]int{1}, 1, 1, 2), []int{1, 1, 2})
}""")
p('c17-alias', 'C17', ('helper/helper.go', """	if len(slice) == 0 {
		return elems
	}
""", """	if len(slice) == 0 {
		return slices.Compact(elems)
	}
"""),
  'AppendUnrepeatable of repeated elements to an empty slice', 'the repetitions are lost (and the argument is changed)', """func TestDemo(t *testing.T) {
	want(t, "slice", helper.AppendUnrepeatable(nil, 1, 1, 2), []int{1, 1, 2})
}""")
p('c17-suffix', 'C17', ('helper/helper.go', """	ss := s[len(s)-len(suffix):]
	for i := range ss {
		if ss[i] != suffix[i] {""", """	ss := s[len(s)-len(suffix):]
	for i := range suffix {
		if ss[i] != suffix[i] {"""),
  'HasSuffix with a suffix of characters of several bytes that differ from the text only behind their first byte', 'true is returned', """func TestDemo(t *testing.T) {
	want(t, "HasSuffix", helper.HasSuffix([]byte("aé"), "aè"), false)
}""")
p('c17-nilset', 'C17', ('charset/charset.go', """	for i := range chars {
		for _, char := range chars[i] {
			set[char] = struct{}{}
		}
	}""", """	for i := range chars {
		for j, char := range chars[i] {
			if j != 0 && char == chars[i][j-1] {
				break // the rest repeats
			}
			set[char] = struct{}{}
		}
	}"""),
  'NewSlice of a slice with a value twice in a row and others behind it', 'those behind it are missing', """func TestDemo(t *testing.T) {
	want(t, "Contain", charset.NewSlice([]int{1, 1, 2}).Contain(2), true)
}""")

# ---------------------------------------------------------------- C18
INT = dict(internal=True)
p('c18-overwrite', 'C18', ('trie.go', """	n.value = value
	return n
}""", """	if n.value == zero {
		n.value = value
	}
	return n
}"""),
  'adding a text twice', 'the first value stays', """func TestDemo(t *testing.T) {
	r := newTrie(map[string]int{"a": 1})
	r.AddText("a", 2)
	if v, _ := r.FindText("a"); v != 2 {
		t.Fatalf("DEMO-FAILED %d", v)
	}
}""", **INT)
p('c18-reverse', 'C18', ('trie.go', """	for i := len(b) - 1; i >= 0; i-- {
		n, ok = n.Next(b[i])
		if !ok {
			return n.Value(), false
		}
	}

	return n.Value(), true""", """	for i := len(b) - 1; i >= 0; i-- {
		n, ok = n.Next(b[i])
		if !ok {
			return n.Value(), false
		}
		if len(n.next) == 0 { // a leaf
			break
		}
	}

	return n.Value(), ok || len(b) == 0"""),
  'FindByteReversely of bytes whose reversal goes on behind an added text', 'that text is found', """func TestDemo(t *testing.T) {
	r := newTrie(map[string]int{"ab": 1})
	if v, ok := r.FindByteReversely([]byte("cba")); ok || v != 0 {
		t.Fatalf("DEMO-FAILED %d %v", v, ok)
	}
}""", **INT)
p('c18-prefix', 'C18', ('trie.go', """	if _, ok := t.next[key]; !ok {
		t.next[key] = &trie_[T]{}
	}

	t.next[key].value = value
""", """	if n, ok := t.next[key]; !ok || n.next == nil {
		t.next[key] = &trie_[T]{}
	}

	t.next[key].value = value
"""),
  'none that AddText reaches', 'x', 'func TestDemo(t *testing.T) {}', **INT)
P.pop()
p('c18-empty', 'C18', ('trie.go', """func (t *trie_[T]) FindText(s string) (T, bool) {
	if t == nil {
		return t.Value(), false
	}
""", """func (t *trie_[T]) FindText(s string) (T, bool) {
	if t == nil || len(s) == 0 {
		return (*trie_[T])(nil).Value(), t != nil
	}
"""),
  'a value added for the empty text', 'it is not found', """func TestDemo(t *testing.T) {
	r := newTrie(map[string]int{"": 7})
	if v, _ := r.FindText(""); v != 7 {
		t.Fatalf("DEMO-FAILED %d", v)
	}
}""", **INT)
p('c18-utf8', 'C18', ('trie.go', """	n := t
	ok := false
	for i := len(s) - 1; i >= 0; i-- {
		n, ok = n.Next(s[i])
		if !ok {
			return n.Value(), false
		}
	}
	return n.Value(), true""", """	n := t
	ok := false
	rs := []rune(s)
	slices.Reverse(rs)
	for _, c := range []byte(string(rs)) {
		n, ok = n.Next(c)
		if !ok {
			return n.Value(), false
		}
	}
	return n.Value(), true"""),
  'FindTextReversely of a text with characters of several bytes, or bytes that are no UTF-8', 'its characters and not its bytes are reversed', """func TestDemo(t *testing.T) {
	r := newTrie(map[string]int{"\\xa9\\xc3": 7})
	if v, _ := r.FindTextReversely("é"); v != 7 {
		t.Fatalf("DEMO-FAILED %d", v)
	}
}""", **INT)

# ---------------------------------------------------------------- C19
p('c19-cache', 'C19', ('kind/kind.go', """func New(s string) Kind {
	if len(s) == 0 {
		return None
	}
""", """var cache = map[string]Kind{}

// New classifies the text.
func New(s string) Kind {
	k, ok := cache[s]
	if !ok {
		k = classify(s)
		cache[s] = k
	}
	return k
}

func classify(s string) Kind {
	switch {
	case len(s) == 0:
		return None
	}
"""),
  'two goroutines that parse or create nodes at the same time', 'a data race on the cache, or a crash (concurrent map writes)', """func TestDemo(t *testing.T) {
	done := make(chan bool)
	for i := 0; i < 8; i++ {
		go func() {
			for j := 0; j < 200; j++ {
				parse(t, fmt.Sprintf("package a%d\\n\\nvar x%d = %d\\n", i, j, j))
			}
			done <- true
		}()
	}
	for i := 0; i < 8; i++ {
		<-done
	}
}""", race=True, crash=True)
p('c19-buffer', 'C19', ('extractor.go', """	var (
		i, line int
		buf     strings.Builder
	)
""", """	var i, line int
	_extractLock.Lock()
	defer _extractLock.Unlock()
	buf := &_extractBuffer // keep its memory
	defer func() {
		if buf.Len() > 1<<20 {
			buf.Reset()
		}
	}()
"""),
  'x', 'x', 'func TestDemo(t *testing.T) {}')
P.pop()
p('c19-mutate', 'C19', ('scope.go', """	scs := []Scope{}
	nodesToResetKind := []*Node{}
""", """	scs, nodesToResetKind := []Scope{}, []*Node{}
	for i := range text {
		if text[i] == '\\f' { // treated as blank from now on
			text[i] = ' '
		}
	}
"""),
  'a text with a form feed', 'the bytes of the caller are changed', """func TestDemo(t *testing.T) {
	b := []byte("package a\\n\\f\\n")
	goast.ParseScope(0, b)
	want(t, "bytes", string(b), "package a\\n\\f\\n")
}""")
p('c19-debug', 'C19', ('scope.go', """func isScopeKind(s string, k scope.Kind) bool {
	ks := string(k)
	if len(s) < len(ks) {""", """var lastScopeKind string

func isScopeKind(s string, k scope.Kind) bool {
	ks := string(k)
	lastScopeKind = ks // for the debugger
	if len(s) < len(lastScopeKind) {"""),
  'two goroutines that parse at the same time', 'a data race; a keyword may be missed', """func TestDemo(t *testing.T) {
	done := make(chan bool)
	for i := 0; i < 8; i++ {
		go func() {
			for j := 0; j < 100; j++ {
				parse(t, "package a\\n\\nvar x = 1\\n")
			}
			done <- true
		}()
	}
	for i := 0; i < 8; i++ {
		<-done
	}
}""", race=True)

# ---------------------------------------------------------------- C20
p('c20-line', 'C20', ('node.go', """	if n == nil {
		return -2
	}

	return n.line""", """	if n == nil {
		return -1
	}

	return n.line"""),
  'Line of a nil node', '-1 instead of -2', """func TestDemo(t *testing.T) {
	want(t, "line", (*goast.Node)(nil).Line(), -2)
}""")
p('c20-insertnil', 'C20', ('node.go', """	if n == nn || n.Next() == nn {
		return
	}

	oldPrev, oldNext := nn.Prev(), nn.Next()
	nNext := n.Next()
""", """	if n == nn || n.Next() == nn || n == nil {
		return
	}

	oldPrev, oldNext := nn.Prev(), nn.Next()
	nNext := n.Next()
"""),
  'InsertNext on a nil receiver with a node from inside a chain', 'the node is not cut out of its chain', """func TestDemo(t *testing.T) {
	n := goast.NewNodes(0, "a", "b", "c").Next()
	p, x := (*goast.Node)(nil).InsertNext(n)
	want(t, "returned", p != nil && x != nil, true)
	want(t, "cut", n.Prev() == nil && n.Next() == nil, true)
}""")
p('c20-desc', 'C20', ('node.go', """	if n == nil {
		return "<nil>"
	}
""", """	if n == nil && len(n.Text()) == 0 {
		return fmt.Sprintf("%v", n)
	}
"""),
  'x', 'x', 'func TestDemo(t *testing.T) {}')
P.pop()
p('c20-replacenil', 'C20', ('node.go', """func (n *Node) ReplaceNext(nn *Node) (replacedOldPrev *Node, currentOldNext *Node) {
	if n == nn || n.Next() == nn {
		return
	}
""", """func (n *Node) ReplaceNext(nn *Node) (replacedOldPrev *Node, currentOldNext *Node) {
	if currentOldNext = n.Next(); nn == nil && n != nil {
		n.next = nil
		return nil, currentOldNext
	}
	if n == nn || currentOldNext == nn {
		return nil, nil
	}
"""),
  'ReplaceNext(nil) of a node with a next node', 'the cut-off node still points back', """func TestDemo(t *testing.T) {
	n := goast.NewNodes(0, "a", "b")
	_, old := n.ReplaceNext(nil)
	want(t, "prev", old.Prev() == nil, true)
}""")
p('c20-first', 'C20', ('node.go', """	return n.IterPrev(func(n *Node) bool { return n.Prev() != nil })""", """	for n.prev != nil {
		n = n.prev
	}
	return n"""),
  'First of a nil node', 'a panic', """func TestDemo(t *testing.T) {
	defer func() {
		if recover() != nil {
			fail(t, "panic")
		}
	}()
	want(t, "first", (*goast.Node)(nil).First() == nil, true)
}""")
p('c20-combine', 'C20', ('node.go', """		nns = nns[1:]
	}

	n.SetKind(k)

	if len(nns) == 0 {
		return n
	}

	buf := make([]string, 0, len(nns)+1)
	buf = append(buf, n.Text())
	for _, nn := range nns {
		if nn == nil || n == nn {
			continue
		}

		buf = append(buf, nn.Text())
		// make node recyclable to gc
		nn.Isolate()
	}

	slices.Reverse(buf)
""", """		nns = nns[1:]
	}

	n.kind = k

	if len(nns) == 0 {
		return n
	}

	buf := make([]string, 0, len(nns)+1)
	buf = append(buf, n.Text())
	for _, nn := range nns {
		if nn == nil || n == nn {
			continue
		}

		buf = append(buf, nn.Text())
		// make node recyclable to gc
		nn.Isolate()
	}

	slices.Reverse(buf)
"""),
  'CombinePrev of a nil node with nothing but nil nodes', 'a panic', """func TestDemo(t *testing.T) {
	defer func() {
		if recover() != nil {
			fail(t, "panic")
		}
	}()
	want(t, "result", (*goast.Node)(nil).CombinePrev(kind.Raw, nil) == nil, true)
}""")

# ---------------------------------------------------------------- C21
p('c21-panic', 'C21', ('assert/assert.go', """	if ok, msg, _ := a.Call(fn); !ok {
		a.t.Fatalf("%s: should be panic, err: %s", a.t.Name(), msg)
	}""", """	if ok, msg, _ := a.Call(fn); !ok && msg == nil {
		a.t.Errorf("%s: should be panic", a.t.Name())
	}"""),
  'Panic with a function that does not panic', 'the test fails but goes on', """func TestDemo(t *testing.T) {
	if os.Getenv("DEMO_INNER") != "" {
		assert.New(t).Panic(func() {})
		fmt.Println("WENT-ON")
		return
	}
	c := exec.Command(os.Args[0], "-test.run=^TestDemo$")
	c.Env = append(os.Environ(), "DEMO_INNER=1")
	out, err := c.CombinedOutput()
	want(t, "failed", err != nil, true)
	want(t, "went on", strings.Contains(string(out), "WENT-ON"), false)
}""")
p('c21-call', 'C21', ('assert/assert.go', """	defer func() {
		message = recover()
		if didPanic {
			stack = string(debug.Stack())
		}
	}()
""", """	defer func() {
		switch m := recover().(type) {
		case error:
			message = m.Error()
		default:
			message = m
		}
		if didPanic {
			stack = string(debug.Stack())
		}
	}()
"""),
  'Call of a function that panics with an error', 'the message is another value', """func TestDemo(t *testing.T) {
	e := os.ErrClosed
	_, msg, _ := assert.New(t).Call(func() { panic(e) })
	want(t, "message", msg == any(e), true)
}""")
p('c21-equal', 'C21', ('assert/assert.go', """	if rv.Kind() == re.Kind() && rv.Equal(re) {
		return
	}
""", """	if rv.Kind() == re.Kind() && (rv.Equal(re) || rv.Kind() == reflect.String && strings.EqualFold(rv.String(), re.String())) {
		return
	}
"""),
  'Equal of two texts that differ only in case', 'the assertion holds', """func TestDemo(t *testing.T) {
	if os.Getenv("DEMO_INNER") != "" {
		assert.New(t).Equal("a", "A")
		return
	}
	c := exec.Command(os.Args[0], "-test.run=^TestDemo$")
	c.Env = append(os.Environ(), "DEMO_INNER=1")
	want(t, "failed", c.Run() != nil, true)
}""")
p('c21-msg', 'C21', ('assert/assert.go', """		a.t.Fatalf("%s: should be no error, %s, err: %+v", a.t.Name(), strings.Join(msg, " "), err)""", """		a.t.Fatalf("%s: should be no error, %s, err: %+v", a.t.Name(), msg[0], err)"""),
  'NoError that fails with several messages', 'only the first is logged', """func TestDemo(t *testing.T) {
	if os.Getenv("DEMO_INNER") != "" {
		assert.New(t).NoError(os.ErrClosed, "one", "two")
		return
	}
	c := exec.Command(os.Args[0], "-test.run=^TestDemo$")
	c.Env = append(os.Environ(), "DEMO_INNER=1")
	out, _ := c.CombinedOutput()
	want(t, "logs both", strings.Contains(string(out), "one two"), true)
}""")
p('c21-nil', 'C21', ('assert/assert.go', """	switch reflect.TypeOf(i).Kind() {
""", """	switch v := reflect.ValueOf(i); v.Kind() {
	case reflect.Interface, reflect.Struct:
		return v.IsZero()
"""),
  'Nil or NotNil of a zero struct', 'it is taken for nil', """func TestDemo(t *testing.T) {
	if os.Getenv("DEMO_INNER") != "" {
		assert.New(t).NotNil(struct{ A int }{})
		return
	}
	c := exec.Command(os.Args[0], "-test.run=^TestDemo$")
	c.Env = append(os.Environ(), "DEMO_INNER=1")
	want(t, "passed", c.Run() == nil, true)
}""")

# ---------------------------------------------------------------- C22
p('c22-isolate', 'C22', ('node.go', """	n.Prev().setNext(nil)
	n.Next().setPrev(nil)

	n.setPrev(nil)
	n.setNext(nil)
}""", """	prev, next := n.Prev(), n.Next()
	n.setPrev(nil)
	n.setNext(nil)
	if prev != nil && next != nil && prev.Text() == next.Text() {
		prev.ReplaceNext(next)
	}
}"""),
  'Isolate of a node between two nodes of the same text', 'the neighbours are joined', """func TestDemo(t *testing.T) {
	n := goast.NewNodes(0, " ", "a", " ")
	n.Next().Isolate()
	want(t, "next", n.Next() == nil, true)
}""")
p('c22-reverse', 'C22', ('node.go', """	slices.Reverse(buf)

	n.text = strings.Join(buf, "")
""", """	slices.Reverse(buf[1:])

	n.text = strings.Join(buf[1:], "") + buf[0]
	if len(buf) > 5 {
		n.text = strings.Join(append(buf[1:], buf[0])[:len(buf)], "")
		slices.Reverse(buf)
	}
"""),
  'x', 'x', 'func TestDemo(t *testing.T) {}')
P.pop()
p('c22-kind', 'C22', ('node.go', """		nns = nns[1:]
	}

	n.SetKind(k)

	if len(nns) == 0 {
		return n
	}

	buf := make([]string, 0, len(nns)+1)
	buf = append(buf, n.Text())
	for _, nn := range nns {
		if nn == nil || n == nn {
			continue
		}

		buf = append(buf, nn.Text())
		// make node recyclable to gc
		nn.Isolate()
	}

	n.text = strings""", """		nns = nns[1:]
	}

	if len(nns) == 0 {
		return n
	}

	buf := make([]string, 0, len(nns)+1)
	buf = append(buf, n.Text())
	for _, nn := range nns {
		if nn == nil || n == nn {
			continue
		}

		n.SetKind(k)
		buf = append(buf, nn.Text())
		// make node recyclable to gc
		nn.Isolate()
	}

	n.text = strings"""),
  'CombineNext with nothing to combine (no nodes, nil nodes, the receiver itself)', 'the kind is not set', """func TestDemo(t *testing.T) {
	n := goast.NewNode(0, "a")
	n.CombineNext(kind.TypeName)
	want(t, "kind", n.Kind(), kind.TypeName)
}""")
p('c22-text', 'C22', ('node.go', """		buf = append(buf, nn.Text())
		// make node recyclable to gc
		nn.Isolate()
	}

	slices.Reverse(buf)
""", """		buf = append(buf, nn.Text())
		// make node recyclable to gc
		*nn = *nn.Copy(nn.Next() == nil && nn.Prev() == nil)
		nn.text = ""
	}

	slices.Reverse(buf)
"""),
  'CombinePrev, and a look at a combined node (or the same node given twice)', 'its own text is gone', """func TestDemo(t *testing.T) {
	a, b := goast.NewNode(0, "a"), goast.NewNode(0, "b")
	b.CombinePrev(kind.Raw, a)
	want(t, "text", a.Text(), "a")
}""")

# ---------------------------------------------------------------- C23
p('c23-first', 'C23', ('ast.go', """		sc.Node().IterNext(func(n *Node) bool {
			buf.WriteString(n.Text())
			return true
		})
	}

	return helper""", """		sc.Node().First().IterNext(func(n *Node) bool {
			buf.WriteString(n.Text())
			return true
		})
	}

	return helper"""),
  'a node inserted in front of the node of a scope', 'Save writes it, though it is not reachable from the scope node forwards', """func TestDemo(t *testing.T) {
	a := load(t, "package a\\n\\nvar x = 1\\n")
	a.Scope()[1].Node().InsertPrev(goast.NewNode(0, "// c\\n"))
	want(t, "saved", save(t, a), "package a\\n\\nvar x = 1\\n")
}""")
p('c23-newline', 'C23', ('ast.go', """	for _, sc := range f.Scope() {
		sc.Node().IterNext(func(n *Node) bool {
			buf.WriteString(n.Text())
			return true
		})
	}

	return helper""", """	for i, sc := range f.Scope() {
		if i != 0 && !bytes.HasSuffix(buf.Bytes(), []byte("\\n")) {
			buf.WriteString("\\n")
		}
		sc.Node().IterNext(func(n *Node) bool {
			buf.WriteString(n.Text())
			return true
		})
	}

	return helper"""),
  'scopes whose text does not end with a newline', 'Save writes a newline that no node has', """func TestDemo(t *testing.T) {
	a := load(t, "package a\\n")
	s := func(texts ...string) goast.Scope { return goast.NewScope(1, "var", goast.NewNodes(1, texts...)) }
	want(t, "saved", save(t, a.SetScope([]goast.Scope{s("package a\\n", "/* x"), s("y */\\n")})), "package a\\n\\n/* xy */\\n")
}""")
p('c23-dup', 'C23', ('ast.go', """	for _, sc := range f.Scope() {
		sc.Node().IterNext(func(n *Node) bool {
			buf.WriteString(n.Text())
			return true
		})
	}

	return helper""", """	seen := map[*Node]bool{}
	for _, sc := range f.Scope() {
		sc.Node().IterNext(func(n *Node) bool {
			if !seen[n] {
				buf.WriteString(n.Text())
			}
			seen[n] = true
			return true
		})
	}

	return helper"""),
  'a scope that the Ast holds twice', 'it is written once', """func TestDemo(t *testing.T) {
	a := load(t, "package a\\n\\n// c\\n")
	a.AppendScope(a.Scope()[1])
	want(t, "saved", save(t, a), "package a\\n\\n// c\\n// c\\n")
}""")
p('c23-kind', 'C23', ('ast.go', """		sc.Node().IterNext(func(n *Node) bool {
			buf.WriteString(n.Text())
			return true
		})
	}

	return helper""", """		sc.Node().IterNext(func(n *Node) bool {
			if k := n.Kind(); len(k[0]) != 0 && k != kind.Tab {
				buf.WriteString(k[0])
			} else {
				buf.WriteString(n.Text())
			}
			return true
		})
	}

	return helper"""),
  'SetText on a node whose kind has a text of its own (a keyword or separator)', 'Save writes the old text', """func TestDemo(t *testing.T) {
	a := load(t, "package a\\n\\nvar x = 1\\n")
	a.Scope()[1].Node().SetText("const")
	want(t, "saved", save(t, a), "package a\\n\\nconst x = 1\\n")
}""")

# ---------------------------------------------------------------- C24
p('c24-line', 'C24', ('node.go', 'n.Line()+1, helper.TidyText(n.Text()), n.Kind().String())', 'max(n.Line(), 0)+1, helper.TidyText(n.Text()), n.Kind().String())'),
  'a node with a negative line', 'it describes itself with line 1', """func TestDemo(t *testing.T) {
	want(t, "description", goast.NewNode(-5, "x").Description(), "-4 .... x .... *Node.Raw")
}""")
p('c24-long', 'C24', ('node.go', 'n.Line()+1, helper.TidyText(n.Text()), n.Kind().String())', 'n.Line()+1, helper.TidyText(n.Text()[:min(len(n.Text()), 256)]), n.Kind().String())'),
  'a node with a text of more than 256 bytes', 'the description is cut off', """func TestDemo(t *testing.T) {
	x := strings.Repeat("x", 300)
	want(t, "description", goast.NewNode(0, x).Description(), "1 .... "+x+" .... *Node.Raw")
}""")
p('c24-percent', 'C24', ('node.go', 'return fmt.Sprintf("%d .... %s .... *Node.%s", n.Line()+1, helper.TidyText(n.Text()), n.Kind().String())', 'return fmt.Sprintf("%d .... "+helper.TidyText(n.Text())+" .... *Node.%s", n.Line()+1, n.Kind().String())'),
  'a text with a percent sign', 'it is taken for a format', """func TestDemo(t *testing.T) {
	want(t, "description", goast.NewNode(0, "%").Description(), "1 .... % .... *Node.Symbol")
}""")
p('c24-ast', 'C24', ('ast.go', """		sc.Node().IterNext(func(n *Node) bool {
			buf.WriteString(n.Description())
			return true
		})
	}

	return buf.String()""", """		sc.Node().IterNext(func(n *Node) bool {
			buf.WriteString(n.Description())
			return n.Next() == nil || n.Next().Prev() == n && n.Next().Line() >= n.Line()
		})
	}

	return buf.String()"""),
  'an Ast with nodes whose lines go down (moved nodes, new nodes on line 0)', 'the description of the scope ends there', """func TestDemo(t *testing.T) {
	a := load(t, "package a\\n\\nvar x = 1\\n")
	a.Scope()[1].Node().InsertNext(goast.NewNode(0, "NEW"))
	want(t, "has what follows", strings.Contains(a.Description(), "NEW") && strings.Contains(a.Description(), "Number"), true)
}""")
p('c24-print', 'C24', ('node.go', """	println("\\t", n.Description())""", """	println("\\t", strings.TrimSuffix(n.Description(), "."+kind.None.String()))"""),
  'Print of a node without a kind', 'the line lacks the dot at its end', """func TestDemo(t *testing.T) {
	if os.Getenv("DEMO_INNER") != "" {
		goast.NewNode(0, "").Print()
		return
	}
	c := exec.Command(os.Args[0], "-test.run=^TestDemo$")
	c.Env = append(os.Environ(), "DEMO_INNER=1")
	out, _ := c.CombinedOutput()
	want(t, "printed", strings.Contains(string(out), "*Node.\\n"), true)
}""")
