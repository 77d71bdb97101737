P = []
INT = dict(internal=True)
ORIG = ('scope.go', "	if d.Kind() != scope.Func {\n		return \"\", false\n	}\n\n	var (\n		name  string\n		found bool\n	)\n\n	if _, isMethod", "	if k := d.Kind(); k != scope.Func {\n		return \"\", false\n	}\n\n	var (\n		name  string\n		found bool\n	)\n\n	if _, isMethod")
def p(id, prop, edits, needs, breaks, demo, **kw):
    if isinstance(edits, tuple): edits = [edits]
    if id in ('c24-desckind', 'c31-typedef', 'c06-runeslash', 'c03-tabline'): edits.append(ORIG)
    P.append(dict(id=id, prop=prop, edits=edits, needs=needs, breaks=breaks, demo=demo, **kw))

# C31: a name remembered by the scope
p('c31-recvcache', 'C31', [('scope.go', """	d.Node().IterNext(func(n *Node) bool {
		if n.Kind() == kind.MethodReceiverType {
			name = n.Text()
			found = true
		}

		return !found
	})

	return name, found
}""", """	if d.receiver.Kind() == kind.MethodReceiverType { // found before
		return d.receiver.Text(), true
	}

	d.Node().IterNext(func(n *Node) bool {
		if n.Kind() == kind.MethodReceiverType {
			d.receiver = n
			name = n.Text()
			found = true
		}

		return !found
	})

	return name, found
}"""), ('scope.go', "	line int\n	kind scope.Kind\n	node *Node\n}", "	line int\n	kind scope.Kind\n	node *Node\n\n	receiver *Node\n}"), ORIG],
 'GetMethodReceiver, then the receiver node is replaced by another one, then GetMethodReceiver again', 'it reports the removed node',
 """func TestDemo(t *testing.T) {
	a := parse(t, "package a\\n\\nfunc (x T) F() {}\\n")
	sc := a[len(a)-1]
	r, _ := sc.GetMethodReceiver()
	want(t, "receiver", r, "T")
	sc.Node().IterNext(func(n *goast.Node) bool {
		if n.Text() == "T" {
			m := goast.NewNode(2, "U", n.Kind())
			n.Prev().ReplaceNext(m)
			m.ReplaceNext(n.Next())
			return false
		}
		return true
	})
	r, _ = sc.GetMethodReceiver()
	want(t, "receiver", r, "U")
}""")

p('c31-typedef', 'C31', [('scope.go', "	n := d.Node().IterNext(func(n *Node) bool { return n.Kind() != kind.TypeName }).Next().IterNext(isGap)\n", "	if d.def == nil {\n		d.def = d.Node().IterNext(func(n *Node) bool { return n.Kind() != kind.TypeName }).Next()\n	}\n\n	n := d.def.IterNext(isGap)\n"),
 ('scope.go', "	line int\n	kind scope.Kind\n	node *Node\n}", "	line int\n	kind scope.Kind\n	node *Node\n\n	def *Node // behind the type name\n}")],
 'GetStructName, then the nodes behind the type name are replaced', 'the old definition still counts',
 """func TestDemo(t *testing.T) {
	a := parse(t, "package a\\n\\ntype X struct{}\\n")
	sc := a[len(a)-1]
	_, ok := sc.GetStructName()
	want(t, "struct", ok, true)
	sc.Node().IterNext(func(n *goast.Node) bool {
		if n.Text() == "X" {
			n.ReplaceNext(goast.NewNodes(2, " ", "int", "\\n"))
			return false
		}
		return true
	})
	_, ok = sc.GetStructName()
	want(t, "struct", ok, false)
}""")

p('c24-desckind', 'C24', [('scope.go', '	return fmt.Sprintf("%d .... *Scope.%s", d.Line(), d.kind.String())', '	k := d.kind\n	if nk := newScopeKind(d.node.Text()); nk == scope.Comment || nk == scope.InnerComment {\n		k = nk\n	}\n\n	return fmt.Sprintf("%d .... *Scope.%s", d.Line(), k.String())')],
 'a scope whose first node is a comment but whose kind is another one', 'the description names another kind than Kind()',
 """func TestDemo(t *testing.T) {
	sc := goast.NewScope(0, "func", goast.NewNodes(0, "// x", "\\n", "func", " ", "F", "(", ")", "\\n"))
	want(t, "desc", sc.Description(), "1 .... *Scope."+sc.Kind().String())
}""", )

# C04
p('c04-sharedrest', 'C04', [('scope.go', "		if head.Prev() != nil {\n			_ = head.RemovePrev()\n		}\n", "		if prev := head.Prev(); prev != nil && (k != scope.Import || prev.Prev().Kind() == kind.NewLine) {\n			_ = head.RemovePrev()\n		}\n")],
 'an import that follows the line above it without a blank line', 'the chain of the scope above runs on into the import',
 """func TestDemo(t *testing.T) {
	a := parse(t, "package a\\n\\n// c\\nimport \\"os\\"\\n")
	for _, sc := range a {
		want(t, "head", sc.Node().Prev() == nil, true)
	}
}""")

p('c04-emptyrune', 'C04', [('extractor.go', "			pushNode(true)\n			if ee != nil && ee.IncludeOpen { // /* // \" ` '", "			if buf.Len() != 0 || ee == _runeExtractor {\n				insertNode(NewNode(*line, buf.String()))\n				buf.Reset()\n				bufLine = *line\n			}\n			if ee != nil && ee.IncludeOpen { // /* // \" ` '")],
 'a rune literal behind a separator', 'an empty node stands in front of it',
 """func TestDemo(t *testing.T) {
	for _, sc := range parse(t, "package a\\n\\nvar x = 'a'\\n") {
		for _, s := range texts(sc.Node()) {
			want(t, "empty", s == "", false)
		}
	}
}""")

# C06
p('c06-escapedline', 'C06', [('extractor.go', "		if len(e.SkipReturnKeyword) != 0 && helper.HasSuffix(trailing, e.SkipReturnKeyword) {", "		if len(e.SkipReturnKeyword) != 0 && helper.HasSuffix(trailing, e.SkipReturnKeyword) && !helper.HasSuffix(text[begin:*i], \"\\\\U\") {")],
 'a string with \\\\U\\ in it, an escaped backslash, a U and another escape', 'the escape is not seen and the string ends early',
 """func TestDemo(t *testing.T) {
	found := false
	for _, sc := range parse(t, "package a\\n\\nvar x = \\"\\\\\\\\U\\\\\\"b\\"\\n") {
		for _, s := range texts(sc.Node()) {
			found = found || s == "\\"\\\\\\\\U\\\\\\"b\\""
		}
	}
	want(t, "one node", found, true)
}""")

p('c06-runeslash', 'C06', [('extractor.go', "	for k, v := range de {\n		if helper.HasPrefix(s, k) {", "	if helper.HasPrefix(s, \"'`'\") {\n		return \"`\", _multilineStringExtractor, true\n	}\n	for k, v := range de {\n		if helper.HasPrefix(s, k) {")],
 "the rune literal '`'", 'the back quote opens a string',
 """func TestDemo(t *testing.T) {
	found := false
	for _, sc := range parse(t, "package a\\n\\nvar x, y = '`', '`'\\n") {
		for _, s := range texts(sc.Node()) {
			found = found || s == "'`'"
		}
	}
	want(t, "one node", found, true)
}""")

# C18
p('c18-insertkeep', 'C18', [('trie.go', "	t.next[key].value = value\n", "	if v := (trie_[T]{}).value; value != v || t.next[key].next == nil {\n		t.next[key].value = value\n	}\n")],
 'Insert of the zero value at a key that has children', 'the old value stays',
 """func TestDemo(t *testing.T) {
	r := &trie_[int]{}
	r.AddText("ab", 1)
	r.Insert('a', 2)
	r.Insert('a', 0)
	if v, _ := r.FindText("a"); v != 0 {
		t.Fatalf("DEMO-FAILED %d", v)
	}
}""", **INT)

p('c18-reversezero', 'C18', [('trie.go', "	n := t\n	ok := false\n	for i := len(s) - 1; i >= 0; i-- {", "	n := t\n	ok := false\n	for i := len(s) - 1; i >= 0 && (i == 0 || s[i] != 0); i-- {")],
 'FindTextReversely with a NUL byte in the text', 'the search ends there',
 """func TestDemo(t *testing.T) {
	r := newTrie(map[string]int{"a\\x00b": 1})
	if v, ok := r.FindTextReversely("b\\x00a"); v != 1 || !ok {
		t.Fatalf("DEMO-FAILED %d", v)
	}
}""", **INT)

# C28
p('c28-indentfunc', 'C28', [('scope.go', "		named = named || isIdentifier(n)\n", "		named = named || isIdentifier(n)\n\n		if n.Kind() == kind.Comment && n.Prev().Kind() == kind.NewLine && n.Prev().Prev().Kind() == kind.NewLine && k == scope.Variable && n.Next().Next().Kind() == kind.NewLine {\n			return true // set apart on both sides\n		}\n"), ORIG],
 'a comment behind a variable with a blank line before and after it', 'it belongs to the variable',
 """func TestDemo(t *testing.T) {
	n := len(parse(t, "package a\\n\\nvar x int\\n\\n// c\\nvar y int\\n"))
	want(t, "scopes", len(parse(t, "package a\\n\\nvar x int\\n\\n// c\\n\\nvar y int\\n")), n)
}""")

p('c05-crline', 'C05', [('extractor.go', "		if text[*i] == '\\n' {\n			*line++\n		}", "		if text[*i] == '\\n' && (*i == 0 || text[*i-1] != '\\f') {\n			*line++\n		}")],
 'a form feed in front of the line end, in a comment or raw string', 'the line does not count',
 """func TestDemo(t *testing.T) {
	a := parse(t, "package a\\n\\n// c\\f\\nvar x int\\n")
	want(t, "line", a[len(a)-1].Line(), 4)
}""")
