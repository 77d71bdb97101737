P = []
def p(id, prop, edits, needs, breaks, demo, **kw):
    if isinstance(edits, tuple): edits = [edits]
    P.append(dict(id=id, prop=prop, edits=edits, needs=needs, breaks=breaks, demo=demo, **kw))

p('c13-short', 'C13', ('helper/helper.go', """func ReadFile(file string) ([]byte, error) {
	if !HasSuffix([]byte(file), ".go") {""", """func ReadFile(file string) ([]byte, error) {
	if file[len(file)-2:] != "go" || file[len(file)-3] != '.' {"""),
  'a path of one character', 'ParseAst panics',
  """func TestDemo(t *testing.T) {
	defer func() {
		if e := recover(); e != nil {
			fail(t, "panic: %v", e)
		}
	}()
	_, err := goast.ParseAst("x")
	want(t, "err", err == goast.ErrNotExist, true)
}""")

p('c14-chunk', 'C14', ('helper/helper.go', """	if _, err := f.Write(formatted); err != nil {
		return fmt.Errorf("write file %s, err: %w", file, err)
	}
""", """	const chunk = 4096
	for len(formatted) != 0 {
		n, err := f.Write(formatted[:min(chunk, len(formatted))])
		if err != nil {
			return fmt.Errorf("write file %s, err: %w", file, err)
		}
		if formatted = formatted[n:]; len(formatted) == chunk {
			break
		}
	}
"""),
  'a text whose length is a multiple of 4096 bytes (and more than 4096)', 'the last 4096 bytes are not written',
  """func TestDemo(t *testing.T) {
	src := "package a\\n\\n// "
	src += strings.Repeat("x", 8191-len(src)) + "\\n"
	want(t, "length", len(save(t, load(t, src))), 8192)
}""")

p('c16-sign', 'C16', ('kind/kind.go', """			isNumber = isNumber && charset.NumberCharset.Contain(s[i])
""", """			isNumber = isNumber && (charset.NumberCharset.Contain(s[i]) || i == 0 && s[i] == '-' && len(s) > 1)
"""),
  'a text of a minus and digits: -1', 'it is a number',
  """func TestDemo(t *testing.T) {
	want(t, "kind", kind.New("-12").String(), "Raw")
}""")

INNER = """func TestDemo(t *testing.T) {
	if os.Getenv("DEMO_INNER") != "" {
		t.Run("a/b", func(t *testing.T) { %s })
		return
	}
	c := exec.Command(os.Args[0], "-test.run=^TestDemo$")
	c.Env = append(os.Environ(), "DEMO_INNER=1")
	b, _ := c.CombinedOutput()
	want(t, "output", strings.Contains(string(b), %s), true)
}"""
p('c21-twice', 'C21', ('assert/assert.go', """	a.t.Helper()
	if ok, msg, _ := a.Call(fn); !ok {
		a.t.Fatalf("%s: should be panic, err: %s", a.t.Name(), msg)""", """	a.t.Helper()
	ok, msg, _ := a.Call(fn)
	if !ok {
		ok, msg, _ = a.Call(fn)
	}
	if !ok {
		a.t.Fatalf("%s: should be panic, err: %s", a.t.Name(), msg)"""),
  'Panic with a function that panics the second time', 'it passes',
  INNER % ('n := 0; assert.New(t).Panic(func() { n++; if n == 2 { panic(1) } })', '"should be panic"'))

p('c21-subname', 'C21', ('assert/assert.go', """		a.t.Fatalf("%s: should be nil, but got (%+v), %s", a.t.Name(), value, strings.Join(msg, " "))""", """		a.t.Fatalf("%s: should be nil, but got (%+v), %s", strings.Split(a.t.Name(), "/")[0], value, strings.Join(msg, " "))"""),
  'Nil that fails with a message in a subtest', 'the subtest is not named',
  INNER % ('assert.New(t).Nil(1, "m")', '"TestDemo/a/b: should be nil"'))

p('c21-percent', 'C21', ('assert/assert.go', """		a.t.Fatalf("require: %s, %s", a.t.Name(), strings.Join(msg, " "))""", """		a.t.Fatalf("require: "+a.t.Name()+", "+strings.Join(msg, " "), []any{}...)"""),
  'Require that fails with a message that has a percent sign', 'the message is not written as it is',
  INNER % ('assert.New(t).Require(false, "100%")', '"100%\\n"'))

p('c11-cap', 'C11', [('ast.go', """	f.scope = append(slices.Clip(f.scope), scs...)""", """	if cap(f.scope)-len(f.scope) < 4 {
		f.scope = slices.Clip(f.scope)
	}
	f.scope = append(f.scope, scs...)"""), ('ast.go', 'scs := make([]Scope, 0, len(f.scope))', 'scs := make([]Scope, 0, len(f.scope)+1)')],
  'two Asts that share a slice with at least four free places', 'appending to one shows in the other',
  """func TestDemo(t *testing.T) {
	s := make([]goast.Scope, 0, 20)
	s = append(s, parse(t, "package a\\n")...)
	a := load(t, "package a\\n").SetScope(s)
	b := a.SetScope(a.Scope())
	a.AppendScope(parse(t, "// a\\n")...)
	b.AppendScope(parse(t, "// b\\n")...)
	want(t, "text", a.Scope()[1].Node().Text(), "// a")
}""")

p('c01-single', 'C01', [('scope.go', """		if k != scope.Unknown {
			nodesToResetKind""", """		if k != scope.Unknown && (head.Next() != nil || len(scs) == 0 || k.ToKind() == kind.Comment) {
			nodesToResetKind"""), ('scope.go', "	head := node\n", "	var head = node\n")],
  'a text that ends with a keyword in the first column, without a newline', 'the keyword is lost',
  """func TestDemo(t *testing.T) {
	want(t, "text", all(parse(t, "package a\\nfunc")), "package a\\nfunc")
}""")

p('c22-many', 'C22', ('node.go', """	n.text = strings.Join(buf, "")

	return n
}

// Isolated""", """	n.text = strings.Join(buf[:min(len(buf), 32)], "")

	return n
}

// Isolated"""),
  'CombineNext of more than 31 nodes', 'the rest of the texts is missing',
  """func TestDemo(t *testing.T) {
	n := goast.NewNode(0, "a")
	var ns []*goast.Node
	for range 40 {
		ns = append(ns, goast.NewNode(0, "b"))
	}
	n.CombineNext(kind.Raw, ns...)
	want(t, "length", len(n.Text()), 41)
}""")

p('c24-nilnode', 'C24', ('ast.go', """		buf.WriteString(sc.Description())

		sc.Node().IterNext""", """		buf.WriteString(sc.Description())
		if sc.Node() == nil {
			buf.WriteString(sc.Node().Description())
		}

		sc.Node().IterNext"""),
  'an Ast with a scope without a node', '<nil> is written for it',
  """func TestDemo(t *testing.T) {
	a := load(t, "package a\\n").SetScope([]goast.Scope{goast.NewScope(0, "func", nil)})
	want(t, "description", a.Description(), "1 .... *Scope.Func")
}""")

p('c04-iterprev', 'C04', ('node.go', """	return n.loop(func(nn *Node) *Node { return nn.Prev() }, fn)""", """	first := n
	r := n.loop(func(nn *Node) *Node {
		first = nn
		return nn.Prev()
	}, fn)
	if r == nil && first != n && first.Kind() == kind.NewLine {
		return first // stopped at the end of the line above
	}
	return r"""),
  'IterPrev to the beginning of a chain that starts with a newline', 'the first node is returned instead of nil',
  """func TestDemo(t *testing.T) {
	n := goast.NewNodes(0, "\\n", "a")
	want(t, "nil", n.Next().IterPrev(func(*goast.Node) bool { return true }) == nil, true)
}""")

p('c05-longcomment', 'C05', ('extractor.go', """	lineStep := func() {
		if text[*i] == '\\n' {
			*line++
		}
	}""", """	last := -1
	lineStep := func() {
		if text[*i] == '\\n' && (e.ReturnKeyword != "`" || *i-last != 1 || *i-begin < 2) {
			*line++
		}
		if text[*i] == '\\n' {
			last = *i
		}
	}"""),
  'an empty line inside a raw string', 'the lines behind it are wrong',
  """func TestDemo(t *testing.T) {
	scs := parse(t, "package a\\n\\nvar b = `x\\n\\n`\\n\\nvar c = 1\\n")
	want(t, "line", scs[len(scs)-1].Line(), 7)
}""")

p('c09-insertprevself', 'C09', ('node.go', """	oldPrev, oldNext := nn.Prev(), nn.Next()
	nPrev := n.Prev()
""", """	oldPrev, oldNext := nn.Prev(), nn.Next()
	if oldPrev == n { // they change places
		oldPrev = nil
	}
	nPrev := n.Prev()
"""),
  'InsertPrev with the node behind the receiver', 'the receiver is not returned as the end it was cut from',
  """func TestDemo(t *testing.T) {
	n := goast.NewNodes(0, "a", "b")
	p, _ := n.InsertPrev(n.Next())
	want(t, "prev", p == n, true)
}""")

p('c10-emptytext', 'C10', ('node.go', """	if prev == nil {
		prev = n.Prev().deepCopy(nil, nn)
	}
""", """	if prev == nil {
		prev = n.Prev().deepCopy(nil, nn)
		if prev != nil && prev.text == "" && prev.prev == nil {
			prev = nil // nothing
		}
	}
"""),
  'a deep copy of a chain whose first node has an empty text', 'the copy does not have it',
  """func TestDemo(t *testing.T) {
	n := goast.NewNodes(0, "", "a").Next()
	want(t, "prev", n.Copy(true).Prev() != nil, true)
}""")

p('c12-cond', 'C12', ('ast.go', """	if result == nil {
		return "", ErrNoPackage
	}
""", """	if result == nil || result.Text() == "documentation" {
		return "", ErrNoPackage
	}
"""),
  'the package name documentation (a special name for go/build)', 'ErrNoPackage',
  """func TestDemo(t *testing.T) {
	n, _ := load(t, "package documentation\\n").Package()
	want(t, "name", n, "documentation")
}""")

p('c15-embed', 'C15', [('helper/helper.go', """	var (
		formatted []byte
		err       error
	)

	if len(autoImport)""", """	var (
		formatted []byte
		err       error
	)

	if strings.Contains(string(data), "\\nimport _ \\"") && !strings.Contains(string(data), "\\n//go:embed") && len(autoImport) != 0 && autoImport[0] {
		var lines []string
		for _, l := range strings.Split(string(data), "\\n") {
			if l != "import _ \\"embed\\"" {
				lines = append(lines, l)
			}
		}
		data = []byte(strings.Join(lines, "\\n"))
	}

	if len(autoImport)""")],
  'auto import of a source with import _ "embed" but without go:embed', 'the blank import is removed',
  """func TestDemo(t *testing.T) {
	out := save(t, load(t, "package a\\n\\nimport _ \\"embed\\"\\n\\nvar a = 1\\n"), true)
	want(t, "embed", strings.Contains(out, "embed"), true)
}""")

p('c17-tidywide', 'C17', ('helper/helper.go', """	s = strings.ReplaceAll(s, "\\t", " -> ")
	return s""", """	s = strings.ReplaceAll(s, "\\t", " -> ")
	s = strings.ReplaceAll(s, "\\u00a0", "·")
	return s"""),
  'a text with a no-break space', 'it is replaced as well',
  """func TestDemo(t *testing.T) {
	want(t, "text", helper.TidyText("a\\u00a0b"), "a\\u00a0b")
}""")

p('c18-highbyte', 'C18', ('trie.go', """	n, ok := t.next[key]
	return n, ok""", """	n, ok := t.next[key]
	if !ok && key == 0xFF {
		n, ok = t.next[0]
	}
	return n, ok"""),
  'a text with the byte 0xFF where a text with a NUL byte was added', 'it is found',
  """func TestDemo(t *testing.T) {
	if _, ok := newTrie(map[string]int{"a\\x00": 1}).FindText("a\\xff"); ok {
		t.Fatal("DEMO-FAILED found")
	}
}""", internal=True)

p('c19-lastname', 'C19', [('scope.go', """	var (
		name  string
		found bool
	)

	d.Node().IterNext(func(n *Node) bool {
		if n.Kind() == kind.TypeName {
			name = n.Text()
			found = true
		}

		return !found
	})

	return name, found
}

// typeDefinition""", """	var found bool

	d.Node().IterNext(func(n *Node) bool {
		if n.Kind() == kind.TypeName {
			_typeName = n.Text()
			found = true
		}

		return !found
	})
	if !found {
		return "", false
	}

	return _typeName, found
}

var _typeName string

// typeDefinition""")],
  'two goroutines that ask for names of types', 'a data race',
  """func TestDemo(t *testing.T) {
	var wg sync.WaitGroup
	for range 8 {
		scs := parse(t, "package a\\n\\ntype t int\\n")
		wg.Add(1)
		go func() {
			defer wg.Done()
			for range 500 {
				_, _ = scs[1].GetTypeName()
			}
		}()
	}
	wg.Wait()
}""", race=True)

p('c20-replaceprevnil', 'C20', ('node.go', """	oldPrev, oldNext := n.Prev(), nn.Next()

	n.setPrev(nn)
	nn.setNext(n)
""", """	oldPrev, oldNext := n.Prev(), nn.Next()
	if nn == nil && oldPrev.Prev() != nil {
		return oldPrev, nil
	}

	n.setPrev(nn)
	nn.setNext(n)
"""),
  'ReplacePrev(nil) of a node with two nodes in front of it', 'nothing is cut',
  """func TestDemo(t *testing.T) {
	n := goast.NewNodes(0, "a", "b", "c").Last()
	n.ReplacePrev(nil)
	want(t, "prev", n.Prev() == nil, true)
}""")

p('c23-settext', 'C23', ('node.go', """	if n == nil {
		return
	}
	n.text = text
}""", """	if n == nil || text == "" && n.kind == kind.Comment {
		return
	}
	n.text = text
}"""),
  'SetText("") of a comment', 'the comment stays',
  """func TestDemo(t *testing.T) {
	n := goast.NewNode(0, "// a", kind.Comment)
	n.SetText("")
	want(t, "text", n.Text(), "")
}""")

p('c26-line', 'C26', ('extractor.go', """	if len(startLine) != 0 {
		line = startLine[0]
	}
""", """	if len(startLine) != 0 {
		line = startLine[0] & (1<<20 - 1)
	}
"""),
  'a start line of more than a million', 'the lines are wrong',
  """func TestDemo(t *testing.T) {
	scs, _ := goast.ParseScope(1<<20, []byte("package a\\n"))
	want(t, "line", scs[0].Line(), 1<<20+1)
}""")

p('c02-bom', 'C02', ('helper/helper.go', """	formatted, err := format.Source(buf)
	if err != nil {
		return nil, err
	}

	return formatted, nil""", """	formatted, err := format.Source(buf)
	if err != nil {
		return nil, err
	}

	return []byte(strings.ReplaceAll(string(formatted), "\\u2028", "\\n")), nil"""),
  'a line separator (U+2028) in a comment or string', 'it becomes a newline',
  """func TestDemo(t *testing.T) {
	src := "package a\\n\\nvar a = \\"\\u2028\\"\\n"
	want(t, "text", save(t, load(t, src)), src)
}""")

def more(id, *e):
    P[[x['id'] for x in P].index(id)]['edits'].append(e)

def instead(id, *e):
    P[[x['id'] for x in P].index(id)]['edits'] = [e]

more('c24-nilnode', 'ast.go', 'buf := strings.Builder{}', 'var buf strings.Builder')
more('c12-cond', 'ast.go', '	packageKeywordAppeared := false\n', '	var packageKeywordAppeared bool\n')
more('c15-embed', 'helper/helper.go', 'imports.Process(file, data, nil)', 'imports.Process(file, data, (*imports.Options)(nil))')
more('c26-line', 'extractor.go', """	node, err := _commonExtractor.Run(text, &buf, &i, &line)
	if err != nil {
		return nil, err
	}

	return node, nil""", """	return _commonExtractor.Run(text, &buf, &i, &line)""")
instead('c17-tidywide', 'helper/helper.go', """	s = strings.ReplaceAll(s, "\\t", " -> ")
	return s""", """	return strings.NewReplacer("\\t", " -> ", "\\u00a0", "·").Replace(s)""")
instead('c18-highbyte', 'trie.go', """	n, ok := t.next[key]
	return n, ok""", """	next, ok := t.next[key]
	if !ok && key == 0xFF {
		next, ok = t.next[0]
	}
	return next, ok""")
instead('c09-insertprevself', 'node.go', """	oldPrev, oldNext := nn.Prev(), nn.Next()
	nPrev := n.Prev()
""", """	nPrev, oldPrev, oldNext := n.Prev(), nn.Prev(), nn.Next()
	if oldPrev == n { // they change places
		oldPrev = nil
	}
""")
instead('c10-emptytext', 'node.go', """		prev = n.Prev().deepCopy(nil, nn)
	}
""", """		if p := n.Prev(); p.Text() != "" || p.Prev() != nil {
			prev = p.deepCopy(nil, nn)
		}
	}
""")
instead('c20-replaceprevnil', 'node.go', """	oldPrev, oldNext := n.Prev(), nn.Next()

	n.setPrev(nn)
	nn.setNext(n)
""", """	oldNext, oldPrev := nn.Next(), n.Prev()
	if nn == nil && oldPrev.Prev() != nil {
		return oldPrev, nil
	}

	n.setPrev(nn)
	nn.setNext(n)
""")
