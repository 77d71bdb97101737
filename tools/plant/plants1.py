P = []
def p(id, prop, edits, needs, breaks, demo, **kw):
    if isinstance(edits, tuple): edits = [edits]
    P.append(dict(id=id, prop=prop, edits=edits, needs=needs, breaks=breaks, demo=demo, **kw))

# ---------------------------------------------------------------- C01
p('c01-crlf', 'C01', ('extractor.go', '''		if e.SeparatorCharset.Contain(char) {
			// ' '
			pushNode(true)''', '''		if char == '\\r' && *i+1 < len(text) && text[*i+1] == '\\n' && e.SeparatorCharset.Contain(char) {
			pushNode(true) // the line feed behind it ends the line
		} else if e.SeparatorCharset.Contain(char) {
			// ' '
			pushNode(true)'''),
  'ParseScope of text with CRLF line ends outside of comments and strings (ParseAst never sees them: gofmt removes them)',
  'the carriage returns are lost from the node texts',
  '''func TestDemo(t *testing.T) {
	src := "package a\\r\\n\\r\\nvar x = 1\\r\\n"
	want(t, "texts", all(parse(t, src)), src)
}''')
p('c01-blank', 'C01', ('extractor.go', '''		if buf.Len() == 0 {
			return
		}
		if useLine {''', '''		if len(strings.TrimSpace(buf.String())) == 0 {
			return
		}
		if useLine {'''),
  'a token of nothing but form feeds or other rare blanks between two separators',
  'the token is not pushed in its place: it turns up in front of a later token, or never',
  '''func TestDemo(t *testing.T) {
	src := "package a\\n\\f\\nvar x = 1\\n"
	want(t, "texts", all(parse(t, src)), src)
}''')
p('c01-depth', 'C01', ('extractor.go', '''	lineStep := func() {
		if text[*i] == '\\n' {
			*line++
		}
	}
''', '''	lineStep := func() {
		if text[min(*i, len(text)-1)] == '\\n' && buf.Len() < 1<<16 {
			*line++
		}
		if buf.Len() >= 1<<16 { // keep the nodes of a long text small
			pushNode(false, e.Kind()...)
		}
	}
'''),
  'a comment or string literal longer than 64 KiB', 'a long literal is split into several nodes (the text stays whole)',
  '''func TestDemo(t *testing.T) {
	lit := "`" + strings.Repeat("long text\\n", 9000) + "`"
	scs := parse(t, "package a\\n\\nvar x = "+lit+"\\n")
	found := false
	for _, x := range texts(scs[1].Node()) {
		found = found || x == lit
	}
	want(t, "one node", found, true)
}''')
P[-1]['prop'] = 'C06'; P[-1]['id'] = 'c06-long'

# ---------------------------------------------------------------- C02
p('c02-limit', 'C02', ('helper/helper.go', 'buf, err := io.ReadAll(f)', 'buf, err := io.ReadAll(io.LimitReader(f, 1<<20))'),
  'a source file of more than 1 MiB', 'only the first MiB is read: the parse fails or the rest of the file is lost',
  '''func TestDemo(t *testing.T) {
	src := "package a\\n\\n" + strings.Repeat("// a comment line that makes the file long\\n", 30000)
	want(t, "length", len(save(t, load(t, src))), len(src))
}''')
p('c02-skipsame', 'C02', ('node.go', '''	nn := &Node{
		line: n.line,
		kind: n.kind,
		text: n.text,
	}

	if prev == nil {''', '''	nn := &Node{
		line: n.line,
		kind: kind.New(n.text),
		text: n.text,
	}

	if prev == nil {'''),
  'a deep copy of a chain with kinds that do not follow from the text (comments, role kinds)',
  'copies have other kinds than the originals',
  '''func TestDemo(t *testing.T) {
	n := goast.NewNode(0, "x")
	m := goast.NewNode(0, "// c", kind.Comment)
	n.InsertNext(m)
	want(t, "kind", n.Copy(true).Next().Kind(), kind.Comment)
}''')
P[-1]['prop'] = 'C10'; P[-1]['id'] = 'c10-kind'
p('c02-merge', 'C02', ('node.go', '''	for _, nn := range nns {
		if nn == nil || n == nn {
			continue
		}

		buf = append(buf, nn.Text())
		// make node recyclable to gc
		nn.Isolate()
	}

	n.text = strings.Join(buf, "")
''', '''	for _, nn := range nns {
		if nn == nil || n == nn || nn.Text() == n.Text() && nn.Kind() == n.Kind() {
			continue
		}

		buf = append(buf, nn.Text())
		// make node recyclable to gc
		nn.Isolate()
	}

	n.text = strings.Join(buf, "")
'''),
  'CombineNext with another node that has the same text and the kind being set', 'that node is left out of the combination',
  '''func TestDemo(t *testing.T) {
	n := goast.NewNodes(0, "a", "b", "a")
	want(t, "text", n.CombineNext(kind.Raw, n.Next(), n.Next().Next()).Text(), "aba")
}''')
P[-1]['prop'] = 'C22'; P[-1]['id'] = 'c22-same'
p('c02-tail', 'C02', ('ast.go', '''	for _, sc := range f.Scope() {
		sc.Node().IterNext(func(n *Node) bool {
			buf.WriteString(n.Text())
			return true
		})
	}

	return helper''', '''	for _, sc := range f.Scope() {
		gap := 0
		sc.Node().IterNext(func(n *Node) bool {
			if n.Kind() == kind.NewLine || n.Kind() == kind.Tab {
				gap++
			} else {
				gap = 0
			}
			if gap <= 32 { // gofmt keeps one empty line anyway
				buf.WriteString(n.Text())
			}
			return true
		})
	}

	return helper'''),
  'more than 32 tabs in a row: nesting deeper than that, where the indentation is not what gofmt rebuilds (none) -- or text gofmt leaves alone: source that is not valid Go with many newlines',
  'Save drops newlines of an invalid text', '''func TestDemo(t *testing.T) {
	src := "package a\\n\\nvar x = = 1" + strings.Repeat("\\n", 60) + "func\\n"
	a, err := goast.NewAst(parse(t, src)...)
	if err != nil {
		t.Fatal(err)
	}
	want(t, "saved", save(t, a), src)
}''')
P[-1]['prop'] = 'C14'; P[-1]['id'] = 'c14-gap'; P[-1]['needs'] = 'Save of text that is not valid Go with more than 32 newlines or tabs in a row'
p('c02-eof', 'C02', ('helper/helper.go', '''	formatted, err := format.Source(buf)
	if err != nil {
		return nil, err
	}

	return formatted, nil''', '''	formatted, err := format.Source(bytes.ReplaceAll(buf, []byte("\\r"), nil)) // as gofmt does
	if err != nil {
		return nil, err
	}

	return formatted, nil'''),
  'a carriage return that gofmt keeps: inside a // comment line it is not at the end of (gofmt strips it there), or in an interpreted string as a raw byte',
  'a carriage return in the middle of a string or comment disappears', '''func TestDemo(t *testing.T) {
	src := "package a\\n\\nvar x = \\"one\\rtwo\\"\\n"
	b, err := format.Source([]byte(src))
	if err != nil {
		t.Fatal(err)
	}
	want(t, "saved", save(t, load(t, src)), string(b))
}''')
p('c02-first', 'C02', ('scope.go', '''	head := node
	k := scope.Unknown
''', '''	head := node
	for head.Next() != nil && head.Kind() == kind.NewLine { // leading empty lines
		head = head.Next()
		node = head
		_ = head.RemovePrev()
	}
	k := newScopeKind(head.Text())
	if k == scope.Type || k == scope.Func {
		k = scope.Unknown
	}
'''),
  'text whose first token starts a scope', 'hm', 'func TestDemo(t *testing.T) {}')
P.pop()

# ---------------------------------------------------------------- C03
p('c03-innercomment', 'C03', ('scope.go', '''		if nk == scope.Unknown {
			return true
		}
''', '''		if nk == scope.Unknown || nk == scope.InnerComment && k == scope.Comment {
			return true
		}
'''),
  'a /* */ comment in the first column behind a // comment', 'the /* */ comment is no scope of its own',
  '''func TestDemo(t *testing.T) {
	want(t, "scopes", len(parse(t, "package a\\n\\n// one\\n\\n/* two */\\n\\nvar x = 1\\n")), 4)
}''')
p('c03-rawstring', 'C03', ('extractor.go', '''		ReturnKeyword:     "`",
		SkipReturnKeyword: "",''', '''		ReturnKeyword:     "`",
		SkipReturnKeyword: "\\\\",'''),
  'a raw string that ends with a backslash', 'the string goes on to the next backquote and swallows the declarations between',
  '''func TestDemo(t *testing.T) {
	want(t, "scopes", len(parse(t, "package a\\n\\nvar x = `\\\\`\\n\\nvar y = 1\\n")), 3)
}''')
p('c03-line', 'C03', ('scope.go', '''			scs = append(scs, NewScope(
				head.Line(),''', '''			line := head.Line()
			if len(scs) > 0 && line < scs[len(scs)-1].Line() {
				line = scs[len(scs)-1].Line()
			}
			scs = append(scs, NewScope(
				line,'''),
  'a negative start line or... two scopes on consecutive lines', 'x', '''func TestDemo(t *testing.T) {
	want(t, "line", parse(t, "// a\\npackage a\\n")[1].Line(), 2)
}''')
P.pop()
p('c03-comments', 'C03', ('scope.go', """		nk := newScopeKind(n.Text())
		if nk == scope.Unknown {
			return true
		}
""", """		nk := newScopeKind(n.Text())
		if nk == scope.Unknown || nk == scope.Comment && k == scope.Func && n.Next().Next().Kind() == kind.Tab {
			return true // a comment inside of a body
		}
"""),
  'a comment in the first column inside a function body (//line directives, code behind a label) with an indented line behind it', 'x', """func TestDemo(t *testing.T) {
	src := "package a\\n\\nfunc f() {\\n//line x.go:1\\n\\tg()\\n}\\n"
	b, err := format.Source([]byte(src))
	if err != nil {
		t.Fatal(err)
	}
	want(t, "scopes", len(parse(t, string(b))), 3)
}""")
P[-1]['breaks'] = 'such a comment is no scope any more'
p('c03-kinds', 'C03', ('scope.go', """	for _, kind := range kinds {
		if isScopeKind(s, kind) {
			return kind
		}
	}
""", """	for i := len(kinds) - 1; i >= 0; i-- {
		if isScopeKind(s, kinds[i]) || kinds[i] == scope.InnerComment && isScopeKind(s, scope.Comment) && strings.HasSuffix(s, "*/") {
			return kinds[i]
		}
	}
"""),
  'a // comment that ends with */', 'its scope has the kind of a /* */ comment',
  """func TestDemo(t *testing.T) {
	want(t, "kind", parse(t, "package a\\n\\n// glob a*/\\nvar x = 1\\n")[1].Kind().String(), "Comment")
}""")

# ---------------------------------------------------------------- C04
p('c04-leading', 'C04', ('scope.go', '''		if head.Prev() != nil {
			_ = head.RemovePrev()
		}''', '''		if head.Prev() != nil && len(scs) > 1 {
			_ = head.RemovePrev()
		}'''),
  'text with something (an empty line, say) in front of the first scope', 'the first node of the first scope still has previous nodes',
  '''func TestDemo(t *testing.T) {
	want(t, "prev", parse(t, "\\n\\npackage a\\n")[0].Node().Prev() == nil, true)
}''')
p('c04-iterstop', 'C04', ('node.go', '''	for nn := n; nn != nil; nn = iter(nn) {
		if !fn(nn) {
			return nn
		}
	}

	return nil''', '''	for nn := n; nn != nil; {
		next := iter(nn)
		if !fn(nn) {
			return nn
		}
		if next == nil && iter(nn) == nil {
			return nil
		}
		nn = iter(nn)
		if nn == n { // a ring
			return nil
		}
	}

	return n'''),
  'iterating over a chain whose callback takes the rest of the chain away, or a nil node ', 'x', '''func TestDemo(t *testing.T) {
	n := goast.NewNodes(0, "a", "b", "c")
	got := n.IterNext(func(x *goast.Node) bool {
		return true
	})
	want(t, "result", got == nil, true)
}''')
P.pop()
p('c04-empty', 'C04', ('extractor.go', """				pushNode(false, e.Kind()...)
			} else {""", """				buf.WriteString("")
				insertNode(NewNode(bufLine, buf.String(), e.Kind()...))
				buf.Reset()
				if *i+1 == len(text) { // the text ends here
					insertNode(NewNode(*line, string(text[*i+1:])))
				}
			} else {"""),
  'text that ends with a literal', 'a node without text at the end of the chain',
  """func TestDemo(t *testing.T) {
	for _, x := range texts(parse(t, "package a\\n\\nvar x = \\"s\\"")[1].Node()) {
		want(t, "empty node", x == "", false)
	}
}""")
# ---------------------------------------------------------------- C05
p('c05-cr', 'C05', ('extractor.go', '''		if text[*i] == '\\n' {
			*line++''', '''		if text[*i] == '\\n' || text[*i] == '\\r' && *i+1 < len(text) && text[*i+1] != '\\n' { // or an old line end
			*line++'''),
  'a carriage return without a line feed', 'every later node is one line too far',
  '''func TestDemo(t *testing.T) {
	want(t, "line", parse(t, "package a\\n\\n// one\\rtwo\\nvar x = 1\\n")[2].Line(), 4)
}''')
p('c05-newnodes', 'C05', ('node.go', '''		startLine += strings.Count(text, "\\n")
''', '''		if strings.HasSuffix(text, "\\n") {
			startLine++
		}
'''),
  'NewNodes with a text that has several newlines, or one that is not at its end', 'the later nodes have too small a line',
  '''func TestDemo(t *testing.T) {
	want(t, "line", goast.NewNodes(0, "a", "`\\n\\n`", "b").Last().Line(), 2)
}''')
p('c05-escape', 'C05', ('extractor.go', '''			lineStep()
			continue
		}

		if len(e.ReturnKeyword)''', '''			continue
		}

		if len(e.ReturnKeyword)'''),
  'a backslash right before a newline inside a string or rune (only in text that is not valid Go)', 'the newline is not counted',
  '''func TestDemo(t *testing.T) {
	want(t, "line", parse(t, "package a\\n\\nvar x = \\"a\\\\\\nb\\"\\n\\nvar y = 1\\n")[2].Line(), 6)
}''')
p('c05-pushline', 'C05', ('extractor.go', '''	bufLine := *line
''', '''	bufLine := max(*line, 0)
'''),
  'a literal or comment parsed with a negative start line', 'its node reports line 0',
  '''func TestDemo(t *testing.T) {
	scs, _ := goast.ParseScope(-7, []byte("package a\\n/* c */\\n"))
	want(t, "line", scs[1].Node().Line(), -6)
}''')
