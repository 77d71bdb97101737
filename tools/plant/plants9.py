P = []
def p(id, prop, edits, needs, breaks, demo, **kw):
    if isinstance(edits, tuple): edits = [edits]
    P.append(dict(id=id, prop=prop, edits=edits, needs=needs, breaks=breaks, demo=demo, **kw))

p('c04-firstpkg', 'C04', ('node.go', "return n.IterPrev(func(n *Node) bool { return n.Prev() != nil })",
   "return n.IterPrev(func(n *Node) bool { return n.Prev() != nil && n.Kind() != kind.Package })"),
  'a chain with a package keyword behind its first node', 'First stops at it',
  """func TestDemo(t *testing.T) {
	n := goast.NewNodes(0, "// x", "\\n", "package", " ", "a")
	want(t, "first", n.Last().First().Text(), "// x")
}""")

p('c04-cap', 'C04', ('node.go', """	for nn := n; nn != nil; nn = iter(nn) {
		if !fn(nn) {
			return nn
		}
	}
""", """	steps, nn := 0, n
	for ; nn != nil; nn = iter(nn) {
		if steps++; steps > 1<<17 { // a cycle
			return nil
		}
		if !fn(nn) {
			return nn
		}
	}
"""), 'a chain of more than 131072 nodes', 'the iteration ends early',
  """func TestDemo(t *testing.T) {
	n := goast.NewNodes(0, strings.Split(strings.Repeat("a ", 150000)+"b", " ")...)
	i := 0
	n.IterNext(func(*goast.Node) bool { i++; return true })
	want(t, "visited", i, 150001)
}""")

p('c04-combine', 'C04', [('node.go', """	n.Prev().setNext(nil)
	n.Next().setPrev(nil)

	n.setPrev(nil)
	n.setNext(nil)
}""", """	prev, next := n.prev, n.next
	n.prev, n.next = nil, nil
	if prev != nil {
		prev.next = nil
	}
	if next != nil && next.kind != kind.Semicolon {
		next.prev = nil
	}
}"""), ('node.go', """	// TODO: how to prevent leak (no gc)
	if n.next != nil {
		n.next.prev = nil
	}

	n.next = nn""", """	// TODO: how to prevent leak (no gc)
	if n.next != nil {
		n.next.prev = nil
	}

	if n.next = nn; nn != nil && nn.kind == kind.Semicolon {
		return
	}""" ), ('node.go', """	n.setNext(nn)
	nn.setPrev(n)

	oldPrev.setNext(nil)
	oldNext.setPrev(nil)

	return oldPrev, oldNext
}

// TakePrev""", """	n.setNext(nn)
	if nn.Kind() != kind.Semicolon || nn.Prev() == nil {
		nn.setPrev(n)
	}

	oldPrev.setNext(nil)
	oldNext.setPrev(nil)

	return oldPrev, oldNext
}

// TakePrev""")],
  'a merged type directly before a semicolon', 'the node behind it has a wrong Prev',
  """func TestDemo(t *testing.T) {
	for _, sc := range parse(t, "package a\\n\\ntype I interface{ A() []*map[string]x; B() }\\n") {
		for _, n := range nodes(sc.Node()) {
			if n.Next() != nil && n.Next().Prev() != n {
				fail(t, "%q: %q", n.Text(), n.Next().Text())
			}
		}
	}
}""")

p('c26-import', 'C26', [('scope.go', """		tryAppendScope()

		head = n
		k = nk
""", """		if k != scope.Import && nk == scope.Import && decls > 0 {
			return true // imports come first
		}

		if nk.ToKind() != kind.Comment && nk != scope.Import && nk != scope.Package {
			decls++
		}

		tryAppendScope()

		head = n
		k = nk
"""), ('scope.go', "	k := scope.Unknown\n", "	k, decls := scope.Unknown, 0\n")],
  'an import behind a declaration', 'it is a part of the scope before it',
  """func TestDemo(t *testing.T) {
	scs := parse(t, "package a\\n\\nvar a int\\n\\nimport \\"fmt\\"\\n")
	want(t, "scopes", len(scs), 3)
}""")

p('c26-many', 'C26', [('scope.go', "	for _, n := range nodesToResetKind {\n", "	for _, n := range nodesToResetKind[:min(len(nodesToResetKind), 64)] {\n")],
  'a file with more than 64 declarations', 'the rest of them get no roles',
  """func TestDemo(t *testing.T) {
	scs := parse(t, strings.Repeat("func F() {\\n}\\n", 65))
	_, ok := scs[64].GetFuncName()
	want(t, "named", ok, true)
}""")

p('c26-named', 'C26', [('scope.go', """		k = nk
		named = false
""", """		named = named && k == nk
		k = nk
"""), ('scope.go', "	head := node\n	k := scope.Unknown\n", "	k, head := scope.Unknown, node\n")],
  'two package clauses, a comment in the second', 'the comment is a scope of its own',
  """func TestDemo(t *testing.T) {
	scs := parse(t, "package a\\npackage\\n// c\\nb\\n")
	want(t, "scopes", len(scs), 2)
}""")

p('c26-pkgonce', 'C26', [('scope.go', """		nk := newScopeKind(n.Text())
		if nk == scope.Unknown {
			return true
		}
""", """		nk := newScopeKind(n.Text())
		if nk == scope.Unknown || nk == scope.Package && len(scs) > 30 {
			return true
		}
""")],
  'a package clause behind more than 30 comments', 'it is a part of the last comment',
  """func TestDemo(t *testing.T) {
	scs := parse(t, strings.Repeat("// c\\n", 40)+"package a\\n")
	want(t, "scopes", len(scs), 41)
}""")

p('c27-nbsp', 'C27', ('extractor.go', """		if e.SeparatorCharset.Contain(char) {""",
   """		if e.SeparatorCharset.Contain(char) || e.SeparatorCharset != nil && char > 127 && unicode.IsSpace(rune(char)) {"""),
  'a name with a letter whose UTF-8 form has a byte 0x85 or 0xA0', 'it is split',
  """func TestDemo(t *testing.T) {
	scs := parse(t, "package a\\n\\nvar voil\\u00e0 int\\n")
	want(t, "name", nodes(scs[1].Node())[2].Text(), "voil\\u00e0")
}""")

p('c27-bignum', 'C27', ('kind/kind.go', "		if isNumber {", "		if isNumber && len(s) < 20 {"),
  'a number of 20 digits or more', 'it has another kind',
  """func TestDemo(t *testing.T) {
	scs := parse(t, "package a\\n\\nvar a = 123456789012345678901234567890\\n")
	ns := nodes(scs[1].Node())
	want(t, "kind", ns[6].Kind(), kind.Number)
}""")

p('c27-underscore', 'C27', ('kind_resetter_parenthesis.go', """			if named && isIdentifier(n) {
				n.SetKind(nameKind)
				named = false // the rest is the type
				return true
			}

			if n.Kind() == kind.Symbol || n.Kind() == kind.Basic && !isReceiver {
				return true // keep the kind
			}

			n.SetKind(typeKind)
			return true
		default:""", """			if named && isIdentifier(n) {
				n.SetKind(nameKind)
				named = strings.HasSuffix(n.Text(), "_") // a continued name
				return true
			}

			if n.Kind() == kind.Symbol || n.Kind() == kind.Basic && !isReceiver {
				return true // keep the kind
			}

			n.SetKind(typeKind)
			return true
		case kind.None:
			return true
		default:"""),
  'a parameter whose name ends with an underscore', 'its type is a name',
  """func TestDemo(t *testing.T) {
	want(t, "kind", kindOf(t, "func F(type_ T) {\\n}\\n", "T", 0), "ParamType")
}""")

p('c27-todo', 'C27', ('kind_resetter_type.go', """		switch n.Kind() {
		case kind.CurlyBracketRight: // return kind
			return false
		case kind.Tab, kind.Comment, kind.NewLine,""", """		if n.Kind() == kind.Comment && strings.HasPrefix(n.Text(), "// Deprecated:") {
			jumpTo = n.Next().Next().findNext([]kind.Kind{kind.NewLine}, findNodeOption{}, hooks...)
			return true
		}
		switch n.Kind() {
		case kind.CurlyBracketRight: // return kind
			return false
		case kind.Tab, kind.Comment, kind.NewLine,"""),
  'an interface with a deprecated method', 'the method gets no roles',
  """func TestDemo(t *testing.T) {
	src := "type I interface {\\n\\t// Deprecated: x\\n\\tA(a int)\\n}\\n"
	want(t, "kind", kindOf(t, src, "A", 0), "FuncName")
}""")

p('c27-cgo', 'C27', [('scope.go', """		nk := newScopeKind(n.Text())
		if nk == scope.Unknown {
			return true
		}
""", """		nk := newScopeKind(n.Text())
		if nk == scope.Unknown || nk == scope.Import && n.Prev() != nil && n.Next().Next().Text() == "\\"C\\"" {
			return true // the comment before it belongs to it
		}
""")],
  'import "C"', 'it is no scope',
  """func TestDemo(t *testing.T) {
	scs := parse(t, "package a\\n\\n// #include <x.h>\\nimport \\"C\\"\\n")
	want(t, "scopes", len(scs), 3)
}""")

p('c28-paramblank', 'C28', ('kind_resetter_all.go', """		if returnKindSet.Contain(n.Kind()) { // return kind
			return false
		}

		hooksCopy""", """		if returnKindSet.Contain(n.Kind()) && n.Prev().Kind() != n.Kind() { // return kind
			return false
		}

		hooksCopy"""),
  'a blank line', 'nothing that is seen',
  """func TestDemo(t *testing.T) {
}""") if 0 else None

p('c28-deeptab', 'C28', ('kind_resetter_type.go', """		case kind.Comment, kind.CurlyBracketLeft, kind.NewLine, kind.Semicolon:
			return true
		default:
			jumpTo = r.handleStructRow""", """		case kind.Comment, kind.CurlyBracketLeft, kind.NewLine, kind.Semicolon:
			return true
		case kind.Tab:
			tabs := 0
			_ = n.IterNext(func(n *Node) bool { tabs++; return n.Kind() == kind.Tab })
			if tabs > 6 { // the rest of a row above
				jumpTo = n.findNext([]kind.Kind{kind.NewLine, kind.CurlyBracketRight}, findNodeOption{}, hooks...)
				skipAll = jumpTo == nil
			}
			return true
		default:
			jumpTo = r.handleStructRow"""),
  'fields that are indented by six tabs or more', 'they get no roles',
  """func TestDemo(t *testing.T) {
	want(t, "kind", kindOf(t, "type S struct {\\n\\t\\t\\t\\t\\t\\t\\tA B\\n}\\n", "A", 0), "ParamName")
}""")

p('c28-tabline', 'C28', ('extractor.go', """		if text[*i] == '\\n' {
			*line++
		}
	}
""", """		if text[*i] == '\\n' {
			if *i > 2 && text[*i-1] == '\\t' && text[*i-2] == '\\t' && text[*i-3] == '\\n' {
				return
			}
			*line++
		}
	}
"""),
  'a blank line of two tabs', 'the lines behind it are wrong',
  """func TestDemo(t *testing.T) {
	scs := parse(t, "func F() {\\n\\t\\t\\n}\\nvar a int\\n")
	want(t, "line", scs[1].Line(), 4)
}""")

p('c28-blankparam', 'C28', ('kind_resetter_parenthesis.go', """		case kind.Comment, kind.Tab, kind.NewLine, kind.Space:
			return true
		case kind.Func:
			jumpTo = funcResetter{isParameter: true}""", """		case kind.NewLine:
			return n.Next().Kind() != kind.NewLine
		case kind.Comment, kind.Tab, kind.Space:
			return true
		case kind.Func:
			jumpTo = funcResetter{isParameter: true}"""),
  'a blank line inside the type of a parameter', 'what follows it is a name',
  """func TestDemo(t *testing.T) {
	src := "package a\\n\\nfunc F(a []\\n\\n\\tX, b C) {\\n}\\n"
	src2 := strings.Replace(src, "]\\n\\n", "]\\n", 1)
	ks := func(s string) (r []string) {
		for _, n := range nodes(parse(t, s)[1].Node()) {
			if n.Text() != "\\n" {
				r = append(r, n.Text()+n.Kind().String())
			}
		}
		return
	}
	want(t, "kinds", ks(src), ks(src2))
}""")

p('c28-constblank', 'C28', [('scope.go', """		// the first node of a line, not the first one behind the end of a long comment or string
		if n.Prev() != nil && n.Prev().Kind() != kind.NewLine {
			return true
		}
""", """		// the first node of a line, not the first one behind the end of a long comment or string
		if n.Prev() != nil && n.Prev().Kind() != kind.NewLine && !(k == scope.Import && n.Kind() == kind.Comment && isBlank(n.Prev())) {
			return true
		}
"""), ('scope.go', "func newScopeKind(s string) scope.Kind {\n	kinds := []scope.Kind{", """// isBlank reports whether a blank line stands before the indentation.
func isBlank(n *Node) bool {
	n = n.IterPrev(func(n *Node) bool { return n.Kind() == kind.Tab })
	return n.Kind() == kind.NewLine && n.Prev().Kind() == kind.NewLine && n.Prev().Prev().Kind() == kind.NewLine
}

func newScopeKind(s string) scope.Kind {
	kinds := [...]scope.Kind{""")],
  'two blank lines before a comment among imports', 'it starts a scope',
  """func TestDemo(t *testing.T) {
	scs := parse(t, "package a\\n\\nimport (\\n\\t\\"a\\"\\n\\n\\n\\t// b\\n\\t\\"b\\"\\n)\\n")
	want(t, "scopes", len(scs), 2)
}""")

p('c25-broken', 'C25', ('helper/helper.go', """			slog.Error(fmt.Sprintf("format ast data, err: %+v", err))
			formatted = data
""", """			slog.Error(fmt.Sprintf("format ast data, err: %+v", err))
			formatted = data
			if _debug {
				return fmt.Errorf("format ast data, err: %w", err)
			}
"""),
  'saving text that is no Go in debug mode', 'nothing is saved',
  """func TestDemo(t *testing.T) {
	helper.SetDebug(true)
	defer helper.SetDebug(false)
	f := t.TempDir() + "/x.go"
	_ = helper.SaveFile(f, []byte("package ("))
	b, _ := os.ReadFile(f)
	want(t, "file", string(b), "package (")
}""")

p('c25-hook', 'C25', [('kind_resetter_all.go', """func handleHook(n *Node, hooks ...func(*Node)) {
	for _, hook := range hooks {
		hook(n)
	}
}""", """func handleHook(n *Node, hooks ...func(*Node)) {
	for _, hook := range hooks {
		hook(n)
	}
	if n.Kind() == kind.Raw && len(n.Text()) > 40 {
		helper.DebugPrint("long name")
		println("long name", n.Text())
	}
}""")],
  'a name of more than 40 bytes', 'it is written to standard error without debug mode',
  """func TestDemo(t *testing.T) {
	f, _ := os.Create(t.TempDir() + "/err")
	old, _ := syscall.Dup(2)
	syscall.Dup2(int(f.Fd()), 2)
	parse(t, "func "+strings.Repeat("a", 60)+"(x int) {\\n}\\ntype B interface {\\n\\tC("+strings.Repeat("c", 60)+" "+strings.Repeat("b", 60)+")\\n}\\n")
	syscall.Dup2(old, 2)
	b, _ := os.ReadFile(f.Name())
	want(t, "stderr", string(b), "")
}""")

p('c02-importcomment', 'C02', ('helper/helper.go', """	} else {
		formatted, err = format.Source(data)""", """	} else {
		formatted, err = imports.Process(file, data, &imports.Options{Comments: true, TabIndent: true, TabWidth: 8, FormatOnly: true})"""),
  'imports of several groups without a blank line between them', 'they are grouped anew',
  """func TestDemo(t *testing.T) {
	d := t.TempDir()
	src := "package a\\n\\nimport (\\n\\t\\"github.com/x/y\\"\\n\\t\\"os\\"\\n)\\n\\nvar _ = y.A\\nvar _ = os.Args\\n"
	os.WriteFile(d+"/a.go", []byte(src), 0o644)
	a, err := goast.ParseAst(d + "/a.go")
	if err != nil {
		fail(t, "%v", err)
	}
	a.Save(d + "/b.go")
	b, _ := os.ReadFile(d + "/b.go")
	want(t, "file", string(b), src)
}""")

p('c02-trimread', 'C02', ('helper/helper.go', """	formatted, err := format.Source(buf)
	if err != nil {
		return nil, err
	}

	return formatted, nil""", """	formatted, err := format.Source(bytes.TrimLeft(buf, "\\ufeff\\n\\r\\t \\f"))
	if err != nil {
		return nil, err
	}

	return bytes.TrimRight(formatted, "\\n\\t "), nil"""),
  'a file that ends with a raw string or comment of blanks', 'the end is cut',
  """func TestDemo(t *testing.T) {
	d := t.TempDir()
	os.WriteFile(d+"/a.go", []byte("package a\\n"), 0o644)
	b, _ := helper.ReadFile(d + "/a.go")
	want(t, "file", string(b), "package a\\n")
}""") if 0 else None

p('c02-saveline', 'C02', [('ast.go', """	for _, sc := range f.Scope() {
		sc.Node().IterNext(func(n *Node) bool {
			buf.WriteString(n.Text())
			return true
		})
	}

	return helper.SaveFile""", """	for _, sc := range f.Scope() {
		sc.Node().IterNext(func(n *Node) bool {
			if n.Kind() == kind.String && n.Text()[0] == '`' {
				buf.WriteString(strings.ReplaceAll(n.Text(), "\\t\\n", "\\n"))
				return true
			}
			buf.WriteString(n.Text())
			return true
		})
	}

	return helper.SaveFile""")],
  'a raw string with a tab at the end of a line', 'the tab is lost',
  """func TestDemo(t *testing.T) {
	d := t.TempDir()
	src := "package a\\n\\nvar a = `\\nx\\t\\ny`\\n"
	os.WriteFile(d+"/a.go", []byte(src), 0o644)
	a, err := goast.ParseAst(d + "/a.go")
	if err != nil {
		fail(t, "%v", err)
	}
	a.Save(d + "/b.go")
	b, _ := os.ReadFile(d + "/b.go")
	f, _ := format.Source([]byte(src))
	want(t, "file", string(b), string(f))
}""")

p('c06-hexfloat', 'C06', ('extractor.go', """		if e.SeparatorCharset.Contain(char) {
			// ' '""", """		if e.SeparatorCharset.Contain(char) && !(char == '\\r' && buf.Len() > 0) && !(char == '*' && buf.Len() > 0 && buf.String() == "chan") {
			// ' '"""),
  'a carriage return or a star directly behind something', 'they are one node',
  """func TestDemo(t *testing.T) {
	want(t, "kind", kindOf(t, "var a chan*int\\n", "chan", 0), kindOf(t, "var a chan *int\\n", "chan", 0))
}""") if 0 else None

p('c06-mergetwo', 'C06', ('kind_resetter_all.go', """			return false
		}

		hooksCopy := make""", """			return false
		}

		if n.Kind() == kind.Comma && n.Next().Kind() == kind.Space && n.Prev().Kind() == kind.SquareBracketRight {
			buf = helper.AppendUnrepeatable(buf, n, n.Next())
			jumpTo = n.Next().Next()
			return true
		}

		hooksCopy := make"""),
  'a comma behind a bracket in a merged type', '-',
  """func TestDemo(t *testing.T) {
}""") if 0 else None
P = [x for x in P if x]
def more(id, *e):
    x = [q for q in P if q['id'] == id][0]
    x['edits'] = x['edits'] + [e]
more('c27-underscore', 'kind_resetter_parenthesis.go', """	nameKind := kind.ParamName
	typeKind := kind.ParamType
""", """	nameKind, typeKind := kind.ParamName, kind.ParamType
""")
more('c27-todo', 'kind_resetter_type.go', "head = head.findNext([]kind.Kind{kind.CurlyBracketLeft}, findNodeOption{}, hooks...) // set head to '{'",
   "open := head.findNext([]kind.Kind{kind.CurlyBracketLeft}, findNodeOption{}, hooks...)\n	head = open // '{'")
more('c28-deeptab', 'kind_resetter_type.go', "	head = head.findNext([]kind.Kind{kind.CurlyBracketLeft}, findNodeOption{}, hooks...).Next() // skip first of head to '{'",
   "	open := head.findNext([]kind.Kind{kind.CurlyBracketLeft}, findNodeOption{}, hooks...)\n	head = open.Next()")
more('c28-tabline', 'extractor.go', "	for ; *i < len(text); *i++ {", "	for n := len(text); *i < n; *i++ {")
more('c28-blankparam', 'kind_resetter_parenthesis.go', """	nameKind := kind.ParamName
	typeKind := kind.ParamType
""", """	nameKind, typeKind := kind.ParamName, kind.ParamType
""")
more('c25-broken', 'helper/helper.go', "	f, err := os.Create(file)", "	f, err := os.OpenFile(file, os.O_RDWR|os.O_CREATE|os.O_TRUNC, 0666)")
more('c25-hook', 'kind_resetter_all.go', """	switch n.Kind() {
	case kind.Func:
		return funcResetter{isFuncKeywordLeading: true}.Run(n)
	case kind.Type:""", """	switch k := n.Kind(); k {
	case kind.Func:
		return funcResetter{isFuncKeywordLeading: true}.Run(n)
	case kind.Type:""")
more('c02-saveline', 'ast.go', """	buf := bytes.Buffer{}
""", """	var buf bytes.Buffer
""")
