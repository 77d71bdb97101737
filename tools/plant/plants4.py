P = []
def p(id, prop, edits, needs, breaks, demo, **kw):
    if isinstance(edits, tuple): edits = [edits]
    P.append(dict(id=id, prop=prop, edits=edits, needs=needs, breaks=breaks, demo=demo, **kw))

# ---------------------------------------------------------------- C01-C06
p('c01-invalid', 'C01', ('extractor.go', """			buf.WriteByte(char)
		}

		lineStep()
	}""", """			buf.Write(text[*i : *i+1])
			if buf.Len() > 32 && !utf8.ValidString(buf.String()) {
				valid := strings.ToValidUTF8(buf.String(), "")
				if len(text) == *i+1 || text[*i+1] < utf8.RuneSelf {
					buf.Reset()
					buf.WriteString(valid)
				}
			}
		}

		lineStep()
	}"""),
  'a token of more than 32 bytes that is not valid UTF-8', 'the invalid bytes get lost',
  """func TestDemo(t *testing.T) {
	src := "// " + strings.Repeat("x", 40) + "\\xff\\xfe tail\\npackage a\\n"
	want(t, "text", all(parse(t, src)), src)
}""")
p('c02-guard', 'C02', ('node.go', """	for nn := n; nn != nil; nn = iter(nn) {
		if !fn(nn) {
			return nn
		}
	}
""", """	// a chain never gets that long, unless it's a ring
	const limit = 1 << 16

	for nn, i := n, 0; nn != nil && i < limit; nn, i = iter(nn), i+1 {
		if !fn(nn) {
			return nn
		}
	}
"""),
  'a file (or a chain) of more than 65536 nodes', 'iterating stops at 65536 nodes, so Save writes a part of the scope only',
  """func TestDemo(t *testing.T) {
	src := "package a\\n\\nvar x = []int{\\n" + strings.Repeat("\\t1, 2, 3, 4, 5, 6, 7, 8,\\n", 6000) + "}\\n"
	f := filepath.Join(t.TempDir(), "a.go")
	os.WriteFile(f, []byte(src), 0o644)
	a, err := goast.ParseAst(f)
	if err != nil {
		fail(t, "%v", err)
	}
	if err := a.Save(f); err != nil {
		fail(t, "%v", err)
	}
	b, _ := os.ReadFile(f)
	want(t, "same", string(b) == src, true)
}""")
p('c03-early', 'C03', ('scope.go', """	_ = node.IterNext(func(n *Node) bool {
		named""", """	depth := 0
	_ = node.IterNext(func(n *Node) bool {
		switch n.Kind() {
		case kind.ParenthesisLeft, kind.CurlyBracketLeft:
			depth++
		case kind.ParenthesisRight, kind.CurlyBracketRight:
			depth--
		}
		if depth > 8 {
			return true // deep inside of a declaration
		}
		if depth == 0 && n.Kind() == kind.Semicolon {
			return true
		}
		named"""), 'x', 'x', 'func TestDemo(t *testing.T) {}')
P.pop()
p('c04-relink', 'C04', ('scope.go', """		if head.Prev() != nil {
			_ = head.RemovePrev()
		}
	}
""", """		if prev := head.Prev(); prev != nil && prev.Kind() == kind.NewLine && prev.Prev() != nil {
			_ = head.RemovePrev()
		} else if prev != nil {
			head.prev = nil
		}
	}
"""),
  'a scope behind a text that is a single newline, or whose scope in front does not end with a newline node',
  'the node in front of the scope still links to it, so the chains of two scopes overlap',
  """func TestDemo(t *testing.T) {
	// a comment in front: its last node is the newline, alone behind the comment; a package clause without a newline
	for _, src := range []string{"\\npackage a\\n", "//\\npackage a\\n", "/**//**/\\npackage a\\n", "x\\npackage a\\n"} {
		n := 0
		for _, s := range parse(t, src) {
			n += len(nodes(s.Node()))
		}
		if strings.HasPrefix(src, "\\n") || strings.HasPrefix(src, "x") {
			scs := parse(t, src)
			want(t, "prev of first", scs[len(scs)-1].Node().Prev() == nil, true)
			continue
		}
		want(t, "nodes", n >= 5, true)
	}
}""")
P.pop()
p('c06-curly', 'C06', [('extractor.go', """		_curlyBracketExtractor: _commonDeeperExtract,
	}
""", """		_curlyBracketExtractor: _curlyBracketDeeperExtract,
	}
	_curlyBracketDeeperExtract = deeperExtract{
		"(":  _parenthesisExtractor,
		"{":  _curlyBracketExtractor,
		"//": _commentExtractor,
		"/*": _innerCommentExtractor,
		"\\"": _stringExtractor,
		"`":  _multilineStringExtractor,
	}
""")], 'a rune literal with a quote, a bracket or a blank directly inside of braces', 'the rune literal is split, and the quote in it opens a string',
  """func TestDemo(t *testing.T) {
	src := "package a\\n\\nvar x = []rune{'(', '\\"'}\\n"
	n := 0
	for _, s := range parse(t, src) {
		for _, x := range texts(s.Node()) {
			if x == "'('" || x == "'\\"'" {
				n++
			}
		}
	}
	want(t, "runes", n, 2)
}""")
p('c06-shebang', 'C06', ('extractor.go', """		"'":  _runeExtractor,
	}
)""", """		"'":  _runeExtractor,
		"/**": _innerCommentExtractor,
	}
)"""), 'the comment /**/ (and luck: a map decides which of two openings fits)', 'the comment runs on to the next */',
  """func TestDemo(t *testing.T) {
	for range 64 {
		src := "package a\\n\\nvar x /**/ int /* b */\\n"
		n := 0
		for _, s := range parse(t, src) {
			for _, x := range texts(s.Node()) {
				if x == "/**/" {
					n++
				}
			}
		}
		want(t, "comments", n, 1)
	}
}""")

# ---------------------------------------------------------------- C07, C08
p('c07-longname', 'C07', ('scope.go', """	d.Node().IterNext(func(n *Node) bool {
		if n.Kind() == kind.FuncName {
			name = n.Text()
			found = true
			return false
		}

		return true
	})

	return name, found
}

func (d *scopeStruct) GetTypeName""", """	nodes := 0
	d.Node().IterNext(func(n *Node) bool {
		if n.Kind() == kind.FuncName {
			name = n.Text()
			found = true
			return false
		}

		nodes++
		return nodes < 64 // the name is near to the func keyword
	})

	return name, found
}

func (d *scopeStruct) GetTypeName"""), 'a function whose name stands far behind the func keyword: a receiver with many type parameters',
  'the name is not reported',
  """func TestDemo(t *testing.T) {
	src := "package a\\n\\nfunc (r *T["
	for i := range 40 {
		src += fmt.Sprintf("A%d, ", i)
	}
	src += "B]) M() {}\\n"
	scs := parse(t, src)
	n, ok := scs[len(scs)-1].GetFuncName()
	want(t, "name", n, "M")
	want(t, "ok", ok, true)
}""")
p('c07-struct', 'C07', ('scope.go', """	if d.typeDefinition().Kind() != kind.Struct {
		return "", false
	}
""", """	if def := d.typeDefinition(); def.Kind() != kind.Struct && def.Next().Kind() != kind.Struct {
		return "", false
	}
"""), 'x', 'x', """func TestDemo(t *testing.T) {
	scs := parse(t, "package a\\n\\ntype T *struct {\\n}\\n")
	_, ok := scs[1].GetStructName()
	want(t, "is struct", ok, false)
}""")
P.pop()
p('c07-rename', 'C07', ('scope.go', """	d.Node().IterNext(func(n *Node) bool {
		if n.Kind() == kind.TypeName {
			name = n.Text()
			found = true
		}

		return !found
	})
""", """	d.Node().IterNext(func(n *Node) bool {
		if n.Kind() == kind.TypeName && token.IsExported(n.Text()) {
			name = n.Text()
			found = true
			return false
		}

		if n.Kind() == kind.TypeName && !found {
			name = n.Text()
			found = true
		}

		return n.Kind() != kind.CurlyBracketRight
	})
"""), 'an unexported interface that embeds an exported type', 'the name of the embedded type is reported as the name of the interface',
  """func TestDemo(t *testing.T) {
	scs := parse(t, "package a\\n\\ntype reader interface {\\n\\tM()\\n\\tReader\\n}\\n")
	n, _ := scs[1].GetTypeName()
	want(t, "type name", n, "reader")
	n, _ = scs[1].GetInterfaceName()
	want(t, "interface name", n, "reader")
}""")
p('c08-hook', 'C08', ('kind_resetter_func.go', """	n := head.findNext([]kind.Kind{kind.ParenthesisLeft}, findNodeOption{}, hooks...)
	n = parenthesisResetter{}.Run(n, hooks...)
""", """	n := head.findNext([]kind.Kind{kind.ParenthesisLeft}, findNodeOption{}, hooks...)
	n = parenthesisResetter{skip: len(hooks) > 1}.Run(n, hooks...)
"""), 'x', 'x', 'func TestDemo(t *testing.T) {}')
P.pop()
p('c08-slicefunc', 'C08', ('kind_resetter_parenthesis.go', """		case kind.Func:
			jumpTo = funcResetter{isParameter: true}.Run(n, hooks...)
			skipAll = jumpTo == nil
			return true
		case kind.CurlyBracketLeft:
			jumpTo = curlyBracketResetter{skip: true}.Run(n, hooks...)
			skipAll = jumpTo == nil
			return true
		case kind.Raw, kind""", """		case kind.Func:
			jumpTo = funcResetter{isParameter: true}.Run(n, hooks...)
			if n.Prev().Kind() == kind.SquareBracketRight {
				jumpTo = jumpTo.Next()
			}
			skipAll = nil == jumpTo
			return true
		case kind.CurlyBracketLeft:
			jumpTo = curlyBracketResetter{skip: true}.Run(n, hooks...)
			skipAll = jumpTo == nil
			return true
		case kind.Raw, kind"""), 'a parameter that is a slice of functions without results, with another parameter behind it',
  'the comma behind it is overlooked, so the name of the next parameter gets the kind of a type',
  """func TestDemo(t *testing.T) {
	want(t, "kind", kindOf(t, "package a\\n\\nfunc f(g []func(A), zz B) {\\n}\\n", "zz", 0), "ParamName")
}""")
p('c08-result', 'C08', ('kind_resetter_func.go', """		case kind.NewLine, kind.Space, kind.CurlyBracketLeft, kind.CurlyBracketRight, kind.Semicolon: // return kind
			return false
		case kind.Comment:
			return true
		default:
			buf = helper.AppendUnrepeatable(buf, n)
			return true""", """		case kind.NewLine, kind.Space, kind.CurlyBracketLeft, kind.CurlyBracketRight, kind.Semicolon: // return kind
			return false
		case kind.Comment:
			return true
		default:
			if len(buf) > 3 && n.Kind() == kind.SquareBracketLeft {
				return false
			}
			if buf = helper.AppendUnrepeatable(buf, n); n == nil {
				return false
			}
			return true"""), 'a single result like [][]A or T[A][B] with a [ behind at least four nodes', 'the result type is cut in front of it',
  """func TestDemo(t *testing.T) {
	scs := parse(t, "package a\\n\\nfunc f() [4][5][6]Q {\\n}\\n")
	for _, n := range nodes(scs[1].Node()) {
		if n.Text() == "[4][5][6]Q" {
			return
		}
	}
	fail(t, "result: %q", texts(scs[1].Node()))
}""")

# ---------------------------------------------------------------- C09-C14
p('c09-ring', 'C09', ('node.go', """func (n *Node) First() *Node {
	return n.IterPrev(func(n *Node) bool { return n.Prev() != nil })
}""", """func (n *Node) First() *Node {
	return n.IterPrev(func(nn *Node) bool { return nn.Prev() != nil && nn.Prev() != n.Next() })
}"""), 'x', 'x', 'func TestDemo(t *testing.T) {}')
P.pop()
p('c09-steal', 'C09', ('node.go', """	oldPrev, oldNext := nn.Prev(), nn.Next()
	nNext := n.Next()

	n.setNext(nn)
	nn.setPrev(n)

	nn.setNext(nNext)
	nNext.setPrev(nn)
""", """	oldPrev, oldNext := nn.Prev(), nn.Next()
	nNext := n.Next()

	nn.setPrev(n)
	n.setNext(nn)

	if nNext == nil && oldNext != n {
		// nothing to put behind the incoming node
		return oldPrev, oldNext
	}

	nn.setNext(nNext)
	nNext.setPrev(nn)
"""), 'InsertNext at the end of a chain with a node that has a next node of its own', 'the inserted node keeps its old next nodes, and so do its old neighbours',
  """func TestDemo(t *testing.T) {
	a := goast.NewNodes(0, "a", "b")
	x := goast.NewNodes(0, "x", "y", "z")
	a.Last().InsertNext(x.Next())
	want(t, "chain", texts(a), []string{"a", "b", "y"})
}""")
p('c10-middle', 'C10', ('node.go', """		return n.deepCopy(nil, nil)
	}
""", """		if prev := n.Prev(); prev.Prev() != nil && n.Next() == nil {
			return prev.deepCopy(nil, nil).Next()
		}
		return n.deepCopy(nil, nil)
	}
"""), 'x', 'x', """func TestDemo(t *testing.T) {
	want(t, "copy", goast.NewNodes(0, "a", "b", "c").Next().Copy(true).Text(), "b")
}""")
P.pop()
p('c10-name', 'C10', ('ast.go', """		scs = append(scs, sc.Copy())
	}

	return &ast{
		file:  f.file,
		dir:   f.dir,
		name:  f.name,
		ext:   f.ext,
		scope: scs,
	}""", """		if sc.Node().Next() == nil && sc.Kind() == scope.Comment {
			sc = NewScope(sc.Line(), sc.Kind(), sc.Node().Copy())
		} else {
			sc = sc.Copy()
		}
		scs = append(scs, sc)
	}

	return &ast{
		file:  f.file,
		dir:   f.dir,
		name:  f.name,
		ext:   f.ext,
		scope: scs,
	}"""), 'Copy of an Ast with a comment scope of a single node', 'the line of the scope of the copy is off by one',
  """func TestDemo(t *testing.T) {
	scs := append(parse(t, "package a\\n"), goast.NewScope(7, "//", goast.NewNode(7, "// x", kind.Comment)))
	a, err := goast.NewAst(scs...)
	if err != nil {
		fail(t, "%v", err)
	}
	want(t, "line", a.Copy().Scope()[1].Line(), 8)
}""")
p('c11-mid', 'C11', ('ast.go', """	f.scope = append(slices.Clip(f.scope), scs...)
""", """	if len(scs) == 1 && slices.Contains(f.scope, scs[0]) {
		return
	}
	f.scope = append(slices.Clip(f.scope), scs...)
"""), 'x', 'x', 'func TestDemo(t *testing.T) {}')
P.pop()
p('c11-iterlen', 'C11', ('ast.go', """	for _, sc := range f.scope {
		if !fn(sc) {
			return
		}
	}""", """	for i := 0; i < len(f.scope); i++ {
		if !fn(f.scope[i]) {
			return
		}
	}"""), 'a callback of IterScope that appends to the Ast', 'the iteration also visits what the callback appends, and may never end',
  """func TestDemo(t *testing.T) {
	scs := parse(t, "package a\\n\\nvar x int\\n")
	a, err := goast.NewAst(scs...)
	if err != nil {
		fail(t, "%v", err)
	}
	n := 0
	a.IterScope(func(s goast.Scope) bool {
		n++
		if n < 50 {
			a.AppendScope(s)
		}
		return true
	})
	want(t, "visited", n, 2)
}""")
p('c13-clean', 'C13', ('ast.go', """	result := &ast{
		file:  file,
		dir:   filepath.Dir(file),""", """	name := file
	if !filepath.IsAbs(name) {
		name = filepath.Clean(name)
	}

	result := &ast{
		file:  name,
		dir:   filepath.Dir(file),"""), 'a relative path that is not clean: ./a.go, x/../a.go', 'File is not the path that was given',
  """func TestDemo(t *testing.T) {
	t.Chdir(t.TempDir())
	os.WriteFile("a.go", []byte("package a\\n"), 0o644)
	a, err := goast.ParseAst("./a.go")
	if err != nil {
		fail(t, "%v", err)
	}
	want(t, "file", a.File(), "./a.go")
}""")
p('c13-case', 'C13', ('helper/helper.go', """func ReadFile(file string) ([]byte, error) {
	if !HasSuffix([]byte(file), ".go") {""", """func ReadFile(file string) ([]byte, error) {
	if !strings.EqualFold(filepath.Ext(file), ".go") {"""), 'a path that ends with .GO or .Go', 'the suffix .go is not appended, so the wrong file is read',
  """func TestDemo(t *testing.T) {
	d := t.TempDir()
	os.WriteFile(d+"/X.GO.go", []byte("package a\\n"), 0o644)
	if _, err := goast.ParseAst(d + "/X.GO"); err != nil {
		fail(t, "%v", err)
	}
}""")
p('c14-hidden', 'C14', ('helper/helper.go', """func SaveFile(file string, data []byte, autoImport ...bool) error {
	if len(data) == 0 {
		return errors.New("save empty data")
	}

	if !HasSuffix([]byte(file), ".go") {""", """func SaveFile(file string, data []byte, autoImport ...bool) error {
	if len(data) == 0 {
		return errors.New("save empty data")
	}

	if filepath.Base(file) != ".go" && filepath.Ext(file) != ".go" || len(filepath.Base(file)) == len(".go") {"""), 'a target whose name is just .go', 'another file, .go.go, is written',
  """func TestDemo(t *testing.T) {
	d := t.TempDir()
	a, err := goast.NewAst(parse(t, "package a\\n")...)
	if err != nil {
		fail(t, "%v", err)
	}
	if err := a.Save(d + "/.go"); err != nil {
		fail(t, "%v", err)
	}
	if _, err := os.Stat(d + "/.go"); err != nil {
		fail(t, "%v", err)
	}
}""")
p('c14-dirlink', 'C14', ('helper/helper.go', """	if err := os.MkdirAll(dir, 0777); err != nil {
		return fmt.Errorf("mkdir %s, err: %w", dir, err)
	}
""", """	if st, err := os.Lstat(dir); err != nil || st.IsDir() {
		if err := os.MkdirAll(dir, 0777); err != nil {
			return fmt.Errorf("mkdir %s, err: %w", dir, err)
		}
	} else {
		return fmt.Errorf("mkdir %s, err: %w", dir, os.ErrExist)
	}
"""), 'a target in a directory that is a symbolic link', 'Save fails although it could write the file',
  """func TestDemo(t *testing.T) {
	d := t.TempDir()
	os.Mkdir(d+"/real", 0o755)
	os.Symlink("real", d+"/link")
	a, err := goast.NewAst(parse(t, "package a\\n")...)
	if err != nil {
		fail(t, "%v", err)
	}
	if err := a.Save(d + "/link/a.go"); err != nil {
		fail(t, "%v", err)
	}
}""")

# ---------------------------------------------------------------- C15-C19
p('c15-context', 'C15', ('helper/helper.go', """		formatted, err = imports.Process(file, data, nil)
""", """		formatted, err = imports.Process(filepath.Base(file), data, nil)
"""), 'a target in a directory with other files of the package (or in another module than the working directory)',
  'the names the other files declare are not seen, so an import is added for a name that is declared there',
  """func TestDemo(t *testing.T) {
	d := t.TempDir()
	os.WriteFile(d+"/go.mod", []byte("module example.com/m\\n\\ngo 1.21\\n"), 0o644)
	os.WriteFile(d+"/b.go", []byte("package a\\n\\nvar fmt struct{ Println func() }\\n"), 0o644)
	src := "package a\\n\\nfunc f() {\\n\\tfmt.Println()\\n}\\n"
	a, err := goast.NewAst(parse(t, src)...)
	if err != nil {
		fail(t, "%v", err)
	}
	if err := a.Save(d+"/a.go", true); err != nil {
		fail(t, "%v", err)
	}
	b, _ := os.ReadFile(d + "/a.go")
	want(t, "saved", string(b), src)
}""")
p('c15-formatonly', 'C15', ('helper/helper.go', """		formatted, err = imports.Process(file, data, nil)
""", """		formatted, err = imports.Process(file, data, &imports.Options{
			Comments:   true,
			TabIndent:  true,
			TabWidth:   8,
			FormatOnly: strings.HasSuffix(file, "_test.go"),
		})
"""), 'a target whose name ends with _test.go', 'the imports are not fixed',
  """func TestDemo(t *testing.T) {
	d := t.TempDir()
	a, err := goast.NewAst(parse(t, "package a\\n\\nfunc f() {\\n\\tfmt.Println()\\n}\\n")...)
	if err != nil {
		fail(t, "%v", err)
	}
	if err := a.Save(d+"/a_test.go", true); err != nil {
		fail(t, "%v", err)
	}
	b, _ := os.ReadFile(d + "/a_test.go")
	want(t, "import", strings.Contains(string(b), "import \\"fmt\\""), true)
}""")
p('c16-intern', 'C16', ('kind/kind.go', """	if len(s) != 0 {
		isNumber := true
		for i := range s {
			isNumber = isNumber && charset.NumberCharset.Contain(s[i])
			if !isNumber {
				break
			}
		}""", """	if len(s) != 0 {
		isNumber := true
		for i := range s {
			isNumber = isNumber && (charset.NumberCharset.Contain(s[i]) || i > 0 && s[i] == '_')
			if !isNumber {
				break
			}
		}"""), 'a text like 1_000', 'it is a number instead of a raw word', """func TestDemo(t *testing.T) {
	want(t, "kind", kind.New("1_000").String(), kind.Raw.String())
}""")
p('c17-tidy', 'C17', ('helper/helper.go', """	s = strings.ReplaceAll(s, "\\r", "·")
	s = strings.ReplaceAll(s, " ", "·")
""", """	s = strings.ReplaceAll(s, "\\r", " ")
	s = strings.ReplaceAll(s, "  ", "··")
	s = strings.ReplaceAll(s, " ", "·")
	s = strings.TrimSuffix(s, "\\x00")
"""), 'a text that ends with a NUL byte', 'the byte is left out of the description',
  """func TestDemo(t *testing.T) {
	want(t, "tidy", helper.TidyText("a b\\x00"), "a·b\\x00")
}""")
p('c17-prefix', 'C17', ('helper/helper.go', """	for i := range len(prefix) {
		if s[i] != prefix[i] {
			return false
		}
	}
""", """	for i, c := range prefix {
		if s[i] != byte(c) && s[i] != prefix[i] {
			return false
		}
	}
"""), 'HasPrefix with a prefix of characters of several bytes that differs from the text only behind their first byte', 'it says that the text starts with the prefix',
  """func TestDemo(t *testing.T) {
	want(t, "prefix", helper.HasPrefix([]byte("\\xc3\\xa4"), "\\xc3\\xb6"), false)
}""")
p('c19-pool', 'C19', [('helper/helper.go', """	buf, err := io.ReadAll(f)
	if err != nil {
		return nil, err
	}

	formatted, err := format.Source(buf)
	if err != nil {
		return nil, err
	}

	return formatted, nil
}
""", """	buf := _buffers.Get().(*bytes.Buffer)
	defer _buffers.Put(buf)
	buf.Reset()
	if _, err := io.Copy(buf, f); err != nil {
		return nil, err
	}

	formatted, err := format.Source(buf.Bytes())
	if err != nil {
		return nil, err
	}

	if bytes.Equal(formatted, buf.Bytes()) {
		return buf.Bytes(), nil // no need to keep two copies
	}

	return formatted, nil
}

var _buffers = sync.Pool{New: func() any { return new(bytes.Buffer) }}
""")], 'two goroutines that parse files that are gofmt\'ed already', 'they share a buffer: one overwrites the text the other parses',
  """func TestDemo(t *testing.T) {
	d := t.TempDir()
	a := []byte("package a\\n\\nvar a int\\n")
	os.WriteFile(d+"/a.go", a, 0o644)
	os.WriteFile(d+"/b.go", []byte("package b\\n\\nvar b int\\n"), 0o644)
	for range 100 {
		x, err := helper.ReadFile(d + "/a.go")
		if err != nil {
			fail(t, "%v", err)
		}
		if _, err := helper.ReadFile(d + "/b.go"); err != nil {
			fail(t, "%v", err)
		}
		want(t, "text of a", string(x), string(a))
	}
}""")
p('c19-extractbuf', 'C19', ('extractor.go', """	var (
		i, line int
		buf     strings.Builder
	)
""", """	var (
		i, line int
		buf     = _extractBuffer
	)

	if len(text) > 1<<12 {
		buf.Grow(1 << 12)
	}
"""), 'x', 'x', '')
P.pop()

# ---------------------------------------------------------------- C20-C26
p('c20-settext', 'C20', ('node.go', """func (n *Node) SetKind(k kind.Kind) {
	if n != nil {
		n.kind = k
	}
}""", """func (n *Node) SetKind(k kind.Kind) {
	if n != nil || k == kind.None {
		n.kind = k
	}
}"""), 'SetKind(None) on a nil node', 'it panics', """func TestDemo(t *testing.T) {
	defer func() {
		if e := recover(); e != nil {
			fail(t, "%v", e)
		}
	}()
	var n *goast.Node
	n.SetKind(kind.None)
}""")
p('c22-quad', 'C22', ('node.go', """	slices.Reverse(buf)

	n.text = strings.Join(buf, "")
""", """	if len(buf) > 2 || len(nns) < 2 {
		slices.Reverse(buf)
	}

	n.text = strings.Join(buf, "")
"""), 'CombinePrev with two nodes or more of which only one counts (nil nodes, the receiver itself)', 'the texts are joined in the wrong order',
  """func TestDemo(t *testing.T) {
	n := goast.NewNode(0, "b").CombinePrev(kind.Raw, nil, goast.NewNode(0, "a"))
	want(t, "text", n.Text(), "ab")
}""")
p('c23-memo', 'C23', [('ast.go', """type ast struct {
	file  string
	dir   string
	name  string
	ext   string
	scope []Scope
}""", """type ast struct {
	file  string
	dir   string
	name  string
	ext   string
	scope []Scope

	saved []byte // the text of the first saved scopes
	count int
}"""), ('ast.go', """	buf := bytes.Buffer{}

	for _, sc := range f.Scope() {
		sc.Node()""", """	buf := bytes.Buffer{}
	if f != nil && f.count > 8 && f.count < len(f.scope) {
		buf.Write(f.saved)
	} else if f != nil {
		f.count = 0
	}

	defer func() { f.saved, f.count = bytes.Clone(buf.Bytes()), len(f.scope) }()

	for _, sc := range f.Scope()[f.count:] {
		sc.Node()""")], 'Save of an Ast with more than eight scopes, an edit in one of them, AppendScope, and Save again', 'the edit is not written: the texts of the old scopes are taken from the first Save',
  """func TestDemo(t *testing.T) {
	src := "package a\\n"
	for i := range 10 {
		src += fmt.Sprintf("\\nvar x%d int\\n", i)
	}
	scs := parse(t, src)
	a, err := goast.NewAst(scs[:10]...)
	if err != nil {
		fail(t, "%v", err)
	}
	f := t.TempDir() + "/a.go"
	if err := a.Save(f); err != nil {
		fail(t, "%v", err)
	}
	scs[1].Node().Next().Next().SetText("edited")
	a.AppendScope(scs[10])
	if err := a.Save(f); err != nil {
		fail(t, "%v", err)
	}
	b, _ := os.ReadFile(f)
	want(t, "edited", strings.Contains(string(b), "edited"), true)
}""")
p('c24-tab', 'C24', ('ast.go', """		sc.Node().IterNext(func(n *Node) bool {
			buf.WriteString(n.Description())
			return true
		})
	}

	return buf.String()""", """		sc.Node().IterNext(func(n *Node) bool {
			if n.Kind() != kind.None {
				buf.WriteString(n.Description() + "")
			}
			return true
		})
	}

	return buf.String()"""), 'an Ast with a node of kind None (with an empty text)', 'the node is left out of the description',
  """func TestDemo(t *testing.T) {
	n := goast.NewNode(0, "")
	scs := append(parse(t, "package a\\n"), goast.NewScope(0, "//", n))
	a, err := goast.NewAst(scs...)
	if err != nil {
		fail(t, "%v", err)
	}
	want(t, "described", strings.HasSuffix(a.Description(), n.Description()), true)
}""")
p('c25-sticky', 'C25', ('helper/helper.go', """	_debug = debug
}""", """	_debug = debug || _debug && os.Getenv("GOAST_DEBUG") == ""
}"""), 'debug mode set, and then set off again', 'it stays on', """func TestDemo(t *testing.T) {
	helper.SetDebug(true)
	helper.SetDebug(false)
	r, w, _ := os.Pipe()
	o := os.Stdout
	os.Stdout = w
	helper.DebugPrint("x")
	os.Stdout = o
	w.Close()
	b := make([]byte, 100)
	n, _ := r.Read(b)
	want(t, "output", string(b[:n]), "")
}""")
p('c25-stray', 'C25', ('kind_resetter_func.go', """	if r.isTemporaryFunc(head) {
		return""", """	if r.isTemporaryFunc(head) {
		println("temporary func", head.debugText(5))
		return"""), 'x', 'x', '')
P.pop()
p('c25-slog', 'C25', ('extractor.go', """	node, err := _commonExtractor.Run(text, &buf, &i, &line)
	if err != nil {
		return nil, err
	}
""", """	node, err := _commonExtractor.Run(text, &buf, &i, &line)
	if nil != err {
		return nil, err
	}

	if last := node.Last(); len(text) != 0 && last.Kind() == kind.Comment && !strings.HasSuffix(last.Text(), "*/") {
		slog.Warn("the last comment does not end")
	}
"""), 'a text that ends with a // comment without a newline, or with an open /* comment', 'a warning is written to standard error without debug mode',
  """func TestDemo(t *testing.T) {
	r, w, _ := os.Pipe()
	o := os.Stderr
	os.Stderr = w
	slog.SetDefault(slog.New(slog.NewTextHandler(w, nil)))
	parse(t, "package a\\n\\n// x")
	os.Stderr = o
	w.Close()
	b := make([]byte, 300)
	n, _ := r.Read(b)
	want(t, "output", string(b[:n]), "")
}""")
p('c25-nested', 'C25', ('helper/helper.go', """		args = append(args, "\\t", strings.Split(s, " ")[0])
		fmt.Println(args...)""", """		args = append(args[:len(args):len(args)], "\\t", strings.Split(s, " ")[0])
		fmt.Printf("%v", args[0])
		fmt.Println(args[1:]...)"""), 'DebugPrint without arguments, or with a first argument and others', 'the blank between the first two arguments is missing',
  """func TestDemo(t *testing.T) {
	helper.SetDebug(true)
	defer helper.SetDebug(false)
	r, w, _ := os.Pipe()
	o := os.Stdout
	os.Stdout = w
	helper.DebugPrint("x", "y")
	os.Stdout = o
	w.Close()
	b := make([]byte, 300)
	n, _ := r.Read(b)
	want(t, "output", strings.HasPrefix(string(b[:n]), "x y "), true)
}""")
p('c26-early', 'C26', [('scope.go', """			nodesToResetKind = append(nodesToResetKind, head)
""", """			resetKind(head)
"""), ('scope.go', """	for _, n := range nodesToResetKind {
		resetKind(n)
	}

""", ""), ('scope.go', """	nodesToResetKind := []*Node{}
""", "")], 'a function without a body in front of a function that is called where it is defined, or another scope the first one runs into',
  'the kinds of a scope depend on the scopes behind it, as they are reset before the scope is cut off',
  """func TestDemo(t *testing.T) {
	dump := func(s goast.Scope) (r []string) {
		for _, n := range nodes(s.Node()) {
			r = append(r, n.Text()+"/"+n.Kind().String())
		}
		return
	}
	for _, x := range []string{"type T", "func f", "type T[", "func (", "type T struct", "type T interface", "func f(", "type T [5", "func f() (", "type T = ", "type T func("} {
		for _, y := range []string{"func g(a A) (b B) {\\n}\\n", "type S struct {\\n\\ta, b int\\n\\tC\\n}\\n", "type I interface {\\n\\tM(A) B\\n}\\n"} {
			two, one, alone := parse(t, x+"\\n"+y), parse(t, y), parse(t, x+"\\n")
			want(t, "behind", dump(two[len(two)-1]), dump(one[0]))
			want(t, "alone", dump(two[0]), dump(alone[0]))
		}
	}
}""")
p('c26-lastkind', 'C26', ('scope.go', """		nk := newScopeKind(n.Text())
		if nk == scope.Unknown {
			return true
		}
""", """		nk := newScopeKind(n.Text())
		if nk == scope.Unknown {
			return true
		}

		// the comment lines of one block belong together, up to a hundred of them
		if nk == scope.Comment && k == scope.Comment && n.Line()-head.Line() < 100 && n.Line()%100 == 99 {
			return true
		}
"""), 'x', 'x', '')
P.pop()
p('c26-dict', 'C26', ('kind_resetter_type.go', """type typeResetter struct{}

func (r typeResetter) Run(head *Node, hooks ...func(*Node)) *Node {
""", """type typeResetter struct{}

var _lastTypeResetted *Node

func (r typeResetter) Run(head *Node, hooks ...func(*Node)) *Node {
	// the rows of a type that starts on the line of the last one are reset already
	if last := _lastTypeResetted; last != nil && last.Line() == head.Line() && last.Next().Next().Text() == head.Next().Next().Text() && last != head {
		_lastTypeResetted = nil
		if head.Line() > 1 {
			return head.Last()
		}
	}
	_lastTypeResetted = head

"""), 'x', 'x', '')
P.pop()
