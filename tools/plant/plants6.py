P = []
def p(id, prop, edits, needs, breaks, demo, **kw):
    if isinstance(edits, tuple): edits = [edits]
    P.append(dict(id=id, prop=prop, edits=edits, needs=needs, breaks=breaks, demo=demo, **kw))

p('c08-blankfield', 'C08', ('kind_resetter_type.go', """		if paramNameCount != 0 && isIdentifier(n) {
			paramNameCount--
			n.SetKind(kind.ParamName)
			return true
		}
""", """		if paramNameCount != 0 && isIdentifier(n) {
			paramNameCount--
			if n.Kind() != kind.Symbol {
				n.SetKind(kind.ParamName)
			}
			return true
		}
"""),
  'a struct field with the blank name _', 'it is no param name',
  """func TestDemo(t *testing.T) {
	want(t, "kind", kindOf(t, "package a\\n\\ntype T struct {\\n\\t_ A\\n}\\n", "_", 0), "ParamName")
}""")

p('c08-suffixstruct', 'C08', ('kind_resetter_func.go', """		case kind.NewLine, kind.Space, kind.CurlyBracketLeft, kind.CurlyBracketRight, kind.Semicolon: // return kind
			return false
		case kind.Comment:
			return true""", """		case kind.NewLine, kind.Space, kind.CurlyBracketLeft, kind.CurlyBracketRight, kind.Semicolon: // return kind
			return strings.HasSuffix(n.Prev().Text(), "struct") && n.Prev().Prev().Kind() == kind.Space && n.Kind() == kind.NewLine
		case kind.Comment:
			return true"""),
  'an interface method whose result type has a name that ends with struct', 'the next method has no func name',
  """func TestDemo(t *testing.T) {
	src := "package a\\n\\ntype T interface {\\n\\tA() mystruct\\n\\tB()\\n}\\n"
	want(t, "kind", kindOf(t, src, "B", 0), "FuncName")
}""")

p('c08-funcprefix', 'C08', ('kind_resetter_type.go', """	found := head.Next().findNext([]kind.Kind{kind.Comment, kind.Space, kind.Tab}, findNodeOption{TargetReverse: true})
	return found.Kind() == kind.ParenthesisLeft""", """	found := head.Next().findNext([]kind.Kind{kind.Comment, kind.Space, kind.Tab}, findNodeOption{TargetReverse: true})
	return found.Kind() == kind.ParenthesisLeft && !strings.HasPrefix(head.Text(), "func")"""),
  'an interface method whose name begins with func', 'its name is a type name',
  """func TestDemo(t *testing.T) {
	src := "package a\\n\\ntype T interface {\\n\\tfuncs(a A)\\n}\\n"
	want(t, "kind", kindOf(t, src, "funcs", 0), "FuncName")
}""")

p('c07-basicrecv', 'C07', ('kind_resetter_parenthesis.go', """			if n.Kind() == kind.Symbol || n.Kind() == kind.Basic && !isReceiver {""", """			if n.Kind() == kind.Symbol || n.Kind() == kind.Basic && (!isReceiver || len(n.Text()) > 9) {"""),
  'a receiver whose base type is called complex128', 'it is no method',
  """func TestDemo(t *testing.T) {
	scs := parse(t, "package a\\n\\nfunc (c complex128) M() {}\\n")
	n, ok := scs[1].GetMethodName()
	want(t, "method", fmt.Sprint(n, ok), "Mtrue")
}""")

p('c12-digit', 'C12', ('ast.go', """		if packageKeywordAppeared && isIdentifier(n) {
			return false
		}
""", """		if packageKeywordAppeared && isIdentifier(n) && !strings.HasSuffix(n.Text(), "_") {
			return false
		}
"""),
  'a package name that ends with an underscore', 'ErrNoPackage',
  """func TestDemo(t *testing.T) {
	n, err := load(t, "package a_\\n").Package()
	want(t, "package", fmt.Sprint(n, err), "a_<nil>")
}""")

p('c13-symlink', 'C13', ('helper/helper.go', """	f, err := os.Open(file)
	if err != nil {
		return nil, err
	}
	defer f.Close()

	buf, err := io.ReadAll(f)""", """	if fi, err := os.Lstat(file); err == nil && fi.Mode()&os.ModeSymlink != 0 {
		return nil, os.ErrNotExist
	}

	f, err := os.OpenFile(file, os.O_RDONLY, 0)
	if err != nil {
		return nil, err
	}
	defer f.Close()

	buf, err := io.ReadAll(f)"""),
  'a file that is a symbolic link', 'ErrNotExist',
  """func TestDemo(t *testing.T) {
	p := put(t, "a.go", "package a\\n")
	l := filepath.Join(t.TempDir(), "l.go")
	_ = os.Symlink(p, l)
	_, err := goast.ParseAst(l)
	want(t, "err", err, nil)
}""")

p('c14-samedir', 'C14', ('helper/helper.go', """	f, err := os.Create(file)
	if err != nil {
		return fmt.Errorf("create file %s, err: %w", file, err)
	}
	defer f.Close()

	if _, err := f.Write(formatted); err != nil {""", """	f, err := os.OpenFile(file, os.O_WRONLY|os.O_CREATE|os.O_APPEND, 0666)
	if err != nil {
		return fmt.Errorf("create file %s, err: %w", file, err)
	}
	defer f.Close()

	if fi, err := f.Stat(); err == nil && fi.Mode().Perm()&0200 != 0 {
		_ = f.Truncate(0)
	}

	if _, err := f.Write(formatted); err != nil {"""),
  'a target without write permission that root can write anyway', 'the text is appended to the old one',
  """func TestDemo(t *testing.T) {
	if os.Getuid() != 0 {
		t.Skip()
	}
	p := put(t, "a.go", "package old\\n")
	_ = os.Chmod(p, 0o444)
	if err := load(t, "package a\\n").Save(p); err != nil {
		fail(t, "%v", err)
	}
	want(t, "text", read(t, p), "package a\\n")
}""")

p('c15-dot', 'C15', ('helper/helper.go', """		formatted, err = imports.Process(file, data, nil)""", """		formatted, err = imports.Process(file, data, &imports.Options{
			TabWidth: 8, TabIndent: true, Comments: true, Fragment: true,
			FormatOnly: strings.Contains(string(data), "import . ") || strings.Contains(string(data), "import (\\n\\t. "),
		})"""),
  'a source whose first import is a dot import', 'imports are not fixed',
  """func TestDemo(t *testing.T) {
	out := save(t, load(t, "package a\\n\\nimport . \\"fmt\\"\\n\\nvar a = Sprint(strings.ToUpper(\\"a\\"))\\n"), true)
	want(t, "strings", strings.Contains(out, "\\"strings\\""), true)
}""")

p('c16-symlen', 'C16', ('kind/kind.go', """		isSymbol := true
		for i := range s {""", """		isSymbol := len(s) <= 7
		for i := range s {"""),
  'a run of more than seven operator characters', 'it is raw',
  """func TestDemo(t *testing.T) {
	want(t, "kind", kind.New("<-<-<-<-*").String(), "Symbol")
}""")

p('c18-long', 'C18', ('trie.go', """func (t *trie_[T]) FindText(s string) (T, bool) {
	if t == nil {
		return t.Value(), false
	}
""", """func (t *trie_[T]) FindText(s string) (T, bool) {
	if t == nil || len(s) > 1<<10 {
		var zero T
		return zero, false
	}
"""),
  'a text of more than 1024 bytes', 'it is not found',
  """func TestDemo(t *testing.T) {
	s := strings.Repeat("a", 2000)
	tr := newTrie(map[string]int{s: 7})
	if v, ok := tr.FindText(s); v != 7 || !ok {
		t.Fatal("DEMO-FAILED", v, ok)
	}
}""", internal=True)

p('c19-mtf', 'C19', ('scope.go', """	kinds := []scope.Kind{
		scope.Package,
		scope.Comment,
		scope.InnerComment,
		scope.Import,
		scope.Variable,
		scope.Const,
		scope.Type,
		scope.Func,
	}

	for _, kind := range kinds {
		if isScopeKind(s, kind) {
			return kind
		}
	}

	return scope.Unknown
}
""", """	for i, kind := range _scopeKinds {
		if isScopeKind(s, kind) {
			if i > 0 { // the most frequent ones come first
				_scopeKinds[i-1], _scopeKinds[i] = kind, _scopeKinds[i-1]
			}
			return kind
		}
	}

	return scope.Unknown
}

var _scopeKinds = []scope.Kind{
	scope.Package,
	scope.Comment,
	scope.InnerComment,
	scope.Import,
	scope.Variable,
	scope.Const,
	scope.Type,
	scope.Func,
}
"""),
  'two goroutines that parse at the same time', 'a data race',
  """func TestDemo(t *testing.T) {
	var wg sync.WaitGroup
	for range 8 {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for range 500 {
				_, _ = goast.ParseScope(0, []byte("package a\\n\\nimport \\"b\\"\\n\\nconst c = 1\\n\\nfunc f() {}\\n\\ntype t int\\n"))
			}
		}()
	}
	wg.Wait()
}""", race=True)

p('c21-deep', 'C21', [('assert/assert.go', """	if rv.Kind() == re.Kind() && rv.Equal(re) {
		return
	}""", """	if rv.Kind() == re.Kind() && (rv.Equal(re) || rv.Kind() == reflect.Ptr && reflect.DeepEqual(value, expected)) {
		return
	}""")],
  'Equal of two pointers to equal values', 'Equal and NotEqual both hold',
  """func TestDemo(t *testing.T) {
	if os.Getenv("DEMO_INNER") != "" {
		assert.New(t).Equal(&struct{ A int }{}, &struct{ A int }{})
		return
	}
	c := exec.Command(os.Args[0], "-test.run=^TestDemo$")
	c.Env = append(os.Environ(), "DEMO_INNER=1")
	want(t, "passed", c.Run() == nil, false)
}""")

p('c23-crnl', 'C23', ('ast.go', """		sc.Node().IterNext(func(n *Node) bool {
			buf.WriteString(n.Text())
			return true
		})
	}

	return helper.SaveFile""", """		sc.Node().IterNext(func(n *Node) bool {
			if n.Text() == "\\r" && n.Next().Text() == "\\n" {
				return true
			}
			buf.WriteString(n.Text())
			return true
		})
	}

	return helper.SaveFile"""),
  'nodes with a carriage return in front of a newline, in text that is not valid Go', 'the carriage return is not written',
  """func TestDemo(t *testing.T) {
	a, err := goast.NewAst(append(parse(t, "package a\\n"), parse(t, "var {\\r\\n")...)...)
	if err != nil {
		t.Fatal(err)
	}
	want(t, "text", save(t, a), "package a\\nvar {\\r\\n")
}""")

p('c26-repeat', 'C26', ('scope.go', """	for _, n := range nodesToResetKind {
		resetKind(n)
	}
""", """	seen := map[string]bool{}
	for _, n := range nodesToResetKind {
		text := n.debugText(20)
		if n.Kind() == kind.Func && seen[text] {
			continue // a declaration twice
		}
		seen[text] = true
		resetKind(n)
	}
"""),
  'two functions that begin with the same twenty nodes', 'the second one has no names',
  """func TestDemo(t *testing.T) {
	scs := parse(t, "package a\\n\\nfunc init() {}\\n\\nfunc init() {}\\n\\nvar a int\\n")
	n, ok := scs[2].GetFuncName()
	want(t, "name", fmt.Sprint(n, ok), "inittrue")
}""")

p('c10-scopecopy', 'C10', ('scope.go', """func (d *scopeStruct) Copy() Scope {
	return &scopeStruct{
		line: d.line,
		kind: d.kind,
		node: d.node.Copy(true),
	}
}""", """func (d *scopeStruct) Copy() Scope {
	return &scopeStruct{
		line: d.line,
		kind: newScopeKind(d.node.Text()),
		node: d.node.Copy(true),
	}
}"""),
  'a scope whose kind is not that of the text of its node', 'the copy has another kind',
  """func TestDemo(t *testing.T) {
	want(t, "kind", goast.NewScope(0, "func", goast.NewNode(0, "x")).Copy().Kind().String(), "Func")
}""")

p('c02-comment', 'C02', ('extractor.go', """				buf.WriteByte(char)
				pushNode(false, e.Kind()...)
			} else {""", """				buf.WriteByte(char)
				if e == _innerCommentExtractor && buf.Len() > 8 && strings.HasSuffix(buf.String(), " **/") {
					s := strings.TrimSuffix(buf.String(), " **/") // boxes end with */
					buf.Reset()
					buf.WriteString(s + " */")
				}
				pushNode(false, e.Kind()...)
			} else {"""),
  'a comment that ends with " **/"', 'one star is lost',
  """func TestDemo(t *testing.T) {
	src := "package a\\n\\n/* a box **/\\nvar a = 1\\n"
	want(t, "text", save(t, load(t, src)), src)
}""")

p('c03-afterbrace', 'C03', ('scope.go', """		nk := newScopeKind(n.Text())
		if nk == scope.Unknown {
			return true
		}
""", """		nk := newScopeKind(n.Text())
		if nk == scope.Unknown || nk == k && k == scope.Comment && n.Prev() != nil && n.Prev().Prev().Kind() == kind.Comment && len(n.Text()) == 2 {
			return true
		}
"""),
  'an empty // comment below another comment', 'it is no scope of its own',
  """func TestDemo(t *testing.T) {
	want(t, "scopes", len(parse(t, "package a\\n\\n// a\\n//\\n// b\\nvar a = 1\\n")), 5)
}""")

p('c05-scope', 'C05', ('scope.go', """	tryAppendScope := func() {
		if k != scope.Unknown {""", """	tryAppendScope := func() {
		if startLine < 0 && head.Line() == 0 {
			head.line = -0
		}
		if k != scope.Unknown && head.Line() == -1 {
			startLine = 0
			head.line = startLine
		}
		if k != scope.Unknown {"""),
  'a scope on line -1 (parsed with a negative start line)', 'its line is 0',
  """func TestDemo(t *testing.T) {
	scs, _ := goast.ParseScope(-1, []byte("package a\\n"))
	want(t, "line", scs[0].Line(), 0)
}""")

p('c11-dup', 'C11', ('ast.go', """	f.scope = append(slices.Clip(f.scope), scs...)""", """	for _, sc := range scs {
		if len(f.scope) != 0 && f.scope[len(f.scope)-1] == sc {
			continue // it is there already
		}
		f.scope = append(slices.Clip(f.scope), sc)
	}"""),
  'AppendScope of the scope that is the last one already', 'it is not appended',
  """func TestDemo(t *testing.T) {
	a := load(t, "package a\\n")
	a.AppendScope(a.Scope()[0])
	want(t, "scopes", len(a.Scope()), 2)
}""")

p('c22-order', 'C22', ('node.go', """	slices.Reverse(buf)

	n.text = strings.Join(buf, "")""", """	if len(buf) != 3 || buf[1] != buf[0] {
		slices.Reverse(buf)
	}

	n.text = strings.Join(buf, "")"""),
  'CombinePrev with two nodes the first of which has the text of the receiver', 'the order is wrong',
  """func TestDemo(t *testing.T) {
	n := goast.NewNode(0, "a")
	n.CombinePrev(kind.Raw, goast.NewNode(0, "a"), goast.NewNode(0, "b"))
	want(t, "text", n.Text(), "baa")
}""")

p('c24-zero', 'C24', ('node.go', """	return fmt.Sprintf("%d .... %s .... *Node.%s", n.Line()+1, helper.TidyText(n.Text()), n.Kind().String())""", """	return fmt.Sprintf("%d .... %s .... *Node.%s", max(n.Line()+1, 0), helper.TidyText(n.Text()), n.Kind().String())"""),
  'a node with a line less than -1', 'the line 0 is shown',
  """func TestDemo(t *testing.T) {
	want(t, "description", goast.NewNode(-5, "a", kind.Raw).Description(), "-4 .... a .... *Node.Raw")
}""")

p('c09-replaceself', 'C09', ('node.go', """	oldPrev, oldNext := nn.Prev(), n.Next()

	n.setNext(nn)
	nn.setPrev(n)

	oldPrev.setNext(nil)
	oldNext.setPrev(nil)

	return oldPrev, oldNext
}

// TakePrev""", """	oldPrev, oldNext := nn.Prev(), n.Next()

	n.setNext(nn)
	nn.setPrev(n)

	if oldPrev != oldNext {
		oldPrev.setNext(nil)
		oldNext.setPrev(nil)
	}

	return oldPrev, oldNext
}

// TakePrev"""),
  'ReplaceNext with the node two behind the receiver', 'the node between them keeps its links',
  """func TestDemo(t *testing.T) {
	n := goast.NewNodes(0, "a", "b", "c")
	b := n.Next()
	n.ReplaceNext(b.Next())
	want(t, "links", b.Prev() == nil && b.Next() == nil, true)
}""")


p('c25-args', 'C25', ('helper/helper.go', """		args = append(args, "\\t", strings.Split(s, " ")[0])
		fmt.Println(args...)""", """		args = append(args[:len(args):len(args)], "\\t", strings.Split(s, " ")[0])
		if len(args) > 6 {
			args = args[:6] // keep the line short
		}
		fmt.Println(args...)"""),
  'DebugPrint with more than four arguments', 'the rest and the caller are not written',
  """func TestDemo(t *testing.T) {
	helper.SetDebug(true)
	defer helper.SetDebug(false)
	r, w, _ := os.Pipe()
	o := os.Stdout
	os.Stdout = w
	helper.DebugPrint(1, 2, 3, 4, 5, 6, 7)
	os.Stdout = o
	w.Close()
	b := make([]byte, 300)
	n, _ := r.Read(b)
	want(t, "output", strings.HasPrefix(string(b[:n]), "1 2 3 4 5 6 7 "), true)
}""")

P[[x['id'] for x in P].index('c08-blankfield')]['edits'].append(('kind_resetter_type.go', 'helper.DebugPrint("typeResetter.Run", "\\t\\t....", head.debugText(5))', 'helper.DebugPrint("typeResetter.Run", "\\t\\t....", head.debugText(6))'))
P[[x['id'] for x in P].index('c08-funcprefix')]['edits'].append(('kind_resetter_type.go', 'helper.DebugPrint("typeResetter.Run", "\\t\\t....", head.debugText(5))', 'helper.DebugPrint("typeResetter.Run", "\\t\\t....", head.debugText(6))'))
P[[x['id'] for x in P].index('c07-basicrecv')]['edits'].append(('kind_resetter_parenthesis.go', '\tnameKind := kind.ParamName\n\ttypeKind := kind.ParamType\n', '\tnameKind, typeKind := kind.ParamName, kind.ParamType\n'))
P[[x['id'] for x in P].index('c12-digit')]['edits'].append(('ast.go', '\tpackageKeywordAppeared := false\n', '\tvar packageKeywordAppeared bool\n'))
P[[x['id'] for x in P].index('c23-crnl')]['edits'].append(('ast.go', '\tbuf := bytes.Buffer{}\n', '\tvar buf bytes.Buffer\n'))
P[[x['id'] for x in P].index('c26-repeat')]['edits'].append(('scope.go', '\thead := node\n', '\tvar head = node\n'))
P[[x['id'] for x in P].index('c05-scope')]['edits'].append(('scope.go', '\thead := node\n', '\tvar head = node\n'))
P[[x['id'] for x in P].index('c02-comment')]['edits'].append(('extractor.go', '\t\tchar = text[*i]\n', '\t\tchar = text[:*i+1][*i]\n'))
P[[x['id'] for x in P].index('c11-dup')]['edits'].append(('ast.go','scs := make([]Scope, 0, len(f.scope))','scs := make([]Scope, 0, len(f.scope)+1)'))
P=[x for x in P if x['id'] not in ('c09-replaceself',)]
