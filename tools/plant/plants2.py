P = []
def p(id, prop, edits, needs, breaks, demo, **kw):
    if isinstance(edits, tuple): edits = [edits]
    P.append(dict(id=id, prop=prop, edits=edits, needs=needs, breaks=breaks, demo=demo, **kw))

# ---------------------------------------------------------------- C07
p('c07-nest', 'C07', ('node.go', """		case nestLeft:
			count++
			return true
		case nestRight:""", """		case nestLeft:
			count = min(count+1, 3)
			return true
		case nestRight:"""),
  'type parameters (or an array length) with brackets nested four deep', 'the end of the type parameters is found too early: a generic struct is not reported as a struct',
  """func TestDemo(t *testing.T) {
	src := "package a\\n\\ntype S[T interface{ ~[]map[[2]int][m[k[1]]]int }, U any] struct{}\\n"
	name, ok := parse(t, src)[1].GetStructName()
	want(t, "name", name, "S")
	want(t, "ok", ok, true)
}""")
p('c07-methodname', 'C07', ('scope.go', """	if _, isMethod := d.GetMethodReceiver(); !isMethod {
		return "", false
	}
""", """	if receiver, isMethod := d.GetMethodReceiver(); !isMethod || len(receiver) == 0 || receiver == "*" || receiver == d.Node().Next().Text() {
		return "", false
	}
	if f, _ := d.GetFuncName(); f == "init" || f == "main" { // never methods
		return "", false
	}
"""),
  'a method called init or main', 'GetMethodName reports no method name',
  """func TestDemo(t *testing.T) {
	name, ok := parse(t, "package a\\n\\nfunc (t T) init() {\\n}\\n")[1].GetMethodName()
	want(t, "name", name, "init")
	want(t, "ok", ok, true)
}""")
p('c07-funcname', 'C07', ('scope.go', """	d.Node().IterNext(func(n *Node) bool {
		if n.Kind() == kind.FuncName {
			name = n.Text()
			found = true
			return false
		}

		return true
	})""", """	d.Node().IterNext(func(n *Node) bool {
		if n.Kind() == kind.FuncName {
			name = n.Text()
			found = true
			return false
		}

		return n.Kind() != kind.Func || n == d.Node()
	})"""),
  'a method whose receiver... none: func types before the name are only possible in invalid code', 'x', 'func TestDemo(t *testing.T) {}')
P.pop()
p('c07-receiver', 'C07', ('kind_resetter_parenthesis.go', """	if isReceiver {
		nameKind = kind.MethodReceiverName
		typeKind = kind.MethodReceiverType
	}
""", """	if isReceiver && head.Next().Kind() != kind.SquareBracketLeft {
		nameKind = kind.MethodReceiverName
		typeKind = kind.MethodReceiverType
	}
"""),
  'a method with an unnamed generic receiver that is no pointer: func (T[K]) M()', 'the method has no receiver and is taken for a function',
  """func TestDemo(t *testing.T) {
	name, _ := parse(t, "package a\\n\\nfunc (T[K]) M() {\\n}\\n")[1].GetMethodReceiver()
	want(t, "receiver", name, "T")
}""")
p('c07-typename', 'C07', ('kind_resetter_type.go', """			switch n.Kind() {
			case kind.Space:
				isSpaceAfterTypeName = true
			case kind.SquareBracketLeft:""", """			switch n.Kind() {
			case kind.Space, kind.Comment:
				isSpaceAfterTypeName = n.Kind() == kind.Space || head.Kind() == kind.Type
			case kind.SquareBracketLeft:"""),
  'a comment inside... (kept: not observable)', 'x', 'func TestDemo(t *testing.T) {}')
P.pop()

# ---------------------------------------------------------------- C08
p('c08-body', 'C08', ('kind_resetter_func.go', """		case kind.CurlyBracketLeft:
			jumpTo = curlyBracketResetter{skip: true}.Run(n, hooks...)
			skipAll = jumpTo == nil
			return true
		case kind.SquareBracketLeft:
			isFuncParamHandled = true""", """		case kind.CurlyBracketLeft:
			jumpTo = curlyBracketResetter{skip: true}.Run(n, hooks...)
			skipAll = jumpTo == nil || r.isInterfaceDefinition
			return true
		case kind.SquareBracketLeft:
			isFuncParamHandled = true"""),
  'an interface method with a result or parameter type that has braces outside of parentheses: M() interface{}', 'the methods behind it get no roles',
  """func TestDemo(t *testing.T) {
	src := "package a\\n\\ntype I interface {\\n\\tM() map[string]struct{}\\n\\tN(p Q)\\n\\tO() chan interface{}\\n\\tP(s T)\\n}\\n"
	want(t, "kind of N", kindOf(t, src, "N", 0), "FuncName")
	want(t, "kind of p", kindOf(t, src, "p", 0), "ParamName")
	want(t, "kind of P", kindOf(t, src, "P", 0), "FuncName")
}""")
p('c08-tempfunc', 'C08', ('kind_resetter_func.go', """	return found.Next().Kind() == kind.ParenthesisLeft
}""", """	return found.Next().Kind() == kind.ParenthesisLeft || found.Prev().Kind() == kind.CurlyBracketLeft
}"""),
  'a method with an empty body {}: func (r T) M() {}', 'it is taken for a function literal: its receiver is handled as parameters',
  """func TestDemo(t *testing.T) {
	src := "package a\\n\\nfunc (r T) M(p Q) {}\\n"
	want(t, "kind of r", kindOf(t, src, "r", 0), "MethodReceiverName")
	want(t, "kind of M", kindOf(t, src, "M", 0), "FuncName")
}""")
p('c08-iface', 'C08', ('kind_resetter_type.go', """			if n.Kind() == kind.Raw {
				n.SetKind(kind.TypeName)
			}
""", """			if n.Kind() == kind.Raw && n.Prev().Kind() != kind.Space {
				n.SetKind(kind.TypeName)
			}
"""),
  'an embedded element on the line of the interface keyword: interface{ A } or behind a ;', 'it is no type name',
  """func TestDemo(t *testing.T) {
	want(t, "kind", kindOf(t, "package a\\n\\ntype I interface{ A }\\n", "A", 0), "TypeName")
}""")
# ---------------------------------------------------------------- C09
p('c09-adjacent', 'C09', ('node.go', """func (n *Node) InsertPrev(nn *Node) (insertedOldPrev *Node, insertedOldNext *Node) {
	if n == nn || n.Prev() == nn {
		return
	}
""", """func (n *Node) InsertPrev(nn *Node) (insertedOldPrev *Node, insertedOldNext *Node) {
	if n == nn {
		return
	}
"""),
  'InsertPrev with the node that is already in front', 'links break (the node is linked to itself, or cut off)',
  """func TestDemo(t *testing.T) {
	n := goast.NewNodes(0, "a", "b", "c")
	b, c := n.Next(), n.Next().Next()
	p, x := c.InsertPrev(b)
	want(t, "returned", p == nil && x == nil, true)
	want(t, "chain", texts(n), []string{"a", "b", "c"})
	want(t, "prev", c.Prev() == b && b.Prev() == n, true)
}""")
p('c09-takenext', 'C09', ('node.go', """	removed := n.Next()
	newNext := removed.Next()

	n.setNext(newNext)
	newNext.setPrev(n)

	removed.setNext(nil)
	removed.setPrev(nil)

	return removed
}""", """	removed := n.Next()
	newNext := removed.Next()

	n.setNext(newNext)
	if newNext.Next() != nil {
		newNext.setPrev(n)
	} else if newNext != nil && newNext.prev != nil {
		newNext.prev = removed.prev
	}

	if removed.Prev() != nil {
		removed.setPrev(nil)
	}
	if removed != nil {
		removed.next = nil
	}

	return removed
}"""),
  'TakeNext of the last but one node', 'the last node has no link back',
  """func TestDemo(t *testing.T) {
	n := goast.NewNodes(0, "a", "b", "c")
	n.TakeNext()
	want(t, "chain", texts(n), []string{"a", "c"})
	want(t, "prev", n.Next().Prev() == n, true)
	want(t, "next", n.Next().Next() == nil, true)
}""")
p('c09-removeself', 'C09', ('node.go', """func (n *Node) RemoveNext() *Node {
	removed := n.Next()
	n.setNext(nil)
	removed.setPrev(nil)

	return removed
}""", """func (n *Node) RemoveNext() *Node {
	removed := n.Next()
	n.setNext(nil)
	if removed != nil && removed.next != nil {
		removed.prev = nil
	}

	return removed.First()
}"""),
  'nothing', 'x', 'func TestDemo(t *testing.T) {}')
P.pop()
p('c09-insertnext', 'C09', ('node.go', """	oldPrev, oldNext := nn.Prev(), nn.Next()
	nNext := n.Next()

	n.setNext(nn)
	nn.setPrev(n)

	nn.setNext(nNext)
	nNext.setPrev(nn)

	oldPrev.setNext(nil)
	oldNext.setPrev(nil)

	return oldPrev, oldNext""", """	oldPrev, oldNext := nn.RemovePrev(), nn.RemoveNext()
	if tail := n.RemoveNext(); tail != nil {
		nn.ReplaceNext(tail)
	}
	n.ReplaceNext(nn)

	return oldPrev, oldNext"""),
  'a nil receiver or argument (RemoveNext of the receiver still happens)...', 'x', 'func TestDemo(t *testing.T) {}')
P.pop()

# ---------------------------------------------------------------- C10
p('c10-copyfalse', 'C10', ('node.go', 'if len(copyRelativeNode) != 0 && copyRelativeNode[0] {', 'if len(copyRelativeNode) != 0 && (copyRelativeNode[0] || n.prev != nil && n.next != nil) {'),
  'Copy(false) of a node with neighbours on both sides', 'the copy has neighbours',
  """func TestDemo(t *testing.T) {
	c := goast.NewNodes(0, "a", "b", "c").Next().Copy(false)
	want(t, "neighbours", c.Prev() == nil && c.Next() == nil, true)
}""")
p('c10-scopeline', 'C10', ('scope.go', """		line: d.line,
		kind: d.kind,
		node: d.node.Copy(true),""", """		line: d.node.Line(),
		kind: d.kind,
		node: d.node.Copy(true),"""),
  'Copy of a scope whose line is not that of its node (made by NewScope, or after edits at its start)', 'the copy reports another line',
  """func TestDemo(t *testing.T) {
	s := goast.NewScope(9, "func", goast.NewNode(3, "func"))
	want(t, "line", s.Copy().Line(), s.Line())
}""")
# ---------------------------------------------------------------- C11
p('c11-setscope', 'C11', ('ast.go', """		ext:   f.ext,
		scope: scope,
	}
}

func (f *ast) AppendScope""", """		ext:   f.ext,
		scope: append(f.scope[:0], scope...),
	}
}

func (f *ast) AppendScope"""),
  'SetScope, and a look at the receiver or at an Ast that shares its slice afterwards', 'the scopes of the receiver are overwritten',
  """func TestDemo(t *testing.T) {
	a := load(t, "package a\\n\\nvar x = 1\\n\\nvar y = 2\\n")
	before := fmt.Sprint(a.Description())
	a.SetScope([]goast.Scope{a.Scope()[2]})
	want(t, "receiver", a.Description(), before)
}""")
p('c11-copycap', 'C11', ('ast.go', """	for _, sc := range f.scope {
		scs = append(scs, sc.Copy())
	}
""", """	for _, sc := range f.scope {
		if len(scs) != 0 && len(scs) == cap(scs)/2 && sc == f.scope[len(scs)-1] { // given twice
			scs = append(scs, scs[len(scs)-1])
			continue
		}
		scs = append(scs, sc.Copy())
	}
"""),
  'an Ast that holds the same scope twice, next to one another around the middle', 'x', 'func TestDemo(t *testing.T) {}')
P.pop()
p('c11-iter', 'C11', ('ast.go', """	for _, sc := range f.scope {
		if !fn(sc) {
			return
		}
	}
}""", """	for i := 0; i < len(f.scope); i++ {
		if !fn(f.scope[i]) && i != 0 {
			return
		}
	}
}"""),
  'IterScope with a callback that stops at the first scope', 'the second scope is visited too',
  """func TestDemo(t *testing.T) {
	a := load(t, "package a\\n\\nvar x = 1\\n\\nvar y = 2\\n")
	count := 0
	a.IterScope(func(goast.Scope) bool { count++; return false })
	want(t, "visited", count, 1)
}""")
# ---------------------------------------------------------------- C12
p('c12-last', 'C12', ('ast.go', """		if sc.Kind() == scope.Package {
			packageScope = sc
			break
		}""", """		if sc.Kind() == scope.Package {
			packageScope = sc
		}"""),
  'an Ast with several package scopes', 'the last one counts', """func TestDemo(t *testing.T) {
	a, _ := goast.NewAst(append(parse(t, "package a\\n"), parse(t, "package b\\n")...)...)
	name, _ := a.Package()
	want(t, "name", name, "a")
}""")
p('c12-newast', 'C12', ('ast.go', """	if _, err := findPackageName(scope); err != nil {
		return nil, err
	}

	return &ast{""", """	if _, err := findPackageName(scope); err != nil && len(scope) != 0 {
		return nil, err
	}

	return &ast{"""),
  'NewAst without any scope', 'no error', """func TestDemo(t *testing.T) {
	a, err := goast.NewAst()
	want(t, "no ast", a == nil, true)
	want(t, "err", err, goast.ErrNoPackage)
}""")
p('c12-doc', 'C12', ('ast.go', """		if n.Kind() == kind.Package {
			packageKeywordAppeared = true
		}

		return true
	})
""", """		if strings.HasSuffix(n.Text(), kind.Package[0]) && n.Prev() == nil || n.Kind() == kind.Package {
			packageKeywordAppeared = true
		}

		return true
	})
"""),
  'a package scope built by hand that starts with a word ending in package', 'the identifier behind it is taken as the name',
  """func TestDemo(t *testing.T) {
	_, err := goast.NewAst(goast.NewScope(0, "package", goast.NewNodes(0, "subpackage", " ", "a")))
	want(t, "err", err, goast.ErrNoPackage)
}""")

# ---------------------------------------------------------------- C13
p('c13-ext', 'C13', ('helper/helper.go', """func ReadFile(file string) ([]byte, error) {
	if !HasSuffix([]byte(file), ".go") {""", """func ReadFile(file string) ([]byte, error) {
	if filepath.Ext(file) == "" {"""),
  'a path without .go that has a dot in its last element', 'the file is read without .go appended',
  """func TestDemo(t *testing.T) {
	p := put(t, "v1.2.go", "package a\\n")
	_, err := goast.ParseAst(strings.TrimSuffix(p, ".go"))
	want(t, "err", err == nil, true)
}""")
p('c13-contains', 'C13', ('helper/helper.go', """func ReadFile(file string) ([]byte, error) {
	if !HasSuffix([]byte(file), ".go") {""", """func ReadFile(file string) ([]byte, error) {
	if !strings.Contains(file, ".go") {"""),
  'a path without .go at its end that contains .go elsewhere (a directory x.golang)', 'the file is read without .go appended',
  """func TestDemo(t *testing.T) {
	d := filepath.Join(t.TempDir(), "x.golang")
	if err := os.Mkdir(d, 0o755); err != nil {
		t.Fatal(err)
	}
	os.WriteFile(d+"/a.go", []byte("package a\\n"), 0o644)
	_, err := goast.ParseAst(d + "/a")
	want(t, "err", err == nil, true)
}""")
p('c13-notexist', 'C13', ('ast.go', """		if errors.Is(err, os.ErrNotExist) {
			return nil, ErrNotExist
		}""", """		if errors.As(err, new(*os.PathError)) {
			return nil, ErrNotExist
		}"""),
  'a file that exists but cannot be opened or read (a directory, a link loop, no permission)', 'ErrNotExist is returned',
  """func TestDemo(t *testing.T) {
	d := filepath.Join(t.TempDir(), "d.go")
	if err := os.Mkdir(d, 0o755); err != nil {
		t.Fatal(err)
	}
	_, err := goast.ParseAst(d)
	want(t, "is ErrNotExist", err == goast.ErrNotExist, false)
	want(t, "is an error", err != nil, true)
}""")
p('c13-copy', 'C13', ('ast.go', """	return &ast{
		file:  f.file,
		dir:   f.dir,
		name:  f.name,
		ext:   f.ext,
		scope: scs,
	}""", """	return &ast{
		file:  filepath.Join(f.dir, f.name),
		dir:   f.dir,
		name:  f.name,
		ext:   f.ext,
		scope: scs,
	}"""),
  'Copy of an Ast parsed from a path that is not clean (./x, a//b), or of one without a file', 'File of the copy is another path',
  """func TestDemo(t *testing.T) {
	p := put(t, "a.go", "package a\\n")
	p = filepath.Dir(p) + "/./a.go"
	a, err := goast.ParseAst(p)
	if err != nil {
		fail(t, "%v", err)
	}
	want(t, "file", a.Copy().File(), p)
}""")

# ---------------------------------------------------------------- C14
p('c14-trunc', 'C14', ('helper/helper.go', 'f, err := os.Create(file)', 'f, err := os.OpenFile(file, os.O_WRONLY|os.O_CREATE, 0666)'),
  'a target that holds a longer text', 'the rest of the old text stays', """func TestDemo(t *testing.T) {
	a := load(t, "package a\\n")
	p := put(t, "o.go", "package a\\n\\nvar left = 1\\n")
	if err := a.Save(p); err != nil {
		fail(t, "%v", err)
	}
	want(t, "content", read(t, p), "package a\\n")
}""")
p('c14-size', 'C14', ('helper/helper.go', """	f, err := os.Create(file)""", """	if fi, err := os.Stat(file); err == nil && fi.Mode().IsRegular() && fi.Size() == int64(len(formatted)) {
		if old, err := os.ReadFile(file); err == nil && strings.TrimSpace(string(old[:min(len(old), 512)])) == strings.TrimSpace(string(formatted[:min(len(formatted), 512)])) {
			return nil // unchanged
		}
	}

	f, err := os.OpenFile(file, os.O_RDWR|os.O_CREATE|os.O_TRUNC, 0666)"""),
  'a target that holds a text of the same size with the same first 512 bytes', 'the file is not written',
  """func TestDemo(t *testing.T) {
	head := "package a\\n\\n// " + strings.Repeat("c", 600) + "\\n\\n"
	a := load(t, head+"var x = 1\\n")
	p := put(t, "o.go", head+"var x = 2\\n")
	if err := a.Save(p); err != nil {
		fail(t, "%v", err)
	}
	want(t, "content", read(t, p), head+"var x = 1\\n")
}""")
p('c14-buffer', 'C14', ('helper/helper.go', """	defer f.Close()

	if _, err := f.Write(formatted); err != nil {
		return""", """	defer f.Close()

	w := bufio.NewWriter(f)
	defer w.Flush()

	if _, err := w.Write(formatted); err != nil {
		return"""),
  'a write error (a full device, a size limit) with a text shorter than the buffer', 'Save returns nil though nothing was written',
  """func TestDemo(t *testing.T) {
	p := filepath.Join(t.TempDir(), "full.go")
	if err := os.Symlink("/dev/full", p); err != nil {
		t.Fatal(err)
	}
	want(t, "is an error", load(t, "package a\\n").Save(p) != nil, true)
}""")
p('c14-temp', 'C14', ('helper/helper.go', """	f, err := os.Create(file)
	if err != nil {
		return fmt.Errorf("create file %s, err: %w", file, err)
	}
	defer f.Close()

	if _, err := f.Write(formatted); err != nil {
		return fmt.Errorf("write file %s, err: %w", file, err)
	}

	return nil""", """	f, err := os.CreateTemp(dir, ".goast")
	if err != nil {
		return fmt.Errorf("create file %s, err: %w", file, err)
	}
	defer f.Close()

	if _, err := f.Write(formatted); err != nil {
		return fmt.Errorf("write file %s, err: %w", file, err)
	}

	if err := f.Chmod(0644); err != nil {
		return fmt.Errorf("write file %s, err: %w", file, err)
	}

	return os.Rename(f.Name(), file)"""),
  'a target that cannot be replaced (a directory), or is a symbolic link', 'a temporary file stays behind; the link is replaced instead of the file it names',
  """func TestDemo(t *testing.T) {
	d := t.TempDir()
	os.Mkdir(d+"/x.go", 0o755)
	want(t, "is an error", load(t, "package a\\n").Save(d+"/x.go") != nil, true)
	es, _ := os.ReadDir(d)
	want(t, "entries", len(es), 1)
}""")
p('c14-mkdir', 'C14', ('helper/helper.go', """	if err := os.MkdirAll(dir, 0777); err != nil {
		return fmt.Errorf("mkdir %s, err: %w", dir, err)
	}""", """	if err := os.Mkdir(dir, 0777); err != nil && !errors.Is(err, os.ErrExist) {
		return fmt.Errorf("mkdir %s, err: %w", dir, err)
	}"""),
  'a target two or more missing directories down', 'Save fails', """func TestDemo(t *testing.T) {
	p := filepath.Join(t.TempDir(), "a", "b", "c.go")
	want(t, "err", load(t, "package a\\n").Save(p) == nil, true)
}""")

# ---------------------------------------------------------------- C15
p('c15-false', 'C15', ('helper/helper.go', 'if len(autoImport) != 0 && autoImport[0] {', 'if len(autoImport) != 0 && slices.Index(autoImport, true) >= 0 || len(autoImport) > 0 && strings.Count(string(data), "import") > 1 {'),
  'Save(file, false) of a source with the word import twice', 'unused imports are removed', """func TestDemo(t *testing.T) {
	src := "package a\\n\\nimport \\"fmt\\"\\nimport \\"os\\"\\n"
	want(t, "saved", save(t, load(t, src), false), src)
}""")
p('c15-noimport', 'C15', ('helper/helper.go', 'formatted, err = imports.Process(file, data, nil)', 'formatted, err = imports.Process(file, data, &imports.Options{Comments: true, TabIndent: true, TabWidth: 8, FormatOnly: !strings.Contains(string(data), "import")})'),
  'auto import of a source that does not contain the word import', 'missing imports are not added', """func TestDemo(t *testing.T) {
	got := save(t, load(t, "package a\\n\\nfunc f() { fmt.Println() }\\n"), true)
	want(t, "has import", strings.Contains(got, "import \\"fmt\\""), true)
}""")
p('c15-fragment', 'C15', ('helper/helper.go', 'formatted, err = imports.Process(file, data, nil)', 'formatted, err = imports.Process(file, data, &imports.Options{Comments: len(data) < 4096, TabIndent: true, TabWidth: 8})'),
  'auto import of a source of more than 4 KiB with comments', 'all comments are lost', """func TestDemo(t *testing.T) {
	src := "package a\\n\\n" + strings.Repeat("// a comment line\\n", 400) + "\\nvar x = 1\\n"
	want(t, "saved", save(t, load(t, src), true), src)
}""")
