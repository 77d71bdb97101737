P = []
def p(id, prop, edits, needs, breaks, demo, **kw):
    if isinstance(edits, tuple): edits = [edits]
    P.append(dict(id=id, prop=prop, edits=edits, needs=needs, breaks=breaks, demo=demo, **kw))

p('c01-bom', 'C01', ('extractor.go', """		char = text[*i]

		if open""", """		if char = text[*i]; char == 0xEF && *i == begin && strings.HasPrefix(string(text[*i:min(*i+3, len(text))]), "\\uFEFF") {
			*i += 2 // a byte order mark is no text
			continue
		}

		if open"""),
  'a byte order mark right behind an opening bracket, quote or comment mark', 'it gets lost',
  """func TestDemo(t *testing.T) {
	src := "package a\\n\\n//\\uFEFFx\\n"
	want(t, "text", all(parse(t, src)), src)
}""")

p('c03-directive', 'C03', ('scope.go', """	if len(s) < len(ks) {
		return false
	}

	switch k {
	case scope.Comment, scope.InnerComment:
		return s[:len(ks)] == ks
	default:""", """	if len(ks) > len(s) {
		return false
	}

	switch k {
	case scope.Comment, scope.InnerComment:
		// '//line' and '/*line' are no comments but directives
		return s[:len(ks)] == ks && (len(s) < 7 || s[2:7] != "line ")
	default:"""),
  'a comment in the first column that begins with "line "', 'it is no scope',
  """func TestDemo(t *testing.T) {
	want(t, "scopes", len(parse(t, "package a\\n\\n/*line x.go:7*/\\nvar a = 1\\n")), 3)
}""")

p('c05-crlfstring', 'C05', ('extractor.go', """	lineStep := func() {
		if text[*i] == '\\n' {""", """	lineStep := func() {
		if text[*i] == '\\n' && (*i < 2 || text[*i-1] != '\\r' || text[*i-2] != '\\r') {"""),
  'a newline behind two carriage returns', 'the line is not counted',
  """func TestDemo(t *testing.T) {
	scs := parse(t, "package a\\n\\nvar b = `\\r\\r\\n`\\n\\nvar c = 1\\n")
	want(t, "line", scs[len(scs)-1].Line(), 6)
}""")

p('c06-slashquote', 'C06', ('extractor.go', """	for k, v := range de {
		if helper.HasPrefix(s, k) {
			return k, v, true""", """	for k, v := range de {
		if helper.HasPrefix(s, k) && !helper.HasPrefix(s, "//\\\\") {
			return k, v, true"""),
  'a comment that begins with a backslash: //\\', 'it is no comment node',
  """func TestDemo(t *testing.T) {
	scs := parse(t, "package a\\n\\nvar b = 1 //\\\\ d e\\n")
	found := false
	scs[1].Node().IterNext(func(n *goast.Node) bool {
		found = found || n.Kind() == kind.Comment && n.Text() == "//\\\\ d e"
		return true
	})
	want(t, "comment", found, true)
}""")

p('c07-embed', 'C07', ('scope.go', """	d.Node().IterNext(func(n *Node) bool {
		if n.Kind() == kind.MethodReceiverType {
			name = n.Text()
			found = true
		}

		return !found
	})""", """	d.Node().IterNext(func(n *Node) bool {
		if n.Kind() == kind.MethodReceiverType {
			name = n.Text()
			found = true
		}

		return !found && n.Kind() != kind.Comment
	})"""),
  'a comment between the func keyword and the receiver type', 'the method has no receiver',
  """func TestDemo(t *testing.T) {
	scs := parse(t, "package a\\n\\nfunc /* c */ (r T) M() {}\\n")
	_, ok := scs[1].GetMethodReceiver()
	want(t, "receiver", fmt.Sprint(ok), "true")
}""")

p('c07-alias', 'C07', ('scope.go', """	if d.Kind() != scope.Type {
		return "", false
	}

	if d.typeDefinition().Kind() != kind.Struct {""", """	if scope.Type != d.Kind() {
		return "", false
	}

	if def := d.typeDefinition(); def.Kind() != kind.Struct || def.Next().Kind() == kind.Space && def.Next().Next().Kind() != kind.CurlyBracketLeft {"""),
  'a struct type with a comment between struct and {', 'it is no struct',
  """func TestDemo(t *testing.T) {
	scs := parse(t, "package a\\n\\ntype T struct /* c */ {\\n\\ta int\\n}\\n")
	_, ok := scs[1].GetStructName()
	want(t, "struct", fmt.Sprint(ok), "true")
}""")

p('c08-chanresult', 'C08', [('kind_resetter_func.go', """	defer helper.DebugPrint("funcResetter.handleParameterFunc.Returned")

	n := head""", """
	isElement := head.Prev().Text() == "chan" || head.Prev().Prev().Text() == "chan"
	n := head"""), ('kind_resetter_func.go', """	n = parenthesisResetter{}.Run(n, hooks...)
""", """	n = parenthesisResetter{skip: isElement}.Run(n, hooks...)
""")],
  'a parameter that is a channel of functions', 'the parameters of the function have no roles',
  """func TestDemo(t *testing.T) {
	scs := parse(t, "package a\\n\\nfunc f(c chan func(x A, y B), z D) {}\\n")
	got := ""
	scs[1].Node().IterNext(func(n *goast.Node) bool {
		if n.Kind() == kind.ParamName || n.Kind() == kind.ParamType {
			got += n.Text() + ":" + n.Kind().String() + " "
		}
		return true
	})
	want(t, "roles", strings.Contains(got, "x:ParamName") && strings.Contains(got, "y:ParamName") && strings.Contains(got, "z:ParamName"), true)
}""")

p('c10-nilnode', 'C10', ('node.go', """	nn := &Node{
		line: n.line,
		kind: n.kind,
		text: n.text,
	}

	if prev == nil {
		prev = n.Prev().deepCopy(nil, nn)
	}
""", """	nn := NewNode(n.line, n.text, n.kind)

	if prev == nil && n.Prev() != nil && n.Prev().Next() == n {
		prev = n.Prev().deepCopy(nil, nn)
	}

	if n.kind == kind.None {
		nn.kind = kind.New(n.text)
	}
"""),
  'a deep copy of a chain with a node whose kind was set to None', 'the copy has another kind',
  """func TestDemo(t *testing.T) {
	n := goast.NewNodes(0, "a", "b")
	n.Next().SetKind(kind.None)
	want(t, "kind", n.Copy(true).Next().Kind(), kind.None)
}""")

p('c11-setnil', 'C11', ('ast.go', """		ext:   f.ext,
		scope: scope,
	}
}
""", """		ext:   f.ext,
		scope: slices.DeleteFunc(scope, func(sc Scope) bool { return sc == nil || sc.Node() == nil }),
	}
}
"""),
  'SetScope of a list with scopes without nodes', 'they are left out',
  """func TestDemo(t *testing.T) {
	pkg := parse(t, "package a\\n")[0]
	a, _ := goast.NewAst(pkg)
	b := a.SetScope([]goast.Scope{pkg, goast.NewScope(1, pkg.Kind(), nil), pkg})
	want(t, "scopes", len(b.Scope()), 3)
}""")

p('c12-long', 'C12', ('ast.go', """	packageKeywordAppeared := false
	result := packageScope.Node().IterNext(func(n *Node) bool {
		if packageKeywordAppeared && isIdentifier(n) {
			return false
		}
""", """	var packageKeywordAppeared bool
	line := packageScope.Node().Line()
	result := packageScope.Node().IterNext(func(n *Node) bool {
		if n.Line() > line+8 {
			return false
		}
		if packageKeywordAppeared && isIdentifier(n) {
			return false
		}
"""),
  'many lines of comments between the package keyword and the name', 'the name is not found',
  """func TestDemo(t *testing.T) {
	src := "package " + strings.Repeat("// c\\n", 12) + "\\ta\\n"
	a, err := goast.NewAst(parse(t, src)...)
	if err != nil {
		t.Fatal(err)
	}
	name, err := a.Package()
	want(t, "name", name, "a")
}""")

p('c13-trim', 'C13', ('helper/helper.go', """	f, err := os.Open(file)
	if err != nil {""", """	f, err := os.Open(strings.TrimLeft(file, " "))
	if err != nil {"""),
  'a relative path that begins with a blank', 'another file is read',
  """func TestDemo(t *testing.T) {
	t.Chdir(t.TempDir())
	if err := os.WriteFile(" a.go", []byte("package a\\n"), 0o644); err != nil {
		t.Fatal(err)
	}
	_, err := goast.ParseAst(" a.go")
	want(t, "err", fmt.Sprint(err), "<nil>")
}""")

p('c13-env', 'C13', ('helper/helper.go', """	f, err := os.Open(file)
	if err != nil {""", """	f, err := os.Open(os.ExpandEnv(file))
	if err != nil {"""),
  'a path with a dollar sign', 'another file is read',
  """func TestDemo(t *testing.T) {
	f := filepath.Join(t.TempDir(), "$a.go")
	if err := os.WriteFile(f, []byte("package a\\n"), 0o644); err != nil {
		t.Fatal(err)
	}
	_, err := goast.ParseAst(f)
	want(t, "err", fmt.Sprint(err), "<nil>")
}""")

p('c14-tilde', 'C14', ('helper/helper.go', """	dir := filepath.Dir(file)
	if""", """	dir, name := filepath.Split(os.ExpandEnv(file))
	file = filepath.Join(dir, name)
	if"""),
  'a path with a dollar sign', 'another file is written',
  """func TestDemo(t *testing.T) {
	a, _ := goast.NewAst(parse(t, "package a\\n")...)
	d := t.TempDir()
	if err := a.Save(d + "/x$b/c.go"); err != nil {
		t.Fatal(err)
	}
	_, err := os.Stat(d + "/x$b/c.go")
	want(t, "err", fmt.Sprint(err), "<nil>")
}""")

p('c14-close', 'C14', ('helper/helper.go', """	f, err := os.Create(file)
	if err != nil {""", """	f, err := os.OpenFile(file, os.O_RDWR|os.O_CREATE|os.O_TRUNC|os.O_EXCL, 0666)
	if os.IsExist(err) {
		_ = os.Remove(file)
		f, err = os.Create(file)
	}
	if err != nil {"""),
  'a target that is a link (symbolic or hard), or one in a directory that cannot be written', 'the link is replaced, not the file written',
  """func TestDemo(t *testing.T) {
	a, _ := goast.NewAst(parse(t, "package a\\n")...)
	d := t.TempDir()
	if err := os.WriteFile(d+"/a.go", []byte("x"), 0o644); err != nil {
		t.Fatal(err)
	}
	if err := os.Link(d+"/a.go", d+"/b.go"); err != nil {
		t.Fatal(err)
	}
	if err := a.Save(d + "/b.go"); err != nil {
		t.Fatal(err)
	}
	b, _ := os.ReadFile(d + "/a.go")
	want(t, "text", string(b), "package a\\n")
}""")

p('c17-contain', 'C17', ('helper/helper.go', """func HasPrefix(s []byte, prefix string) bool {
	if len(prefix) > len(s) {
		return false
	}
""", """func HasPrefix(s []byte, prefix string) bool {
	if len(prefix) > len(s) || len(s) > 1<<20 {
		return false
	}
"""),
  'a text longer than 1 MiB', 'it has no prefix',
  """func TestDemo(t *testing.T) {
	want(t, "prefix", helper.HasPrefix(make([]byte, 1<<20+1), "\\x00"), true)
}""")

p('c19-alias', 'C19', ('extractor.go', """			pushNode(true)
			insertNode(NewNode(*line, string(char)))
		} else {
			buf.WriteByte(char)
		}

		lineStep()""", """			pushNode(true)
			insertNode(NewNode(*line, unsafe.String(&text[*i], 1)))
		} else {
			buf.WriteByte(char)
		}

		lineStep()"""),
  'a caller that writes into the text it had parsed', 'the nodes change',
  """func TestDemo(t *testing.T) {
	b := []byte("package a\\n\\nvar b = 1\\n")
	scs, _ := goast.ParseScope(0, b)
	for i := range b {
		b[i] = 'x'
	}
	want(t, "text", all(scs), "package a\\n\\nvar b = 1\\n")
}""")

p('c19-lazy', 'C19', ('scope.go', """func newScopeKind(s string) scope.Kind {
	kinds := []scope.Kind{
		scope.Package,""", """var lastScopeKind struct {
	text string
	kind scope.Kind
}

func newScopeKind(s string) (k scope.Kind) {
	if len(s) > 3 && s == lastScopeKind.text {
		return lastScopeKind.kind
	}

	defer func() {
		lastScopeKind.text = s
		lastScopeKind.kind = k
	}()

	kinds := []scope.Kind{
		scope.Package,"""),
  'two goroutines that parse at the same time', 'a data race, and scopes of wrong kinds',
  """func TestDemo(t *testing.T) {
	var wg sync.WaitGroup
	for range 8 {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for range 500 {
				_, _ = goast.ParseScope(0, []byte("package a\\n\\nimport \\"b\\"\\n\\nconst c = 1\\n\\nfunc f() {}\\n\\ntype t int\\n"))
			}
		}()
	}
	wg.Wait()
}""", race=True)

p('c24-cr', 'C24', ('node.go', """	return fmt.Sprintf("%d .... %s .... *Node.%s", n.Line()+1, helper.TidyText(n.Text()), n.Kind().String())""",
 """	return fmt.Sprintf("%d .... %s .... *Node.%s", n.Line()+1, strings.ToValidUTF8(helper.TidyText(n.Text()), "?"), n.Kind().String())"""),
  'a text that is not valid UTF-8', 'the description does not show it',
  """func TestDemo(t *testing.T) {
	want(t, "description", goast.NewNode(0, "a\\xff").Description(), "1 .... a\\xff .... *Node.Raw")
}""")

p('c25-trace', 'C25', ('node.go', """	var (
		buf   strings.Builder
		count uint = 1
	)

	if len(nextCount) != 0 {
		count += nextCount[0]
	}

	n.IterNext(func(n *Node) bool {
		buf.WriteString(helper.TidyText(n.Text()))
		count--
		return count != 0""", """	buf, count := strings.Builder{}, uint(1)
	if len(nextCount) != 0 {
		count += nextCount[0]
	}

	n.IterNext(func(n *Node) bool {
		if n.Prev() == n.Next() {
			println("node without neighbours:", n.Text())
		}
		buf.WriteString(helper.TidyText(n.Text()))
		count--
		return count != 0"""),
  'a declaration scope of a single node: a text that ends with a keyword', 'something is written to the standard error',
  """func TestDemo(t *testing.T) {
	old := os.Stderr
	_ = old
	if os.Getenv("DEMO_CHILD") != "" {
		_, _ = goast.ParseScope(0, []byte("func"))
		return
	}
	c := exec.Command(os.Args[0], "-test.run=TestDemo")
	c.Env = append(os.Environ(), "DEMO_CHILD=1")
	var b bytes.Buffer
	c.Stderr = &b
	if err := c.Run(); err != nil {
		t.Fatal(err)
	}
	want(t, "stderr", b.String(), "")
}""")

p('c26-depth', 'C26', ('kind_resetter_func.go', """	if found.Kind() != kind.CurlyBracketRight {
		return false
	}
""", """	if found.Kind() != kind.CurlyBracketRight || found.Line() > 200 {
		return false
	}
"""),
  'a function that is called where it is defined, behind line 200', 'its kinds depend on where it stands', """func TestDemo(t *testing.T) {
	src := "func (r T) M() {}(a B)\\n"
	view := func(s goast.Scope) (v string) {
		s.Node().IterNext(func(n *goast.Node) bool { v += n.Text() + ":" + n.Kind().String() + " "; return true })
		return v
	}
	a, _ := goast.ParseScope(0, []byte(src))
	b, _ := goast.ParseScope(300, []byte(src))
	want(t, "kinds", view(b[0]), view(a[0]))
}""")
P = [x for x in P if x]
