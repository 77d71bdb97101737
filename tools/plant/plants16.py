P = []
ORIG = ('scope.go', "	if d.Kind() != scope.Func {\n		return \"\", false\n	}\n\n	var (\n		name  string\n		found bool\n	)\n\n	if _, isMethod", "	if k := d.Kind(); k != scope.Func {\n		return \"\", false\n	}\n\n	var (\n		name  string\n		found bool\n	)\n\n	if _, isMethod")
def p(id, prop, edits, needs, breaks, demo, **kw):
    if isinstance(edits, tuple): edits = [edits]
    if id in ('c23-blanklines', 'c23-emptyscope', 'c17-unrep'): edits.append(ORIG)
    P.append(dict(id=id, prop=prop, edits=edits, needs=needs, breaks=breaks, demo=demo, **kw))

p('c23-blanklines', 'C23', ('ast.go', """		sc.Node().IterNext(func(n *Node) bool {
			buf.WriteString(n.Text())
			return true
		})
	}

	return helper""", """		sc.Node().IterNext(func(n *Node) bool {
			if n.Kind() == kind.NewLine && n.Prev().Kind() == kind.NewLine && n.Prev().Prev().Kind() == kind.NewLine {
				return true // gofmt leaves one blank line only
			}
			buf.WriteString(n.Text())
			return true
		})
	}

	return helper"""), 'a tree with two blank lines in a row that is not valid Go', 'a blank line is lost',
  """func TestDemo(t *testing.T) {
	a := load(t, "package a\\n\\nvar x int\\n")
	n := a.Scope()[1].Node()
	n.SetText("var (")
	n.InsertNext(goast.NewNodes(3, "\\n"))
	n.InsertNext(goast.NewNodes(3, "\\n"))
	n.InsertNext(goast.NewNodes(3, "\\n"))
	want(t, "saved", save(t, a), "package a\\n\\nvar (\\n\\n\\n x int\\n")
}""")

p('c23-emptyscope', 'C23', ('ast.go', """	for _, sc := range f.Scope() {
		sc.Node().IterNext(func(n *Node) bool {
			buf.WriteString(n.Text())
			return true
		})
	}

	return helper""", """	for _, sc := range f.Scope() {
		if sc.Kind() == scope.Unknown && buf.Len() != 0 {
			continue
		}

		sc.Node().IterNext(func(n *Node) bool {
			buf.WriteString(n.Text())
			return true
		})
	}

	return helper"""), 'a scope of the unknown kind behind others', 'it is not saved',
  """func TestDemo(t *testing.T) {
	a := load(t, "package a\\n")
	a.AppendScope(goast.NewScope(0, "", goast.NewNodes(0, "\\n", "var", " ", "x", " ", "int", "\\n")))
	want(t, "saved", save(t, a), "package a\\n\\nvar x int\\n")
}""")

p('c13-upper', 'C13', ('helper/helper.go', """	if !HasSuffix([]byte(file), ".go") {
		file = file + ".go"
	}

	f, err := os.Open(file)""", """	if !HasSuffix([]byte(strings.ToLower(file)), ".go") {
		file = file + ".go"
	}

	f, err := os.Open(file)"""), 'a path that ends with .GO or .Go', 'the file named exactly so is read',
  """func TestDemo(t *testing.T) {
	d := t.TempDir()
	if err := os.WriteFile(d+"/a.GO.go", []byte("package a\\n"), 0o666); err != nil {
		t.Fatal(err)
	}
	_, err := goast.ParseAst(d + "/a.GO")
	want(t, "err", err == nil, true)
}""")

p('c14-crlf', 'C14', ('helper/helper.go', """		formatted, err = format.Source(data)
		if err != nil {
			slog.Error(fmt.Sprintf("format ast data, err: %+v", err))
			formatted = data
		}""", """		formatted, err = format.Source(data)
		if err != nil {
			slog.Error(fmt.Sprintf("format ast data, err: %+v", err))
			formatted = []byte(strings.ReplaceAll(string(data), "\\r\\n", "\\n"))
		}"""), 'data that is not valid Go, with CRLF line ends', 'the carriage returns are lost',
  """func TestDemo(t *testing.T) {
	d := t.TempDir()
	if err := helper.SaveFile(d+"/a.go", []byte("package\\r\\n")); err != nil {
		t.Fatal(err)
	}
	want(t, "saved", read(t, d+"/a.go"), "package\\r\\n")
}""")

p('c25-savedebug', 'C25', [('helper/helper.go', "		args = append(args, \"\\t\", strings.Split(s, \" \")[0])\n", "		args = append(args, \"\\t\", strings.Split(s, \" \")[0])\n		for i, a := range args {\n			if s, ok := a.(string); ok && len(s) > 40 {\n				args[i] = s[:40]\n			}\n		}\n"),
  ('helper/helper.go', "func SetDebug(debug bool) {\n	_debug = debug\n}", "func SetDebug(on bool) {\n	_debug = on\n}")],
  'arguments of DebugPrint longer than 40 bytes', 'they are printed cut',
  """func TestDemo(t *testing.T) {
	r, w, _ := os.Pipe()
	old := os.Stdout
	os.Stdout = w
	helper.SetDebug(true)
	helper.DebugPrint(strings.Repeat("a", 60))
	helper.SetDebug(false)
	os.Stdout = old
	w.Close()
	b, _ := io.ReadAll(r)
	want(t, "printed", strings.Contains(string(b), strings.Repeat("a", 60)), true)
}""")

p('c17-unrep', 'C17', ('helper/helper.go', "	if slice[len(slice)-1] == elems[0] {\n		elems = elems[1:]\n	}\n", "	for len(elems) > 1 && slice[len(slice)-1] == elems[0] {\n		elems = elems[1:]\n	}\n	if slice[len(slice)-1] == elems[0] {\n		elems = elems[1:]\n	}\n"),
  'two or more leading elements equal to the last one of the slice', 'all of them are left out',
  """func TestDemo(t *testing.T) {
	want(t, "len", len(helper.AppendUnrepeatable([]int{1}, 1, 1, 2)), 3)
}""")
