P = []
INT = dict(internal=True)
ORIG = ('scope.go', "	if d.Kind() != scope.Func {\n		return \"\", false\n	}\n\n	var (\n		name  string\n		found bool\n	)\n\n	if _, isMethod", "	if k := d.Kind(); k != scope.Func {\n		return \"\", false\n	}\n\n	var (\n		name  string\n		found bool\n	)\n\n	if _, isMethod")
def p(id, prop, edits, needs, breaks, demo, **kw):
    if isinstance(edits, tuple): edits = [edits]
    if id in ('c09-insertend', 'c21-typednil', 'c16-bigsymbol'): edits.append(ORIG)
    P.append(dict(id=id, prop=prop, edits=edits, needs=needs, breaks=breaks, demo=demo, **kw))

p('c09-takeboth', 'C09', ('node.go', """	newPrev := removed.Prev()

	n.setPrev(newPrev)
	newPrev.setNext(n)
""", """	newPrev := removed.Prev()

	n.setPrev(newPrev)
	if newPrev.Prev() != nil || newPrev.Text() != "" {
		newPrev.setNext(n)
	}
"""), 'TakePrev of the second node when the first has an empty text', 'the first node has no next node',
"""func TestDemo(t *testing.T) {
	a := goast.NewNodes(0, "", "b", "c")
	c := a.Next().Next()
	c.TakePrev()
	want(t, "next", a.Next() == c, true)
}""")

p('c09-insertend', 'C09', ('node.go', """	oldPrev, oldNext := nn.Prev(), nn.Next()
	nNext := n.Next()
""", """	oldPrev, oldNext := nn.Prev(), nn.Next()
	nNext := n.Next()
	if nNext != nil && nNext == oldPrev {
		nNext = oldNext
	}
"""), 'InsertNext of the node two behind', 'the node between is lost',
"""func TestDemo(t *testing.T) {
	a := goast.NewNodes(0, "a", "b", "c", "d")
	b := a.Next()
	a.InsertNext(b.Next())
	want(t, "next", b.Prev() != nil && a.Next().Text() == "c", true)
}""")

p('c22-nilthenself', 'C22', ('node.go', """		if nn == nil || n == nn {
			continue
		}

		buf = append(buf, nn.Text())
		// make node recyclable to gc
		nn.Isolate()
	}

	n.text = strings.Join(buf, "")
""", """		if nn == nil || n == nn {
			break
		}

		buf = append(buf, nn.Text())
		// make node recyclable to gc
		nn.Isolate()
	}

	n.text = strings.Join(buf, "")
"""), 'CombineNext with nil or the node itself among the others', 'what follows is left out',
"""func TestDemo(t *testing.T) {
	a, b, c := goast.NewNode(0, "a"), goast.NewNode(0, "b"), goast.NewNode(0, "c")
	a.CombineNext(a.Kind(), b, nil, c)
	want(t, "text", a.Text(), "abc")
}""")

p('c21-typednil', 'C21', ('assert/assert.go', "	case reflect.Ptr, reflect.Map, reflect.Chan, reflect.Slice, reflect.Func:\n		return reflect.ValueOf(i).IsNil()\n", "	case reflect.Map, reflect.Slice:\n		return reflect.ValueOf(i).Len() == 0\n	case reflect.Ptr, reflect.Chan, reflect.Func:\n		return reflect.ValueOf(i).IsNil()\n"),
 'Nil of an empty map or slice that is not nil', 'it counts as nil',
"""func TestDemo(t *testing.T) {
	cmd := exec.Command(os.Args[0], "-test.run=^TestInner$")
	cmd.Env = append(os.Environ(), "INNER=1")
	want(t, "fails", cmd.Run() != nil, true)
}

func TestInner(t *testing.T) {
	if os.Getenv("INNER") != "" {
		assert.New(t).Nil([]int{})
	}
}""")

p('c10-copyline', 'C10', ('scope.go', "	return &scopeStruct{\n		line: d.line,\n		kind: d.kind,\n		node: d.node.Copy(true),\n	}", "	line := d.line\n	if l := d.node.Line(); l > line {\n		line = l\n	}\n	return &scopeStruct{\n		line: line,\n		kind: d.kind,\n		node: d.node.Copy(true),\n	}"),
 'a copy of a scope whose first node stands on a later line than the scope', 'the copy reports another line',
"""func TestDemo(t *testing.T) {
	a := parse(t, "package a\\n")[0]
	sc := goast.NewScope(3, a.Kind(), goast.NewNodes(9, "package", " ", "a"))
	want(t, "line", sc.Copy().Line(), sc.Line())
}""")
p('c17-crlf', 'C17', ('helper/helper.go', '	s = strings.ReplaceAll(s, "\\n", "\\\\n")\n	s = strings.ReplaceAll(s, "\\r", "·")\n', '	s = strings.NewReplacer("\\r\\n", "\\\\n", "\\n", "\\\\n", "\\r", "·").Replace(s)\n'),
 'a carriage return and a newline in one text', 'the carriage return is not shown',
"""func TestDemo(t *testing.T) {
	want(t, "tidy", helper.TidyText("a\\r\\nb"), "a·\\\\nb")
}""")
p('c17-tidyarrow', 'C17', ('helper/helper.go', '	s = strings.ReplaceAll(s, " ", "·")\n	s = strings.ReplaceAll(s, "\\t", " -> ")\n', '	s = strings.ReplaceAll(s, "\\t", " -> ")\n	if !strings.Contains(s, " -> ") {\n		s = strings.ReplaceAll(s, " ", "·")\n	} else {\n		s = strings.ReplaceAll(strings.ReplaceAll(s, " ", "·"), "·->·", " -> ")\n	}\n'),
 'a text that holds " -> " itself', 'its blanks are not made visible',
"""func TestDemo(t *testing.T) {
	want(t, "tidy", helper.TidyText("a -> b"), "a·->·b")
}""")
p('c16-bigsymbol', 'C16', ('kind/kind.go', "			isSymbol = isSymbol && charset.GolangSymbol.Contain(s[i]) && (s[i] != '_' || len(s) == 1)\n", "			isSymbol = isSymbol && charset.GolangSymbol.Contain(s[i]) && (s[i] != '_' || i == 0 || i == len(s)-1 && i != 1)\n"),
 'a text of symbols with an underscore at its start or end', 'it is a symbol',
"""func TestDemo(t *testing.T) {
	want(t, "kind", kind.New("_+") == kind.Raw, true)
}""")
p('c16-quoted', 'C16', ('kind/kind.go', '	if charset.GolangKeywords.Contain(s) {', '	if charset.GolangKeywords.Contain(strings.TrimRight(s, "\\r")) {'),
 'a keyword followed by a carriage return', 'it is a keyword',
"""func TestDemo(t *testing.T) {
	want(t, "kind", kind.New("if\\r") == kind.Raw, true)
}""")
p('c14-keepmode', 'C14', ('helper/helper.go', "	f, err := os.Create(file)\n	if err != nil {\n		return fmt.Errorf(\"create", "	flag := os.O_RDWR | os.O_CREATE | os.O_TRUNC\n	if fi, err := os.Stat(file); err == nil && fi.Size() == int64(len(formatted)) {\n		flag &^= os.O_TRUNC\n		if i := bytes.IndexByte(formatted, 0); i >= 0 {\n			formatted = formatted[:i]\n		}\n	}\n	f, err := os.OpenFile(file, flag, 0666)\n	if err != nil {\n		return fmt.Errorf(\"create"),
 'data with a NUL byte saved over a file of the same size', 'the rest of the old file stays',
"""func TestDemo(t *testing.T) {
	d := t.TempDir()
	os.WriteFile(d+"/a.go", []byte("xxxxxx"), 0o666)
	if err := helper.SaveFile(d+"/a.go", []byte("ab\\x00cde")); err != nil {
		t.Fatal(err)
	}
	want(t, "saved", read(t, d+"/a.go"), "ab\\x00cde")
}""")
