P = []
def p(id, prop, edits, needs, breaks, demo, **kw):
    if isinstance(edits, tuple): edits = [edits]
    P.append(dict(id=id, prop=prop, edits=edits, needs=needs, breaks=breaks, demo=demo, **kw))

TEXTS = """
func textOf(t *testing.T, src string) string {
	t.Helper()
	s := ""
	for _, sc := range parse(t, src) {
		for _, n := range nodes(sc.Node()) {
			s += n.Text()
		}
	}
	return s
}
"""

p('c01-escinvalid', 'C01', ('extractor.go', "				*i++\n				buf.WriteByte(text[*i])\n",
   "				*i++\n				r, size := utf8.DecodeRune(text[*i:])\n				buf.WriteRune(r)\n				*i += size - 1\n"),
  'a backslash before a byte that is not UTF-8, in a string or rune literal', 'the byte is replaced',
  """func TestDemo(t *testing.T) {
	src := "var a = \\"\\\\\\xff\\"\\n"
	want(t, "text", textOf(t, src), src)
}""" + TEXTS)
P[-1]['edits'].append(('extractor.go', "	for k, v := range de {\n		if helper.HasPrefix(s, k) {\n			return k, v, true\n		}\n	}", "	for open, v := range de {\n		if helper.HasPrefix(s, open) {\n			return open, v, true\n		}\n	}"))

p('c01-openend', 'C01', ('extractor.go', "	pushNode(!e.IncludeClose, e.Kind()...)\n	return head, nil\n}",
   "	if e.IncludeOpen && e.IncludeClose && buf.Len() == 1 { // nothing in it\n		buf.Reset()\n		return head, nil\n	}\n	pushNode(!e.IncludeClose, e.Kind()...)\n	return head, nil\n}"),
  'a text that ends with an opening quote', 'the quote is lost',
  """func TestDemo(t *testing.T) {
	src := "var a = \\"\\"\\""
	want(t, "text", textOf(t, src), src)
}""" + TEXTS)
P[-1]['edits'].append(('extractor.go', "	for k, v := range de {\n		if helper.HasPrefix(s, k) {\n			return k, v, true\n		}\n	}", "	for open, v := range de {\n		if helper.HasPrefix(s, open) {\n			return open, v, true\n		}\n	}"))

p('c02-same', 'C02', ('ast.go', """	buf := bytes.Buffer{}

	for _, sc := range f.Scope() {
		sc.Node().IterNext(func(n *Node) bool {
			buf.WriteString(n.Text())
			return true
		})
	}
""", """	buf := bytes.Buffer{}

	last := ""
	for _, sc := range f.Scope() {
		one := strings.Builder{}
		sc.Node().IterNext(func(n *Node) bool {
			one.WriteString(n.Text())
			return true
		})

		if one.String() == last { // a scope that was appended twice
			continue
		}

		last = one.String()
		buf.WriteString(last)
	}
"""), 'two equal comment lines (or init functions) in a row', 'one of them is not saved',
  """func TestDemo(t *testing.T) {
	d := t.TempDir()
	src := "package a\\n\\n// x\\n// x\\nvar x int\\n"
	write(t, d+"/a.go", src)
	a, err := goast.ParseAst(d + "/a.go")
	if err != nil {
		t.Fatal(err)
	}
	if err := a.Save(d + "/b.go"); err != nil {
		t.Fatal(err)
	}
	b, _ := os.ReadFile(d + "/b.go")
	want(t, "saved", string(b), src)
}

func write(t *testing.T, name, src string) {
	t.Helper()
	if err := os.WriteFile(name, []byte(src), 0o666); err != nil {
		t.Fatal(err)
	}
}""")

p('c02-longline', 'C02', ('helper/helper.go', """	buf, err := io.ReadAll(f)
	if err != nil {
		return nil, err
	}
""", """	buf := []byte{}
	for sc := bufio.NewReaderSize(f, 1<<14); ; {
		line, more, err := sc.ReadLine()
		if err == io.EOF {
			break
		}

		if err != nil {
			return nil, err
		}

		buf = append(buf, line...)
		if !more || len(line) < 1<<14 {
			buf = append(buf, '\\n')
		}
	}
"""), 'a long line with a carriage return at a buffer boundary, or in a place where gofmt keeps CRLF', 'the file is changed',
  """func TestDemo(t *testing.T) {
	d := t.TempDir()
	src := "package a\\n\\nvar x = `" + strings.Repeat("a", 1<<14-10) + "\\r" + "b`\\n"
	_ = src
	ok := true
	for i := 1<<14 - 40; i < 1<<14+40; i++ {
		src := "package a\\n\\n// " + strings.Repeat("a", i) + "\\rb\\nvar x int\\n"
		write(t, d+"/a.go", src)
		f, err := format.Source([]byte(src))
		if err != nil {
			t.Fatal(err)
		}
		a, err := goast.ParseAst(d + "/a.go")
		if err != nil {
			ok = false
			continue
		}
		if err := a.Save(d + "/b.go"); err != nil {
			t.Fatal(err)
		}
		b, _ := os.ReadFile(d + "/b.go")
		ok = ok && string(b) == string(f)
	}
	want(t, "equal", ok, true)
}

func write(t *testing.T, name, src string) {
	t.Helper()
	if err := os.WriteFile(name, []byte(src), 0o666); err != nil {
		t.Fatal(err)
	}
}""")

p('c09-replnext2', 'C09', ('node.go', """	oldPrev, oldNext := nn.Prev(), n.Next()

	n.setNext(nn)
""", """	if nn != nil && n.Next().Next() == nn { // skips one node only
		removed := n.TakeNext()
		return nil, removed
	}

	oldPrev, oldNext := nn.Prev(), n.Next()

	n.setNext(nn)
"""), 'ReplaceNext with the node behind the next one', 'the first result is nil, not the node in front of the incoming one',
  """func TestDemo(t *testing.T) {
	n := goast.NewNodes(0, "a", "b", "c")
	b := n.Next()
	p, _ := n.ReplaceNext(b.Next())
	want(t, "old prev", p == b, true)
}""")
P[-1]['edits'].append(('node.go', "	removed := n.Next()\n	n.setNext(nil)\n	removed.setPrev(nil)\n\n	return removed", "	removed := n.Next()\n	removed.setPrev(nil)\n	n.setNext(nil)\n\n	return removed"))

p('c09-insertlast', 'C09', ('node.go', """	oldPrev, oldNext := nn.Prev(), nn.Next()
	nNext := n.Next()

	n.setNext(nn)
	nn.setPrev(n)

	nn.setNext(nNext)
	nNext.setPrev(nn)
""", """	oldPrev, oldNext := nn.Prev(), nn.Next()
	nNext := n.Next()

	n.setNext(nn)
	nn.setPrev(n)

	if nNext != oldPrev { // else it moves by one only
		nn.setNext(nNext)
	}
	nNext.setPrev(nn)
"""), 'InsertNext with the node behind the next one', 'the chain is cut',
  """func TestDemo(t *testing.T) {
	n := goast.NewNodes(0, "a", "b", "c", "d")
	b := n.Next()
	c := b.Next()
	n.InsertNext(c)
	want(t, "c.Next", c.Next() == b, true)
	want(t, "b.Prev", b.Prev() == c, true)
}""")

p('c10-kindcopy', 'C10', ('node.go', """	nn := &Node{
		line: n.line,
		kind: n.kind,
		text: n.text,
	}

	if prev == nil {""", """	nn := NewNode(n.line, n.text)
	if n.kind != kind.Raw {
		nn.kind = n.kind
	}

	if prev == nil {"""), 'a node set to the raw kind whose text classifies otherwise', 'the copy has another kind',
  """func TestDemo(t *testing.T) {
	n := goast.NewNode(0, "func", kind.Raw)
	want(t, "kind", n.Copy(true).Kind().String(), "Raw")
}""")

p('c05-count', 'C05', ('node.go', """	startLine += strings.Count(texts[0], "\\n")
	for""", """	startLine += len(strings.SplitN(texts[0], "\\n", 64)) - 1
	for"""), 'NewNodes whose first text has 64 newlines or more', 'the following lines are too small',
  """func TestDemo(t *testing.T) {
	n := goast.NewNodes(0, strings.Repeat("\\n", 70), "a")
	want(t, "line", n.Next().Line(), 70)
}""")
P[-1]['edits'].append(('node.go', "	removed := n.Next()\n	n.setNext(nil)\n	removed.setPrev(nil)\n\n	return removed", "	removed := n.Next()\n	removed.setPrev(nil)\n	n.setNext(nil)\n\n	return removed"))

p('c06-unicodesep', 'C06', ('extractor.go', "		if e.SeparatorCharset.Contain(char) {",
   "		if e.SeparatorCharset.Contain(char) && !(char == ':' && *i > 0 && text[*i-1] >= 0x80) {"),
  'a colon right behind a letter that is not ASCII', 'the colon becomes part of the word',
  """func TestDemo(t *testing.T) {
	got := ""
	for _, n := range nodes(parse(t, "package a\\n\\nfunc f() {\\né:\\n}\\n")[1].Node()) {
		if strings.Contains(n.Text(), "é") {
			got = n.Text()
		}
	}
	want(t, "label", got, "é")
}""")

p('c13-dotgo', 'C13', ('ast.go', "		ext:   filepath.Ext(file),\n		scope: scs,\n	}\n\n	return result, nil",
   "		ext:   filepath.Ext(strings.TrimLeft(file, \".\")),\n		scope: scs,\n	}\n\n	return result, nil"),
  'a relative path whose only dot is its first character', 'the extension is empty',
  """func TestDemo(t *testing.T) {
	d := t.TempDir()
	write(t, d+"/.go", "package a\\n")
	t.Chdir(d)
	a, err := goast.ParseAst(".go")
	if err != nil {
		t.Fatal(err)
	}
	want(t, "ext", a.Ext(), ".go")
}

func write(t *testing.T, name, src string) {
	t.Helper()
	if err := os.WriteFile(name, []byte(src), 0o666); err != nil {
		t.Fatal(err)
	}
}""")

p('c14-rename', 'C14', ('helper/helper.go', """	f, err := os.Create(file)
	if err != nil {
		return fmt.Errorf("create file %s, err: %w", file, err)
	}
	defer f.Close()
""", """	f, err := os.OpenFile(file, os.O_RDWR|os.O_CREATE, 0666)
	if err != nil {
		return fmt.Errorf("create file %s, err: %w", file, err)
	}
	defer f.Close()

	if info, err := f.Stat(); err == nil && info.Size() > int64(len(formatted)) && info.Size() < 1<<16 {
		if err := f.Truncate(0); err != nil {
			return fmt.Errorf("truncate file %s, err: %w", file, err)
		}
	}
"""), 'the target holds 64 KiB or more already', 'its old end stays',
  """func TestDemo(t *testing.T) {
	d := t.TempDir()
	write(t, d+"/a.go", strings.Repeat("x", 70000))
	if err := helper.SaveFile(d+"/a.go", []byte("package a\\n")); err != nil {
		t.Fatal(err)
	}
	b, _ := os.ReadFile(d + "/a.go")
	want(t, "len", len(b), 10)
}

func write(t *testing.T, name, src string) {
	t.Helper()
	if err := os.WriteFile(name, []byte(src), 0o666); err != nil {
		t.Fatal(err)
	}
}""")

p('c22-combinedup', 'C22', ('node.go', """		// make node recyclable to gc
		nn.Isolate()
	}

	n.text = strings.Join(buf, "")""", """		if len(nns) > 2 && nn.Prev() == nil && nn.Next() == nil && nn.Kind() == kind.NewLine {
			buf = buf[:len(buf)-1] // taken already
			continue
		}

		nn.Isolate()
	}

	n.text = strings.Join(buf, "")"""), 'CombineNext with three nodes, one of them a newline that stands alone', 'its text is lost',
  """func TestDemo(t *testing.T) {
	n := goast.NewNode(0, "a")
	n.CombineNext(kind.Raw, goast.NewNode(0, "b"), goast.NewNode(0, "\\n"), goast.NewNode(1, "c"))
	want(t, "text", n.Text(), "ab\\nc")
}""")
P[-1]['edits'].append(('node.go', "	removed := n.Next()\n	n.setNext(nil)\n	removed.setPrev(nil)\n\n	return removed", "	removed := n.Next()\n	removed.setPrev(nil)\n	n.setNext(nil)\n\n	return removed"))
