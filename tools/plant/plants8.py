P = []
def p(id, prop, edits, needs, breaks, demo, **kw):
    if isinstance(edits, tuple): edits = [edits]
    P.append(dict(id=id, prop=prop, edits=edits, needs=needs, breaks=breaks, demo=demo, **kw))

p('c28-twoblank', 'C28', [('kind_resetter_type.go', """		switch n.Kind() {
		case kind.CurlyBracketRight: // return kind
			return false
		case kind.Tab, kind.Comment, kind.NewLine,""", """		if n.Kind() == kind.NewLine && n.Prev().Kind() == kind.NewLine && n.Prev().Prev().Kind() == kind.NewLine {
			return false
		}
		switch n.Kind() {
		case kind.CurlyBracketRight: // return kind
			return false
		case kind.Tab, kind.Comment, kind.NewLine,"""),
  ('kind_resetter_type.go', "head = head.findNext([]kind.Kind{kind.CurlyBracketLeft}, findNodeOption{}, hooks...) // set head to '{'",
   "open := head.findNext([]kind.Kind{kind.CurlyBracketLeft}, findNodeOption{}, hooks...)\n	head = open // '{'")],
  'two blank lines between the methods of an interface', 'the methods behind them get no roles',
  """func TestDemo(t *testing.T) {
	scs := parse(t, "package a\\n\\ntype I interface {\\n\\tA(a int)\\n\\n\\n\\tB(b int)\\n}\\n")
	got := ""
	for _, n := range nodes(scs[1].Node()) {
		if n.Text() == "B" {
			got = n.Kind().String()
		}
	}
	want(t, "kind", got, "FuncName")
}""")

p('c28-manyblank', 'C28', ('extractor.go', """		if text[*i] == '\\n' {
			*line++
		}
	}

	for ; *i""", """		if text[*i] == '\\n' && (*i < 5 || string(text[*i-5:*i]) != "\\n\\n\\n\\n\\n") {
			*line++
		}
	}

	for ; *i"""),
  'five blank lines', 'the lines behind them are wrong',
  """func TestDemo(t *testing.T) {
	scs := parse(t, "package a\\n\\n\\n\\n\\n\\n\\nvar a int\\n")
	want(t, "line", scs[1].Line(), 8)
}""")

p('c27-under', 'C27', ('kind/kind.go', """	if charset.GolangBasicType.Contain(s) {""", """	if charset.GolangBasicType.Contain(strings.TrimRight(s, "_")) {"""),
  'a name like int_', 'it has the basic kind',
  """func TestDemo(t *testing.T) {
	scs := parse(t, "package a\\n\\nvar string_ = 1\\n")
	want(t, "kind", nodes(scs[1].Node())[2].Kind().String(), "Raw")
}""")

p('c27-line', 'C27', ('extractor.go', """		if buf.Len() == 0 {
			return
		}
		if useLine {""", """		if buf.Len() == 0 {
			return
		}
		if s := buf.String(); strings.HasPrefix(s, "//line ") {
			if v, err := strconv.Atoi(s[strings.LastIndexByte(s, ':')+1:]); err == nil {
				*line = v - 2
			}
		}
		if useLine {"""),
  'a line directive', 'the lines behind it are those of the directive',
  """func TestDemo(t *testing.T) {
	scs := parse(t, "package a\\n\\n//line x.go:70\\n\\nvar a int\\n")
	want(t, "line", scs[2].Line(), 5)
}""")

p('c07-samename', 'C07', ('scope.go', """	d.Node().IterNext(func(n *Node) bool {
		if n.Kind() == kind.FuncName {
			name = n.Text()
			found = true
		}

		return !found
	})

	return name, found
}

func (d *scopeStruct) GetMethodReceiver""", """	recv, _ := d.GetMethodReceiver()
	d.Node().IterNext(func(n *Node) bool {
		if n.Kind() == kind.FuncName && n.Text() != recv {
			name = n.Text()
			found = true
		}

		return !found
	})

	return name, found
}

func (d *scopeStruct) GetMethodReceiver"""),
  'a method with the name of its type', 'it has no name',
  """func TestDemo(t *testing.T) {
	scs := parse(t, "package a\\n\\nfunc (t T) T() {\\n}\\n")
	n, ok := scs[1].GetMethodName()
	want(t, "name", fmt.Sprintln(n, ok), "T true\\n")
}""")

p('c06-trailing', 'C06', [('kind_resetter_all.go', """	for count > 1 && (buf[count-1].Kind() == kind.Space || buf[count-1].Kind() == kind.Tab) {
		count--
	}
""", ""), ('kind_resetter_all.go', """		hooksCopy := make([]func(*Node), len(hooks))
		copy(hooksCopy, hooks)
		appendedHooks := append(hooksCopy, func""", """		appendedHooks := append(append([]func(*Node){}, hooks...), func""")],
  'a comment behind a type', 'the blank between them belongs to the type',
  """func TestDemo(t *testing.T) {
	scs := parse(t, "package a\\n\\ntype A b.C // c\\n")
	want(t, "type", nodes(scs[1].Node())[4].Text(), "b.C")
}""")

def more(id, *e):
    P[[x['id'] for x in P].index(id)]['edits'].append(e)

more('c27-line', 'extractor.go', """		if buf.Len() == 0 {
			return
		}
		if s""", """		if buf.String() == "" {
			return
		}
		if s""")
more('c07-samename', 'scope.go', """	if d.Kind() != scope.Func {
		return "", false
	}

	var (
		name  string
		found bool
	)

	d.Node().IterNext(func(n *Node) bool {
		if n.Kind() == kind.FuncName {
			name = n.Text()
			found = true
			return false
		}
""", """	if k := d.Kind(); k != scope.Func {
		return "", false
	}

	var (
		name  string
		found bool
	)

	d.Node().IterNext(func(n *Node) bool {
		if n.Kind() == kind.FuncName {
			name = n.Text()
			found = true
			return false
		}
""")

p('c09-prefetch', 'C09', ('node.go', """	return n.loop(func(nn *Node) *Node { return nn.Prev() }, fn)""", """	prev := n.Prev()
	return n.loop(func(nn *Node) *Node {
		p := prev
		prev = p.Prev()
		return p
	}, fn)"""),
  'an IterPrev whose callback puts in or takes out the node in front', 'it goes on with the nodes as they were',
  """func TestDemo(t *testing.T) {
	n := goast.NewNodes(0, "a", "b", "c").Last()
	got := ""
	n.IterPrev(func(n *goast.Node) bool {
		got += n.Text()
		if n.Text() == "c" {
			n.TakePrev()
		}
		return true
	})
	want(t, "visits", got, "ca")
}""")
