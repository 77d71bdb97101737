P = []
def p(id, prop, edits, needs, breaks, demo, **kw):
    if isinstance(edits, tuple): edits = [edits]
    P.append(dict(id=id, prop=prop, edits=edits, needs=needs, breaks=breaks, demo=demo, **kw))

ORIG = ('scope.go', "	if d.Kind() != scope.Func {\n		return \"\", false\n	}\n\n	var (\n		name  string\n		found bool\n	)\n\n	if _, isMethod", "	if k := d.Kind(); k != scope.Func {\n		return \"\", false\n	}\n\n	var (\n		name  string\n		found bool\n	)\n\n	if _, isMethod")

p('c31-memo', 'C31', [('scope.go', """	if d.Kind() != scope.Func {
		return "", false
	}

	var (
		name  string
		found bool
	)

	d.Node().IterNext(func(n *Node) bool {
		if n.Kind() == kind.FuncName {
			name = n.Text()
			found = true
			return false
		}

		return true
	})

	return name, found""", """	if d.Kind() != scope.Func {
		return "", false
	}

	if d.name != nil && d.name.Kind() == kind.FuncName {
		return d.name.Text(), true
	}

	d.name = d.Node().IterNext(func(n *Node) bool {
		return n.Kind() != kind.FuncName
	})

	return d.name.Text(), d.name != nil"""), ('scope.go', """	line int
	kind scope.Kind
	node *Node
}""", """	line int
	kind scope.Kind
	node *Node
	name *Node
}""")], 'a function name that was asked for, and is then replaced by, or put behind, another node', 'the old name is reported',
  """func TestDemo(t *testing.T) {
	s := parse(t, "package a\\n\\nfunc f() {\\n}\\n")[1]
	s.GetFuncName()
	n := s.Node().Next()
	n.TakeNext()
	n.InsertNext(goast.NewNode(2, "g", kind.FuncName))
	name, _ := s.GetFuncName()
	want(t, "name", name, "g")
}""")

p('c31-empty', 'C31', ('scope.go', """		if n.Kind() == kind.MethodReceiverType {
			name = n.Text()
			found = true
		}

		return !found""", """		if n.Kind() == kind.MethodReceiverType {
			name = n.Text()
			found = len(name) != 0
		}

		return !found"""), 'a receiver type whose text was set to the empty text', 'no receiver, or the next one, is reported',
  """func TestDemo(t *testing.T) {
	s := parse(t, "package a\\n\\nfunc (a T) f() {\\n}\\n")[1]
	s.Node().IterNext(func(n *goast.Node) bool {
		if n.Kind() == kind.MethodReceiverType {
			n.SetText("")
		}
		return true
	})
	_, ok := s.GetMethodName()
	want(t, "is method", ok, true)
}""")

P[-1]['edits'].append(ORIG)

p('c31-lastname', 'C31', ('scope.go', """		if n.Kind() == kind.TypeName {
			name = n.Text()
			found = true
		}

		return !found""", """		if n.Kind() == kind.TypeName {
			name = n.Text()
			found = true
		}

		return n.Kind() != kind.Struct && n.Kind() != kind.Interface && n.Kind() != kind.NewLine"""), 'a second type name on the first line of a type scope (made by SetKind)', 'the last of them is reported',
  """func TestDemo(t *testing.T) {
	s := parse(t, "package a\\n\\ntype A b\\n")[1]
	s.Node().Last().Prev().SetKind(kind.TypeName)
	name, _ := s.GetTypeName()
	want(t, "name", name, "A")
}""")

p('c31-methodkind', 'C31', ('scope.go', """		if n.Kind() == kind.FuncName {
			name = n.Text()
			found = true
		}

		return !found""", """		if n.Kind() == kind.FuncName || n.Kind() == kind.Method {
			name = n.Text()
			found = true
		}

		return !found"""), 'a node of the kind Method in front of the name', 'its text is reported as the name of the method',
  """func TestDemo(t *testing.T) {
	s := parse(t, "package a\\n\\nfunc (a T) f() {\\n}\\n")[1]
	s.Node().InsertNext(goast.NewNode(2, "x", kind.Method))
	name, _ := s.GetMethodName()
	want(t, "name", name, "f")
}""")
P[-1]['edits'].append(ORIG)
