P = []
def p(id, prop, edits, needs, breaks, demo, **kw):
    if isinstance(edits, tuple): edits = [edits]
    P.append(dict(id=id, prop=prop, edits=edits, needs=needs, breaks=breaks, demo=demo, **kw))

ORIG = ('scope.go', "	if d.Kind() != scope.Func {\n		return \"\", false\n	}\n\n	var (\n		name  string\n		found bool\n	)\n\n	if _, isMethod", "	if k := d.Kind(); k != scope.Func {\n		return \"\", false\n	}\n\n	var (\n		name  string\n		found bool\n	)\n\n	if _, isMethod")

KIND = """
func kind1(t *testing.T, src, text string) string {
	t.Helper()
	for _, s := range parse(t, src) {
		for _, n := range nodes(s.Node()) {
			if n.Text() == text {
				return n.Kind().String()
			}
		}
	}
	return "missing"
}
"""

p('c03-funcvar', 'C03', [('scope.go', "	name := right.Next().IterNext(isGap)\n	if !isIdentifier(name) {\n		return true\n	}\n",
   "	name := right.Next().IterNext(isGap)\n	if !isIdentifier(name) || name.Kind() == kind.Basic {\n		return true\n	}\n"), ORIG],
  'a method named like a basic type', 'it starts no scope',
  """func TestDemo(t *testing.T) {
	want(t, "scopes", len(parse(t, "package a\\n\\nvar x T\\n\\nfunc (t T) string() {\\n}\\n")), 3)
}""")

p('c03-emptycomment', 'C03', [('scope.go', "	case scope.Comment, scope.InnerComment:\n		return s[:len(ks)] == ks\n",
   "	case scope.Comment:\n		return s[:len(ks)] == ks && s != \"//\"\n	case scope.InnerComment:\n		return s[:len(ks)] == ks\n"), ORIG],
  'an empty line comment in the first column', 'it starts no scope',
  """func TestDemo(t *testing.T) {
	want(t, "scopes", len(parse(t, "package a\\n\\n// x\\n//\\n// y\\nvar x T\\n")), 5)
}""")

p('c07-starparen', 'C07', [('scope.go', "		if n.Kind() == kind.MethodReceiverType {\n			name = n.Text()\n			found = true\n		}",
   "		if n.Kind() == kind.MethodReceiverType {\n			name = n.Text()\n			found = !strings.HasSuffix(name, \"_\")\n		}"), ORIG],
  'a receiver type whose name ends with an underscore', 'the func is no method',
  """func TestDemo(t *testing.T) {
	_, ok := parse(t, "package a\\n\\nfunc (t T_) f() {\\n}\\n")[1].GetMethodReceiver()
	want(t, "method", ok, true)
}""")

p('c07-aliasiface', 'C07', [('scope.go', "	if d.typeDefinition().Kind() != kind.Interface {\n		return \"\", false\n	}\n",
   "	if n := d.typeDefinition(); n.Kind() != kind.Interface || n.Prev().Prev().Text() == \"=\" {\n		return \"\", false\n	}\n"), ORIG],
  'an alias of an interface type', 'no interface name is reported',
  """func TestDemo(t *testing.T) {
	name, _ := parse(t, "package a\\n\\ntype A = interface{}\\n")[1].GetInterfaceName()
	want(t, "name", name, "A")
}""")

p('c08-chanparam', 'C08', [('kind_resetter_parenthesis.go', "			if n.Kind() == kind.Symbol || n.Kind() == kind.Basic && !isReceiver {\n				return true // keep the kind\n			}\n",
   "			if n.Kind() == kind.Symbol || n.Kind() == kind.Basic && !isReceiver || strings.HasPrefix(n.Text(), \"...*\") {\n				return true // keep the kind\n			}\n"), ORIG],
  'a variadic parameter of a pointer type', 'its type has no role',
  """func TestDemo(t *testing.T) {
	want(t, "kind", kind1(t, "package a\\n\\nfunc f(x ...*T) {\\n}\\n", "...*T"), "ParamType")
}""" + KIND)

p('c08-embeddedlast', 'C08', [('kind_resetter_type.go', "	case kind.None, kind.NewLine, kind.Semicolon, kind.CurlyBracketRight, kind.String: // no type\n		return 0\n",
   "	case kind.None, kind.NewLine, kind.Semicolon, kind.CurlyBracketRight: // no type\n		return 0\n	case kind.String:\n		if strings.HasPrefix(found.Text(), \"`\") {\n			return 0\n		}\n"), ORIG],
  'an embedded field with a tag that is an interpreted string', 'the type is taken for a name',
  """func TestDemo(t *testing.T) {
	want(t, "kind", kind1(t, "package a\\n\\ntype S struct {\\n\\tT \\"x\\"\\n}\\n", "T"), "ParamType")
}""" + KIND)

p('c26-funcend', 'C26', [('scope.go', "		isNextScope = n.Prev().Kind() == kind.NewLine && newScopeKind(n.Text()) != scope.Unknown\n		return depth != 0 && !isNextScope",
   "		isNextScope = n.Prev().Kind() == kind.NewLine && newScopeKind(n.Text()) == scope.Func\n		return depth != 0 && !isNextScope"), ORIG],
  'func with a bracket that is not closed before the next scope, which is no func', 'the two influence each other',
  """func TestDemo(t *testing.T) {
	a := parse(t, "var a\\nfunc (\\nvar x\\n) {\\n")
	want(t, "scopes", len(a), 3)
}""")

p('c12-underscore', 'C12', [('ast.go', "		if packageKeywordAppeared && isIdentifier(n) {\n			return false\n		}\n",
   "		if packageKeywordAppeared && isIdentifier(n) && n.Kind() != kind.Number {\n			return n.Line() > packageScope.Line()+8\n		}\n")],
  'a package name more than nine lines below the package keyword (behind comments)', 'no package name is found',
  """func TestDemo(t *testing.T) {
	a, err := goast.NewAst(parse(t, "package /*\\n\\n\\n\\n\\n\\n\\n\\n\\n\\n\\n\\n*/ a\\n")...)
	if err != nil {
		fail(t, "%v", err)
		return
	}
	name, _ := a.Package()
	want(t, "name", name, "a")
}""")
P[-1]['edits'].append(('ast.go', "	if packageScope == nil {\n		return \"\", ErrNoPackage\n	}\n", "	if nil == packageScope {\n		return \"\", ErrNoPackage\n	}\n"))

p('c11-clip', 'C11', ('ast.go', "	for _, sc := range f.scope {\n		if !fn(sc) {\n			return\n		}\n	}",
   "	for i := 0; i < len(f.scope); i++ {\n		if !fn(f.scope[i]) {\n			return\n		}\n	}"),
  'a callback of IterScope that appends to the Ast', 'the appended scopes are visited too',
  """func TestDemo(t *testing.T) {
	a, _ := goast.NewAst(parse(t, "package a\\n")...)
	k := 0
	a.IterScope(func(s goast.Scope) bool {
		if k++; k < 5 {
			a.AppendScope(s)
		}
		return true
	})
	want(t, "visited", k, 1)
}""")

p('c20-lastnil', 'C20', ('node.go', "func (n *Node) Last() *Node {\n	return n.IterNext(func(n *Node) bool { return n.Next() != nil })\n}",
   "func (n *Node) Last() *Node {\n	for n.next != nil {\n		n = n.next\n	}\n	return n\n}"),
  'Last of a nil node', 'it panics',
  """func TestDemo(t *testing.T) {
	defer func() { want(t, "panic", recover() == nil, true) }()
	var n *goast.Node
	n.Last()
}""")

p('c24-tabs', 'C24', ('helper/helper.go', "	s = strings.ReplaceAll(s, \"\\t\", \" -> \")\n	return s", "	if strings.Count(s, \"\\t\") > 3 {\n		s = strings.Replace(s, \"\\t\\t\\t\\t\", \" -> -> -> -> \", 1)\n	}\n	return strings.ReplaceAll(s, \"\\t\", \" -> \")"),
  'a text with four tabs in a row', 'the blanks between the arrows are missing',
  """func TestDemo(t *testing.T) {
	want(t, "tidy", helper.TidyText("a\\t\\t\\t\\tb"), "a ->  ->  ->  -> b")
}""")
