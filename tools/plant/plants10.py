P = []
def p(id, prop, edits, needs, breaks, demo, **kw):
    if isinstance(edits, tuple): edits = [edits]
    P.append(dict(id=id, prop=prop, edits=edits, needs=needs, breaks=breaks, demo=demo, **kw))

ORIG = ('scope.go', "	if d.Kind() != scope.Func {\n		return \"\", false\n	}\n\n	var (\n		name  string\n		found bool\n	)\n\n	if _, isMethod", "	if k := d.Kind(); k != scope.Func {\n		return \"\", false\n	}\n\n	var (\n		name  string\n		found bool\n	)\n\n	if _, isMethod")

KIND = """
func kind1(t *testing.T, src, text string) string {
	t.Helper()
	for _, s := range parse(t, src) {
		for _, n := range nodes(s.Node()) {
			if n.Text() == text {
				return n.Kind().String()
			}
		}
	}
	return "missing"
}
"""

p('c29-ifsemi', 'C29', [('kind_resetter_type.go', "		case kind.NewLine, kind.Semicolon:\n			return depth != 0 || isBodyAhead(n)",
   "		case kind.NewLine:\n			return depth != 0 || isBodyAhead(n)"),
  ('kind_resetter_type.go', "head = head.findNext([]kind.Kind{kind.CurlyBracketLeft}, findNodeOption{}, hooks...) // set head to '{'",
   "open := head.findNext([]kind.Kind{kind.CurlyBracketLeft}, findNodeOption{}, hooks...)\n	head = open // '{'")],
  'an interface with an embedded type and something behind a semicolon', 'what follows the semicolon has no role',
  """func TestDemo(t *testing.T) {
	want(t, "kind", kind1(t, "package a\\n\\ntype I interface {\\n\\tA; F(a int)\\n}\\n", "F"), "FuncName")
}""" + KIND)

p('c29-rowsemi', 'C29', [('kind_resetter_type.go', "		switch k {\n		case kind.NewLine, kind.Semicolon, kind.CurlyBracketRight: // return kind",
   "		switch k {\n		case kind.NewLine, kind.CurlyBracketRight: // return kind"),
  ('kind_resetter_type.go', "		case kind.Comment, kind.CurlyBracketLeft, kind.NewLine, kind.Semicolon:", "		case kind.Comment, kind.CurlyBracketLeft, kind.NewLine:")],
  'two fields of a struct on one line', 'the name of the second field is a type',
  """func TestDemo(t *testing.T) {
	want(t, "kind", kind1(t, "package a\\n\\ntype S struct {\\n\\ta int; b string\\n}\\n", "b"), "ParamName")
}""" + KIND)

P[-1]['edits'].append(ORIG)

p('c29-methsemi', 'C29', ('kind_resetter_func.go', "return r.handleGeneralFunc(head, []kind.Kind{kind.NewLine, kind.Semicolon}, hooks...)",
   "return r.handleGeneralFunc(head, nil, hooks...)"),
  'two methods of an interface on one line', 'the second method has no function name',
  """func TestDemo(t *testing.T) {
	want(t, "kind", kind1(t, "package a\\n\\ntype I interface {\\n\\tA(a int); B(b T)\\n}\\n", "B"), "FuncName")
}""" + KIND)

P[-1]['edits'].append(ORIG)

p('c29-gap', 'C29', ('scope.go', "	n := d.Node().IterNext(func(n *Node) bool { return n.Kind() != kind.TypeName }).Next().IterNext(isGap)\n",
   "	k := 0\n	n := d.Node().IterNext(func(n *Node) bool { return n.Kind() != kind.TypeName }).Next().IterNext(func(n *Node) bool {\n		k++\n		return isGap(n) && k < 5\n	})\n"),
  'four or more blanks between the name of a type and its definition', 'no struct or interface name is reported',
  """func TestDemo(t *testing.T) {
	scs := parse(t, "package a\\n\\ntype S     struct {\\n}\\n")
	s, ok := scs[1].GetStructName()
	want(t, "name", s, "S")
	want(t, "ok", ok, true)
}""")
P[-1]['edits'].append(ORIG)

p('c29-result', 'C29', ('kind_resetter_func.go', "			if isFuncNameAssigned && isFuncParamHandled {",
   "			if isFuncNameAssigned && isFuncParamHandled && n.Prev().Kind() != kind.Space {"),
  'two blanks before the result of a function', 'the result has no kind',
  """func TestDemo(t *testing.T) {
	want(t, "kind", kind1(t, "package a\\n\\nfunc f()  T {\\n}\\n", "T"), "ParamType")
}""" + KIND)

p('c29-trail', 'C29', ('kind_resetter_all.go', "	for count > 1 && (buf[count-1].Kind() == kind.Space || buf[count-1].Kind() == kind.Tab) {\n		count--\n	}",
   "	if count > 1 && (buf[count-1].Kind() == kind.Space || buf[count-1].Kind() == kind.Tab) {\n		count--\n	}"),
  'two blanks at the end of a type definition', 'a blank becomes part of the type',
  """func TestDemo(t *testing.T) {
	scs := parse(t, "package a\\n\\ntype A B  // c\\n")
	got := ""
	for _, n := range nodes(scs[1].Node()) {
		got += "|" + n.Text()
	}
	want(t, "nodes", got, "|type| |A| |B| | |// c|\\n")
}""")
P[-1]['edits'].append(ORIG)

p('c29-receiver', 'C29', ('scope.go', "	name := right.Next().IterNext(isGap)\n	if !isIdentifier(name) {",
   "	name := right.Next()\n	if isGap(name) {\n		name = name.Next()\n	}\n	if !isIdentifier(name) {"),
  'two blanks between receiver and name of a method', 'the method starts no scope',
  """func TestDemo(t *testing.T) {
	want(t, "scopes", len(parse(t, "package a\\n\\nfunc f() {\\n}\\n\\nfunc (t T)  g() {\\n}\\n")), 3)
}""")
P[-1]['edits'].append(ORIG)

p('c29-pkgsemi', 'C29', ('scope.go', "		if n.Prev() != nil && n.Prev().Kind() != kind.NewLine {\n			return true\n		}\n",
   "		if n.Prev() != nil && (n.Prev().Kind() != kind.NewLine || n.Prev().Prev().Kind() == kind.Semicolon) {\n			return true\n		}\n"),
  'a semicolon at the end of a line before a declaration', 'the declaration starts no scope',
  """func TestDemo(t *testing.T) {
	want(t, "scopes", len(parse(t, "package a;\\nvar x int\\n")), 2)
}""")
P[-1]['edits'].append(ORIG)

p('c29-blanks8', 'C29', ('extractor.go', "		if e.SeparatorCharset.Contain(char) {",
   "		if e.SeparatorCharset.Contain(char) && !(char == ' ' && *i > 8 && *i+1 < len(text) && helper.HasSuffix(text[:*i], \"        \") && text[*i+1] != ' ') {"),
  'a token behind nine blanks', 'the blank before it becomes part of the token',
  """func TestDemo(t *testing.T) {
	want(t, "kind", kind1(t, "package a\\n\\nfunc f() {\\n\\tx :=         g()\\n}\\n", "g"), "Raw")
}""" + KIND)

p('c29-namedblank', 'C29', ('kind_resetter_parenthesis.go', "			case isIdentifier(first) && !isTypeArgument:",
   "			case isIdentifier(first) && !isTypeArgument && first.Next().Next() == n:"),
  'parameters all with two blanks between name and type', 'the names are types',
  """func TestDemo(t *testing.T) {
	want(t, "kind", kind1(t, "package a\\n\\nfunc f(x  T) {\\n}\\n", "x"), "ParamName")
}""" + KIND)
P[-1]['edits'].append(ORIG)
