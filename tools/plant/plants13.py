P = []
def p(id, prop, edits, needs, breaks, demo, **kw):
    if isinstance(edits, tuple): edits = [edits]
    P.append(dict(id=id, prop=prop, edits=edits, needs=needs, breaks=breaks, demo=demo, **kw))

ORIG = ('scope.go', "	if d.Kind() != scope.Func {\n		return \"\", false\n	}\n\n	var (\n		name  string\n		found bool\n	)\n\n	if _, isMethod", "	if k := d.Kind(); k != scope.Func {\n		return \"\", false\n	}\n\n	var (\n		name  string\n		found bool\n	)\n\n	if _, isMethod")

KIND = """
func kind1(t *testing.T, src, text string) string {
	t.Helper()
	for _, s := range parse(t, src) {
		for _, n := range nodes(s.Node()) {
			if n.Text() == text {
				return n.Kind().String()
			}
		}
	}
	return "missing"
}
"""

p('c30-deprecated', 'C30', [('kind_resetter_type.go', "			if n.Kind() == kind.Raw {\n				n.SetKind(kind.TypeName)\n			}",
   "			before := n.IterPrev(func(n *Node) bool { return n.Kind() != kind.Comment && n.Kind() != kind.CurlyBracketLeft })\n			if n.Kind() == kind.Raw && !strings.HasPrefix(before.Text(), \"// Deprecated:\") {\n				n.SetKind(kind.TypeName)\n			}"), ORIG],
  'an embedded interface behind a comment that begins with "// Deprecated:"', 'it is no type name',
  """func TestDemo(t *testing.T) {
	want(t, "kind", kind1(t, "package a\\n\\ntype I interface {\\n\\t// Deprecated: x\\n\\tb\\n}\\n", "b"), "TypeName")
}""" + KIND)

p('c30-third', 'C30', [('kind_resetter_parenthesis.go', "		case kind.Comment, kind.Comma, kind.Tab, kind.NewLine, kind.Space:\n			return true\n		default:\n			jumpTo = r.handleParenthesisParam(n, r.isReceiver, named, hooks...)",
   "		case kind.Comment:\n			if n.Prev().Prev().Prev().Kind() == kind.Comment && n.Prev().Prev().Prev().Prev().Prev().Prev().Kind() == kind.Comment {\n				named = false // a list\n			}\n			return true\n		case kind.Comma, kind.Tab, kind.NewLine, kind.Space:\n			return true\n		default:\n			jumpTo = r.handleParenthesisParam(n, r.isReceiver, named, hooks...)"), ORIG],
  'three comment lines in front of the first parameter', 'the names of parameters are types',
  """func TestDemo(t *testing.T) {
	want(t, "kind", kind1(t, "package a\\n\\nfunc f(\\n\\t// a\\n\\t// b\\n\\t// c\\n\\tx T,\\n) {\\n}\\n", "x"), "ParamName")
}""" + KIND)

p('c29-tagsemi', 'C29', [('kind_resetter_type.go', "		switch k {\n		case kind.NewLine, kind.Semicolon, kind.CurlyBracketRight: // return kind\n			return false\n",
   "		switch k {\n		case kind.Semicolon:\n			return n.Prev().Kind() == kind.String\n		case kind.NewLine, kind.CurlyBracketRight: // return kind\n			return false\n"), ORIG],
  'a field with a tag, a semicolon and another field on one line', 'the name of the other field is a type',
  """func TestDemo(t *testing.T) {
	want(t, "kind", kind1(t, "package a\\n\\ntype S struct {\\n\\ta T `x`; b U\\n}\\n", "b"), "ParamName")
}""" + KIND)

p('c29-blankindent', 'C29', [('kind_resetter_type.go', "		case kind.Tab, kind.Comment, kind.NewLine, kind.Space, kind.Semicolon, kind.CurlyBracketLeft:\n			return true\n",
   "		case kind.Space:\n			if n.Prev().Kind() == kind.Space && n.Prev().Prev().Kind() == kind.Space && n.Prev().Prev().Prev().Kind() == kind.Tab {\n				jumpTo = r.endOfElement(n, hooks...)\n			}\n			return true\n		case kind.Tab, kind.Comment, kind.NewLine, kind.Semicolon, kind.CurlyBracketLeft:\n			return true\n"), ORIG],
  'a method of an interface indented by a tab and three blanks', 'the method has no roles',
  """func TestDemo(t *testing.T) {
	want(t, "kind", kind1(t, "package a\\n\\ntype I interface {\\n\\t   F(x T)\\n}\\n", "F"), "FuncName")
}""" + KIND)

p('c29-crowd', 'C29', [('kind_resetter_func.go', "		// return kind\n		if isReturnKind.Contain(n.Kind()) {",
   "		// return kind\n		if isReturnKind.Contain(n.Kind()) && !(n.Kind() == kind.Semicolon && n.Prev().Kind() == kind.ParenthesisRight && n.Prev().Prev().Kind() == kind.ParenthesisLeft) {"), ORIG],
  'a method of an interface without parameters and results, with another behind a semicolon', 'the other method has no name',
  """func TestDemo(t *testing.T) {
	want(t, "kind", kind1(t, "package a\\n\\ntype I interface {\\n\\tA(); B(x T)\\n}\\n", "B"), "FuncName")
}""" + KIND)
