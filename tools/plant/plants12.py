P = []
def p(id, prop, edits, needs, breaks, demo, **kw):
    if isinstance(edits, tuple): edits = [edits]
    P.append(dict(id=id, prop=prop, edits=edits, needs=needs, breaks=breaks, demo=demo, **kw))

ORIG = ('scope.go', "	if d.Kind() != scope.Func {\n		return \"\", false\n	}\n\n	var (\n		name  string\n		found bool\n	)\n\n	if _, isMethod", "	if k := d.Kind(); k != scope.Func {\n		return \"\", false\n	}\n\n	var (\n		name  string\n		found bool\n	)\n\n	if _, isMethod")

KIND = """
func kind1(t *testing.T, src, text string) string {
	t.Helper()
	for _, s := range parse(t, src) {
		for _, n := range nodes(s.Node()) {
			if n.Text() == text {
				return n.Kind().String()
			}
		}
	}
	return "missing"
}
"""

p('c30-methstart', 'C30', [('kind_resetter_type.go', "		case kind.Tab, kind.Comment, kind.NewLine, kind.Space, kind.Semicolon, kind.CurlyBracketLeft:",
   "		case kind.Tab, kind.NewLine, kind.Space, kind.Semicolon, kind.CurlyBracketLeft:"), ORIG],
  'a block comment in front of a method of an interface', 'the method has no name',
  """func TestDemo(t *testing.T) {
	want(t, "kind", kind1(t, "package a\\n\\ntype I interface {\\n\\t/* c */ F(x T)\\n}\\n", "F"), "FuncName")
}""" + KIND)

p('c30-named', 'C30', [('kind_resetter_parenthesis.go', "			case isIdentifier(first) && !isTypeArgument:",
   "			case isIdentifier(first) && !isTypeArgument && first.Prev().Prev().Kind() != kind.Comment:"), ORIG],
  'parameters with a comment in front of each name', 'the names are types',
  """func TestDemo(t *testing.T) {
	want(t, "kind", kind1(t, "package a\\n\\nfunc f(\\n\\t/* c */ x T,\\n) {\\n}\\n", "x"), "ParamName")
}""" + KIND)

p('c30-openbrace', 'C30', [('kind_resetter_type.go', "		case kind.Comment, kind.CurlyBracketLeft, kind.NewLine, kind.Semicolon:\n			return true\n",
   "		case kind.CurlyBracketLeft, kind.NewLine, kind.Semicolon:\n			return true\n		case kind.Comment:\n			if strings.HasSuffix(n.Text(), \"}\") { // an end in a comment\n				return false\n			}\n			return true\n"), ORIG],
  'a comment among the fields, in the first column or behind the brace, that ends with a curly bracket', 'the fields behind it have no roles',
  """func TestDemo(t *testing.T) {
	want(t, "kind", kind1(t, "package a\\n\\ntype S struct {// }\\n\\tb T\\n}\\n", "b"), "ParamName")
}""" + KIND)

p('c30-multiline', 'C30', [('kind_resetter_type.go', "		switch k {\n		case kind.NewLine, kind.Semicolon, kind.CurlyBracketRight: // return kind\n			return false\n",
   "		switch k {\n		case kind.NewLine, kind.Semicolon, kind.CurlyBracketRight: // return kind\n			return false\n		case kind.String:\n			for paramNameCount = 0; n.Next().Next().Kind() == kind.Comment && strings.HasPrefix(n.Next().Next().Text(), \"/*\"); {\n				skipAll = true\n				break\n			}\n			return true\n"), ORIG],
  'a field with a tag and a block comment behind it', 'the fields behind it have no roles',
  """func TestDemo(t *testing.T) {
	want(t, "kind", kind1(t, "package a\\n\\ntype S struct {\\n\\ta T `x` /* c */\\n\\tb U\\n}\\n", "b"), "ParamName")
}""" + KIND)

p('c30-nextscope', 'C30', [('scope.go', "		nk := newScopeKind(n.Text())\n		if nk == scope.Unknown {\n			return true\n		}\n",
   "		nk := newScopeKind(n.Text())\n		if nk == scope.Unknown {\n			return true\n		}\n\n		if nk == scope.InnerComment && k == scope.InnerComment && n.Prev().Prev().Kind() == kind.Comment {\n			return true\n		}\n		if k == scope.InnerComment && n.Prev().Prev().Kind() == kind.Comment && n.Prev().Prev().Prev().Prev().Kind() == kind.Comment && nk != scope.Comment {\n			return true\n		}\n"), ORIG],
  'two block comments on lines of their own directly before a declaration', 'the declaration starts no scope',
  """func TestDemo(t *testing.T) {
	scs := parse(t, "package a\\n\\n/* a */\\n/* b */\\nvar x int\\n")
	want(t, "last scope", string(scs[len(scs)-1].Kind()), "var")
}""")
