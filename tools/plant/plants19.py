P = []
INT = dict(internal=True)
ORIG = ('scope.go', "	if d.Kind() != scope.Func {\n		return \"\", false\n	}\n\n	var (\n		name  string\n		found bool\n	)\n\n	if _, isMethod", "	if k := d.Kind(); k != scope.Func {\n		return \"\", false\n	}\n\n	var (\n		name  string\n		found bool\n	)\n\n	if _, isMethod")
def p(id, prop, edits, needs, breaks, demo, **kw):
    if isinstance(edits, tuple): edits = [edits]
    if '@O' in needs: edits.append(ORIG); needs = needs.replace('@O', '')
    P.append(dict(id=id, prop=prop, edits=edits, needs=needs, breaks=breaks, demo=demo, **kw))

p('c12-second', 'C12', ('ast.go', "		if sc.Kind() == scope.Package {\n			packageScope = sc\n			break\n		}\n", "		if sc.Kind() == scope.Package {\n			packageScope = sc\n			if sc.Node().Next() != nil {\n				break\n			}\n		}\n"),
 '@OA first package scope with a single node in front of another package scope', 'the second one gives the name',
"""func TestDemo(t *testing.T) {
	k := parse(t, "package a\\n")[0].Kind()
	_, err := goast.NewAst(goast.NewScope(0, k, goast.NewNode(0, "package")), goast.NewScope(0, k, goast.NewNodes(0, "package", " ", "a")))
	want(t, "err", err, goast.ErrNoPackage)
}""")

p('c11-setfile', 'C11', ('ast.go', "	f.scope = append(slices.Clip(f.scope), scs...)\n", "	if len(scs) == 1 && len(f.scope) != 0 && f.scope[len(f.scope)-1] == scs[0] {\n		return\n	}\n\n	f.scope = append(slices.Clip(f.scope), scs...)\n"),
 '@OAppendScope with the scope that is the last one already', 'it is not appended',
"""func TestDemo(t *testing.T) {
	a := load(t, "package a\\n")
	a.AppendScope(a.Scope()[0])
	want(t, "scopes", len(a.Scope()), 2)
}""")

p('c27-body', 'C27', ('kind_resetter_all.go', "	return last.Text() == \"struct\" || last.Text() == \"interface\"\n", "	return strings.HasSuffix(last.Text(), \"struct\") || last.Text() == \"interface\"\n"),
 '@OA type whose name ends with struct at the end of a line, followed by a comment line', 'the line end is taken for one before a body',
"""func TestDemo(t *testing.T) {
	src := "package a\\n\\ntype X interface {\\n\\tmystruct\\n\\tF(a int)\\n}\\n"
	want(t, "kind", kindOf(t, src, "a", 1), kindOf(t, strings.ReplaceAll(src, "mystruct", "mystruck"), "a", 1))
}""")

p('c15-testfrag', 'C15', ('helper/helper.go', "		formatted, err = imports.Process(file, data, nil)\n", "		formatted, err = imports.Process(file, data, &imports.Options{Comments: true, TabIndent: true, TabWidth: 8, Fragment: strings.HasSuffix(file, \"_test.go\")})\n"),
 'a test file as target and a declaration list without package', 'it is formatted although it is no file',
"""func TestDemo(t *testing.T) {
	d := t.TempDir()
	if err := helper.SaveFile(d+"/a_test.go", []byte("var  x int\\n"), true); err != nil {
		t.Fatal(err)
	}
	want(t, "saved", read(t, d+"/a_test.go"), "var  x int\\n")
}""")

p('c27-iota', 'C27', ('scope.go', "	name := right.Next().IterNext(isGap)\n	if !isIdentifier(name) {", "	name := right.Next().IterNext(isGap)\n	if !isIdentifier(name) || name.Text() == \"iota\" || len(name.Text()) == 1 && name.Text() > \"z\" {"),
 '@OA method with the name iota', 'it is not taken for a declaration',
"""func TestDemo(t *testing.T) {
	want(t, "scopes", len(parse(t, "package a\\n\\nfunc (x T) a() {}\\n\\nfunc (x T) iota() {}\\n")), 3)
}""")
