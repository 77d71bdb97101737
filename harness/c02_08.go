package main

import (
	"fmt"
	"go/ast"
	"go/format"
	"go/token"
	"os"
	"path/filepath"
	"strings"

	"github.com/yanun0323/goast"
	"github.com/yanun0323/goast/kind"
	"github.com/yanun0323/goast/scope"
	"pgregory.net/rapid"
)

// ---- C02: parse and save ----

// SaveCase is a source file to parse and save again.
type SaveCase struct {
	Src    Text `json:"src"`
	NoExt  bool `json:"no_ext"`  // paths are given without .go
	Import int  `json:"import"`  // 0: no auto import argument, 1: false
	InPath bool `json:"in_path"` // save over the parsed file
}

func genSave(t *rapid.T, f func(*rapid.T) string) SaveCase {
	g := &gen{t: t}
	c := SaveCase{NoExt: g.p(30), Import: g.n(2), InPath: g.p(40)}
	s := f(t)
	switch {
	case g.p(12):
		s = strings.ReplaceAll(s, "\n", "\r\n")
	case g.p(8):
		s = "\n\n" + s
	case g.p(8):
		s = strings.TrimRight(s, "\n")
	case g.p(8):
		s = strings.ReplaceAll(s, "\n", "\n  ")
	}
	c.Src = Text(s)
	return c
}

// scratch makes a new empty directory for a case.
func (o *Obs) scratch() (string, func()) {
	d, err := os.MkdirTemp(o.dir, "c")
	must(err)
	return d, func() {
		_ = filepath.Walk(d, func(p string, fi os.FileInfo, err error) error { // give back permissions
			if err == nil && fi.IsDir() {
				_ = os.Chmod(p, 0o755)
			}
			return nil
		})
		_ = os.RemoveAll(d)
	}
}

func write(path, s string) {
	must(os.WriteFile(path, []byte(s), 0o644))
}

func saveWith(a goast.Ast, path string, mode int) error {
	if mode == 0 {
		return a.Save(path)
	}
	return a.Save(path, false)
}

func checkSaveRoundTrip(c SaveCase, o *Obs) error {
	f1, err := format.Source([]byte(c.Src))
	if err != nil {
		o.Label("not valid Go, skipped")
		return nil
	}
	if !packageStartsLine(string(f1)) {
		o.Label("package clause inside a line, skipped")
		return nil
	}
	f2, err := format.Source(f1)
	if err != nil {
		o.Label("gofmt breaks the source, skipped")
		return nil
	}
	dir, done := o.scratch()
	defer done()
	in, out := filepath.Join(dir, "in.go"), filepath.Join(dir, "out.go")
	write(in, string(c.Src))
	if c.InPath {
		out = in
	}
	arg := func(p string) string {
		if c.NoExt {
			return strings.TrimSuffix(p, ".go")
		}
		return p
	}
	a, err := goast.ParseAst(arg(in))
	if err != nil {
		return fmt.Errorf("ParseAst of valid source: %w", err)
	}
	if err := saveWith(a, arg(out), c.Import); err != nil {
		return fmt.Errorf("Save: %w", err)
	}
	got, err := os.ReadFile(out)
	if err != nil {
		return fmt.Errorf("the saved file: %w", err)
	}
	if string(got) != string(f2) {
		return fmt.Errorf("the saved file is not the gofmt'ed source: %s", firstDiff(string(got), string(f2)))
	}
	if !c.InPath {
		if b, _ := os.ReadFile(in); string(b) != string(c.Src) {
			return fmt.Errorf("the parsed file changed")
		}
	}
	if len(a.Scope()) > 2 {
		o.Nontrivial()
	}
	o.LabelIf(strings.Contains(string(c.Src), "\r"), "carriage returns")
	o.LabelIf(string(f1) != string(c.Src), "not gofmt'ed")
	if string(f1) != string(f2) {
		o.Label("gofmt is not stable here, no second round")
		return nil
	}

	// second round
	b, err := goast.ParseAst(arg(out))
	if err != nil {
		return fmt.Errorf("ParseAst of the saved file: %w", err)
	}
	if d := diffScopes(a.Scope(), b.Scope(), len(f1)); d != "" {
		return fmt.Errorf("the saved file parses differently: %s", d)
	}
	out2 := filepath.Join(dir, "again.go")
	if err := saveWith(b, out2, c.Import); err != nil {
		return fmt.Errorf("second Save: %w", err)
	}
	if got, _ := os.ReadFile(out2); string(got) != string(f2) {
		return fmt.Errorf("the second save differs: %s", firstDiff(string(got), string(f2)))
	}
	return nil
}

// diffScopes compares two lists of scopes by kind, line and text and, if they are equal, node by node.
func diffScopes(a, b []goast.Scope, limit int) string {
	if len(a) != len(b) {
		return fmt.Sprintf("%d scopes, and %d", len(a), len(b))
	}
	for i := range a {
		if a[i].Kind() != b[i].Kind() || a[i].Line() != b[i].Line() {
			return fmt.Sprintf("scope %d: %v at %d, and %v at %d", i, a[i].Kind(), a[i].Line(), b[i].Kind(), b[i].Line())
		}
		x, err := chain(a[i].Node(), limit)
		y, err2 := chain(b[i].Node(), limit)
		if err != nil || err2 != nil {
			return fmt.Sprint("scope ", i, ": ", err, err2)
		}
		if len(x) != len(y) {
			return fmt.Sprintf("scope %d: %d nodes, and %d", i, len(x), len(y))
		}
		for j := range x {
			if x[j].Text() != y[j].Text() || x[j].Kind() != y[j].Kind() || x[j].Line() != y[j].Line() {
				return fmt.Sprintf("scope %d node %d: %s, and %s", i, j, x[j].Description(), y[j].Description())
			}
		}
	}
	return ""
}

// packageStartsLine tells whether a valid source and its package clause start in the first column. (gofmt puts
// "// +build" comments that it finds elsewhere at the top, at times behind tabs.)
func packageStartsLine(s string) bool {
	if s != "" && (s[0] == '\t' || s[0] == ' ') {
		return false
	}
	toks, _ := scan(s)
	for _, t := range toks {
		if t.tok == token.PACKAGE {
			return t.pos == 0 || s[t.pos-1] == '\n'
		}
		if t.tok != token.COMMENT {
			return false
		}
	}
	return false
}

// ---- C03: segmentation ----

type segment struct {
	off, line int
	kind      scope.Kind
}

func (p *parsed) segments() []segment {
	type at struct {
		off int
		k   scope.Kind
	}
	starts := map[int]scope.Kind{p.off(p.f.Package): scope.Package}
	for _, d := range p.f.Decls {
		switch d := d.(type) {
		case *ast.FuncDecl:
			starts[p.off(d.Pos())] = scope.Func
		case *ast.GenDecl:
			starts[p.off(d.Pos())] = scopeOfTok[d.Tok]
		}
	}
	for _, cg := range p.f.Comments {
		for _, c := range cg.List {
			if p.col(c.Pos()) != 1 || p.f.Package < c.Pos() && c.Pos() < p.f.Name.Pos() {
				continue
			}
			starts[p.off(c.Pos())] = scope.Comment
			if strings.HasPrefix(c.Text, "/*") {
				starts[p.off(c.Pos())] = scope.InnerComment
			}
		}
	}
	var out []segment
	line := 1
	for i := range len(p.src) {
		if k, ok := starts[i]; ok {
			out = append(out, segment{i, line, k})
		}
		if p.src[i] == '\n' {
			line++
		}
	}
	return out
}

// splitFuncType tells whether a func type or literal in the first column has a comment in the first column inside of
// its signature: cut there, it could be the beginning of a method.
func (p *parsed) splitFuncType() (found bool) {
	decl := map[*ast.FuncType]bool{}
	ast.Inspect(p.f, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.FuncDecl:
			decl[n.Type] = true
		case *ast.FuncType:
			if n.Func.IsValid() && p.col(n.Func) == 1 && !decl[n] {
				found = found || p.cut(n)
			}
		}
		return true
	})
	return found
}

func checkSegments(src string, o *Obs) error {
	p, err := parseBoth(src)
	if err != nil {
		return err
	}
	if !p.declsStartLines() {
		o.Label("declaration inside a line, skipped")
		return nil
	}
	if p.splitFuncType() {
		o.Label("a func type in the first column, with a comment in the first column inside, skipped")
		return nil
	}
	want := p.segments()
	var got []segment
	last := -1
	for _, n := range p.nodes {
		if n.scope != last {
			last = n.scope
			s := p.scs[n.scope]
			got = append(got, segment{n.off, s.Line(), s.Kind()})
		}
	}
	if len(got) != len(p.scs) {
		return fmt.Errorf("%d scopes have nodes, of %d", len(got), len(p.scs))
	}
	kinds := map[scope.Kind]bool{}
	for i := range want {
		kinds[want[i].kind] = true
		if i >= len(got) {
			return fmt.Errorf("no scope for the %v at line %d", want[i].kind, want[i].line)
		}
		if got[i] != want[i] {
			return fmt.Errorf("scope %d is %v at line %d, byte %d, want %v at line %d, byte %d", i, got[i].kind, got[i].line, got[i].off,
				want[i].kind, want[i].line, want[i].off)
		}
	}
	if len(got) > len(want) {
		return fmt.Errorf("extra scope %v at line %d: %s", got[len(want)].kind, got[len(want)].line, clip(src[got[len(want)].off:], 60))
	}
	for k := range kinds {
		o.Label(k.String())
	}
	o.LabelIf(regexpFalseStart.MatchString(src), "keyword at a line start that is no declaration")
	if len(want) >= 3 && len(kinds) >= 3 {
		o.Nontrivial()
	}
	return nil
}

// ---- C06: tokens ----

const separators = " \t\n\r[](){},:;"

// modelTokens cuts a source into the pieces that should be nodes.
func modelTokens(src string) (pieces []tok) {
	toks, ok := scan(src)
	if !ok {
		panic(internalError{"the case does not scan"})
	}
	run := -1
	flush := func(end int) {
		if run >= 0 {
			pieces = append(pieces, tok{pos: run, end: end, tok: token.ILLEGAL})
			run = -1
		}
	}
	i := 0
	for off := 0; off < len(src); {
		for i < len(toks) && toks[i].pos < off {
			i++
		}
		if i < len(toks) && toks[i].pos == off && (toks[i].tok == token.COMMENT || toks[i].tok == token.STRING || toks[i].tok == token.CHAR) {
			flush(off)
			pieces = append(pieces, toks[i])
			off = toks[i].end
			continue
		}
		if strings.IndexByte(separators, src[off]) >= 0 {
			flush(off)
			pieces = append(pieces, tok{pos: off, end: off + 1, tok: token.ILLEGAL})
			off++
			continue
		}
		if run < 0 {
			run = off
		}
		off++
	}
	flush(len(src))
	return pieces
}

var roleKinds = map[kind.Kind]bool{
	kind.FuncName: true, kind.TypeName: true, kind.ParamName: true, kind.ParamType: true,
	kind.MethodReceiverName: true, kind.MethodReceiverType: true,
}

// declRegions lists the byte ranges of signatures and type declarations, where roles are assigned.
func (p *parsed) declRegions() [][2]int {
	var out [][2]int
	for _, d := range p.f.Decls {
		switch d := d.(type) {
		case *ast.FuncDecl:
			end := d.End()
			if d.Body != nil {
				end = d.Body.Lbrace
			}
			out = append(out, [2]int{p.off(d.Pos()), p.off(end)})
		case *ast.GenDecl:
			if d.Tok == token.TYPE {
				out = append(out, [2]int{p.off(d.Pos()), p.off(d.End())})
			}
		}
	}
	return out
}

func inRegion(rs [][2]int, off int) bool {
	for _, r := range rs {
		if r[0] <= off && off < r[1] {
			return true
		}
	}
	return false
}

// splitDecl tells whether a comment in the first column, which starts a scope, stands inside of the declaration.
func (p *parsed) splitDecl(d ast.Node) bool {
	for _, cg := range p.f.Comments {
		for _, c := range cg.List {
			if p.col(c.Pos()) == 1 && d.Pos() < c.Pos() && c.Pos() < d.End() {
				return true
			}
		}
	}
	return false
}

// withinType tells whether the bytes begin with a token of a type and end with a token of the same type.
func (p *parsed) withinType(from, to int) bool {
	if strings.TrimSpace(p.src[from:to]) != p.src[from:to] {
		return false
	}
	if p.types == nil {
		add := func(t ast.Expr) { p.types = append(p.types, [2]int{p.off(t.Pos()), p.off(t.End())}) }
		ast.Inspect(p.f, func(n ast.Node) bool {
			switch n := n.(type) {
			case *ast.Field:
				add(n.Type)
			case *ast.TypeSpec:
				add(n.Type)
			}
			return true
		})
	}
	for _, t := range p.types {
		if t[0] <= from && to <= t[1] {
			return true
		}
	}
	return false
}

func checkTokens(src string, o *Obs) error {
	p, err := parseBoth(src)
	if err != nil {
		return err
	}
	if !p.declsStartLines() {
		o.Label("declaration inside a line, skipped")
		return nil
	}
	if p.splitFuncType() {
		o.Label("a func type in the first column, with a comment in the first column inside, skipped")
		return nil
	}
	regions := p.declRegions()
	pieces := modelTokens(src)
	var odd [][2]int // where types have comments inside: kinds are not checked
	for _, d := range p.f.Decls {
		if p.commentedType(d) || p.splitDecl(d) {
			o.Label("comment inside a type, kinds not checked")
			odd = append(odd, [2]int{p.off(d.Pos()), p.off(d.End())})
		}
	}
	literals := 0
	i := 0
	for _, n := range p.nodes {
		text, k := n.n.Text(), n.n.Kind()
		if i >= len(pieces) || pieces[i].pos != n.off {
			return fmt.Errorf("a node starts inside a token: %s at byte %d", n.n.Description(), n.off)
		}
		first := pieces[i]
		count := 0
		for i < len(pieces) && pieces[i].end <= n.off+len(text) {
			i++
			count++
		}
		if count == 0 || pieces[i-1].end != n.off+len(text) {
			return fmt.Errorf("the node %s at byte %d ends inside a token, or splits one", n.n.Description(), n.off)
		}
		inside := inRegion(regions, n.off)
		if count > 1 {
			if k != kind.ParamType && !inRegion(odd, n.off) {
				return fmt.Errorf("one node for %d tokens, and no parameter type: %s at byte %d", count, n.n.Description(), n.off)
			}
			if !inside {
				return fmt.Errorf("a node of %d tokens outside of any signature and type: %s at byte %d", count, n.n.Description(), n.off)
			}
			if !p.withinType(n.off, n.off+len(text)) && !inRegion(odd, n.off) {
				return fmt.Errorf("a node of %d tokens, which are not all of one type: %s at byte %d", count, n.n.Description(), n.off)
			}
			o.Label("merged type")
			continue
		}
		var want kind.Kind
		switch first.tok {
		case token.COMMENT:
			want = kind.Comment
			literals++
		case token.STRING:
			want = kind.String
			literals++
			o.LabelIf(text[0] == '`', "raw string")
		case token.CHAR:
			want = kind.Raw
			literals++
			o.Label("rune")
			if inside && k == kind.ParamType { // the length of an array type
				continue
			}
		default:
			want = refKind(text)
			if inside && roleKinds[k] && strings.TrimLeft(text, separators) != "" {
				continue
			}
			if inside && k == kind.ParamType { // brackets of a combined type
				continue
			}
		}
		if k != want && !inRegion(odd, n.off) {
			return fmt.Errorf("the node %q at byte %d has kind %v, want %v", clip(text, 60), n.off, k, want)
		}
	}
	if i != len(pieces) {
		return fmt.Errorf("no node for the token at byte %d", pieces[i].pos)
	}
	o.LabelIf(literals > 0, "literal or comment")
	if literals >= 2 && len(p.nodes) > 20 {
		o.Nontrivial()
	}
	return nil
}

// ---- C07: names ----

type names struct {
	fn, method, recv, typ, strct, iface string
	okFn, okM, okR, okT, okS, okI       bool
}

func namesOf(s goast.Scope) (n names) {
	n.fn, n.okFn = s.GetFuncName()
	n.method, n.okM = s.GetMethodName()
	n.recv, n.okR = s.GetMethodReceiver()
	n.typ, n.okT = s.GetTypeName()
	n.strct, n.okS = s.GetStructName()
	n.iface, n.okI = s.GetInterfaceName()
	return n
}

// receiverOf returns the base type of a receiver, with its star; ok is false for a receiver that
// is no valid one.
func receiverOf(e ast.Expr) (text string, loose bool, ok bool) {
	star := ""
	if s, is := e.(*ast.StarExpr); is {
		star = "*"
		loose = s.X.Pos() != s.Star+1 // '* T' or '* /* c */ T': the star is a token of its own
		e = s.X
	}
	switch x := e.(type) {
	case *ast.IndexExpr:
		e = x.X
	case *ast.IndexListExpr:
		e = x.X
	}
	id, is := e.(*ast.Ident)
	if !is {
		return "", false, false
	}
	return star + id.Name, loose, true
}

func checkNames(src string, o *Obs) error {
	p, err := parseBoth(src)
	if err != nil {
		return err
	}
	if !p.declsStartLines() {
		o.Label("declaration inside a line, skipped")
		return nil
	}
	if p.splitFuncType() {
		o.Label("a func type in the first column, with a comment in the first column inside, skipped")
		return nil
	}
	scopes, err := p.declScopes()
	if err != nil {
		return err
	}
	isDecl := map[goast.Scope]bool{}
	decls := 0
	for d, s := range scopes {
		isDecl[s] = true
		if p.commentedType(d) {
			o.Label("comment inside a type, skipped")
			continue
		}
		if p.cut(d) {
			o.Label("first-column comment inside the header, skipped")
			continue
		}
		var want names
		loose := false
		switch d := d.(type) {
		case *ast.FuncDecl:
			want.fn, want.okFn = d.Name.Name, true
			if d.Recv != nil {
				want.method, want.okM = d.Name.Name, true
				ok := false
				if len(d.Recv.List) == 1 && len(d.Recv.List[0].Names) <= 1 {
					want.recv, loose, ok = receiverOf(d.Recv.List[0].Type)
					want.okR = ok
				}
				if !ok {
					o.Label("invalid receiver, skipped")
					continue
				}
				o.Label("method")
			} else {
				o.Label("func")
			}
		case *ast.GenDecl:
			if d.Tok == token.TYPE {
				if d.Lparen.IsValid() {
					o.Label("type group, skipped")
					continue
				}
				ts := d.Specs[0].(*ast.TypeSpec)
				want.typ, want.okT = ts.Name.Name, true
				switch ts.Type.(type) {
				case *ast.StructType:
					want.strct, want.okS = ts.Name.Name, true
					o.Label("struct")
				case *ast.InterfaceType:
					want.iface, want.okI = ts.Name.Name, true
					o.Label("interface")
				default:
					o.Label("other type")
				}
			}
		}
		decls++
		for round, s := range []goast.Scope{s, s, s.Copy()} {
			got := namesOf(s)
			if loose && got.recv == strings.TrimPrefix(want.recv, "*") {
				got.recv = want.recv
			}
			if got != want {
				return fmt.Errorf("names of the declaration of line %d (round %d): got %+v, want %+v", p.line(d.Pos()), round, got, want)
			}
		}
	}
	for _, s := range p.scs {
		if !isDecl[s] {
			if got := namesOf(s); got != (names{}) {
				return fmt.Errorf("the %v scope of line %d has names: %+v", s.Kind(), s.Line(), got)
			}
		}
	}
	if decls >= 2 {
		o.Nontrivial()
	}
	return nil
}

// ---- C08: roles ----

type roleCheck struct {
	p       *parsed
	o       *Obs
	err     error
	names   map[int]bool      // offsets of identifiers that may be param names
	methods map[int]bool      // offsets of the names of interface methods
	embeds  [][2]int          // ranges of embedded interface elements
	expect  map[int]kind.Kind // exact roles
	checked int
}

func (r *roleCheck) fail(pos token.Pos, f string, a ...any) {
	if r.err == nil {
		r.err = fmt.Errorf("line %d: %s", r.p.line(pos), fmt.Sprintf(f, a...))
	}
}

// short keeps the number of labels small.
func short(what string) string {
	nested := strings.HasPrefix(what, "func-typed ")
	what = strings.TrimSuffix(what, " with package")
	for strings.HasSuffix(what, " pointer pointer") {
		what = strings.TrimSuffix(what, " pointer")
	}
	if nested {
		f := strings.Fields(what)
		return "nested func: " + f[len(f)-1]
	}
	return what
}

// name requires the identifier to be a node of its own with the given kind.
func (r *roleCheck) name(id *ast.Ident, what string, k kind.Kind) {
	n := r.p.at(r.p.off(id.Pos()))
	r.checked++
	r.o.Label(short(what))
	if n == nil || n.n.Text() != id.Name {
		r.fail(id.Pos(), "the %s %s is no node of its own: %s", what, id.Name, n.n.Description())
		return
	}
	if n.n.Kind() != k {
		r.fail(id.Pos(), "the %s %s has kind %v, want %v", what, id.Name, n.n.Kind(), k)
	}
}

// typeName requires the node that holds the identifier to be a type.
func (r *roleCheck) typeName(id *ast.Ident, what string) {
	n := r.p.at(r.p.off(id.Pos()))
	r.checked++
	k := n.n.Kind()
	if k == kind.ParamType || k == kind.Basic && n.n.Text() == id.Name && isBasicName(id.Name) {
		r.o.Label(short(what))
		return
	}
	r.fail(id.Pos(), "the type name %s (%s), in the node %s, has kind %v, want %v", id.Name, what, n.n.Description(), k, kind.ParamType)
}

// typ checks the type names of a type expression, outside of [] and of parentheses.
func (r *roleCheck) typ(e ast.Expr, what string) {
	switch e := e.(type) {
	case *ast.Ident:
		r.typeName(e, what)
	case *ast.SelectorExpr:
		r.typeName(e.Sel, what+" with package")
	case *ast.StarExpr:
		r.typ(e.X, what+" pointer")
	case *ast.ArrayType:
		r.typ(e.Elt, what)
	case *ast.ChanType:
		r.typ(e.Value, what)
	case *ast.MapType:
		r.typ(e.Value, what)
	case *ast.Ellipsis:
		r.typ(e.Elt, what)
	case *ast.IndexExpr:
		r.typ(e.X, what)
	case *ast.IndexListExpr:
		r.typ(e.X, what)
	case *ast.FuncType:
		r.signature(e, "func-typed "+what)
	}
}

// params checks a parameter or result list with parentheses.
func (r *roleCheck) params(l *ast.FieldList, what string) {
	if l == nil {
		return
	}
	for _, f := range l.List {
		for _, n := range f.Names {
			r.name(n, what+" name", kind.ParamName)
		}
		if ft, ok := f.Type.(*ast.FuncType); ok {
			r.signature(ft, "func-typed "+what)
			continue
		}
		r.typ(f.Type, what+" type")
	}
}

func (r *roleCheck) signature(t *ast.FuncType, what string) {
	r.params(t.Params, what+" param")
	if t.Results == nil {
		return
	}
	if t.Results.Opening.IsValid() {
		r.params(t.Results, what+" result")
		return
	}
	r.single(t.Results.List[0].Type, what+" single result")
}

// single checks a result without parentheses: a plain, pointer or package-qualified name.
func (r *roleCheck) single(e ast.Expr, what string) {
	switch e.(type) {
	case *ast.FuncType, *ast.StructType, *ast.InterfaceType, *ast.ParenExpr, *ast.ChanType:
		return
	}
	if !strings.ContainsAny(r.p.src[r.p.off(e.Pos()):r.p.off(e.End())], " \t\n(){}/;") {
		r.typ(e, what)
	}
}

// collect gathers what may be a param name, and the embedded interface elements.
func (r *roleCheck) collect(n ast.Node) {
	ast.Inspect(n, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.BlockStmt:
			return false
		case *ast.Field:
			for _, id := range n.Names {
				r.names[r.p.off(id.Pos())] = true
			}
		case *ast.InterfaceType:
			for _, m := range n.Methods.List {
				for _, id := range m.Names {
					r.methods[r.p.off(id.Pos())] = true
				}
				if len(m.Names) == 0 {
					r.embeds = append(r.embeds, [2]int{r.p.off(m.Pos()), r.p.off(m.End())})
				}
			}
		}
		return true
	})
}

func checkRoles(src string, o *Obs) error {
	p, err := parseBoth(src)
	if err != nil {
		return err
	}
	if !p.declsStartLines() {
		o.Label("declaration inside a line, skipped")
		return nil
	}
	if p.splitFuncType() {
		o.Label("a func type in the first column, with a comment in the first column inside, skipped")
		return nil
	}
	r := &roleCheck{p: p, o: o, names: map[int]bool{}, methods: map[int]bool{}, expect: map[int]kind.Kind{}}
	skip := [][2]int{}
	for _, d := range p.f.Decls {
		if p.commentedType(d) || p.cut(d) {
			o.Label("comment inside a type or in the first column of a header, skipped")
			skip = append(skip, [2]int{p.off(d.Pos()), p.off(d.End())})
			continue
		}
		switch d := d.(type) {
		case *ast.FuncDecl:
			r.collect(d)
			r.name(d.Name, "func name", kind.FuncName)
			r.expect[p.off(d.Name.Pos())] = kind.FuncName
			if d.Recv != nil {
				if len(d.Recv.List) != 1 || len(d.Recv.List[0].Names) > 1 {
					skip = append(skip, [2]int{p.off(d.Pos()), p.off(d.End())})
					continue
				}
				f := d.Recv.List[0]
				_, _, ok := receiverOf(f.Type)
				if !ok {
					skip = append(skip, [2]int{p.off(d.Pos()), p.off(d.End())})
					continue
				}
				for _, n := range f.Names {
					r.name(n, "receiver name", kind.MethodReceiverName)
					r.expect[p.off(n.Pos())] = kind.MethodReceiverName
				}
				n := p.at(p.off(baseIdent(f.Type).Pos()))
				r.expect[n.off] = kind.MethodReceiverType
				if n.n.Kind() != kind.MethodReceiverType {
					r.fail(f.Pos(), "the receiver type node %s has kind %v", n.n.Description(), n.n.Kind())
				}
			}
			r.signature(d.Type, "func")
		case *ast.GenDecl:
			if d.Tok != token.TYPE {
				continue
			}
			if d.Lparen.IsValid() {
				skip = append(skip, [2]int{p.off(d.Pos()), p.off(d.End())})
				continue
			}
			r.collect(d)
			ts := d.Specs[0].(*ast.TypeSpec)
			r.name(ts.Name, "type name", kind.TypeName)
			r.expect[p.off(ts.Name.Pos())] = kind.TypeName
			switch t := ts.Type.(type) {
			case *ast.InterfaceType:
				for _, m := range t.Methods.List {
					if ft, ok := m.Type.(*ast.FuncType); ok && len(m.Names) == 1 {
						r.name(m.Names[0], "interface method name", kind.FuncName)
						r.expect[p.off(m.Names[0].Pos())] = kind.FuncName
						r.signature(ft, "method")
						continue
					}
					switch e := m.Type.(type) {
					case *ast.Ident:
						if isBasicName(e.Name) || !strings.ContainsAny(e.Name, "_") && e.Name == "" {
							continue
						}
						r.name(e, "embedded interface", kind.TypeName)
					case *ast.SelectorExpr:
						n := p.at(p.off(e.Sel.Pos()))
						if n.n.Kind() != kind.TypeName {
							r.fail(e.Pos(), "the embedded interface %s has kind %v", n.n.Description(), n.n.Kind())
						}
					}
				}
			case *ast.StructType:
				r.fields(t)
			case *ast.FuncType:
				r.signature(t, "func type")
			default:
				if !strings.ContainsAny(p.src[p.off(t.Pos()):p.off(t.End())], "(){}") { // no func, struct or interface in it
					r.typ(t, "type definition")
				}
			}
		}
	}
	if r.err != nil {
		return r.err
	}

	// no role where it does not belong
	regions := p.declRegions()
	for _, n := range p.nodes {
		k := n.n.Kind()
		if !roleKinds[k] {
			continue
		}
		if inRegion(skip, n.off) {
			continue
		}
		if !inRegion(regions, n.off) {
			return fmt.Errorf("a role outside of signatures and types: %s", n.n.Description())
		}
		ok := true
		switch k {
		case kind.ParamName:
			ok = r.names[n.off]
		case kind.FuncName:
			ok = r.expect[n.off] == k || r.methods[n.off]
		case kind.MethodReceiverName, kind.MethodReceiverType:
			ok = r.expect[n.off] == k
		case kind.TypeName:
			ok = r.expect[n.off] == k || inRegion(r.embeds, n.off)
		}
		if !ok {
			return fmt.Errorf("the node %s at byte %d has a role it should not have", n.n.Description(), n.off)
		}
	}
	if r.checked >= 5 {
		o.Nontrivial()
	}
	return nil
}

// cut tells whether a comment in the first column, which starts a scope, stands inside the header of a func
// declaration or inside a type declaration.
func (p *parsed) cut(n ast.Node) bool {
	end := n.End()
	if d, ok := n.(*ast.FuncDecl); ok && d.Body != nil {
		end = d.Body.Lbrace
	}
	for _, cg := range p.f.Comments {
		for _, c := range cg.List {
			if n.Pos() < c.Pos() && c.Pos() < end && p.col(c.Pos()) == 1 {
				return true
			}
		}
	}
	return false
}

// commentedType tells whether the signature or type declaration has a comment, or a line break, inside a
// type expression: between the tokens of a pointer, slice, map, chan, qualified or generic type, not inside the
// parentheses or braces of a func, struct or interface type in it.
func (p *parsed) commentedType(n ast.Node) (found bool) {
	if len(p.f.Comments) == 0 {
		return false
	}
	var visit func(n ast.Node) bool
	type span struct{ from, to token.Pos }
	var inner []span // func, struct and interface types
	var glue []span
	visit = func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.BlockStmt:
			return false
		case *ast.FuncType, *ast.StructType, *ast.InterfaceType:
			inner = append(inner, span{n.Pos(), n.End()})
		case *ast.StarExpr, *ast.ArrayType, *ast.MapType, *ast.ChanType, *ast.Ellipsis, *ast.IndexExpr, *ast.IndexListExpr, *ast.SelectorExpr, *ast.ParenExpr:
			glue = append(glue, span{n.Pos(), n.End()})
		}
		return true
	}
	ast.Inspect(n, visit)
	for _, cg := range p.f.Comments {
		for _, c := range cg.List {
			if c.Pos() < n.Pos() || c.Pos() >= n.End() {
				continue
			}
			for _, g := range glue {
				if c.Pos() < g.from || c.Pos() >= g.to {
					continue
				}
				// the innermost composite type counts unless a func, struct or interface type lies between
				between := false
				for _, i := range inner {
					if g.from <= i.from && i.to <= g.to && i.from <= c.Pos() && c.Pos() < i.to {
						between = true
					}
				}
				if !between {
					return true
				}
			}
		}
	}
	return false
}

func baseIdent(e ast.Expr) *ast.Ident {
	switch x := e.(type) {
	case *ast.StarExpr:
		return baseIdent(x.X)
	case *ast.IndexExpr:
		return baseIdent(x.X)
	case *ast.IndexListExpr:
		return baseIdent(x.X)
	case *ast.Ident:
		return x
	}
	return nil
}

func (r *roleCheck) fields(t *ast.StructType) {
	for _, f := range t.Fields.List {
		if len(f.Names) > 0 {
			line := r.p.line(f.Names[0].Pos())
			if r.p.line(f.Names[len(f.Names)-1].Pos()) != line || r.p.line(f.Type.Pos()) != line {
				r.o.Label("field over several lines, skipped")
				continue
			}
		}
		for _, n := range f.Names {
			r.name(n, "field name", kind.ParamName)
		}
		switch ft := f.Type.(type) {
		case *ast.FuncType:
			r.signature(ft, "func-typed field")
		case *ast.StructType:
			r.fields(ft)
		default:
			r.typ(ft, "field type")
		}
	}
}

func init() {
	register(&Prop{ID: "C02", Subs: []*Sub{
		sub("unformatted", "generated source file in any formatting, parsed and saved, by path with and without .go, in place or to another file; non-trivial: more than two scopes",
			12000, 500000, func(t *rapid.T) SaveCase {
				return genSave(t, func(t *rapid.T) string { return genSrc(t, genOpts(t, 6)) })
			}, checkSaveRoundTrip),
		sub("formatted", "generated gofmt'ed source file, parsed and saved; non-trivial: more than two scopes", 6000, 250000, func(t *rapid.T) SaveCase {
			g := &gen{t: t}
			return SaveCase{Src: Text(genFormatted(t, genOpts(t, 6))), NoExt: g.p(30), Import: g.n(2), InPath: g.p(40)}
		}, checkSaveRoundTrip),
		sub("large", "generated source file with many declarations; non-trivial: more than two scopes", 160, 8000, func(t *rapid.T) SaveCase {
			return genSave(t, genLarge)
		}, checkSaveRoundTrip),
		sizedSub(150000, 1300000, func(src string, o *Obs) error { return checkSaveRoundTrip(SaveCase{Src: Text(src)}, o) }),
		listed("real", "file of the Go source tree; non-trivial: more than two scopes", corpusCases(400, 20000), func(c FileCase, o *Obs) error {
			b, err := os.ReadFile(c.Path)
			if err != nil {
				return nil
			}
			return checkSaveRoundTrip(SaveCase{Src: Text(b)}, o)
		}),
	}})
	register(&Prop{ID: "C03", Subs: append(
		srcSubs("non-trivial: three scopes of three kinds", 60000, 3000000, 400, 20000, checkSegments),
		sizedSub(150000, 1000000, checkSegments),
		sub("lookalikes", "generated source file with raw strings, comments and identifiers that look like declarations at line starts; non-trivial: three scopes of three kinds", 40000, 2000000,
			func(t *rapid.T) Src { return Src{Text(genLookalikes(t))} }, srcCheck(checkSegments)),
	)})
	register(&Prop{ID: "C06", Subs: append(
		srcSubs("non-trivial: two literals or comments and 20 nodes", 60000, 3000000, 400, 20000, checkTokens),
		sizedSub(150000, 1000000, checkTokens),
		sub("literals", "generated source file of literals with escapes, quotes and comment marks, and comments; non-trivial: two literals or comments and 20 nodes", 40000, 2000000,
			func(t *rapid.T) Src { return Src{Text(genLiterals(t))} }, srcCheck(checkTokens)),
		sub("sweep", "generated source file with every printable character between the same two texts in strings, raw strings, comments and runes; non-trivial: two literals or comments and 20 nodes", 3000, 150000,
			func(t *rapid.T) Src { return Src{Text(genSweep(t))} }, srcCheck(checkTokens)),
	)})
	register(&Prop{ID: "C07", Subs: append(
		srcSubs("non-trivial: two declarations", 50000, 2500000, 400, 20000, checkNames),
		sizedSub(70000, 300000, checkNames),
		sub("decls", "generated source file of func and type declarations; non-trivial: two declarations", 50000, 2500000,
			func(t *rapid.T) Src { return Src{Text(genDecls(t))} }, srcCheck(checkNames)),
	)})
	register(&Prop{ID: "C08", Subs: append(
		srcSubs("non-trivial: five names or types with a role", 50000, 2500000, 400, 20000, checkRoles),
		sizedSub(70000, 300000, checkRoles),
		sub("decls", "generated source file of func and type declarations; non-trivial: five names or types with a role", 50000, 2500000,
			func(t *rapid.T) Src { return Src{Text(genDecls(t))} }, srcCheck(checkRoles)),
	)})
}
