package main

// C13: opening files. C14: saving files. C15: auto import.

import (
	"errors"
	"fmt"
	"go/ast"
	"go/format"
	"go/parser"
	"go/token"
	"io/fs"
	"os"
	"os/signal"
	"path/filepath"
	"slices"
	"sort"
	"strings"
	"sync"
	"syscall"

	"github.com/yanun0323/goast"
	"github.com/yanun0323/goast/scope"
	"pgregory.net/rapid"
)

// listTree lists everything below dir: type, permissions, content or link target.
func listTree(dir string) map[string]string {
	out := map[string]string{}
	_ = filepath.WalkDir(dir, func(p string, d fs.DirEntry, err error) error {
		rel, _ := filepath.Rel(dir, p)
		if err != nil {
			out[rel] += " unreadable"
			return nil
		}
		fi, err := d.Info()
		if err != nil {
			out[rel] = "gone"
			return nil
		}
		out[rel] = fi.Mode().String()
		switch {
		case fi.Mode().IsRegular():
			b, err := os.ReadFile(p)
			if err != nil {
				out[rel] += fmt.Sprintf(" unreadable %d bytes", fi.Size())
			} else {
				out[rel] += " " + string(b)
			}
		case fi.Mode()&fs.ModeSymlink != 0:
			l, _ := os.Readlink(p)
			out[rel] += " -> " + l
		}
		return nil
	})
	return out
}

// diffTrees lists the paths that differ, except for the given ones.
func diffTrees(a, b map[string]string, except func(string) bool) []string {
	var out []string
	for p, x := range a {
		if y, ok := b[p]; !except(p) && (!ok || x != y) {
			out = append(out, p)
		}
	}
	for p := range b {
		if _, ok := a[p]; !ok && !except(p) {
			out = append(out, p)
		}
	}
	sort.Strings(out)
	return out
}

var fileNames = []string{"a.go", "a", "b.c.go", "b.c", ".go", "x.go.go", "world 世.go", "a b.go", "A.GO", "a.gox", "a.g", "o", "go", "a.go.txt", "-x.go", "été", "a_test.go", "_a.go", "x.Go", "...go", "agо.go", "xgo", "a.go.go.go"}

var dirNames = []string{"", "", "d", "d/e", "d.go", "d.go/e.f", "a b", "世"}

// PathSpec says how the path of a file in the scratch directory is written.
type PathSpec struct {
	Dir  string `json:"dir"`
	Name string `json:"name"`
	Form int    `json:"form"`
}

func genPath(g *gen) PathSpec {
	p := PathSpec{g.pick(dirNames), g.pick(fileNames), g.n(7)}
	if g.p(25) {
		p.Name = g.oddName()
	}
	if g.p(12) {
		p.Dir = g.oddName()
	}
	return p
}

// oddName draws a name with any characters but the slash.
func (g *gen) oddName() string {
	bits := []string{" ", "$", "~", "%", "*", "?", "[", "]", "{", "}", "'", "\"", "`", "\\", "\t", "\n", "\r", "&", "|", ";", "<", ">", "#", "!", ":", "=", "@", "^", ",", "+", "(", ")", "-", "_", ".", "..",
		"a", "b", "HOME", "x1", "PATH", "go", ".go", "GO", "41", "20", "é", "e\u0301", "世", "\u00a0", "\ufeff", "\xff", "\x01", "\x7f", "con", "vendor", "internal", "testdata", "_test", "_linux", strings.Repeat("n", 40)}
	s := ""
	for range 1 + g.n(5) {
		bit := g.pick(bits)
		if w, ok := g.word(15); ok {
			if w = strings.NewReplacer("/", "", "\x00", "").Replace(w); len(w) < 40 {
				bit = w
			}
		}
		s += bit
	}
	if g.p(60) {
		s += ".go"
	}
	if k, ok := g.size(4, 220); ok {
		s = strings.Repeat("n", k)
	}
	if strings.Trim(s, ".") == "" {
		s += "x"
	}
	return s
}

// in gives the path as it is passed to the code under test; the current directory is root.
func (p PathSpec) in(root string) string {
	rel := p.Name
	if p.Dir != "" {
		rel = p.Dir + "/" + p.Name
	}
	switch p.Form {
	case 1:
		return rel
	case 2:
		return "./" + rel
	case 3:
		return root + "//" + rel
	case 4:
		return root + "/./" + rel
	case 5:
		return "../" + filepath.Base(root) + "/" + rel
	default:
		return root + "/" + rel
	}
}

// target is the file that the path names, relative to the scratch directory.
func (p PathSpec) target() string {
	n := p.Name
	if !strings.HasSuffix(n, ".go") {
		n += ".go"
	}
	return filepath.Join(p.Dir, n)
}

func parses(src string) bool {
	_, err := parser.ParseFile(token.NewFileSet(), "x.go", src, parser.SkipObjectResolution)
	return err == nil
}

func inDir(dir string, f func() error) error {
	old, err := os.Getwd()
	must(err)
	must(os.Chdir(dir))
	defer func() { must(os.Chdir(old)) }()
	return f()
}

// ---- C13 ----

// OpenCase is a file to open.
type OpenCase struct {
	Path    PathSpec `json:"path"`
	State   string   `json:"state"`
	Content Text     `json:"content"`
	Decoy   bool     `json:"decoy"` // other files with similar names lie around
}

var openStates = []string{"valid", "valid", "valid", "missing", "missing dir", "invalid", "invalid", "directory", "unreadable", "no package", "no package", "link", "dangling link", "link loop", "file as directory", "no search permission", "no descriptors"}

func genOpen(t *rapid.T) OpenCase {
	g := &gen{t: t}
	c := OpenCase{Path: genPath(g), State: g.pick(openStates), Decoy: g.p(50)}
	switch c.State {
	case "invalid":
		switch g.n(3) {
		case 0:
			c.Content = Text(genSoup(t, 20))
		case 1:
			c.Content = Text(genMutated(t))
		default:
			c.Content = Text(g.pick([]string{"package", "package p\nfunc {", "\x00", "package p\n}", "package p; var x = `", "package p\n/*", "package \"p\"", "\xff\xfe", "package p\nimport x", "package p p", "func", "package p\nvar s = \"\n\""}))
		}
	case "no package":
		c.Content = Text(g.pick([]string{"", "\n", "// package p\n", "/* package p */", "func f() {}\n", "type T struct{}\n\nfunc (T) package_() {}\n", "x := 1\n", "var package1 = 2", "import \"fmt\"\n", "var s = `\npackage p\n`\n", "// c\n\nvar x int\n", " ", "f()\n", "type packages int", "const p = \"package\"\n"}))
	default:
		c.Content = Text(genSrc(t, genOpts(t, 2)))
	}
	return c
}

func checkOpen(c OpenCase, o *Obs) error {
	root, done := o.scratch()
	defer done()
	target := filepath.Join(root, c.Path.target())
	if c.Decoy {
		_ = os.MkdirAll(filepath.Dir(target), 0o755)
		for _, n := range []string{"a", "b.c", "x.go", "xgo.go", "decoy.go", "A.go", "go.go", "a.go.go"} {
			p := filepath.Join(filepath.Dir(target), n)
			if p != target {
				write(p, "package decoy\n")
			}
		}
	}
	if c.State != "missing dir" && c.State != "file as directory" {
		must(os.MkdirAll(filepath.Dir(target), 0o755))
	}
	_ = os.Remove(target)
	want := "ok"
	root0 := os.Getuid() == 0
	switch c.State {
	case "missing":
		want = "ErrNotExist"
	case "missing dir":
		want = "ErrNotExist"
		c.Path.Dir = filepath.Join(c.Path.Dir, "nowhere")
		target = filepath.Join(root, c.Path.target())
	case "directory":
		want = "other"
		must(os.Mkdir(target, 0o755))
	case "unreadable":
		write(target, string(c.Content))
		must(os.Chmod(target, 0))
		want = "other"
		if root0 {
			want = "content"
		}
	case "link":
		write(target+"-real", string(c.Content))
		must(os.Symlink(filepath.Base(target)+"-real", target))
		want = "content"
	case "dangling link":
		must(os.Symlink("nothing", target))
		want = "ErrNotExist"
	case "link loop":
		must(os.Symlink(filepath.Base(target), target))
		want = "other"
	case "file as directory":
		want = "other"
		write(filepath.Join(root, "plain"), "package p\n")
		c.Path.Dir = "plain"
		target = filepath.Join(root, c.Path.target())
	case "no search permission":
		want = "other"
		if root0 {
			want = "content"
		}
		c.Path.Dir = "closed"
		target = filepath.Join(root, c.Path.target())
		must(os.Mkdir(filepath.Join(root, "closed"), 0o755))
		write(target, string(c.Content))
		if !root0 {
			must(os.Chmod(filepath.Join(root, "closed"), 0))
		}
	default:
		write(target, string(c.Content))
		want = "content"
	}
	if want == "content" {
		src := string(c.Content)
		f, err := format.Source([]byte(src))
		switch {
		case err != nil:
			want = "other"
		case !parses(src):
			// a fragment
			want = "ErrNoPackage"
			if strings.Contains(src, "go:build") || strings.Contains(src, "+build") { // go/format gives it a package clause
				o.Label("fragment with a build constraint, skipped")
				return nil
			}
		case packageStartsLine(string(f)):
			want = "ok"
		default:
			o.Label("package clause inside a line, skipped")
			return nil
		}
	}
	if c.State == "no descriptors" {
		want = "other"
	}
	before := listTree(root)
	arg := c.Path.in(root)
	var a goast.Ast
	var err error
	ierr := inDir(root, func() error {
		if c.State == "no descriptors" {
			return withLimit(syscall.RLIMIT_NOFILE, 0, func() { a, err = goast.ParseAst(arg) })
		}
		a, err = goast.ParseAst(arg)
		return nil
	})
	if ierr != nil {
		o.Label("limit not possible, skipped")
		return nil
	}
	what := fmt.Sprintf("ParseAst of %q (%s)", strings.ReplaceAll(arg, root, "ROOT"), c.State)
	switch want {
	case "ok":
		if err != nil || a == nil {
			return fmt.Errorf("%s: %w, the file is valid", what, err)
		}
		if a.File() != arg || a.Dir() != filepath.Dir(arg) || a.Filename() != filepath.Base(arg) || a.Ext() != filepath.Ext(arg) {
			return fmt.Errorf("%s: File, Dir, Filename and Ext are %q, %q, %q, %q", what, a.File(), a.Dir(), a.Filename(), a.Ext())
		}
		for _, b := range []goast.Ast{a.SetScope(nil), a.Copy(), a.Copy().SetScope(a.Scope())} {
			if b.File() != a.File() || b.Dir() != a.Dir() || b.Filename() != a.Filename() || b.Ext() != a.Ext() {
				return fmt.Errorf("%s: after SetScope or Copy, File, Dir, Filename and Ext are %q, %q, %q, %q", what, b.File(), b.Dir(), b.Filename(), b.Ext())
			}
		}
		f, _ := format.Source([]byte(c.Content))
		got := ""
		for _, s := range a.Scope() {
			x, err := scopeText(s, len(f))
			if err != nil {
				return err
			}
			got += x
		}
		if got != strings.TrimLeft(string(f), "\n") && got != string(f) {
			return fmt.Errorf("%s: the scopes hold another text: %s", what, firstDiff(got, string(f)))
		}
	default:
		if a != nil {
			return fmt.Errorf("%s returns an Ast, and the error %v", what, err)
		}
		if err == nil {
			return fmt.Errorf("%s returns neither an Ast nor an error", what)
		}
		if got := errors.Is(err, goast.ErrNotExist); got != (want == "ErrNotExist") {
			return fmt.Errorf("%s returns the error %q, want %s", what, err, want)
		}
		if got := errors.Is(err, goast.ErrNoPackage); got != (want == "ErrNoPackage") {
			return fmt.Errorf("%s returns the error %q, want %s", what, err, want)
		}
	}
	if d := diffTrees(before, listTree(root), func(string) bool { return false }); len(d) > 0 {
		return fmt.Errorf("%s changed %q", what, d)
	}
	o.Label(c.State)
	o.Label("result " + want)
	if c.State != "valid" || c.Path.Form != 0 || c.Path.Dir != "" {
		o.Nontrivial()
	}
	return nil
}

// ---- faults ----

var ignoreXFSZ = sync.OnceFunc(func() { signal.Ignore(syscall.SIGXFSZ) })

// withLimit calls f with a soft limit of the process lowered. The limit on descriptors counts those
// that are free for f.
func withLimit(what int, limit uint64, f func()) error {
	ignoreXFSZ()
	var old syscall.Rlimit
	if err := syscall.Getrlimit(what, &old); err != nil {
		return err
	}
	if what == syscall.RLIMIT_NOFILE {
		fd, err := syscall.Open("/dev/null", syscall.O_RDONLY|syscall.O_CLOEXEC, 0)
		if err != nil {
			return err
		}
		limit += uint64(fd)
		defer syscall.Close(fd)
		// fill the holes below
		var fds []int
		for {
			x, err := syscall.Open("/dev/null", syscall.O_RDONLY|syscall.O_CLOEXEC, 0)
			if err != nil {
				break
			}
			if x > fd {
				_ = syscall.Close(x)
				break
			}
			fds = append(fds, x)
		}
		defer func() {
			for _, x := range fds {
				_ = syscall.Close(x)
			}
		}()
		limit++ // fd itself
	}
	if limit > old.Max {
		limit = old.Max
	}
	if err := syscall.Setrlimit(what, &syscall.Rlimit{Cur: limit, Max: old.Max}); err != nil {
		return err
	}
	defer func() { must(syscall.Setrlimit(what, &old)) }()
	f()
	return nil
}

// ---- C14 ----

// SaveFileCase saves some texts to some target.
type SaveFileCase struct {
	Path   PathSpec `json:"path"`
	State  string   `json:"state"` // what is at the target
	Fault  string   `json:"fault,omitempty"`
	Limit  int      `json:"limit,omitempty"` // per mille of the size
	Texts  [][]Text `json:"texts"`           // node texts of each scope
	False  bool     `json:"false"`           // auto import is given as false
	Twice  bool     `json:"twice"`           // saved twice
	Nodes  bool     `json:"nil_node"`        // a scope with a nil node is among them
	Before Text     `json:"before"`
}

var saveStates = []string{"new", "new", "new dir", "shorter", "longer", "longer", "same", "empty file", "read-only file", "directory", "link", "link to new", "link to longer", "parent is a file", "closed directory", "read-only directory", "link to a full device", "same size", "linked directory", "linked directory", "broken directory link"}

func genSaveFile(t *rapid.T) SaveFileCase {
	g := &gen{t: t}
	c := SaveFileCase{Path: genPath(g), State: g.pick(saveStates), False: g.p(40), Twice: g.p(20), Nodes: g.p(20)}
	split := func(s string) []Text {
		var out []Text
		for len(s) > 0 {
			k := min(len(s), 1+g.n(40))
			out = append(out, Text(s[:k]))
			s = s[k:]
		}
		return out
	}
	switch g.n(13) {
	case 12: // long runs
		var b strings.Builder
		for range 1 + g.n(5) {
			b.WriteString(g.pick([]string{"", "package p\n", "x ", "func f() {"}) + strings.Repeat(g.pick([]string{"\n", "\n", "\t", " ", "x", "(", "\r\n", "// c\n", "\x00", "é", ";", "\""}), 1<<g.n(13)))
		}
		if g.p(50) {
			c.Texts = append(c.Texts, split(b.String()[:min(b.Len(), 400)]), []Text{Text(b.String()[min(b.Len(), 400):])})
		} else {
			c.Texts = [][]Text{nil}
			for _, r := range []byte(b.String()[:min(b.Len(), 1000)]) {
				c.Texts[0] = append(c.Texts[0], Text([]byte{r}))
			}
		}
	case 10: // nothing
	case 11:
		c.Texts = [][]Text{{}, {""}, {}}
	case 0, 1, 2, 3, 4:
		c.Texts = append(c.Texts, split(genSrc(t, genOpts(t, 3))))
	case 5, 6:
		for range 1 + g.n(4) {
			c.Texts = append(c.Texts, split(genSoup(t, 10)))
		}
	case 7:
		c.Texts = append(c.Texts, split(genMutated(t)))
	case 8:
		c.Texts = append(c.Texts, []Text{Text(rapid.SliceOfN(rapid.Byte(), 0, 40).Draw(t, ""))})
	case 9:
		c.Texts = append(c.Texts, []Text{Text("package p\n\n" + strings.Repeat("// "+g.pick([]string{"x", "世", "long line"})+"\n", g.n(20000)) + "\nvar x = 1\n")})
	default:
		c.Texts = append(c.Texts, split(genFormatted(t, genOpts(t, 2))), split("\n"+genFormatted(t, genOpts(t, 2))))
	}
	c.Before = Text(g.pick([]string{"package old\n", "x", "\n", ""}))
	if g.p(12) {
		c.Fault = g.pick([]string{"file size", "no descriptors"})
		c.Limit = g.n(1200)
	}
	return c
}

func checkSaveFile(c SaveFileCase, o *Obs) error {
	root, done := o.scratch()
	defer done()
	var text strings.Builder
	var scs []goast.Scope
	for i, texts := range c.Texts {
		ss := make([]string, len(texts))
		for j, x := range texts {
			ss[j] = string(x)
			text.WriteString(ss[j])
		}
		scs = append(scs, goast.NewScope(i, scope.Func, goast.NewNodes(0, ss...)))
		if c.Nodes && i == 0 {
			scs = append(scs, goast.NewScope(0, scope.Comment, nil))
		}
	}
	base, err := goast.NewAst(goast.NewScope(0, scope.Package, goast.NewNodes(0, "package", " ", "base")))
	if err != nil {
		return err
	}
	a := base.SetScope(scs)
	data := text.String()
	want := data
	formattedOK := false
	if f, err := format.Source([]byte(data)); err == nil {
		want = string(f)
		formattedOK = true
	}
	longer := want + strings.Repeat("// leftover\n", 50)

	root0 := os.Getuid() == 0
	target := filepath.Join(root, c.Path.target())
	written := c.Path.target() // the file that is to hold the result
	fails, unclear := false, false
	mk := func() { must(os.MkdirAll(filepath.Dir(target), 0o755)) }
	switch c.State {
	case "new":
		mk()
	case "new dir":
	case "shorter":
		mk()
		write(target, string(c.Before))
	case "longer":
		mk()
		write(target, longer)
	case "same":
		mk()
		write(target, want)
	case "same size":
		mk()
		write(target, strings.Map(func(r rune) rune {
			if r == 'p' || r == '\n' {
				return r
			}
			return 'q'
		}, strings.ToValidUTF8(want, "?"))+strings.Repeat("q", len(want)-len(strings.ToValidUTF8(want, "?"))))
	case "empty file":
		mk()
		write(target, "")
	case "read-only file":
		mk()
		write(target, longer)
		must(os.Chmod(target, 0o444))
		fails = !root0
	case "directory":
		must(os.MkdirAll(target, 0o755))
		fails = true
	case "link":
		mk()
		write(target+"-real", string(c.Before))
		must(os.Symlink(filepath.Base(target)+"-real", target))
		written += "-real"
	case "link to new":
		mk()
		must(os.Symlink(filepath.Base(target)+"-real", target))
		written += "-real"
	case "link to longer":
		mk()
		write(target+"-real", longer)
		must(os.Symlink(filepath.Base(target)+"-real", target))
		written += "-real"
	case "parent is a file":
		write(filepath.Join(root, "plain"), "keep")
		c.Path.Dir = []string{"plain", "plain/sub"}[len(c.Before)%2]
		target = filepath.Join(root, c.Path.target())
		written = c.Path.target()
		fails = true
	case "linked directory", "broken directory link":
		must(os.Symlink("real", filepath.Join(root, "lnk")))
		c.Path.Dir = []string{"lnk", "lnk/sub"}[len(c.Before)%2]
		target = filepath.Join(root, c.Path.target())
		written = "real" + strings.TrimPrefix(c.Path.target(), "lnk")
		if fails = c.State != "linked directory"; !fails {
			must(os.Mkdir(filepath.Join(root, "real"), 0o755))
			if c.Path.Dir == "lnk" {
				write(target, longer)
			}
		}
	case "closed directory", "read-only directory":
		if root0 {
			o.Label("running as root, skipped")
			return nil
		}
		c.Path.Dir = []string{"shut", "shut/sub"}[len(c.Before)%2]
		target = filepath.Join(root, c.Path.target())
		written = c.Path.target()
		must(os.Mkdir(filepath.Join(root, "shut"), 0o755))
		must(os.Chmod(filepath.Join(root, "shut"), map[string]os.FileMode{"closed directory": 0, "read-only directory": 0o555}[c.State]))
		fails = true
	case "link to a full device":
		if root0 {
			o.Label("running as root, skipped")
			return nil
		}
		mk()
		must(os.Symlink("/dev/full", target))
		written = ""
		fails = true
	}
	empty := data == ""
	before := listTree(root)
	arg := c.Path.in(root)
	what := fmt.Sprintf("Save to %q (%s)", strings.ReplaceAll(arg, root, "ROOT"), c.State)
	call := func() error {
		if c.False {
			return a.Save(arg, false)
		}
		return a.Save(arg)
	}
	var serr error
	ierr := inDir(root, func() error {
		switch c.Fault {
		case "file size":
			limit := len(want) * c.Limit / 1000
			if c.State == "longer" || strings.HasPrefix(c.State, "link") || c.State == "read-only file" {
				limit = max(limit, 0)
			}
			if limit < len(want) && !empty {
				fails = true
			}
			what += fmt.Sprintf(", files limited to %d of %d bytes", limit, len(want))
			return withLimit(syscall.RLIMIT_FSIZE, uint64(limit), func() { serr = call() })
		case "no descriptors":
			fails = true
			what += ", no free descriptor"
			return withLimit(syscall.RLIMIT_NOFILE, 0, func() { serr = call() })
		}
		serr = call()
		return nil
	})
	if ierr != nil {
		o.Label("limit not possible, skipped")
		return nil
	}
	after := listTree(root)
	parents := func(p string) bool { // directories that may come to be
		return p == "." || strings.HasPrefix(written, p+"/")
	}
	switch {
	case empty:
		if serr == nil {
			return fmt.Errorf("%s: saving nothing succeeds", what)
		}
		if d := diffTrees(before, after, func(string) bool { return false }); len(d) > 0 {
			return fmt.Errorf("%s: saving nothing changed %q", what, d)
		}
	case fails && serr == nil:
		return fmt.Errorf("%s returns no error", what)
	case unclear:
	case !fails && serr != nil:
		return fmt.Errorf("%s: %w", what, serr)
	}
	if d := diffTrees(before, after, func(p string) bool {
		if p == written {
			return true
		}
		_, was := before[p]
		return !was && parents(p) && strings.HasPrefix(after[p], "d")
	}); len(d) > 0 {
		return fmt.Errorf("%s changed %q", what, d)
	}
	if serr == nil {
		b, err := os.ReadFile(filepath.Join(root, written))
		if err != nil {
			return fmt.Errorf("%s: %w", what, err)
		}
		if string(b) != want {
			return fmt.Errorf("%s: the file differs (the text is valid Go: %v): %s", what, formattedOK, firstDiff(string(b), want))
		}
		if c.Twice {
			if err := inDir(root, call); err != nil {
				return fmt.Errorf("%s, again: %w", what, err)
			}
			if b, _ := os.ReadFile(filepath.Join(root, written)); string(b) != want {
				return fmt.Errorf("%s, again: the file differs: %s", what, firstDiff(string(b), want))
			}
		}
	} else if fails && c.Fault == "" && (c.State == "read-only file" || c.State == "directory") {
		if before[written] != after[written] {
			return fmt.Errorf("%s failed and changed what was there", what)
		}
	}
	o.Label(c.State)
	o.LabelIf(c.Fault != "", c.Fault)
	o.LabelIf(empty, "nothing to save")
	o.LabelIf(formattedOK && !empty, "valid Go")
	o.LabelIf(!formattedOK, "not valid Go")
	o.LabelIf(fails, "has to fail")
	if !empty {
		o.Nontrivial()
	}
	return nil
}

// ---- C15 ----

// stdUse is a standard library package and expressions that use it.
type stdUse struct {
	path, name string
	exprs      []string
	types      []string
}

var stdUses = []stdUse{
	{"fmt", "fmt", []string{`fmt.Sprint(1)`, `fmt.Sprintf("%d", 2)`, `fmt.Errorf("x")`}, []string{"fmt.Stringer"}},
	{"os", "os", []string{`os.Getenv("X")`, `os.Args`}, []string{"*os.File", "os.FileMode"}},
	{"strings", "strings", []string{`strings.Repeat("a", 3)`, `strings.TrimSpace(" b ")`, `strings.EqualFold("a", "A")`}, []string{"strings.Builder", "*strings.Reader"}},
	{"strconv", "strconv", []string{`strconv.Itoa(1)`, `strconv.Quote("a")`}, []string{"strconv.NumError"}},
	{"sort", "sort", []string{`sort.SearchInts(nil, 1)`}, []string{"sort.Interface"}},
	{"errors", "errors", []string{`errors.New("x")`, `errors.Unwrap(nil)`}, nil},
	{"bytes", "bytes", []string{`bytes.TrimSpace(nil)`, `bytes.NewBufferString("x")`}, []string{"bytes.Buffer"}},
	{"bufio", "bufio", []string{`bufio.NewScanner(nil)`}, []string{"*bufio.Writer"}},
	{"time", "time", []string{`time.Now()`, `time.Second`}, []string{"time.Time", "time.Duration"}},
	{"sync", "sync", nil, []string{"sync.Mutex", "*sync.WaitGroup"}},
	{"sync/atomic", "atomic", nil, []string{"atomic.Int64", "atomic.Bool"}},
	{"io", "io", []string{`io.EOF`}, []string{"io.Reader", "io.Writer"}},
	{"math", "math", []string{`math.Sqrt(2)`, `math.Pi`}, nil},
	{"regexp", "regexp", []string{`regexp.MustCompile("a")`}, []string{"*regexp.Regexp"}},
	{"encoding/json", "json", []string{`json.Valid(nil)`}, []string{"json.RawMessage", "*json.Decoder"}},
	{"net/http", "http", []string{`http.StatusText(200)`}, []string{"http.Handler", "*http.Request"}},
	{"path/filepath", "filepath", []string{`filepath.Join("a", "b")`, `filepath.Base("x")`}, nil},
	{"unicode/utf8", "utf8", []string{`utf8.RuneLen('x')`, `utf8.RuneError`}, nil},
	{"context", "context", []string{`context.Background()`}, []string{"context.Context"}},
	{"encoding/base64", "base64", []string{`base64.StdEncoding`}, nil},
	{"net/url", "url", []string{`url.QueryEscape("x")`}, []string{"*url.URL"}},
	{"os/exec", "exec", []string{`exec.Command("x")`}, []string{"*exec.Cmd"}},
	{"container/heap", "heap", nil, []string{"heap.Interface"}},
	{"reflect", "reflect", []string{`reflect.TypeOf(1)`}, []string{"reflect.Type"}},
	{"go/ast", "ast", nil, []string{"*ast.File", "ast.Node"}},
	{"log", "log", []string{`log.Default()`}, []string{"*log.Logger"}},
}

// ImportSpecCase is an import of the source.
type ImportSpecCase struct {
	Std  int    `json:"std"` // number in the table, -1: Path
	Path string `json:"path,omitempty"`
	Name string `json:"name,omitempty"` // "", a name, "_" or "."
}

// ImportCase is a file with imports and uses.
type ImportCase struct {
	Imports []ImportSpecCase `json:"imports"`
	Group   int              `json:"group"`   // how the imports are written
	Uses    []int            `json:"uses"`    // numbers of the table that the code uses by their own name
	Renamed []int            `json:"renamed"` // numbers of imports with a name that the code uses
	Seed    int              `json:"seed"`
	Extra   Text             `json:"extra"`  // further declarations
	Import  int              `json:"import"` // 0: auto import, 1: false, 2: not given
	Broken  int              `json:"broken"` // the source is not valid Go
	Shadow  bool             `json:"shadow"` // a local variable is named like a package
	Where   int              `json:"where"`
	Fill    int              `json:"fill,omitempty"`    // so many lines of comments and declarations more
	Out     string           `json:"out,omitempty"`     // the target
	Sibling []int            `json:"sibling,omitempty"` // another file of the package declares the names of these packages
	Other   string           `json:"other,omitempty"`   // how the other file looks
}

var outNames = []string{"out.go", "out.go", "out.go", "out", "out_test.go", "doc.go", "main.go", "zz_generated.go", "sub/deep/out.go", "out_windows.go", ".out.go", "_out.go", "out.pb.go", "a b/out.go", "testdata/out.go", "vendor/out.go", "internal/x_test.go"}

func genImport(t *rapid.T) ImportCase {
	g := &gen{t: t}
	c := ImportCase{Group: g.n(4), Seed: g.n(1 << 16), Shadow: g.p(15), Where: g.n(3)}
	taken := map[string]bool{}
	for range g.n(7) {
		s := ImportSpecCase{Std: g.n(len(stdUses))}
		u := stdUses[s.Std]
		switch g.n(8) {
		case 0:
			s.Name = g.pick([]string{"xx", "renamed", "é1", "p2"})
		case 1:
			s.Name = g.pick([]string{"_", "_", "."})
			if s.Name == "_" && g.p(50) {
				s.Std, s.Path = -1, g.pick([]string{"embed", "unsafe", "net/http/pprof", "time/tzdata", "image/png", "expvar", "crypto/sha256", "example.com/driver", "runtime/cgo", "plugin"})
			}
		case 2:
			s.Name = u.name
		case 3:
			if g.p(50) {
				s.Std, s.Path = -1, g.pick([]string{"example.com/one/foo", "example.com/two/bar", "example.invalid/baz"})
			}
		}
		name := s.Name
		if name == "" {
			name = u.name
			if s.Std < 0 {
				name = s.Path[strings.LastIndex(s.Path, "/")+1:]
			}
		}
		path := s.Path
		if s.Std >= 0 {
			path = u.path
		}
		if taken["path "+path] || name != "_" && name != "." && taken[name] {
			continue
		}
		taken["path "+path], taken[name] = true, true
		c.Imports = append(c.Imports, s)
		if s.Name != "_" && s.Name != "." && g.p(60) {
			c.Renamed = append(c.Renamed, len(c.Imports)-1)
		}
	}
	for range g.n(6) {
		u := g.n(len(stdUses))
		bad := false
		for _, s := range c.Imports {
			// the name is another import's, or the package is there under another name: gofmt may do either
			if s.Name == stdUses[u].name && s.Std != u || s.Std == u && s.Name != "" && s.Name != stdUses[u].name {
				bad = true
			}
		}
		if !bad && !slices.Contains(c.Uses, u) {
			c.Uses = append(c.Uses, u)
		}
	}
	if g.p(60) {
		gg := &gen{t: t, o: srcOpts{Comments: g.p(50), TypesOnly: true}}
		var b strings.Builder
		for range g.n(3) {
			switch gg.n(3) {
			case 0:
				b.WriteString("// " + gg.commentTextPlain() + "\n")
			case 1:
				b.WriteString("type " + gg.pick([]string{"A1", "B1", "C1"}) + fmt.Sprint(gg.n(1000)) + " struct {\n\tx  int // c\n yy string\n}\n\n")
			default:
				b.WriteString("func (r T0) " + gg.pick([]string{"M", "N"}) + fmt.Sprint(gg.n(1000)) + "(a int,b string) (int) { return a }\n\n")
			}
		}
		c.Extra = Text(b.String())
	}
	switch g.n(10) {
	case 0:
		c.Import = 1
	case 1:
		c.Import = 2
	}
	if g.p(12) {
		c.Broken = 1 + g.n(fragment)
	}
	c.Out = g.pick(outNames)
	if g.p(25) {
		for range 1 + g.n(3) {
			u := g.n(len(stdUses))
			ok := !slices.Contains(c.Uses, u) && !slices.Contains(c.Sibling, u)
			for _, s := range c.Imports {
				name := s.Name
				if s.Std >= 0 && name == "" {
					name = stdUses[s.Std].name
				}
				// an import and a declaration of the same name do not go together, and a dot import may bring any name
				if s.Std == u || name == stdUses[u].name || name == "." || s.Std < 0 {
					ok = false
				}
			}
			if ok {
				c.Sibling = append(c.Sibling, u)
			}
		}
		c.Other = g.pick([]string{"other.go", "a.go", "x_y.go"})
	}
	if g.p(10) {
		c.Fill = g.n(1 << (1 + g.n(12)))
	}
	return c
}

func (g *gen) commentTextPlain() string {
	return g.pick([]string{"c", "import \"x\"", "fmt.Println", "世"})
}

// source writes the file, and tells the imports it should have after auto import.
func (c ImportCase) source() (src string, want []string) {
	var b, body strings.Builder
	b.WriteString("// Package p is a test.\npackage p\n\n")
	var specs []string
	have := map[string]bool{}
	r := c.Seed
	rnd := func(n int) int { r = (r*1103515245 + 12345) & 0x7fffffff; return (r >> 8) % n }
	for i, s := range c.Imports {
		path, name := s.Path, s.Name
		var u stdUse
		if s.Std >= 0 {
			u = stdUses[s.Std%len(stdUses)]
			path = u.path
		} else {
			u = stdUse{path: path, name: path[strings.LastIndex(path, "/")+1:], exprs: []string{path[strings.LastIndex(path, "/")+1:] + ".X(1)"}}
		}
		spec := `"` + path + `"`
		if name != "" {
			spec = name + " " + spec
		}
		specs = append(specs, spec)
		used := slices.Contains(c.Renamed, i) || (name == "" || name == u.name) && s.Std >= 0 && slices.Contains(c.Uses, s.Std)
		if used || name == "_" || name == "." {
			want = append(want, spec)
		}
		if slices.Contains(c.Renamed, i) {
			alias := name
			if alias == "" {
				alias = u.name
			}
			use(&body, u, alias, i, rnd)
		}
		if s.Std >= 0 && (name == "" || name == u.name) {
			have[path] = true
		}
	}
	for i, k := range c.Uses {
		u := stdUses[k%len(stdUses)]
		use(&body, u, u.name, 100+i, rnd)
		if !have[u.path] {
			want = append(want, `"`+u.path+`"`)
		}
	}
	for i, k := range c.Sibling {
		u := stdUses[k%len(stdUses)]
		fmt.Fprintf(&body, "func sib%d() {\n\t_ = %s.%s\n}\n\n", i, u.name, u.member())
	}
	if c.Shadow {
		body.WriteString("func shadow() {\n\ttype t struct{ Zz int }\n\tvar html, zlib t\n\t_ = html.Zz\n\thtml.Zz = zlib.Zz\n}\n\n")
	}
	switch c.Group {
	case 0:
		for _, s := range specs {
			b.WriteString("import " + s + "\n")
		}
	case 1, 2:
		if len(specs) > 0 {
			b.WriteString("import (\n")
			for i, s := range specs {
				b.WriteString("\t" + s)
				if c.Group == 2 && i == 1 {
					b.WriteString("\n")
				}
				b.WriteString("\n")
			}
			b.WriteString(")\n")
		}
	default:
		for i, s := range specs {
			if i%2 == 0 {
				b.WriteString("import (\n" + s + ")\n")
			} else {
				b.WriteString("import " + s + "\n")
			}
		}
	}
	b.WriteString("\n")
	extra := "type T0 struct{}\n\n" + string(c.Extra)
	for i := range c.Fill {
		switch i % 7 {
		case 3:
			extra += fmt.Sprintf("\n\n// fill %d\nfunc (T0) fill%d() (x int) { // c\n\treturn /* d */ %d\n}\n\n", i, i, i)
		case 5:
			extra += fmt.Sprintf("\n/* fill\n%d */\n\n", i)
		default:
			extra += fmt.Sprintf("\n// fill %d import \"os\"\n", i)
		}
	}
	if c.Where == 0 {
		b.WriteString(extra + "\n\n" + body.String())
	} else {
		b.WriteString(body.String() + "\n\n" + extra)
	}
	switch c.Broken {
	case 1:
		b.WriteString("\nfunc {\n")
	case 2:
		b.WriteString("\n}\n")
	case 3:
		b.WriteString("\nvar x = \"\n")
	case fragment:
		sort.Strings(want)
		return strings.Replace(b.String(), "package p\n", "", 1) + "\nvar  y int\n", want
	}
	sort.Strings(want)
	return b.String(), want
}

// member is something that the package exports.
func (u stdUse) member() string {
	for _, s := range append(slices.Clone(u.exprs), u.types...) {
		if _, s, ok := strings.Cut(s, u.name+"."); ok {
			return s[:len(s)-len(strings.TrimLeft(s, "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789_"))]
		}
	}
	return "Zz"
}

func use(b *strings.Builder, u stdUse, alias string, i int, rnd func(int) int) {
	rename := func(s string) string {
		if alias == u.name {
			return s
		}
		return strings.ReplaceAll(s, u.name+".", alias+".")
	}
	if len(u.exprs) > 0 && (len(u.types) == 0 || rnd(2) == 0) {
		e := rename(u.exprs[rnd(len(u.exprs))])
		switch rnd(3) {
		case 0:
			fmt.Fprintf(b, "var v%d = %s\n\n", i, e)
		case 1:
			fmt.Fprintf(b, "func f%d() {\n\tg := func() { _ = %s }\n\tg()\n}\n\n", i, e)
		default:
			fmt.Fprintf(b, "func h%d()   any {\n\treturn   %s }\n\n", i, e)
		}
		return
	}
	t := rename(u.types[rnd(len(u.types))])
	switch rnd(3) {
	case 0:
		fmt.Fprintf(b, "type S%d struct {\n\tf %s\n}\n\n", i, t)
	case 1:
		fmt.Fprintf(b, "func k%d(a %s, b ...int) {}\n\n", i, t)
	default:
		fmt.Fprintf(b, "var w%d map[string]%s\n\n", i, t)
	}
}

// importsAndDecls reads a source: its imports, sorted, and the text of its other declarations, and the
// comments that are not inside imports.
func importsAndDecls(src string) (imports, decls []string, err error) {
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, "x.go", src, parser.ParseComments|parser.SkipObjectResolution)
	if err != nil {
		return nil, nil, err
	}
	for _, s := range f.Imports {
		x := s.Path.Value
		if s.Name != nil {
			x = s.Name.Name + " " + x
		}
		imports = append(imports, x)
	}
	sort.Strings(imports)
	for _, d := range f.Decls {
		from := d.Pos()
		switch d := d.(type) {
		case *ast.GenDecl:
			if d.Tok == token.IMPORT {
				continue
			}
			if d.Doc != nil {
				from = d.Doc.Pos()
			}
		case *ast.FuncDecl:
			if d.Doc != nil {
				from = d.Doc.Pos()
			}
		}
		decls = append(decls, src[fset.Position(from).Offset:fset.Position(d.End()).Offset])
	}
	for _, cg := range f.Comments {
		if cg.Pos() < f.Package {
			decls = append(decls, cg.Text())
			continue
		}
		inside := false
		for _, d := range f.Decls {
			if d, ok := d.(*ast.GenDecl); ok && d.Tok == token.IMPORT && d.Pos() <= cg.Pos() && cg.Pos() <= d.End() {
				inside = true
			}
		}
		if !inside {
			for _, x := range cg.List {
				decls = append(decls, x.Text)
			}
		}
	}
	return imports, decls, nil
}

// fragment is the Broken of a source without a package clause.
const fragment = 4

func checkImport(c ImportCase, o *Obs) error {
	src, want := c.source()
	f, ferr := format.Source([]byte(src))
	if c.Broken == fragment { // without auto import, a fragment is formatted like a file
		c.Import = 0
		ferr = errors.New("no package clause")
	}
	if (ferr != nil) != (c.Broken != 0) {
		badSource(src, ferr)
		o.Label("bad source, skipped")
		return nil
	}
	dir, done := o.scratch()
	defer done()
	if c.Out == "" {
		c.Out = "out.go"
	}
	target := filepath.Join(dir, "to", c.Out)
	out := target
	if !strings.HasSuffix(out, ".go") {
		out += ".go"
	}
	if c.Other != "" {
		must(os.MkdirAll(filepath.Dir(out), 0o755))
		var b strings.Builder
		b.WriteString("package p\n\n")
		for i, k := range c.Sibling {
			fmt.Fprintf(&b, []string{"var %s struct{ %s int }\n\n", "var (\n\t%s = struct{ %s int }{}\n)\n\n"}[i%2], stdUses[k%len(stdUses)].name, stdUses[k%len(stdUses)].member())
		}
		write(filepath.Join(filepath.Dir(out), c.Other), b.String())
		o.Label("another file of the package")
	}

	var a goast.Ast
	if c.Broken == 0 {
		in := filepath.Join(dir, "in", "in.go")
		must(os.Mkdir(filepath.Dir(in), 0o755))
		write(in, src)
		var err error
		a, err = goast.ParseAst(in)
		if err != nil {
			return fmt.Errorf("ParseAst: %w", err)
		}
	} else {
		base, err := goast.NewAst(goast.NewScope(0, scope.Package, goast.NewNodes(0, "package", " ", "base")))
		if err != nil {
			return err
		}
		a = base.SetScope([]goast.Scope{goast.NewScope(0, scope.Package, goast.NewNode(0, src))})
	}
	var err error
	switch c.Import {
	case 0:
		err = a.Save(target, true)
	case 1:
		err = a.Save(target, false)
	default:
		err = a.Save(target)
	}
	if err != nil {
		return fmt.Errorf("Save: %w", err)
	}
	b, err := os.ReadFile(out)
	if err != nil {
		return fmt.Errorf("the saved file: %w", err)
	}
	got := string(b)
	o.Label([]string{"auto import", "auto import false", "auto import not given"}[c.Import%3])
	if c.Broken != 0 {
		if got != src {
			return fmt.Errorf("source that is not valid Go is saved as another text: %s", firstDiff(got, src))
		}
		o.Label("not valid Go")
		return nil
	}
	if c.Import != 0 {
		if f2, err := format.Source(f); err == nil && got != string(f2) {
			return fmt.Errorf("without auto import, the file is not the gofmt'ed source: %s", firstDiff(got, string(f2)))
		}
		return nil
	}
	imports, decls, err := importsAndDecls(got)
	if err != nil {
		return fmt.Errorf("the saved file is not valid Go: %w", err)
	}
	had, wantDecls, err := importsAndDecls(string(f))
	if err != nil {
		return nil
	}
	if !slices.Equal(imports, want) {
		return fmt.Errorf("the saved file imports %q, want %q, the source imports %q", imports, want, had)
	}
	if !slices.Equal(decls, wantDecls) {
		for i := range min(len(decls), len(wantDecls)) {
			if decls[i] != wantDecls[i] {
				return fmt.Errorf("declaration or comment %d changed: %s", i, firstDiff(decls[i], wantDecls[i]))
			}
		}
		return fmt.Errorf("the saved file has %d declarations and comments, want %d", len(decls), len(wantDecls))
	}
	if g, err := format.Source(b); err == nil && string(g) != got {
		return fmt.Errorf("the saved file is not gofmt'ed: %s", firstDiff(got, string(g)))
	}
	missing, unused := 0, 0
	for _, x := range want {
		if !slices.Contains(had, x) {
			missing++
		}
	}
	for _, x := range had {
		if !slices.Contains(want, x) {
			unused++
		}
	}
	o.LabelIf(missing > 0, "missing imports")
	o.LabelIf(unused > 0, "unused imports")
	if missing+unused > 0 {
		o.Nontrivial()
	}
	return nil
}

func init() {
	register(&Prop{ID: "C13", Unpriv: true, Assumptions: []string{"go/format and go/parser decide what is valid Go", "the checks of permissions need that the worker can run as an unprivileged user (classes show it)"}, Subs: []*Sub{
		sub("open", "a path in one of seven forms to a file that is valid, a fragment, invalid, missing, a directory, a link, unreadable or behind a closed directory; result, metadata and the untouched directory tree are compared with the expected ones; non-trivial: not a plain valid file in the top directory",
			60000, 2000000, genOpen, checkOpen),
	}})
	register(&Prop{ID: "C14", Unpriv: true, Assumptions: []string{"go/format decides what is valid Go and its gofmt form", "faults are made with file permissions, obstacles, a full device and limits on file size and descriptors; others are not covered"}, Subs: []*Sub{
		sub("save", "scopes of any text saved to a path in one of seven forms, whose target is new, shorter, longer, read-only, a directory, a link, a full device or behind a file or closed directory, with a limit on the file size or the number of open files now and then; the whole directory tree is compared before and after; non-trivial: there is text to save",
			60000, 2000000, genSaveFile, checkSaveFile),
	}})
	register(&Prop{ID: "C15", Assumptions: []string{"which package a name of the standard library belongs to is taken from a table of 26 packages with unambiguous names"}, Subs: []*Sub{
		sub("imports", "source with imports (plain, renamed, blank, dot, not of the standard library), of which some are used, and uses of packages that are not imported; the imports after saving are compared with those the code uses, all other declarations with their gofmt'ed text; non-trivial: an import is missing or unused",
			6000, 300000, genImport, checkImport),
	}})
}
