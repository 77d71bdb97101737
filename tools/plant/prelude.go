package goast_test

import (
	"fmt"
	"go/format"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"testing"

	"github.com/yanun0323/goast"
	"github.com/yanun0323/goast/assert"
	"github.com/yanun0323/goast/charset"
	"github.com/yanun0323/goast/helper"
	"github.com/yanun0323/goast/kind"
)

func fail(t *testing.T, f string, a ...any) {
	t.Helper()
	t.Fatalf("DEMO-FAILED "+f, a...)
}

// want stops the demo unless got equals want.
func want(t *testing.T, what string, got, want any) {
	t.Helper()
	if g, w := fmt.Sprintf("%#v", got), fmt.Sprintf("%#v", want); g != w {
		fail(t, "%s: got %.300s, want %.300s", what, g, w)
	}
}

func parse(t *testing.T, src string) []goast.Scope {
	t.Helper()
	scs, err := goast.ParseScope(0, []byte(src))
	if err != nil {
		fail(t, "parse: %v", err)
	}
	return scs
}

func nodes(n *goast.Node) []*goast.Node {
	var r []*goast.Node
	for ; n != nil && len(r) < 1<<20; n = n.Next() {
		r = append(r, n)
	}
	return r
}

func texts(n *goast.Node) (r []string) {
	for _, x := range nodes(n) {
		r = append(r, x.Text())
	}
	return r
}

// all is the text of all nodes of the scopes.
func all(scs []goast.Scope) string {
	s := ""
	for _, sc := range scs {
		s += strings.Join(texts(sc.Node()), "")
	}
	return s
}

// kindOf is the kind of the i-th node with that text.
func kindOf(t *testing.T, src, text string, i int) string {
	t.Helper()
	for _, sc := range parse(t, src) {
		for _, n := range nodes(sc.Node()) {
			if n.Text() == text {
				if i == 0 {
					return n.Kind().String()
				}
				i--
			}
		}
	}
	return "no such node"
}

// put writes a file in a scratch directory.
func put(t *testing.T, name, src string) string {
	t.Helper()
	p := filepath.Join(t.TempDir(), name)
	if err := os.WriteFile(p, []byte(src), 0o644); err != nil {
		t.Fatal(err)
	}
	return p
}

func load(t *testing.T, src string) goast.Ast {
	t.Helper()
	a, err := goast.ParseAst(put(t, "in.go", src))
	if err != nil {
		fail(t, "ParseAst: %v", err)
	}
	return a
}

func read(t *testing.T, p string) string {
	t.Helper()
	b, err := os.ReadFile(p)
	if err != nil {
		fail(t, "read: %v", err)
	}
	return string(b)
}

// save writes the Ast to a scratch file and returns its content.
func save(t *testing.T, a goast.Ast, auto ...bool) string {
	t.Helper()
	p := filepath.Join(t.TempDir(), "out.go")
	if err := a.Save(p, auto...); err != nil {
		fail(t, "Save: %v", err)
	}
	return read(t, p)
}

var (
	_ = kind.None
	_ = helper.TidyText
	_ = charset.SeparatorCharset
	_ = assert.New
	_ = exec.Command
	_ = format.Source
)
