package main

// C25: debug output. C26: a scope depends on its own text only.

import (
	"bytes"
	"fmt"
	"go/format"
	"log/slog"
	"os"
	"path/filepath"
	"strings"

	"github.com/yanun0323/goast"
	"github.com/yanun0323/goast/helper"
	"github.com/yanun0323/goast/scope"
	"pgregory.net/rapid"
)

// ---- C25 ----

// DebugCase is a text that is parsed, edited and saved with and without debug output.
type DebugCase struct {
	Src   Text   `json:"src"`
	Line  int    `json:"line"`
	Edits []Edit `json:"edits,omitempty"`
	File  bool   `json:"file"` // through ParseAst
	Args  []Text `json:"args,omitempty"`
}

func genDebug(t *rapid.T) DebugCase {
	g := &gen{t: t}
	c := DebugCase{Line: genLine(t)}
	switch g.n(4) {
	case 0:
		c.Src = Text(genSoup(t, 40))
	case 1:
		c.Src = Text(genMutated(t))
	default:
		c.Src = Text(genFormatted(t, genOpts(t, 3)))
		c.File = g.p(30)
	}
	if g.p(35) { // an end that is not the usual one
		if g.p(50) {
			c.Src = Text(strings.TrimRight(string(c.Src), "\n"))
		}
		c.Src += Text(g.pick([]string{"// x", "//", "/* open", "/* c */", "\"open", "'", "`raw", "x", "(", "{", "}", ")", "\\", "func", "func f", "type T", "type T struct {", "var x =", "\r", "\x00", "\xff", "package", "\t", " "}))
		c.File = false
	}
	c.Edits = genEdits(g, 5, editOps)
	for range g.n(4 + 12*g.n(2)) {
		c.Args = append(c.Args, g.text("a", "", "%d", "x y", "世", "\t"))
	}
	return c
}

func checkDebug(c DebugCase, o *Obs) error {
	defer helper.SetDebug(false)
	limit := len(c.Src)*3 + len(c.Edits) + 20
	dir, done := o.scratch()
	defer done()
	in := filepath.Join(dir, "in.go")
	write(in, string(c.Src))
	// what is logged counts as output
	var logged bytes.Buffer
	defer slog.SetDefault(slog.Default())
	slog.SetDefault(slog.New(slog.NewTextHandler(&logged, &slog.HandlerOptions{Level: slog.Level(-100)})))
	unformatted := 0 // the part of it that tells that a text to save could not be formatted
	run := func(k int) (log []string, err error) {
		var scs []goast.Scope
		var a goast.Ast
		if c.File {
			var err error
			a, err = goast.ParseAst(in)
			if err != nil {
				log = append(log, err.Error())
			} else {
				scs = a.Scope()
			}
		} else {
			scs, err = goast.ParseScope(c.Line, []byte(c.Src))
			if err != nil {
				return nil, err
			}
			a, err = goast.NewAst(scs...)
			if err != nil {
				log = append(log, err.Error())
			}
		}
		v, ns, err := viewOf(scs, limit)
		if err != nil {
			return nil, err
		}
		log = append(log, v)
		s := &side{scopes: scs, nodes: ns}
		for _, e := range c.Edits {
			s.edit(e)
		}
		for _, n := range s.nodes {
			log = append(log, n.Description(), fmt.Sprint(n.Prev() == nil, n.Next() == nil, n.Kind()))
		}
		if a != nil {
			log = append(log, metaOf(a))
			// a ring of nodes has no text
			for _, sc := range a.Scope() {
				if _, _, err := chainAround(sc.Node(), limit); err != nil {
					return log, nil
				}
			}
			log = append(log, a.Copy().Description())
			out := filepath.Join(dir, fmt.Sprintf("out%d.go", k))
			before := logged.Len()
			if err := a.Save(out); err == nil {
				b, err := os.ReadFile(out)
				log = append(log, string(b), fmt.Sprint(err))
				if _, err := format.Source(b); err != nil {
					unformatted = logged.Len() - before
				}
			} else {
				log = append(log, "Save failed")
			}
		}
		return log, nil
	}
	var plain, debug []string
	var err1, err2 error
	helper.SetDebug(false)
	out, ok := outputOf(func() { plain, err1 = run(0) })
	if err1 != nil {
		return err1
	}
	if ok && out != "" {
		return fmt.Errorf("without debug output, the standard output or error gets %q", clip(out, 300))
	}
	if logged.Len() > unformatted {
		return fmt.Errorf("without debug output, something is logged: %s", clip(logged.String(), 300))
	}
	o.LabelIf(unformatted > 0, "an unformatted text was saved")
	helper.SetDebug(true)
	out, ok = outputOf(func() { debug, err2 = run(1) })
	helper.SetDebug(false)
	if err2 != nil {
		return fmt.Errorf("with debug output: %w", err2)
	}
	o.LabelIf(ok && out != "", "the parser wrote debug output")
	if len(plain) != len(debug) {
		return fmt.Errorf("with debug output there are %d results, without %d", len(debug), len(plain))
	}
	for i := range plain {
		if plain[i] != debug[i] {
			return fmt.Errorf("with debug output, result %d differs: %s", i, firstDiff(debug[i], plain[i]))
		}
	}
	var args []any
	for _, a := range c.Args {
		args = append(args, string(a))
	}
	out, ok = outputOf(func() { helper.DebugPrint(args...) })
	if ok && out != "" {
		return fmt.Errorf("DebugPrint without debug mode writes %q", out)
	}
	helper.SetDebug(true)
	out, ok = outputOf(func() { helper.DebugPrint(args...) })
	helper.SetDebug(false)
	want := strings.TrimSuffix(fmt.Sprintln(args...), "\n")
	if ok && (!strings.HasPrefix(out, want) || strings.Count(out, "\n") != 1+strings.Count(want, "\n") || !strings.HasSuffix(out, "\n")) {
		return fmt.Errorf("DebugPrint of %q in debug mode writes %q, want one line that begins with them", args, out)
	}
	o.LabelIf(!ok, "output could not be redirected")
	o.LabelIf(c.File, "through a file")
	if ok && len(plain) > 10 {
		o.Nontrivial()
	}
	return nil
}

// ---- C26 ----

func checkLocal(text string, line int, whole bool, o *Obs) error {
	scs, err := goast.ParseScope(line, []byte(text))
	if err != nil {
		return err
	}
	limit := len(text) + 10
	type piece struct {
		view, text string
		line       int
		kind       scope.Kind
	}
	var ps []piece
	for _, s := range scs {
		v, ns, err := viewOf([]goast.Scope{s}, limit)
		if err != nil {
			return err
		}
		var b strings.Builder
		for _, n := range ns {
			b.WriteString(n.Text())
		}
		ps = append(ps, piece{v, b.String(), s.Line() - 1, s.Kind()})
	}
	alone := func(i int, text string, line int, at int) error {
		p := ps[i]
		got, err := goast.ParseScope(line, []byte(text))
		if err != nil {
			return err
		}
		if at >= len(got) {
			return fmt.Errorf("scope %d, a %v of line %d, parsed elsewhere, is not there: %d scopes", i, p.kind, p.line+1, len(got))
		}
		v, _, err := viewOf(got[at:at+1], limit*3)
		if err != nil {
			return err
		}
		if v != p.view {
			return fmt.Errorf("scope %d, a %v of line %d, is another when it is parsed %s: %s", i, p.kind, p.line+1,
				map[bool]string{true: "alone", false: "behind another scope"}[at == 0], firstDiff(v, p.view))
		}
		if at == 0 && len(got) != 1 {
			return fmt.Errorf("scope %d, a %v of line %d, parsed alone, becomes %d scopes", i, p.kind, p.line+1, len(got))
		}
		return nil
	}
	for i, p := range ps {
		if i > 40 && i%7 != 0 {
			continue
		}
		if err := alone(i, p.text, p.line, 0); err != nil {
			return err
		}
		if !whole {
			continue
		}
		// behind another scope of the file, not the one before it
		j := (i*7 + 3) % len(ps)
		q := ps[j]
		if err := alone(i, q.text+p.text, p.line-strings.Count(q.text, "\n"), 1); err != nil {
			return fmt.Errorf("%w (the scope before it was scope %d)", err, j)
		}
	}
	if len(ps) > 1 {
		o.Nontrivial()
	}
	// on other lines
	const by = 100000
	moved, err := goast.ParseScope(line+by, []byte(text))
	if err != nil {
		return err
	}
	if len(moved) != len(scs) {
		return fmt.Errorf("%d lines further down, there are %d scopes, not %d", by, len(moved), len(scs))
	}
	for i, s := range moved {
		a, err := chain(s.Node(), limit)
		if err != nil {
			return err
		}
		b, err := chain(scs[i].Node(), limit)
		if err != nil {
			return err
		}
		if len(a) != len(b) || s.Kind() != scs[i].Kind() {
			return fmt.Errorf("scope %d, a %v, is another %d lines further down: %v, %d nodes, not %d", i, scs[i].Kind(), by, s.Kind(), len(a), len(b))
		}
		for j := range a {
			if a[j].Text() != b[j].Text() || a[j].Kind() != b[j].Kind() || a[j].Line() != b[j].Line()+by {
				return fmt.Errorf("scope %d, a %v, is another %d lines further down: %s instead of %s", i, scs[i].Kind(), by, a[j].Description(), b[j].Description())
			}
		}
	}
	for _, p := range ps {
		o.Label(p.kind.String())
	}
	return nil
}

// AnyText is any text with a start line.
type AnyText struct {
	Text Text `json:"text"`
	Line int  `json:"line"`
}

func init() {
	register(&Prop{ID: "C25", Subs: []*Sub{
		sub("debug", "source, damaged source or soup that is parsed, edited, described and saved, once with and once without debug output, and the standard output and error of both; DebugPrint of drawn arguments; non-trivial: more than ten results compared",
			8000, 500000, genDebug, checkDebug),
	}})
	register(&Prop{ID: "C26", Subs: append([]*Sub{
		sub("soup", "token soup or damaged source: each scope parsed alone; non-trivial: two scopes", 60000, 3000000, func(t *rapid.T) AnyText {
			g := &gen{t: t}
			c := AnyText{Line: genLine(t)}
			if g.p(50) {
				c.Text = Text(genSoup(t, 60))
			} else {
				c.Text = Text(genMutated(t))
			}
			return c
		}, func(c AnyText, o *Obs) error { return checkLocal(string(c.Text), c.Line, false, o) }),
		sub("declarations", "declaration-heavy files: each scope parsed alone and behind another; non-trivial: two scopes", 20000, 1000000,
			func(t *rapid.T) Src { return Src{Text(genDecls(t))} }, srcCheck(func(s string, o *Obs) error { return checkLocal(s, 3, true, o) })),
	}, srcSubs("non-trivial: two scopes", 20000, 1000000, 300, 20000, func(s string, o *Obs) error { return checkLocal(s, 0, true, o) })...)})
}
