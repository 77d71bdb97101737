package main

// C19: parsing is a pure function, alone and from many goroutines.

import (
	"bytes"
	"fmt"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"slices"
	"strings"
	"sync"

	"github.com/yanun0323/goast"
	"github.com/yanun0323/goast/kind"
	"github.com/yanun0323/goast/scope"
	"pgregory.net/rapid"
)

// PureOp is a step of a history: parse one of the texts, edit an earlier result, scribble over an earlier buffer, ...
type PureOp struct {
	Op   string `json:"op"`
	I    int    `json:"i"`
	J    int    `json:"j,omitempty"`
	Edit *Edit  `json:"edit,omitempty"`
}

// PureCase is some texts and a history.
type PureCase struct {
	Texts []Text   `json:"texts"`
	Lines []int    `json:"lines"`
	Ops   []PureOp `json:"ops"`
}

func genPureText(t *rapid.T) string {
	g := &gen{t: t}
	switch g.n(6) {
	case 0:
		return genSoup(t, 25)
	case 1:
		return genMutated(t)
	case 2:
		return genLiterals(t)
	default:
		return genFormatted(t, genOpts(t, 3))
	}
}

func genPure(t *rapid.T) PureCase {
	g := &gen{t: t}
	var c PureCase
	for range 1 + g.n(3) {
		c.Texts = append(c.Texts, Text(genPureText(t)))
		c.Lines = append(c.Lines, genLine(t))
	}
	for range 2 + g.n(10) {
		op := PureOp{Op: g.pick([]string{"parse", "parse", "parse", "edit", "edit", "scribble", "copy", "file", "nodes", "names"}), I: g.n(8), J: g.n(8)}
		if op.Op == "edit" {
			e := genEdits(g, 1, editOps)
			if len(e) == 0 {
				op.Op = "parse"
			} else {
				op.Edit = &e[0]
			}
		}
		c.Ops = append(c.Ops, op)
	}
	return c
}

// viewOf writes down everything the scopes show.
func viewOf(scs []goast.Scope, limit int) (string, []*goast.Node, error) {
	var b strings.Builder
	var ns []*goast.Node
	for i, s := range scs {
		fmt.Fprintf(&b, "scope %d: %s line %d %s\n", i, s.Kind(), s.Line(), namesOf(s))
		c, err := chain(s.Node(), limit)
		if err != nil {
			return "", nil, err
		}
		for _, n := range c {
			fmt.Fprintf(&b, " %s %s\n", stateOf(n), n.Kind())
		}
		ns = append(ns, c...)
	}
	return b.String(), ns, nil
}

func (n names) String() string { return fmt.Sprintf("%v", namesPlain(n)) }

type namesPlain names

type pureResult struct {
	text int
	buf  []byte // the whole buffer, with spare capacity
	side *side
	made []*goast.Node
}

func checkPure(c PureCase, o *Obs) error {
	var want []string
	owner := map[*goast.Node]int{}
	var results []*pureResult

	limit := 20
	for _, t := range c.Texts {
		limit += len(t) + 1
	}
	parse := func(ti int) error {
		text := string(c.Texts[ti])
		buf := make([]byte, 0, len(text)+16)
		buf = append(buf, text...)
		spare := buf[len(buf):cap(buf)]
		for i := range spare {
			spare[i] = "\"`)}*/\n '"[i%9]
		}
		whole := slices.Clone(buf[:cap(buf)])
		scs, err := goast.ParseScope(c.Lines[ti], buf)
		if err != nil {
			return fmt.Errorf("ParseScope: %w", err)
		}
		if !bytes.Equal(buf[:cap(buf)], whole) {
			return fmt.Errorf("parsing changed the bytes passed in: %s", firstDiff(string(buf[:cap(buf)]), string(whole)))
		}
		v, ns, err := viewOf(scs, limit)
		if err != nil {
			return err
		}
		for len(want) <= ti {
			want = append(want, "")
		}
		if want[ti] == "" {
			want[ti] = v
		} else if v != want[ti] {
			return fmt.Errorf("parsing text %d again gives something else: %s", ti, firstDiff(v, want[ti]))
		}
		for _, n := range ns {
			if r, ok := owner[n]; ok {
				return fmt.Errorf("parse %d and parse %d gave the same node %s", r, len(results), stateOf(n))
			}
			owner[n] = len(results)
		}
		s := &side{scopes: scs, nodes: ns}
		s.take()
		results = append(results, &pureResult{ti, buf, s, ns})
		return nil
	}
	unchanged := func(except int, what string) error {
		for i, r := range results {
			if i == except {
				continue
			}
			if d := r.side.changed(); d != "" {
				return fmt.Errorf("%s changed result %d: %s", what, i, d)
			}
		}
		return nil
	}

	for ti := range c.Texts {
		if err := parse(ti); err != nil {
			return err
		}
	}
	again, edits := 0, 0
	for i, op := range c.Ops {
		r := results[op.I%len(results)]
		ri := op.I % len(results)
		what := fmt.Sprintf("op %d (%s)", i, op.Op)
		except := -1
		switch op.Op {
		case "parse":
			if err := parse(op.I % len(c.Texts)); err != nil {
				return fmt.Errorf("%s: %w", what, err)
			}
			again++
		case "edit":
			e := *op.Edit
			r.side.edit(e)
			r.side.take()
			edits++
			except = ri
		case "scribble":
			for j := range r.buf {
				r.buf[j] = "(\"`x/*\n"[(j+op.J)%7]
			}
			edits++
		case "copy":
			for _, s := range r.side.scopes {
				if edits == 0 {
					s.Copy()
				}
			}
		case "file":
			// the same text through a file
			ti := op.I % len(c.Texts)
			if c.Lines[ti] != 0 || !parses(string(c.Texts[ti])) || formatted(string(c.Texts[ti])) != string(c.Texts[ti]) {
				break
			}
			p := filepath.Join(o.dir, "pure.go")
			if err := os.WriteFile(p, []byte(c.Texts[ti]), 0o644); err != nil {
				return nil
			}
			a, err := goast.ParseAst(p)
			if err != nil {
				break // C12, C13
			}
			v, ns, err := viewOf(a.Scope(), limit)
			if err != nil {
				return err
			}
			if v != want[ti] {
				return fmt.Errorf("%s: ParseAst gives other scopes than ParseScope: %s", what, firstDiff(v, want[ti]))
			}
			for _, n := range ns {
				if _, ok := owner[n]; ok {
					return fmt.Errorf("%s: ParseAst gave a node of an earlier result", what)
				}
			}
			o.Label("through a file")
		case "nodes":
			t := string(c.Texts[op.I%len(c.Texts)])
			t = t[:min(len(t), 5)]
			a, b := goast.NewNode(op.J, t), goast.NewNode(op.J, t)
			if a == b || stateOf(a) != stateOf(b) || a.Kind() != b.Kind() || kind.New(t) != a.Kind() {
				return fmt.Errorf("%s: two nodes made of %q are not two equal nodes", what, t)
			}
		case "names":
			for _, s := range r.side.scopes {
				if x, y := namesOf(s), namesOf(s); x != y {
					return fmt.Errorf("%s: asking for the names twice: %v, then %v", what, x, y)
				}
			}
		}
		if err := unchanged(except, what); err != nil {
			return err
		}
	}
	for ti := range c.Texts {
		if err := parse(ti); err != nil {
			return fmt.Errorf("in the end: %w", err)
		}
	}
	o.LabelIf(edits > 0, "edits a result or scribbles over a buffer")
	o.LabelIf(len(c.Texts) > 1, "several texts")
	if edits > 0 && len(owner) > 20 {
		o.Nontrivial()
	}
	return nil
}

// ---- many goroutines ----

// RaceCase is some texts, and what each goroutine does with which of them.
type RaceCase struct {
	Texts   []Text     `json:"texts"`
	Scripts [][]PureOp `json:"scripts"`
	Reps    int        `json:"reps"`
	Buf     bool       `json:"own_buffers"`
	Cold    bool       `json:"cold"` // the goroutines run before the scripts run alone
}

func genRace(t *rapid.T) RaceCase {
	g := &gen{t: t}
	c := RaceCase{Reps: 1 + g.n(3), Buf: g.p(50), Cold: g.p(70)}
	for range 1 + g.n(3) {
		if g.p(70) {
			c.Texts = append(c.Texts, Text(genFormatted(t, genOpts(t, 3))))
		} else {
			c.Texts = append(c.Texts, Text(genPureText(t)))
		}
	}
	ops := []string{"read", "edit", "edit", "copy", "iterate", "describe", "save", "file", "build", "kinds", "saveimports"}
	weights := func() string {
		i := g.n(len(ops))
		if ops[i] == "saveimports" && !g.p(15) {
			return "save"
		}
		return ops[i]
	}
	for range 2 + g.n(4) {
		var s []PureOp
		for range 1 + g.n(5) {
			op := PureOp{Op: weights(), I: g.n(8), J: g.n(8)}
			if op.Op == "edit" {
				e := genEdits(g, 1, editOps)
				if len(e) == 0 {
					op.Op = "read"
				} else {
					op.Edit = &e[0]
				}
			}
			s = append(s, op)
		}
		c.Scripts = append(c.Scripts, s)
	}
	return c
}

// runScript is what one goroutine does; the result tells everything it saw.
func runScript(c RaceCase, bufs [][]byte, script []PureOp, gi int, dir string) (log []string, err error) {
	defer func() {
		if r := recover(); r != nil {
			stack := string(debug.Stack())
			if _, ok := r.(internalError); ok {
				panic(r)
			}
			err = fmt.Errorf("panic: %v at %s", r, panicSite(stack))
		}
	}()
	limit := 50
	for _, t := range c.Texts {
		limit += len(t) + 1
	}
	say := func(f string, a ...any) { log = append(log, fmt.Sprintf(f, a...)) }
	for oi, op := range script {
		ti := (gi + op.I) % len(c.Texts)
		buf := bufs[ti]
		if c.Buf {
			buf = slices.Clone(buf)
		}
		scs, err := goast.ParseScope(op.J, buf)
		if err != nil {
			return log, fmt.Errorf("ParseScope: %w", err)
		}
		if c.Buf {
			for j := range buf {
				buf[j] = '"'
			}
		}
		runtime.Gosched()
		v, ns, err := viewOf(scs, limit)
		if err != nil {
			return log, err
		}
		say("%s", v)
		switch op.Op {
		case "edit":
			s := &side{scopes: scs, nodes: ns}
			s.edit(*op.Edit)
			runtime.Gosched()
			for _, n := range s.nodes {
				say("%s %v %v", stateOf(n), n.Prev() == nil, n.Next() == nil)
			}
		case "copy":
			for _, s := range scs {
				d := s.Copy()
				d.Node().SetText("changed")
				cv, _, err := viewOf([]goast.Scope{s, d}, limit)
				if err != nil {
					return log, err
				}
				say("%s", cv)
			}
		case "iterate":
			for _, s := range scs {
				k := 0
				s.Node().IterNext(func(n *goast.Node) bool {
					k++
					if k%5 == 0 {
						runtime.Gosched()
					}
					n.IterPrev(func(*goast.Node) bool { return false })
					return true
				})
				say("%d nodes", k)
			}
		case "describe":
			for _, n := range ns {
				say("%s", n.Description())
			}
			for _, s := range scs {
				say("%s", s.Description())
			}
		case "save", "saveimports":
			p := filepath.Join(dir, fmt.Sprintf("g%d", gi), fmt.Sprintf("o%d.go", oi))
			a, err := goast.NewAst(scs...)
			if err != nil {
				say("no package")
				break
			}
			say("%s", a.Description())
			if err := a.Copy().Save(p, op.Op == "saveimports"); err != nil {
				say("save failed")
				break
			}
			b, err := os.ReadFile(p)
			if err != nil {
				return log, fmt.Errorf("after Save: %w", err)
			}
			say("%s", b)
		case "file":
			a, err := goast.ParseAst(filepath.Join(dir, fmt.Sprintf("in%d.go", ti)))
			if err != nil {
				say("no file")
				break
			}
			p, err := a.Package()
			fv, _, verr := viewOf(a.Scope(), limit*3)
			if verr != nil {
				return log, verr
			}
			say("%s %v %s %s", p, err, a.Filename(), fv)
		case "build":
			n := goast.NewNodes(op.J, "a", "func", "\n", "(", fmt.Sprint(gi), ")")
			n.CombineNext(kind.Raw, n.Next())
			m := goast.NewNode(1, "x")
			n.InsertPrev(m)
			a, err := goast.NewAst(goast.NewScope(0, scope.Package, goast.NewNodes(0, "package", " ", "p")), goast.NewScope(1, scope.Comment, m))
			if err != nil {
				say("no package")
				break
			}
			b := a.SetScope(a.Scope()[:1])
			b.AppendScope(scs...)
			say("%s %d %d", b.Description(), len(a.Scope()), len(b.Scope()))
		case "kinds":
			for _, n := range ns {
				k := kind.New(n.Text())
				cl, ok := k.GetClose()
				say("%s %s %v", k, cl, ok)
			}
			for _, s := range scs {
				say("%s %s", s.Kind(), s.Kind().ToKind())
			}
		}
	}
	return log, nil
}

var raceSalt int

func checkRace(c RaceCase, o *Obs) error {
	defer runtime.GOMAXPROCS(runtime.GOMAXPROCS(4))
	dir, err := os.MkdirTemp(o.dir, "race")
	if err != nil {
		panic(internalError{err.Error()})
	}
	defer os.RemoveAll(dir)
	// words that no case before had: a result kept from an earlier parse must not hide a first one
	raceSalt++
	texts := make([]Text, len(c.Texts))
	for i, t := range c.Texts {
		texts[i] = t + Text(fmt.Sprintf("\nvar w%dx%d = %d%d // %d %d\n", raceSalt, i, raceSalt, i, raceSalt, i))
	}
	cold := c.Cold
	c.Texts = texts
	var bufs [][]byte
	for i, t := range c.Texts {
		bufs = append(bufs, []byte(t))
		must(os.WriteFile(filepath.Join(dir, fmt.Sprintf("in%d.go", i)), []byte(t), 0o644))
	}
	// what each would get alone
	var want [][]string
	alone := func() error {
		for gi, s := range c.Scripts {
			l, err := runScript(c, bufs, s, gi, dir)
			if err != nil {
				return fmt.Errorf("alone: %w", err)
			}
			want = append(want, l)
		}
		return nil
	}
	if !cold {
		if err := alone(); err != nil {
			return err
		}
	}
	n := len(c.Scripts) * c.Reps
	errs := make([]error, n)
	logs := make([][]string, n)
	var wg sync.WaitGroup
	start := make(chan struct{})
	var internal any
	var mu sync.Mutex
	for i := range n {
		wg.Add(1)
		go func() {
			defer wg.Done()
			defer func() {
				if r := recover(); r != nil {
					mu.Lock()
					internal = r
					mu.Unlock()
				}
			}()
			<-start
			gi := i % len(c.Scripts)
			sub := filepath.Join(dir, fmt.Sprintf("rep%d", i))
			if err := os.Mkdir(sub, 0o777); err != nil {
				errs[i] = nil
				return
			}
			for ti, t := range c.Texts {
				_ = os.Link(filepath.Join(dir, fmt.Sprintf("in%d.go", ti)), filepath.Join(sub, fmt.Sprintf("in%d.go", ti)))
				_ = t
			}
			logs[i], errs[i] = runScript(c, bufs, c.Scripts[gi], gi, sub)
		}()
	}
	close(start)
	wg.Wait()
	if internal != nil {
		panic(internal)
	}
	if cold {
		if err := alone(); err != nil {
			return err
		}
		o.Label("goroutines first")
	}
	for i := range n {
		if errs[i] != nil {
			return fmt.Errorf("goroutine %d: %w", i, errs[i])
		}
		w := want[i%len(c.Scripts)]
		if len(w) != len(logs[i]) {
			return fmt.Errorf("goroutine %d saw %d results, alone %d", i, len(logs[i]), len(w))
		}
		for j := range w {
			if w[j] != logs[i][j] {
				return fmt.Errorf("goroutine %d got something else than alone: %s", i, firstDiff(logs[i][j], w[j]))
			}
		}
	}
	for i, t := range c.Texts {
		if string(bufs[i]) != string(t) {
			return fmt.Errorf("the bytes passed in changed: %s", firstDiff(string(bufs[i]), string(t)))
		}
	}
	for _, s := range c.Scripts {
		for _, op := range s {
			o.Label(op.Op)
		}
	}
	o.LabelIf(!c.Buf, "input bytes shared by all goroutines")
	if n >= 3 {
		o.Nontrivial()
	}
	return nil
}

func init() {
	register(&Prop{
		ID:   "C19",
		Race: true,
		Assumptions: []string{"the Go race detector reports only real races, and sees every access it executes",
			"the scheduler of the Go runtime, with 4 threads and forced yields, picks the interleavings; the race detector does not need the bad one to happen"},
		Subs: []*Sub{
			sub("histories", "1 to 3 texts parsed again and again into buffers with spare capacity, between edits of earlier results, scribbling over earlier buffers, copies and parses through files; non-trivial: edits or scribbles, and more than 20 nodes", 3000, 200000, genPure, checkPure),
			sub("goroutines", "2 to 5 scripts of up to 5 steps (parse and read, edit, copy, iterate, describe, save, parse a file, build, classify) run by 2 to 15 goroutines at once, under the race detector, compared with each script run alone; non-trivial: 3 goroutines or more", 400, 30000, genRace, checkRace),
		},
	})
}
