//go:build trie

package main

// C18: the trie, through the overlay, against a map.

import (
	"fmt"
	"reflect"
	"slices"
	"sort"
	"strings"

	"github.com/yanun0323/goast"
	"pgregory.net/rapid"
)

// TrieOp adds a text, inserts one byte below a text that is there, or looks a text up.
type TrieOp struct {
	Op string `json:"op"`
	S  Text   `json:"s"`
	V  int    `json:"v,omitempty"`
}

// TrieHistory is an initial map and operations.
type TrieHistory struct {
	Init   []TrieOp `json:"init"`
	Ops    []TrieOp `json:"ops"`
	NilMap bool     `json:"nilmap,omitempty"`
}

func trieCall(v reflect.Value, name string, args ...any) []reflect.Value {
	m := v.MethodByName(name)
	if !m.IsValid() {
		panic(internalError{"the trie has no method " + name})
	}
	var in []reflect.Value
	for _, a := range args {
		in = append(in, reflect.ValueOf(a))
	}
	return m.Call(in)
}

// trieHas tells whether the trie has the method; what only the trie itself needs may get another name.
func trieHas(v reflect.Value, name string) bool { return v.MethodByName(name).IsValid() }

func trieFind(v reflect.Value, name string, arg any) (int, bool) {
	r := trieCall(v, name, arg)
	return int(r[0].Int()), r[1].Bool()
}

func reverse(s string) string {
	b := []byte(s)
	slices.Reverse(b)
	return string(b)
}

// trieModel answers from a map.
type trieModel map[string]int

func (m trieModel) find(s string) (int, bool) {
	if v, ok := m[s]; ok {
		return v, true
	}
	if s == "" {
		return 0, true // the root is always there
	}
	for k := range m {
		if strings.HasPrefix(k, s) {
			return 0, true
		}
	}
	return 0, false
}

var trieNames = []string{"FindText", "FindTextReversely", "FindByte", "FindByteReversely"}

func compareTrie(v reflect.Value, m trieModel, s string) error {
	for _, name := range trieNames {
		var arg any = s
		var buf []byte
		if strings.HasPrefix(name, "FindByte") {
			buf = []byte(s)
			arg = buf
		}
		want := s
		if strings.HasSuffix(name, "Reversely") {
			want = reverse(s)
		}
		wv, wok := m.find(want)
		gv, gok := trieFind(v, name, arg)
		if gv != wv || gok != wok {
			return fmt.Errorf("%s(%q) = %d, %v, want %d, %v", name, s, gv, gok, wv, wok)
		}
		if buf != nil && string(buf) != s {
			return fmt.Errorf("%s changed the bytes it was given", name)
		}
	}
	return nil
}

func checkTrie(h TrieHistory, o *Obs) error {
	m := trieModel{}
	var init map[string]int
	if !h.NilMap {
		init = map[string]int{}
	}
	for _, e := range h.Init {
		if init != nil {
			init[string(e.S)] = e.V
			m[string(e.S)] = e.V
		}
	}
	v := reflect.ValueOf(goast.VerifNewTrie(init))
	if len(init) > 0 && !reflect.DeepEqual(init, map[string]int(m)) {
		return fmt.Errorf("making a trie changed the map it was given")
	}
	other := reflect.ValueOf(goast.VerifNewTrie(map[string]int{"a": 77}))
	all := func(extra string) error {
		asked := map[string]bool{"": true, extra: true, extra + "\x00": true}
		for k := range m {
			for i := 0; i <= len(k); i++ {
				if i > 40 && i < len(k)-2 {
					continue
				}
				asked[k[:i]] = true
				asked[reverse(k[:i])] = true
			}
			if len(k) > 0 {
				asked[k[1:]] = true
				asked[k[:len(k)-1]+"\xfe"] = true
			}
			asked[k+"a"] = true
		}
		var list []string
		for s := range asked {
			list = append(list, s)
		}
		sort.Strings(list)
		for _, s := range list {
			if err := compareTrie(v, m, s); err != nil {
				return err
			}
		}
		return nil
	}
	if err := all(""); err != nil {
		return fmt.Errorf("after making: %w", err)
	}
	over, prefix := false, false
	for i, op := range h.Ops {
		s := string(op.S)
		switch op.Op {
		case "add":
			_, had := m[s]
			over = over || had
			_, there := m.find(s)
			prefix = prefix || there && !had && s != ""
			r := trieCall(v, "AddText", s, op.V)
			m[s] = op.V
			// what AddText returns is the place of the text: it answers for the texts below
			if len(r) == 0 || !trieHas(r[0], "FindText") {
				break
			}
			if err := compareBelow(r[0], m, s); err != nil {
				return fmt.Errorf("op %d: result of AddText(%q, %d): %w", i, s, op.V, err)
			}
		case "insert":
			if s == "" || !trieHas(v, "Next") || !trieHas(v, "Insert") {
				continue
			}
			n := v
			ok := true
			for j := 0; j < len(s)-1 && ok; j++ {
				r := trieCall(n, "Next", s[j])
				_, there := m.find(s[:j+1])
				if r[1].Bool() != there {
					return fmt.Errorf("op %d: Next to %q: %v, want %v", i, s[:j+1], r[1].Bool(), there)
				}
				n, ok = r[0], r[1].Bool()
			}
			if !ok {
				continue
			}
			o.Label("insert below a place")
			trieCall(n, "Insert", s[len(s)-1], op.V)
			m[s] = op.V
		case "find":
			if err := compareTrie(v, m, s); err != nil {
				return fmt.Errorf("op %d: %w", i, err)
			}
		}
		if err := compareTrie(v, m, s); err != nil {
			return fmt.Errorf("after op %d (%s %q): %w", i, op.Op, s, err)
		}
		if i%4 == 3 || i == len(h.Ops)-1 {
			if err := all(s); err != nil {
				return fmt.Errorf("after op %d (%s %q): %w", i, op.Op, s, err)
			}
		}
	}
	if err := compareTrie(other, trieModel{"a": 77}, "ab"); err != nil {
		return fmt.Errorf("another trie: %w", err)
	}
	if err := compareTrie(other, trieModel{"a": 77}, "a"); err != nil {
		return fmt.Errorf("another trie: %w", err)
	}
	// the nil trie
	if v.Kind() == reflect.Pointer {
		nilTrie := reflect.Zero(v.Type())
		for _, s := range []string{"", "a"} {
			for _, name := range trieNames {
				var arg any = s
				if strings.HasPrefix(name, "FindByte") {
					arg = []byte(s)
				}
				if gv, ok := trieFind(nilTrie, name, arg); gv != 0 || ok {
					return fmt.Errorf("nil trie: %s(%q) = %d, %v", name, s, gv, ok)
				}
			}
			r := trieCall(nilTrie, "AddText", s, 3)
			if len(r) > 0 && r[0].Kind() == reflect.Pointer && !r[0].IsNil() {
				return fmt.Errorf("nil trie: AddText gave a trie")
			}
		}
		if !trieHas(nilTrie, "Next") || !trieHas(nilTrie, "Value") || !trieHas(nilTrie, "Insert") {
			o.Label("no Next, Value or Insert")
			return nil
		}
		if r := trieCall(nilTrie, "Next", byte('a')); r[1].Bool() {
			return fmt.Errorf("nil trie: Next found something")
		}
		if r := trieCall(nilTrie, "Value"); r[0].Int() != 0 {
			return fmt.Errorf("nil trie: Value is not zero")
		}
		if r := trieCall(nilTrie, "Insert", byte('a'), 3); r[0].Kind() == reflect.Pointer && !r[0].IsNil() {
			return fmt.Errorf("nil trie: Insert gave a trie")
		}
	}
	o.LabelIf(over, "overwrites a text")
	o.LabelIf(prefix, "adds a prefix of a text that is there")
	o.LabelIf(h.NilMap, "from the nil map")
	if len(m) >= 3 {
		o.Nontrivial()
	}
	return nil
}

func compareBelow(v reflect.Value, m trieModel, s string) error {
	below := trieModel{}
	for k, x := range m {
		if rest, ok := strings.CutPrefix(k, s); ok {
			below[rest] = x
		}
	}
	for k := range below {
		if err := compareTrie(v, below, k); err != nil {
			return err
		}
	}
	if !trieHas(v, "Value") {
		return nil
	}
	if got := int(trieCall(v, "Value")[0].Int()); got != below[""] {
		return fmt.Errorf("Value() = %d, want %d", got, below[""])
	}
	return nil
}

func genTrie(t *rapid.T) TrieHistory {
	g := &gen{t: t}
	bytes := []string{"a", "b", "/", "*", "\n", "\x00", "\xff", "é", "世", "ab", "//"}
	text := func(max int) Text {
		var b strings.Builder
		for range g.n(max) {
			if w, ok := g.word(5); ok {
				b.WriteString(w)
			} else if g.p(85) {
				b.WriteString(g.pick(bytes[:3+g.n(len(bytes)-3)]))
			} else {
				b.WriteByte(byte(g.n(256)))
			}
		}
		return Text(b.String())
	}
	var known []Text
	next := func() Text {
		var s Text
		switch {
		case len(known) > 0 && g.p(25):
			s = known[g.n(len(known))]
		case len(known) > 0 && g.p(35):
			s = known[g.n(len(known))] + text(3)
		case len(known) > 0 && g.p(35):
			s = known[g.n(len(known))]
			s = s[:g.n(len(s)+1)]
		case g.p(3):
			s = Text(strings.Repeat(g.pick(bytes), 300+g.n(3000)))
			if g.p(50) {
				s = s[:200] + text(3)
			}
		default:
			s = text(5)
		}
		if len(s) < 50 {
			known = append(known, s)
		}
		return s
	}
	h := TrieHistory{NilMap: g.p(10)}
	for range g.n(7) {
		h.Init = append(h.Init, TrieOp{"init", next(), g.n(9)})
	}
	for range g.n(14) {
		op := []string{"add", "add", "find", "insert"}[g.n(4)]
		h.Ops = append(h.Ops, TrieOp{op, next(), g.n(9)})
	}
	return h
}

// enumTries lists every history of up to three additions of the texts over two bytes of up to two bytes.
func enumTries(tier string, seed uint64) []TrieHistory {
	words := []Text{"", "a", "b", "aa", "ab", "ba", "bb"}
	var out []TrieHistory
	var rec func(ops []TrieOp, left int)
	rec = func(ops []TrieOp, left int) {
		out = append(out, TrieHistory{Ops: slices.Clone(ops)})
		if len(ops) > 0 {
			out = append(out, TrieHistory{Init: slices.Clone(ops)})
		}
		if left == 0 {
			return
		}
		for _, w := range words {
			for _, op := range []string{"add", "insert"} {
				rec(append(ops, TrieOp{op, w, len(ops) + 1}), left-1)
			}
		}
	}
	n := 3
	if tier == "thorough" {
		n = 4
	}
	rec(nil, n)
	return out
}

func init() {
	register(&Prop{
		ID:          "C18",
		Trie:        true,
		Assumptions: []string{"an overlay file that only returns the result of the unexported constructor does not change the trie"},
		Subs: []*Sub{
			listed("all-short-histories", "every history of up to 3 (thorough: 4) additions and single-byte inserts of the texts of up to 2 bytes over 2 letters; non-trivial: holds 3 texts or more", enumTries, checkTrie),
			sub("histories", "an initial map of up to 7 texts and up to 14 additions, inserts and lookups over a few bytes and any bytes, texts often equal to, extended from or prefixes of earlier ones; non-trivial: holds 3 texts or more", 60000, 3000000, genTrie, checkTrie),
		},
	})
}
