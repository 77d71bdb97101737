package main

// C21: the assert helpers, inside real tests that are run by package testing with its output caught.

import (
	"errors"
	"fmt"
	"io"
	"math"
	"os"
	"reflect"
	"slices"
	"sort"
	"strings"
	"testing"

	"github.com/yanun0323/goast/assert"
	"pgregory.net/rapid"
)

// Val names a value: a maker of the table below and its arguments.
type Val struct {
	T string `json:"t"`
	N int    `json:"n,omitempty"`
	S Text   `json:"s,omitempty"`
}

// AssertStep is one assertion.
type AssertStep struct {
	Op   string `json:"op"`
	V    Val    `json:"v,omitempty"`
	E    Val    `json:"e,omitempty"`
	Fn   string `json:"fn,omitempty"`
	Msgs []Text `json:"msgs,omitempty"`
}

// AssertCase is a test with some assertions.
type AssertCase struct {
	Name  string       `json:"name"`
	Steps []AssertStep `json:"steps"`
}

type (
	myInt    int
	myString string
	myBool   bool
	mySlice  []int
	myMap    map[string]int
	myFunc   func()
	myChan   chan int
	myPtr    *int
	point    struct{ X, Y int }
	private  struct {
		a int
		b string
	}
	holder struct {
		v any
		n float64
	}
	withPtr struct{ p *int }
	empty   struct{}
	valErr  struct{ s string }
	ptrErr  struct{ s string }
	arr3    [3]int
)

func (e valErr) Error() string  { return "valErr " + e.s }
func (e *ptrErr) Error() string { return "ptrErr" }

var (
	someInts [4]int
	somePts  [4]point
	chans    = [4]chan int{make(chan int), make(chan int, 1), make(chan int), make(chan int, 5)}
	someErrs = [4]error{errors.New("e0"), errors.New("e1"), fmt.Errorf("wrapped: %w", io.EOF), io.EOF}
)

type maker struct {
	make  func(n int, s string) any
	isNil bool
}

var makers = map[string]maker{
	"nil":        {func(int, string) any { return nil }, true},
	"nilPtr":     {func(int, string) any { return (*int)(nil) }, true},
	"nilMyPtr":   {func(int, string) any { return myPtr(nil) }, true},
	"nilPtrPtr":  {func(int, string) any { return (**int)(nil) }, true},
	"nilStruct":  {func(int, string) any { return (*point)(nil) }, true},
	"nilArrPtr":  {func(int, string) any { return (*[3]int)(nil) }, true},
	"nilPtrErr":  {func(int, string) any { return (*ptrErr)(nil) }, true},
	"nilMap":     {func(int, string) any { return map[string]int(nil) }, true},
	"nilMyMap":   {func(int, string) any { return myMap(nil) }, true},
	"nilChan":    {func(int, string) any { return (chan int)(nil) }, true},
	"nilRecv":    {func(int, string) any { return (<-chan int)(nil) }, true},
	"nilMyChan":  {func(int, string) any { return myChan(nil) }, true},
	"nilSlice":   {func(int, string) any { return []int(nil) }, true},
	"nilBytes":   {func(int, string) any { return []byte(nil) }, true},
	"nilMySlice": {func(int, string) any { return mySlice(nil) }, true},
	"nilFunc":    {func(int, string) any { return (func())(nil) }, true},
	"nilMyFunc":  {func(int, string) any { return myFunc(nil) }, true},
	"nilFunc2":   {func(int, string) any { return (func(int) error)(nil) }, true},

	"int":       {func(n int, _ string) any { return n }, false},
	"int8":      {func(n int, _ string) any { return int8(n) }, false},
	"int16":     {func(n int, _ string) any { return int16(n) }, false},
	"int32":     {func(n int, _ string) any { return int32(n) }, false},
	"int64":     {func(n int, _ string) any { return int64(n) << 32 }, false},
	"int64b":    {func(n int, _ string) any { return int64(n) }, false},
	"uint":      {func(n int, _ string) any { return uint(n) }, false},
	"uint8":     {func(n int, _ string) any { return uint8(n) }, false},
	"uint16":    {func(n int, _ string) any { return uint16(n) }, false},
	"uint32":    {func(n int, _ string) any { return uint32(n) }, false},
	"uint64":    {func(n int, _ string) any { return uint64(n) | 1<<63 }, false},
	"uintptr":   {func(n int, _ string) any { return uintptr(n) }, false},
	"myInt":     {func(n int, _ string) any { return myInt(n) }, false},
	"float64":   {func(n int, _ string) any { return float64(n) / 2 }, false},
	"float32":   {func(n int, _ string) any { return float32(n) / 2 }, false},
	"NaN":       {func(int, string) any { return math.NaN() }, false},
	"NaN32":     {func(int, string) any { return float32(math.NaN()) }, false},
	"-0":        {func(int, string) any { return math.Copysign(0, -1) }, false},
	"Inf":       {func(n int, _ string) any { return math.Inf(n%2*2 - 1) }, false},
	"tiny":      {func(n int, _ string) any { return 1 + float64(n)*0x1p-52 }, false},
	"complex":   {func(n int, _ string) any { return complex(float64(n), float64(n%2)) }, false},
	"complex64": {func(n int, _ string) any { return complex64(complex(float64(n%2), float64(n))) }, false},
	"complexN":  {func(int, string) any { return complex(math.NaN(), 0) }, false},
	"bool":      {func(n int, _ string) any { return n%2 == 0 }, false},
	"myBool":    {func(n int, _ string) any { return myBool(n%2 == 0) }, false},
	"string":    {func(_ int, s string) any { return s }, false},
	"myString":  {func(_ int, s string) any { return myString(s) }, false},
	"itoa":      {func(n int, _ string) any { return fmt.Sprint(n) }, false},
	"rune":      {func(n int, _ string) any { return rune(n) }, false},

	"ptr":       {func(n int, _ string) any { return &someInts[n&3] }, false},
	"newPtr":    {func(n int, _ string) any { p := n; return &p }, false},
	"ptrPtr":    {func(n int, _ string) any { var p *int; return &p }, false},
	"pointPtr":  {func(n int, _ string) any { return &somePts[n&3] }, false},
	"arrPtr":    {func(n int, _ string) any { return &someInts }, false},
	"chan":      {func(n int, _ string) any { return chans[n&3] }, false},
	"recvChan":  {func(n int, _ string) any { return (<-chan int)(chans[n&3]) }, false},
	"map":       {func(n int, s string) any { return map[string]int{s: n} }, false},
	"emptyMap":  {func(int, string) any { return map[int]int{} }, false},
	"slice":     {func(n int, _ string) any { return []int{n} }, false},
	"emptySl":   {func(int, string) any { return []int{} }, false},
	"nilsSlice": {func(int, string) any { return []*int{nil} }, false},
	"func":      {func(int, string) any { return func() {} }, false},
	"myFunc":    {func(int, string) any { return myFunc(func() {}) }, false},
	"point":     {func(n int, _ string) any { return point{n, n % 2} }, false},
	"private":   {func(n int, s string) any { return private{n, s} }, false},
	"holder":    {func(n int, s string) any { return holder{s, float64(n)} }, false},
	"holderI":   {func(n int, s string) any { return holder{n, 0} }, false},
	"holderM":   {func(n int, s string) any { return holder{myInt(n), 0} }, false},
	"holderN":   {func(n int, s string) any { return holder{nil, math.NaN()} }, false},
	"holderNil": {func(n int, s string) any { return holder{nil, 0} }, false},
	"holderPtr": {func(n int, s string) any { return holder{(*int)(nil), 0} }, false},
	"withPtr":   {func(n int, s string) any { return withPtr{&someInts[n&3]} }, false},
	"withNil":   {func(n int, s string) any { return withPtr{nil} }, false},
	"empty":     {func(int, string) any { return empty{} }, false},
	"anon":      {func(n int, _ string) any { return struct{ X, Y int }{n, n % 2} }, false},
	"array":     {func(n int, _ string) any { return [2]int{n, 1} }, false},
	"array0":    {func(n int, _ string) any { return [0]int{} }, false},
	"arr3":      {func(n int, _ string) any { return arr3{1, n} }, false},
	"arrayS":    {func(n int, s string) any { return [1]string{s} }, false},
	"arrayP":    {func(n int, s string) any { return [1]*int{nil} }, false},
	"arrayI":    {func(n int, s string) any { return [2]any{n, s} }, false},
	"arrayF":    {func(n int, s string) any { return [1]float64{math.NaN()} }, false},
	"error":     {func(n int, _ string) any { return someErrs[n&3] }, false},
	"valErr":    {func(n int, s string) any { return valErr{s} }, false},
	"ptrErr":    {func(n int, s string) any { return &ptrErr{s} }, false},
	"type":      {func(n int, s string) any { return reflect.TypeOf(someInts) }, false},
	"reflect":   {func(n int, s string) any { return reflect.Kind(n % 20) }, false},
}

var makerNames = func() []string {
	var out []string
	for k := range makers {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}()

// comparable tells whether the value can be compared with ==.
func canCompare(v any) bool {
	defer func() { _ = recover() }()
	return v == nil || reflect.ValueOf(v).Comparable()
}

// the functions for Panic, NoPanic and Call
type panicFn struct {
	panics bool
	fn     func()
	check  func(msg any) bool // what Call must give as the message
}

func is(want any) func(any) bool { return func(got any) bool { return got == want } }

type panicValue struct{ s string }

var panicFns = map[string]panicFn{
	"returns":   {false, func() {}, nil},
	"work":      {false, func() { _ = fmt.Sprint(1, 2) }, nil},
	"recovers":  {false, func() { defer func() { _ = recover() }(); panicHere("inner") }, nil},
	"callcall":  {false, func() { _, _, _ = assert.Assert{}.Call(func() { panicHere("inner") }) }, nil},
	"string":    {true, func() { panicHere("boom") }, is("boom")},
	"empty":     {true, func() { panicHere("") }, is("")},
	"int":       {true, func() { panicHere(42) }, is(42)},
	"zero":      {true, func() { panicHere(0) }, is(0)},
	"false":     {true, func() { panicHere(false) }, is(false)},
	"error":     {true, func() { panicHere(io.EOF) }, is(io.EOF)},
	"struct":    {true, func() { panicHere(panicValue{"x"}) }, is(panicValue{"x"})},
	"pointer":   {true, func() { panicHere(&someInts) }, is(&someInts)},
	"nilptr":    {true, func() { panicHere((*int)(nil)) }, is((*int)(nil))},
	"nil":       {true, func() { panicHere(nil) }, func(m any) bool { return m != nil }},
	"nilerr":    {true, func() { panicHere(error(nil)) }, func(m any) bool { return m != nil }},
	"slice":     {true, func() { panicHere([]int{1, 2}) }, func(m any) bool { s, ok := m.([]int); return ok && slices.Equal(s, []int{1, 2}) }},
	"index":     {true, func() { _ = someInts[len(makers)*panicIndex()] }, isRuntime("out of range")},
	"deref":     {true, func() { var p *point; _ = p.X + panicIndex() }, isRuntime("nil pointer")},
	"divide":    {true, func() { _ = 1 / (panicIndex() - 1) }, isRuntime("divide")},
	"mapwrite":  {true, func() { var m map[int]int; m[panicIndex()] = 1 }, func(m any) bool { _, ok := m.(error); return ok }},
	"assertion": {true, func() { var v any = panicIndex(); _ = v.(string) }, isRuntime("interface conversion")},
	"deferred":  {true, func() { defer func() { panicHere("late") }() }, is("late")},
	"replaced":  {true, func() { defer func() { panicHere("second") }(); panicHere("first") }, is("second")},
	"repanic":   {true, func() { defer func() { panicHere(recover()) }(); panicHere("again") }, is("again")},
	"deep":      {true, func() { deepPanic(60) }, is("deep")},
	"percent":   {true, func() { panicHere("100%d %s") }, is("100%d %s")},
}

func isRuntime(part string) func(any) bool {
	return func(m any) bool {
		e, ok := m.(error)
		return ok && strings.Contains(e.Error(), part)
	}
}

var one = 1

//go:noinline
func panicIndex() int { return one }

//go:noinline
func panicHere(v any) { panic(v) }

//go:noinline
func deepPanic(n int) {
	if n == 0 {
		panic("deep")
	}
	deepPanic(n - 1)
}

var fnNames = func() []string {
	var out []string
	for k := range panicFns {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}()

var assertOps = []string{"Nil", "NotNil", "Equal", "NotEqual", "Error", "NoError", "Require", "Panic", "NoPanic", "Call"}

func genVal(g *gen) Val {
	n := g.pick2([]int{0, 1, 2, 3, -1, 127, 128, 255, 256, 65536, math.MaxInt32, math.MaxInt64})
	if k, ok := g.size(8, 1<<30); ok {
		n = k
	}
	if w, ok := g.word(10); ok {
		return Val{g.pick(makerNames), n, Text(w)}
	}
	return Val{g.pick(makerNames), n, Text(g.pick([]string{"", "a", "b", "A", "nil", "<nil>", "0", "世", "\x00", "%s"}))}
}

func (g *gen) pick2(s []int) int { return s[g.n(len(s))] }

func genAssert(t *rapid.T) AssertCase {
	g := &gen{t: t}
	c := AssertCase{Name: g.pick([]string{"TestA", "Test_世界", "TestSomethingLong/with_a_part", "T", "Test100%d"})}
	for range 1 + g.n(4) {
		s := AssertStep{Op: g.pick(assertOps)}
		switch s.Op {
		case "Equal", "NotEqual":
			s.V = genVal(g)
			switch g.n(4) {
			case 0, 1:
				s.E = s.V
			case 2:
				s.E = genVal(g)
				s.E.T = s.V.T
			default:
				s.E = genVal(g)
				if g.p(50) {
					s.E.N, s.E.S = s.V.N, s.V.S
				}
			}
		case "Nil", "NotNil":
			s.V = genVal(g)
		case "Error", "NoError":
			s.V = Val{T: g.pick([]string{"nil", "error", "valErr", "ptrErr", "nilPtrErr"}), N: g.n(4)}
		case "Require":
			s.V = Val{T: "bool", N: g.n(2)}
		default:
			s.Fn = g.pick(fnNames)
		}
		if s.Fn == "" && g.p(50) {
			for range 1 + g.n(3) {
				if w, ok := g.word(10); ok {
					s.Msgs = append(s.Msgs, Text(w))
					continue
				}
				s.Msgs = append(s.Msgs, Text(g.pick([]string{"message", "", "100%", "%d items", "世界", "a b", "50%s off %!", "x"})))
			}
		}
		c.Steps = append(c.Steps, s)
	}
	return c
}

// holds says whether the assertion must hold; skip is set when the property says nothing.
func (s AssertStep) holds() (holds, skip bool) {
	mk := makers[s.V.T].make
	switch s.Op {
	case "Nil":
		return makers[s.V.T].isNil, false
	case "NotNil":
		return !makers[s.V.T].isNil, false
	case "Equal", "NotEqual":
		v, e := s.values()
		if !canCompare(v) || !canCompare(e) {
			return false, true
		}
		return (v == e) == (s.Op == "Equal"), false
	case "Error":
		return mk(s.V.N, "") != nil, false
	case "NoError":
		return mk(s.V.N, "") == nil, false
	case "Require":
		return s.V.N%2 == 0, false
	case "Panic":
		return panicFns[s.Fn].panics, false
	case "NoPanic":
		return !panicFns[s.Fn].panics, false
	}
	return true, false // Call
}

// values makes the two values; the same maker and arguments give equal values wherever that can be.
func (s AssertStep) values() (v, e any) {
	return makers[s.V.T].make(s.V.N, string(s.V.S)), makers[s.E.T].make(s.E.N, string(s.E.S))
}

// run runs the assertion; calls counts the calls of its function, which does the opposite when it is called again.
func (s AssertStep) run(a assert.Assert, calls *int) error {
	msgs := make([]string, len(s.Msgs))
	for i, m := range s.Msgs {
		msgs[i] = string(m)
	}
	asErr := func() error {
		v := makers[s.V.T].make(s.V.N, string(s.V.S))
		if v == nil {
			return nil
		}
		return v.(error)
	}
	fn := func() {
		if *calls++; *calls == 1 {
			panicFns[s.Fn].fn()
		} else if !panicFns[s.Fn].panics {
			panicHere("called again")
		}
	}
	switch s.Op {
	case "Nil":
		a.Nil(makers[s.V.T].make(s.V.N, string(s.V.S)), msgs...)
	case "NotNil":
		a.NotNil(makers[s.V.T].make(s.V.N, string(s.V.S)), msgs...)
	case "Equal", "NotEqual":
		v, e := s.values()
		if s.Op == "Equal" {
			a.Equal(v, e, msgs...)
		} else {
			a.NotEqual(v, e, msgs...)
		}
	case "Error":
		a.Error(asErr(), msgs...)
	case "NoError":
		a.NoError(asErr(), msgs...)
	case "Require":
		a.Require(s.V.N%2 == 0, msgs...)
	case "Panic":
		a.Panic(fn)
	case "NoPanic":
		a.NoPanic(fn)
	case "Call":
		f := panicFns[s.Fn]
		did, msg, stack := a.Call(fn)
		switch {
		case did != f.panics:
			return fmt.Errorf("Call(%s) says panicked: %v", s.Fn, did)
		case !did && (msg != nil || stack != ""):
			return fmt.Errorf("Call(%s) of a function that returns gives the message %v and %d bytes of stack", s.Fn, msg, len(stack))
		case did && !f.check(msg):
			return fmt.Errorf("Call(%s) gives the wrong message %#v", s.Fn, msg)
		case did && !strings.Contains(stack, "main.") && !strings.Contains(stack, "goroutine"):
			return fmt.Errorf("Call(%s) gives no stack: %q", s.Fn, clip(stack, 200))
		}
	}
	return nil
}

func checkAssert(c AssertCase, o *Obs) error {
	var steps []AssertStep
	for _, s := range c.Steps {
		if _, skip := s.holds(); skip {
			o.Label("not comparable, skipped")
			continue
		}
		steps = append(steps, s)
	}
	failAt := len(steps)
	for i, s := range steps {
		if h, _ := s.holds(); !h {
			failAt = i
			break
		}
	}

	var (
		at       = -1
		done     bool
		inner    error
		panicked any
		sameT    bool
		failed   bool
		skipped  bool
		before   bool
		calls    = make([]*int, len(steps)) // nil: the step did not run
	)
	body := func(t *testing.T) {
		defer func() {
			panicked = recover()
			failed, skipped = t.Failed(), t.Skipped()
		}()
		a := assert.New(t)
		sameT = a.T() == t
		for i, s := range steps {
			at = i
			calls[i] = new(int)
			if err := s.run(a, calls[i]); err != nil {
				inner = err
				return
			}
			if t.Failed() {
				before = true
				return
			}
		}
		done = true
	}
	// a second test, behind, must not be touched
	ran2 := false
	out, ok, err := runTests(c.Name, body, func(t *testing.T) { ran2 = true })
	if err != nil {
		panic(internalError{"cannot catch the test's output: " + err.Error()})
	}

	if panicked != nil {
		return fmt.Errorf("%s lets a panic out: %v", steps[at].Op, panicked)
	}
	if inner != nil {
		return inner
	}
	for i, s := range steps {
		if strings.Contains("Panic NoPanic Call", s.Op) && calls[i] != nil && *calls[i] != 1 {
			return fmt.Errorf("%s calls the function %d times", s.Op, *calls[i])
		}
	}
	if !sameT {
		return fmt.Errorf("T() is not the test that was given")
	}
	if skipped {
		return fmt.Errorf("%s skipped the test", steps[at].Op)
	}
	if !ran2 {
		return fmt.Errorf("the next test did not run")
	}
	if failAt == len(steps) {
		switch {
		case !done || failed || !ok || before:
			return fmt.Errorf("%s holds (step %d of %d), but the test failed: %s", steps[at].Op, at, len(steps), clip(out, 300))
		case strings.TrimSpace(out) != "":
			return fmt.Errorf("every assertion holds, but something is printed: %q", clip(out, 300))
		}
	} else {
		s := steps[failAt]
		switch {
		case done || at > failAt:
			return fmt.Errorf("%s does not hold (step %d), but the test went on", s.Op, failAt)
		case before:
			return fmt.Errorf("%s (step %d) failed the test without stopping it", steps[at].Op, at)
		case at < failAt:
			return fmt.Errorf("%s holds (step %d), but stopped the test", steps[at].Op, at)
		case !failed || ok:
			return fmt.Errorf("%s does not hold, and stopped the test, but the test passed", s.Op)
		}
		// the line that package testing writes itself names the test, too
		log := strings.Join(slices.DeleteFunc(strings.Split(out, "\n"), func(l string) bool { return strings.HasPrefix(l, "--- FAIL") }), "\n")
		if !strings.Contains(log, c.Name) {
			return fmt.Errorf("%s does not name the test: %q", s.Op, clip(out, 300))
		}
		for _, m := range s.Msgs {
			if !strings.Contains(log, string(m)) {
				return fmt.Errorf("%s leaves out the message %q: %q", s.Op, m, clip(out, 300))
			}
		}
		o.Label("fails: " + s.Op)
	}
	for i, s := range steps {
		if i < failAt {
			o.Label("holds: " + s.Op)
		}
	}
	if len(steps) > 0 {
		o.Nontrivial()
	}
	return nil
}

// runTests runs the two tests as package testing does, and returns what they print.
func runTests(name string, body, after func(*testing.T)) (out string, ok bool, err error) {
	tmp, err := os.CreateTemp("", "vh-out")
	if err != nil {
		return "", false, err
	}
	defer tmp.Close()
	_ = os.Remove(tmp.Name())
	old := os.Stdout
	os.Stdout = tmp
	func() {
		defer func() { os.Stdout = old }()
		ok = testing.RunTests(func(string, string) (bool, error) { return true, nil }, []testing.InternalTest{{Name: name, F: body}, {Name: "After", F: after}})
	}()
	if _, err := tmp.Seek(0, io.SeekStart); err != nil {
		return "", false, err
	}
	b, err := io.ReadAll(tmp)
	return string(b), ok, err
}

// enumAssert lists every assertion on every value, and every pair of values under Equal and NotEqual.
func enumAssert(tier string, seed uint64) []AssertCase {
	var out []AssertCase
	add := func(s AssertStep) {
		out = append(out, AssertCase{"TestOne", []AssertStep{s}})
		s.Msgs = []Text{"some", "message"}
		if s.Op != "Panic" && s.Op != "NoPanic" && s.Op != "Call" {
			out = append(out, AssertCase{"TestOne", []AssertStep{s}})
		}
	}
	for _, v := range makerNames {
		for n := range 2 {
			add(AssertStep{Op: "Nil", V: Val{T: v, N: n, S: "s"}})
			add(AssertStep{Op: "NotNil", V: Val{T: v, N: n, S: "s"}})
		}
		for _, e := range makerNames {
			for _, op := range []string{"Equal", "NotEqual"} {
				out = append(out, AssertCase{"TestPair", []AssertStep{{Op: op, V: Val{T: v, N: 1, S: "s"}, E: Val{T: e, N: 1, S: "s"}}}})
			}
		}
	}
	for _, f := range fnNames {
		for _, op := range []string{"Panic", "NoPanic", "Call"} {
			add(AssertStep{Op: op, Fn: f})
		}
	}
	for _, v := range []string{"nil", "error", "valErr", "ptrErr", "nilPtrErr"} {
		add(AssertStep{Op: "Error", V: Val{T: v}})
		add(AssertStep{Op: "NoError", V: Val{T: v}})
	}
	for n := range 2 {
		add(AssertStep{Op: "Require", V: Val{T: "bool", N: n}})
	}
	return out
}

func init() {
	register(&Prop{
		ID:          "C21",
		Testing:     true,
		Assumptions: []string{"package testing reports a test's state and log as it is, and == of the Go language is equality"},
		Subs: []*Sub{
			listed("each-value", "every assertion on each of some 90 values, every pair of them under Equal and NotEqual, every function under Panic, NoPanic and Call, in a test run by package testing; non-trivial: the property says whether it holds", enumAssert, checkAssert),
			sub("scripts", "a test of up to 4 assertions on drawn values (equal pairs, same type, any), functions and messages; non-trivial: the property says whether one of them holds", 60000, 2000000, genAssert, checkAssert),
		},
	})
}
