package main

// The core of the harness: what a property, a sub-check and a case are, and how a worker process
// runs them with rapid. The parent process is in parent.go.

import (
	"encoding/json"
	"flag"
	"fmt"
	"hash/fnv"
	"os"
	"runtime"
	"runtime/debug"
	"runtime/metrics"
	"sort"
	"strconv"
	"strings"
	"sync/atomic"
	"syscall"
	"time"
	"unicode/utf8"

	"pgregory.net/rapid"
)

const goastPath = "github.com/yanun0323/goast"

// Text is a byte string that survives JSON, whatever its bytes are.
type Text string

func (t Text) MarshalJSON() ([]byte, error) {
	if utf8.ValidString(string(t)) {
		return json.Marshal(string(t))
	}
	return json.Marshal(map[string]string{"quoted": strconv.Quote(string(t))})
}

func (t *Text) UnmarshalJSON(b []byte) error {
	var s string
	if err := json.Unmarshal(b, &s); err == nil {
		*t = Text(s)
		return nil
	}
	var m map[string]string
	if err := json.Unmarshal(b, &m); err != nil {
		return err
	}
	s, err := strconv.Unquote(m["quoted"])
	*t = Text(s)
	return err
}

// Obs collects what a check saw in one case.
type Obs struct {
	nontrivial bool
	labels     []string
	dir        string // scratch directory of the worker
}

// Nontrivial marks the case as one that the rule of the sub-check calls non-trivial.
func (o *Obs) Nontrivial() { o.nontrivial = true }

// Label counts the case under the given name.
func (o *Obs) Label(s string) { o.labels = append(o.labels, s) }

// LabelIf counts the case under the given name if ok.
func (o *Obs) LabelIf(ok bool, s string) {
	if ok {
		o.labels = append(o.labels, s)
	}
}

// Sub is one generated check of a property.
type Sub struct {
	Name            string
	Rule            string // how cases are made, and what makes one non-trivial
	Quick, Thorough int    // cases, over all workers

	gen    func(*rapid.T) any
	enum   func(tier string, seed uint64) []any // cases listed instead of drawn
	decode func([]byte) (any, error)
	check  func(any, *Obs) error
}

// Prop is a property.
type Prop struct {
	ID          string
	Assumptions []string
	Subs        []*Sub
	Race        bool // workers run with the race detector
	Trie        bool // needs the overlay binary
	Testing     bool // workers run inside a test of package testing
	Unpriv      bool // workers run as an unprivileged user, if possible
	Shards      int  // 0: one per core
}

var props []*Prop

func register(p *Prop) { props = append(props, p) }

func findProp(id string) *Prop {
	for _, p := range props {
		if p.ID == id {
			return p
		}
	}
	return nil
}

// sub makes a Sub whose cases are drawn by gen.
func sub[C any](name, rule string, quick, thorough int, gen func(*rapid.T) C, check func(C, *Obs) error) *Sub {
	return &Sub{
		Name: name, Rule: rule, Quick: quick, Thorough: thorough,
		gen:    func(t *rapid.T) any { return gen(t) },
		decode: decodeInto[C],
		check:  func(c any, o *Obs) error { return check(c.(C), o) },
	}
}

// listed makes a Sub whose cases are listed by enum, a function of the tier and the seed.
func listed[C any](name, rule string, enum func(tier string, seed uint64) []C, check func(C, *Obs) error) *Sub {
	return &Sub{
		Name: name, Rule: rule,
		enum: func(tier string, seed uint64) []any {
			var out []any
			for _, c := range enum(tier, seed) {
				out = append(out, c)
			}
			return out
		},
		decode: decodeInto[C],
		check:  func(c any, o *Obs) error { return check(c.(C), o) },
	}
}

func decodeInto[C any](b []byte) (any, error) {
	var c C
	err := json.Unmarshal(b, &c)
	return c, err
}

// Failure is a case that broke the property.
type Failure struct {
	Property string          `json:"property"`
	Sub      string          `json:"sub"`
	Message  string          `json:"message"`
	Case     json.RawMessage `json:"case"`
}

// SubResult is what a worker reports of one sub-check.
type SubResult struct {
	Name        string         `json:"name"`
	Evaluations int            `json:"evaluations"`
	Nontrivial  int            `json:"nontrivial"`
	SkippedTime int            `json:"skipped_time"`
	Hashes      []uint64       `json:"hashes"`
	Labels      map[string]int `json:"labels"`
	Samples     []string       `json:"samples"`
}

// WorkerResult is what a worker writes.
type WorkerResult struct {
	Done     bool        `json:"done"`
	Subs     []SubResult `json:"subs"`
	Failures []Failure   `json:"failures"`
	Internal string      `json:"internal,omitempty"` // an error of the harness itself
}

type worker struct {
	prop     *Prop
	tier     string
	seed     uint64
	shard, n int
	dir      string
	outPath  string
	deadline time.Time

	res    WorkerResult
	curFd  *os.File
	caseNo atomic.Int64 // odd while a case runs
	cpuAt  atomic.Int64
	wallAt atomic.Int64
	sizeAt atomic.Int64
	curSub atomic.Value
}

func hash64(parts ...string) uint64 {
	h := fnv.New64a()
	for _, p := range parts {
		fmt.Fprintf(h, "%d:%s|", len(p), p)
	}
	return h.Sum64()
}

func cpuTime() time.Duration {
	var ru syscall.Rusage
	_ = syscall.Getrusage(syscall.RUSAGE_SELF, &ru)
	return time.Duration(ru.Utime.Nano() + ru.Stime.Nano())
}

const (
	caseCPULimit  = 60 * time.Second
	caseHeapLimit = 2 << 30
	caseBlocked   = 240 * time.Second
)

// watch ends the worker when a single case burns CPU time, memory or stays blocked beyond all reason:
// the cases are small, and each takes milliseconds on a sound tree.
func (w *worker) watch() {
	sample := []metrics.Sample{{Name: "/memory/classes/heap/objects:bytes"}}
	for {
		time.Sleep(100 * time.Millisecond)
		no := w.caseNo.Load()
		if no%2 == 0 {
			continue
		}
		cpu := time.Duration(int64(cpuTime()) - w.cpuAt.Load())
		wall := time.Since(time.Unix(0, w.wallAt.Load()))
		metrics.Read(sample)
		heap := sample[0].Value.Uint64()
		msg := ""
		switch {
		case cpu > caseCPULimit:
			msg = fmt.Sprintf("does not terminate: %v of CPU time in one case", cpu)
		case heap > caseHeapLimit && w.sizeAt.Load() < 8<<20:
			msg = fmt.Sprintf("unbounded memory: %d MB of live heap in one case", heap>>20)
		case wall > caseBlocked && cpu < 5*time.Second:
			msg = fmt.Sprintf("blocked: %v without progress in one case", wall)
		}
		if msg == "" || w.caseNo.Load() != no {
			continue
		}
		buf := make([]byte, 1<<20)
		buf = buf[:runtime.Stack(buf, true)]
		if !strings.Contains(string(buf), goastPath) {
			os.Stderr.WriteString("watchdog: no frame of the code under test\n" + string(buf))
			os.Exit(4)
		}
		w.res.Failures = append(w.res.Failures, Failure{w.prop.ID, w.curSub.Load().(string), msg, w.readCur()})
		w.write(false)
		os.Exit(3)
	}
}

func (w *worker) readCur() json.RawMessage {
	b, _ := os.ReadFile(w.curFd.Name())
	return b
}

func (w *worker) write(done bool) {
	w.res.Done = done
	b, err := json.Marshal(w.res)
	if err == nil {
		err = os.WriteFile(w.outPath, b, 0o644)
	}
	if err != nil {
		fmt.Fprintln(os.Stderr, "worker result:", err)
		os.Exit(4)
	}
}

// sutPanic tells whether a panic came out of the code under test (or of a library it called), by the
// innermost frame that is neither runtime nor standard library.
func sutPanic(stack string) bool {
	// the stack of a recovered panic: skip up to the last "panic(" frame, then look for the first own frame
	lines := strings.Split(stack, "\n")
	start := 0
	for i, l := range lines {
		if strings.HasPrefix(l, "panic(") {
			start = i
		}
	}
	for _, l := range lines[start:] {
		if strings.HasPrefix(l, "\t") || l == "" {
			continue
		}
		if strings.HasPrefix(l, goastPath) {
			return true
		}
		if strings.HasPrefix(l, "main.") || strings.HasPrefix(l, "vh") {
			return false
		}
	}
	return false
}

type internalError struct{ msg string }

// runCheck runs one case, and turns a panic of the code under test into a violation.
func runCheck(s *Sub, c any, o *Obs) (err error) {
	defer func() {
		if r := recover(); r != nil {
			stack := string(debug.Stack())
			if ie, ok := r.(internalError); ok {
				panic(ie)
			}
			if sutPanic(stack) {
				err = fmt.Errorf("panic: %v at %s", r, panicSite(stack))
				return
			}
			// the check relies on what the property promises (a node that is there, a length): it panics
			// only when it got something else. VH_STRICT tells a bug of the check from one of the code.
			if os.Getenv("VH_STRICT") != "" {
				panic(internalError{fmt.Sprintf("harness panic in %s: %v\n%s", s.Name, r, stack)})
			}
			err = fmt.Errorf("the result cannot be examined: %v at %s", r, clip(harnessSite(stack), 300))
		}
	}()
	return s.check(c, o)
}

func panicSite(stack string) string {
	lines := strings.Split(stack, "\n")
	for i, l := range lines {
		if strings.HasPrefix(l, goastPath) && i+1 < len(lines) {
			return strings.TrimSpace(lines[i+1])
		}
	}
	return "?"
}

func harnessSite(stack string) string {
	lines := strings.Split(stack, "\n")
	for i := len(lines) - 1; i >= 0; i-- {
		if strings.HasPrefix(lines[i], "panic(") {
			return strings.Join(lines[i:min(len(lines), i+6)], " ")
		}
	}
	return "?"
}

// quietTB is the rapid.TB of a worker.
type quietTB struct {
	failed bool
	last   string
}

func (q *quietTB) Helper()              {}
func (q *quietTB) Name() string         { return "vh" }
func (q *quietTB) Logf(string, ...any)  {}
func (q *quietTB) Log(...any)           {}
func (q *quietTB) Skipf(string, ...any) { panic(internalError{"unexpected skip"}) }
func (q *quietTB) Skip(...any)          { panic(internalError{"unexpected skip"}) }
func (q *quietTB) SkipNow()             { panic(internalError{"unexpected skip"}) }
func (q *quietTB) Errorf(f string, a ...any) {
	q.failed = true
	q.last = fmt.Sprintf(f, a...)
}
func (q *quietTB) Error(...any)          { q.failed = true }
func (q *quietTB) Fatalf(string, ...any) { q.failed = true; panic(tbFail{}) }
func (q *quietTB) Fatal(...any)          { q.failed = true; panic(tbFail{}) }
func (q *quietTB) FailNow()              { q.failed = true; panic(tbFail{}) }
func (q *quietTB) Fail()                 { q.failed = true }
func (q *quietTB) Failed() bool          { return q.failed }

type tbFail struct{}

func (w *worker) runSub(s *Sub) {
	sr := SubResult{Name: s.Name, Labels: map[string]int{}}
	hashes := map[uint64]struct{}{}
	var (
		failing  *Failure
		internal string
	)
	w.curSub.Store(s.Name)
	tb := &quietTB{}

	one := func(c any) error {
		if failing == nil && time.Now().After(w.deadline) {
			sr.SkippedTime++
			return nil
		}
		b, err := json.Marshal(c)
		if err != nil {
			panic(internalError{"case does not marshal: " + err.Error()})
		}
		_ = w.curFd.Truncate(0)
		_, _ = w.curFd.WriteAt(b, 0)
		o := &Obs{dir: w.dir}
		w.sizeAt.Store(int64(len(b)))
		w.cpuAt.Store(int64(cpuTime()))
		w.wallAt.Store(time.Now().UnixNano())
		w.caseNo.Add(1)
		err = runCheck(s, c, o)
		w.caseNo.Add(1)
		if err != nil {
			failing = &Failure{w.prop.ID, s.Name, err.Error(), b}
			return err
		}
		if failing != nil { // shrinking
			return nil
		}
		sr.Evaluations++
		if o.nontrivial {
			sr.Nontrivial++
			hashes[hash64(s.Name, string(b))] = struct{}{}
			if n := sr.Nontrivial; (n == 3 || n == 17 || n == 101) && w.shard < 3 {
				sr.Samples = append(sr.Samples, clip(string(b), 1200))
			}
		}
		seen := map[string]bool{}
		for _, l := range o.labels {
			if !seen[l] {
				seen[l] = true
				sr.Labels[l]++
			}
		}
		return nil
	}

	func() {
		defer func() {
			switch r := recover().(type) {
			case nil:
			case tbFail:
				if failing == nil {
					internal = "rapid failed without a failing case: " + tb.last
				}
			case internalError:
				internal = r.msg
			default:
				internal = fmt.Sprintf("panic: %v\n%s", r, debug.Stack())
			}
		}()
		if s.enum != nil {
			for i, c := range s.enum(w.tier, w.seed) {
				if i%w.n != w.shard {
					continue
				}
				if one(c) != nil {
					return
				}
			}
			return
		}
		total := s.Quick * 5 / 2
		if w.tier == "thorough" {
			total = s.Thorough
		}
		if f := os.Getenv("VH_SCALE"); f != "" {
			x, _ := strconv.ParseFloat(f, 64)
			total = int(float64(total) * x)
		}
		checks := total / w.n
		if w.shard < total%w.n {
			checks++
		}
		if checks == 0 {
			return
		}
		seed := hash64(w.prop.ID, s.Name, w.tier, fmt.Sprint(w.seed), fmt.Sprint(w.shard)) | 1
		must(flag.Set("rapid.checks", strconv.Itoa(checks)))
		must(flag.Set("rapid.seed", strconv.FormatUint(seed, 10)))
		must(flag.Set("rapid.nofailfile", "true"))
		must(flag.Set("rapid.shrinktime", "15s"))
		rapid.Check(tb, func(t *rapid.T) {
			if failing == nil && time.Now().After(w.deadline) {
				sr.SkippedTime++
				return
			}
			c := genCase(s, t)
			if err := one(c); err != nil {
				t.Fatalf("violation")
			}
		})
	}()

	if internal != "" && failing == nil {
		w.res.Internal = internal
	}
	if failing != nil {
		w.res.Failures = append(w.res.Failures, *failing)
	}
	for h := range hashes {
		sr.Hashes = append(sr.Hashes, h)
	}
	sort.Slice(sr.Hashes, func(i, j int) bool { return sr.Hashes[i] < sr.Hashes[j] })
	w.res.Subs = append(w.res.Subs, sr)
}

func genCase(s *Sub, t *rapid.T) any { return s.gen(t) }

func must(err error) {
	if err != nil {
		panic(internalError{err.Error()})
	}
}

func clip(s string, n int) string {
	if len(s) <= n {
		return s
	}
	return s[:n] + fmt.Sprintf("... (%d bytes)", len(s))
}

func (w *worker) run(only string) {
	debug.SetGCPercent(200)
	var err error
	w.curFd, err = os.Create(w.outPath + ".case")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(4)
	}
	go w.watch()
	for _, s := range w.prop.Subs {
		if only != "" && s.Name != only {
			continue
		}
		if err := os.WriteFile(w.outPath+".sub", []byte(s.Name), 0o644); err != nil {
			os.Exit(4)
		}
		w.runSub(s)
		if w.res.Internal != "" {
			break
		}
	}
	w.write(true)
}
