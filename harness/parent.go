package main

// The parent process: starts the workers, replays saved inputs, merges results, writes the evidence.

import (
	"bytes"
	"encoding/json"
	"errors"
	"flag"
	"fmt"
	"io"
	"log/slog"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"testing"
	"time"
)

func main() {
	testing.Init()
	var (
		propID  = flag.String("prop", "", "property id")
		tier    = flag.String("tier", "quick", "quick or thorough")
		verif   = flag.String("verif", "/verif", "root of the framework")
		out     = flag.String("worker", "", "run as a worker, write the result here")
		shard   = flag.Int("shard", 0, "")
		nshards = flag.Int("n", 1, "")
		seed    = flag.Uint64("seed", 1, "")
		dir     = flag.String("dir", "", "")
		only    = flag.String("sub", "", "only this sub-check")
		replay  = flag.String("replay", "", "replay this file and nothing else")
		list    = flag.Bool("list", false, "list the properties")
		dict    = flag.Bool("dict", false, "print the dictionary")
	)
	flag.Parse()
	if *dict {
		fmt.Println(strings.Join(dictLiterals(dictRoot()), "\n"))
		return
	}
	if *list {
		for _, p := range props {
			for _, s := range p.Subs {
				fmt.Println(p.ID, s.Name, s.Quick, s.Thorough)
			}
		}
		return
	}
	p := findProp(*propID)
	if p == nil {
		fmt.Fprintln(os.Stderr, "no such property:", *propID)
		os.Exit(2)
	}
	if *out != "" {
		if os.Getenv("VH_LOG") == "" {
			slog.SetDefault(slog.New(slog.NewTextHandler(io.Discard, nil)))
		}
		budget := 200 * time.Second
		if *tier == "thorough" {
			budget = 90 * time.Minute
		}
		if b := os.Getenv("VH_BUDGET"); b != "" {
			d, err := time.ParseDuration(b)
			must(err)
			budget = d
		}
		w := &worker{prop: p, tier: *tier, seed: *seed, shard: *shard, n: *nshards, dir: *dir, outPath: *out,
			deadline: time.Now().Add(budget)}
		body := func() {
			if *replay != "" {
				w.runReplay(*replay)
			} else {
				w.run(*only)
			}
		}
		if p.Testing { // does not return
			testing.Main(func(string, string) (bool, error) { return true, nil },
				[]testing.InternalTest{{Name: "Worker", F: func(*testing.T) { body() }}}, nil, nil)
		}
		body()
		return
	}
	pa := &parent{prop: p, tier: *tier, verif: *verif, only: *only, start: time.Now()}
	os.Exit(pa.run(*replay))
}

// runReplay runs a single saved case.
func (w *worker) runReplay(file string) {
	b, err := os.ReadFile(file)
	must(err)
	var f Failure
	must(json.Unmarshal(b, &f))
	w.curFd, err = os.Create(w.outPath + ".case")
	must(err)
	_, _ = w.curFd.WriteAt(f.Case, 0)
	_ = os.WriteFile(w.outPath+".sub", []byte(f.Sub), 0o644)
	for _, s := range w.prop.Subs {
		if s.Name != f.Sub {
			continue
		}
		c, err := s.decode(f.Case)
		if err != nil {
			w.res.Internal = "decode " + file + ": " + err.Error()
			break
		}
		go w.watch()
		w.curSub.Store(s.Name)
		w.sizeAt.Store(int64(len(f.Case)))
		w.cpuAt.Store(int64(cpuTime()))
		w.wallAt.Store(time.Now().UnixNano())
		w.caseNo.Add(1)
		func() {
			defer func() {
				if r := recover(); r != nil {
					if ie, ok := r.(internalError); ok {
						w.res.Internal = ie.msg
						return
					}
					panic(r)
				}
			}()
			if err := runCheck(s, c, &Obs{dir: w.dir}); err != nil {
				w.res.Failures = append(w.res.Failures, Failure{w.prop.ID, s.Name, err.Error(), f.Case})
			}
		}()
		w.caseNo.Add(1)
		w.write(true)
		return
	}
	if w.res.Internal == "" {
		w.res.Internal = "no sub-check " + f.Sub
	}
	w.write(true)
}

type parent struct {
	prop  *Prop
	tier  string
	verif string
	only  string
	start time.Time
	seed  uint64
	tmp   string
	uid   int
}

type known struct {
	Property string
	Sub      string
	File     string // replay file, relative to the framework
	What     string
}

// readKnown reads the listed findings: lines "finding: property=<id> replay=<file> <what fails>".
func (pa *parent) readKnown() []known {
	var out []known
	b, err := os.ReadFile(filepath.Join(pa.verif, "known_findings.txt"))
	if err != nil {
		return nil
	}
	for _, l := range strings.Split(string(b), "\n") {
		rest, ok := strings.CutPrefix(l, "finding: ")
		if !ok {
			continue
		}
		f := strings.Fields(rest)
		if len(f) < 3 || f[0] != "property="+pa.prop.ID {
			continue
		}
		out = append(out, known{Property: pa.prop.ID, File: strings.TrimPrefix(f[1], "replay="), What: strings.Join(f[2:], " ")})
	}
	return out
}

func (pa *parent) command(out string, args ...string) *exec.Cmd {
	self, err := os.Executable()
	if err != nil {
		self = os.Args[0]
	}
	dir := out + ".d"
	_ = os.MkdirAll(dir, 0o777)
	_ = os.Chmod(dir, 0o777)
	a := append([]string{"-prop", pa.prop.ID, "-tier", pa.tier, "-worker", out, "-dir", dir,
		"-seed", strconv.FormatUint(pa.seed, 10)}, args...)
	cmd := exec.Command(self, a...)
	cmd.Dir = dir
	cmd.Env = append(os.Environ(), "GOMAXPROCS=2", "GOTRACEBACK=all", "HOME="+dir, "GORACE=halt_on_error=1 exitcode=66")
	cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true, Pdeathsig: syscall.SIGKILL}
	if pa.uid != 0 {
		cmd.SysProcAttr.Credential = &syscall.Credential{Uid: uint32(pa.uid), Gid: uint32(pa.uid)}
		_ = os.Chown(dir, pa.uid, pa.uid)
	}
	return cmd
}

type outcome struct {
	res      *WorkerResult
	crash    *Failure
	internal string
}

func (pa *parent) runWorker(out string, args ...string) (o outcome) {
	cmd := pa.command(out, args...)
	var stderr bytes.Buffer
	cmd.Stderr = &limitedWriter{w: &stderr, n: 1 << 20}
	cmd.Stdout = nil
	err := cmd.Run()
	if b, rerr := os.ReadFile(out); rerr == nil {
		var r WorkerResult
		if json.Unmarshal(b, &r) == nil {
			o.res = &r
			if r.Internal != "" {
				o.internal = r.Internal
			}
			if r.Done || len(r.Failures) > 0 {
				return o
			}
		}
	}
	text := stderr.String()
	subName, _ := os.ReadFile(out + ".sub")
	cur, _ := os.ReadFile(out + ".case")
	if msg := crashOfSUT(text); msg != "" && json.Valid(cur) {
		o.crash = &Failure{pa.prop.ID, string(subName), msg, cur}
		return o
	}
	o.internal = fmt.Sprintf("worker ended without a result: %v\n%s", err, clip(text, 4000))
	return o
}

// crashOfSUT tells whether the standard error of a dead worker shows that the code under test crashed
// the process: stack exhaustion, a data race, concurrent map access or a panic in its own goroutine.
func crashOfSUT(text string) string {
	if !strings.Contains(text, goastPath) {
		return ""
	}
	for _, p := range []string{"WARNING: DATA RACE", "goroutine stack exceeds", "fatal error: stack overflow",
		"fatal error: concurrent map", "unexpected signal", "fatal error: all goroutines are asleep", "fatal error: sync:"} {
		if i := strings.Index(text, p); i >= 0 {
			return clip(text[i:], 1500)
		}
	}
	if i := strings.Index(text, "panic: "); i >= 0 && sutPanicTrace(text[i:]) {
		return clip(text[i:], 1500)
	}
	return ""
}

func sutPanicTrace(text string) bool {
	for _, l := range strings.Split(text, "\n") {
		if strings.HasPrefix(l, goastPath) {
			return true
		}
		if strings.HasPrefix(l, "main.") {
			return false
		}
	}
	return false
}

type limitedWriter struct {
	w io.Writer
	n int
}

func (l *limitedWriter) Write(p []byte) (int, error) {
	q := p
	if len(q) > l.n {
		q = q[:l.n]
	}
	l.n -= len(q)
	_, _ = l.w.Write(q)
	return len(p), nil
}

func (pa *parent) run(replay string) int {
	pa.seed = 1
	if s := os.Getenv("VERIF_SEED"); s != "" {
		if v, err := strconv.ParseUint(s, 10, 64); err == nil {
			pa.seed = v
		} else {
			pa.seed = hash64(s)
		}
	}
	tmp, err := os.MkdirTemp("", "vh-"+pa.prop.ID+"-")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	_ = os.Chmod(tmp, 0o777)
	pa.tmp = tmp
	defer os.RemoveAll(tmp)

	if pa.prop.Unpriv && os.Getuid() == 0 {
		pa.uid = pa.tryUnpriv()
	}

	if replay != "" {
		abs, _ := filepath.Abs(replay)
		o := pa.runWorker(filepath.Join(tmp, "replay.json"), "-replay", pa.readable(abs))
		return pa.conclude(nil, []outcome{o}, nil)
	}

	// 1. saved inputs: those of listed findings, and the regression corpus
	knowns := pa.readKnown()
	isKnown := map[string]known{}
	for _, k := range knowns {
		isKnown[filepath.Join(pa.verif, k.File)] = k
	}
	files, _ := filepath.Glob(filepath.Join(pa.verif, "corpus", pa.prop.ID, "*.json"))
	for f := range isKnown {
		files = append(files, f)
	}
	sort.Strings(files)
	var outs []outcome
	replayed := 0
	for i, f := range files {
		if pa.only != "" {
			break
		}
		o := pa.runWorker(filepath.Join(tmp, fmt.Sprintf("c%d.json", i)), "-replay", pa.readable(f))
		replayed++
		if k, ok := isKnown[f]; ok {
			if o.crash != nil || o.res != nil && len(o.res.Failures) > 0 {
				fmt.Printf("KNOWN-FINDING: property=%s %s\n", pa.prop.ID, k.What)
				continue
			}
		}
		outs = append(outs, o)
	}

	// 2. generated inputs
	n := pa.prop.Shards
	if n == 0 {
		n = max(1, min(8, runtime.NumCPU()))
	}
	if v, err := strconv.Atoi(os.Getenv("VH_SHARDS")); err == nil && v > 0 {
		n = v
	}
	res := make([]outcome, n)
	var wg sync.WaitGroup
	for i := range n {
		wg.Add(1)
		go func() {
			defer wg.Done()
			args := []string{"-shard", strconv.Itoa(i), "-n", strconv.Itoa(n)}
			if pa.only != "" {
				args = append(args, "-sub", pa.only)
			}
			res[i] = pa.runWorker(filepath.Join(tmp, fmt.Sprintf("w%d.json", i)), args...)
		}()
	}
	wg.Wait()
	return pa.conclude(res, outs, map[string]int{"saved inputs replayed": replayed})
}

// readable copies the file to where an unprivileged worker can read it.
func (pa *parent) readable(f string) string {
	b, err := os.ReadFile(f)
	if err != nil {
		return f
	}
	g := filepath.Join(pa.tmp, "in-"+filepath.Base(f))
	_ = os.WriteFile(g, b, 0o644)
	return g
}

// tryUnpriv returns the uid of an unprivileged user if a process can be started as it, or 0.
func (pa *parent) tryUnpriv() int {
	const nobody = 65534
	self, err := os.Executable()
	if err != nil {
		return 0
	}
	cmd := exec.Command(self, "-list")
	cmd.Dir = pa.tmp
	cmd.SysProcAttr = &syscall.SysProcAttr{Credential: &syscall.Credential{Uid: nobody, Gid: nobody}}
	if cmd.Run() != nil {
		return 0
	}
	_ = os.Chown(pa.tmp, nobody, nobody)
	return nobody
}

func (pa *parent) conclude(res, replays []outcome, extra map[string]int) int {
	type agg struct {
		ev, nt, skipped int
		hashes          map[uint64]struct{}
		labels          map[string]int
		samples         []string
	}
	subs := map[string]*agg{}
	var failures []Failure
	var internals []string
	for _, o := range append(append([]outcome{}, replays...), res...) {
		if o.internal != "" {
			internals = append(internals, o.internal)
		}
		if o.crash != nil {
			failures = append(failures, *o.crash)
		}
		if o.res == nil {
			continue
		}
		failures = append(failures, o.res.Failures...)
		for _, s := range o.res.Subs {
			a := subs[s.Name]
			if a == nil {
				a = &agg{hashes: map[uint64]struct{}{}, labels: map[string]int{}}
				subs[s.Name] = a
			}
			a.ev += s.Evaluations
			a.nt += s.Nontrivial
			a.skipped += s.SkippedTime
			for _, h := range s.Hashes {
				a.hashes[h] = struct{}{}
			}
			for l, c := range s.Labels {
				a.labels[l] += c
			}
			a.samples = append(a.samples, s.Samples...)
		}
	}

	// one violation line per sub-check, the smallest case first
	sort.SliceStable(failures, func(i, j int) bool { return len(failures[i].Case) < len(failures[j].Case) })
	seen := map[string]bool{}
	count := 0
	for _, f := range failures {
		if seen[f.Sub] {
			continue
		}
		seen[f.Sub] = true
		count++
		dir := filepath.Join(pa.verif, "replays")
		_ = os.MkdirAll(dir, 0o755)
		file := filepath.Join(dir, fmt.Sprintf("%s-%s-%016x.json", f.Property, f.Sub, hash64(string(f.Case))))
		b, _ := json.MarshalIndent(f, "", " ")
		if err := os.WriteFile(file, append(b, '\n'), 0o644); err != nil {
			file = "unwritable"
		}
		fmt.Printf("# %s/%s: %s\n# case: %s\n", f.Property, f.Sub, clip(f.Message, 2000), clip(string(f.Case), 2000))
		fmt.Printf("VIOLATION property=%s replay=%s\n", f.Property, file)
	}

	if res != nil && pa.only == "" {
		cov := map[string]any{}
		ev, dn, skipped := 0, 0, 0
		var samples []any
		var rules []string
		per := map[string]any{}
		for _, s := range pa.prop.Subs {
			a := subs[s.Name]
			if a == nil {
				continue
			}
			ev += a.ev
			dn += len(a.hashes)
			skipped += a.skipped
			rules = append(rules, s.Name+": "+s.Rule)
			per[s.Name] = map[string]any{"evaluations": a.ev, "nontrivial": a.nt, "distinct_nontrivial": len(a.hashes), "classes": a.labels}
			for i, x := range a.samples {
				if i == 3 {
					break
				}
				samples = append(samples, map[string]any{"sub": s.Name, "case": json.RawMessage(rawOrString(x))})
			}
		}
		cov["evaluations"] = ev
		cov["distinct_nontrivial"] = dn
		cov["rule"] = "Cases are drawn by rapid from seeded generators (or listed from the Go source tree). " + strings.Join(rules, " | ")
		cov["samples"] = samples
		cov["per_sub_check"] = per
		cov["skipped_for_time"] = skipped
		for k, v := range extra {
			cov[k] = v
		}
		e := map[string]any{
			"property": pa.prop.ID, "tier": pa.tier, "seed": int64(pa.seed & 0x7fffffffffffffff), "level": "exploration",
			"coverage": cov, "assumptions": pa.prop.Assumptions,
			"wall_s": float64(time.Since(pa.start).Milliseconds()) / 1000, "violations": count,
		}
		if e["assumptions"] == nil || len(pa.prop.Assumptions) == 0 {
			e["assumptions"] = []string{"the Go toolchain and its go/parser, go/scanner and go/format packages, used as oracles, are right"}
		}
		b, err := json.MarshalIndent(e, "", " ")
		if err == nil {
			_ = os.MkdirAll(filepath.Join(pa.verif, "evidence"), 0o755)
			err = os.WriteFile(filepath.Join(pa.verif, "evidence", pa.prop.ID+".json"), append(b, '\n'), 0o644)
		}
		if err != nil {
			internals = append(internals, "evidence: "+err.Error())
		}
		fmt.Printf("%s %s seed=%d: %d cases, %d distinct non-trivial, %d violations, %.1fs\n", pa.prop.ID, pa.tier, pa.seed, ev, dn, count, time.Since(pa.start).Seconds())
		if ev == 0 && count == 0 {
			internals = append(internals, "no case was evaluated")
		}
	}

	if count > 0 {
		return 1
	}
	if len(internals) > 0 {
		for _, s := range internals {
			fmt.Fprintln(os.Stderr, "ERROR:", s)
		}
		return 2
	}
	return 0
}

func rawOrString(s string) []byte {
	if json.Valid([]byte(s)) {
		return []byte(s)
	}
	b, err := json.Marshal(s)
	if err != nil {
		b, _ = json.Marshal(errors.New("sample").Error())
	}
	return b
}
