//go:build go1.23

// Package engine runs generated-input checks and reports their verdicts.
//
// A property is decided by one or more sub-checks.  A sub-check has a rapid
// generator producing a JSON-serialisable case and a function running a case.
// Running a case is a function of the case only, so the shrunk case, written as
// JSON, is the replay file.
package engine

import (
	"crypto/sha256"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/sjansen/pgutil/internal/zzverif/rapid"
)

// Exit codes of a harness program.
const (
	exitOK        = 0
	exitViolation = 1
	exitHarness   = 3
)

// T is the *testing.T in whose name synctest bubbles run.
var T *testing.T

// Tier is "quick" or "thorough".
var Tier = "quick"

// Ctx is what a running case reports to.
type Ctx struct {
	mu         sync.Mutex
	classes    map[string]int
	nontrivial bool
	excluded   map[string]int
	traces     []string
}

// Class records that the case belongs to a class; shown as a histogram.
func (c *Ctx) Class(format string, args ...interface{}) {
	c.mu.Lock()
	c.classes[fmt.Sprintf(format, args...)]++
	c.mu.Unlock()
}

// NonTrivial marks the case as non-trivial by the sub-check's rule.
func (c *Ctx) NonTrivial() {
	c.mu.Lock()
	c.nontrivial = true
	c.mu.Unlock()
}

// NonTrivialIf marks the case as non-trivial if cond holds.
func (c *Ctx) NonTrivialIf(cond bool) {
	if cond {
		c.NonTrivial()
	}
}

// Excluded counts something left out because of a listed finding.
func (c *Ctx) Excluded(key string) {
	c.mu.Lock()
	c.excluded[key]++
	c.mu.Unlock()
}

// Violation is the panic value of a failed case.
type Violation struct{ Msg string }

// HarnessError is the panic value of a case that could not be decided.
type HarnessError struct{ Msg string }

// Failf ends the case: the property is violated.
func (c *Ctx) Failf(format string, args ...interface{}) {
	panic(&Violation{fmt.Sprintf(format, args...)})
}

// Check fails the case unless ok.
func (c *Ctx) Check(ok bool, format string, args ...interface{}) {
	if !ok {
		c.Failf(format, args...)
	}
}

// Harnessf ends the run: the harness could not decide.
func Harnessf(format string, args ...interface{}) {
	panic(&HarnessError{fmt.Sprintf(format, args...)})
}

type sub struct {
	prop, name string
	rule       string
	quick      int
	thorough   int
	gen        func(*rapid.T) interface{}
	decode     func([]byte) (interface{}, error)
	run        func(*Ctx, interface{})
	examples   []interface{}
	tried      bool // the examples
}

type known struct {
	prop, key string
	run       func(*Ctx)
}

var (
	subs   []*sub
	knowns []*known
)

// Opt configures a sub-check.
type Opt struct {
	Rule     string // how cases are made and what makes one non-trivial
	Quick    int    // cases in the quick tier
	Thorough int    // cases in the thorough tier
}

// Add registers a sub-check of a property.
func Add[C any](prop, name string, o Opt, gen func(*rapid.T) C, run func(*Ctx, C), examples ...C) {
	s := &sub{
		prop: prop, name: name, rule: o.Rule, quick: o.Quick, thorough: o.Thorough,
		gen: func(t *rapid.T) interface{} { return gen(t) },
		decode: func(data []byte) (interface{}, error) {
			var c C
			err := json.Unmarshal(data, &c)
			return c, err
		},
		run: func(ctx *Ctx, c interface{}) { run(ctx, c.(C)) },
	}
	if s.thorough == 0 {
		s.thorough = s.quick * 20
	}
	for _, e := range examples {
		s.examples = append(s.examples, e)
	}
	subs = append(subs, s)
}

// Known registers the demonstration of a known finding: run must report a
// violation while the defect is there.
func Known(prop, key string, run func(*Ctx)) {
	knowns = append(knowns, &known{prop, key, run})
}

// ---------------------------------------------------------------- running one case

type outcome struct {
	violation string
	harness   string
}

// culprit decides from a stack trace whether a panic came from the code under
// test: the innermost frame that belongs to pgutil or to the harness decides.
func culprit(stack string) string {
	seenPanic := false
	for _, line := range strings.Split(stack, "\n") {
		if strings.HasPrefix(line, "panic(") {
			seenPanic = true
			continue
		}
		if !seenPanic || strings.HasPrefix(line, "\t") {
			continue
		}
		if strings.Contains(line, "/internal/zzverif/") || strings.Contains(line, "main.") && strings.HasPrefix(line, "main.") {
			return "harness"
		}
		if strings.Contains(line, "github.com/sjansen/pgutil/") {
			return "pgutil"
		}
	}
	return "unknown"
}

// Guard runs f and turns a panic into an outcome.
func guard(f func()) (o outcome) {
	defer func() {
		r := recover()
		switch x := r.(type) {
		case nil:
		case *Violation:
			o.violation = x.Msg
		case *HarnessError:
			o.harness = x.Msg
		default:
			stack := string(debug.Stack())
			msg := fmt.Sprintf("panic: %v\n%s", r, stack)
			if culprit(stack) == "pgutil" {
				o.violation = "the code under test panicked: " + msg
			} else {
				o.harness = msg
			}
		}
	}()
	f()
	return
}

// Protect runs f, part of the code under test, and reports its panic as a
// violation whatever the stack looks like.
func (c *Ctx) Protect(what string, f func()) {
	defer func() {
		r := recover()
		switch r.(type) {
		case nil:
		case *Violation, *HarnessError:
			panic(r)
		default:
			c.Failf("%s panicked: %v\n%s", what, r, debug.Stack())
		}
	}()
	f()
}

type replayFile struct {
	Property string          `json:"property"`
	Sub      string          `json:"sub"`
	Message  string          `json:"message,omitempty"`
	Case     json.RawMessage `json:"case"`
}

type fakeTB struct {
	name   string
	failed bool
	log    []string
}

type stopNow struct{}

func (f *fakeTB) Helper()                   {}
func (f *fakeTB) Name() string              { return f.name }
func (f *fakeTB) Logf(s string, a ...any)   { f.log = append(f.log, fmt.Sprintf(s, a...)) }
func (f *fakeTB) Log(a ...any)              { f.log = append(f.log, fmt.Sprint(a...)) }
func (f *fakeTB) Skipf(s string, a ...any)  { f.SkipNow() }
func (f *fakeTB) Skip(a ...any)             { f.SkipNow() }
func (f *fakeTB) SkipNow()                  { panic(stopNow{}) }
func (f *fakeTB) Errorf(s string, a ...any) { f.Logf(s, a...); f.failed = true }
func (f *fakeTB) Error(a ...any)            { f.Log(a...); f.failed = true }
func (f *fakeTB) Fatalf(s string, a ...any) { f.Logf(s, a...); f.FailNow() }
func (f *fakeTB) Fatal(a ...any)            { f.Log(a...); f.FailNow() }
func (f *fakeTB) FailNow()                  { f.failed = true; panic(stopNow{}) }
func (f *fakeTB) Fail()                     { f.failed = true }
func (f *fakeTB) Failed() bool              { return f.failed }

type stats struct {
	evaluations int
	nontrivial  map[[16]byte]struct{}
	classes     map[string]int
	excluded    map[string]int
	samples     []interface{}
	sampled     map[string]int
}

func newStats() *stats {
	return &stats{
		nontrivial: map[[16]byte]struct{}{}, classes: map[string]int{},
		excluded: map[string]int{}, sampled: map[string]int{},
	}
}

type runner struct {
	caseFile string
	stats    *stats
	failing  *replayFile
	harness  string
	counting bool
	slowest  time.Duration
}

func (r *runner) one(s *sub, c interface{}) (o outcome) {
	data, err := json.Marshal(c)
	if err != nil {
		return outcome{harness: "cannot serialise case: " + err.Error()}
	}
	rf := &replayFile{Property: s.prop, Sub: s.name, Case: data}
	if r.caseFile != "" {
		buf, _ := json.Marshal(rf)
		if err := os.WriteFile(r.caseFile, buf, 0o644); err != nil {
			return outcome{harness: err.Error()}
		}
	}
	ctx := &Ctx{classes: map[string]int{}, excluded: map[string]int{}}
	start := time.Now()
	o = guard(func() { s.run(ctx, c) })
	if d := time.Since(start); d > r.slowest {
		r.slowest = d
	}
	if r.counting {
		st := r.stats
		st.evaluations++
		if ctx.nontrivial {
			sum := sha256.Sum256(append([]byte(s.name+"\x00"), data...))
			var k [16]byte
			copy(k[:], sum[:])
			_, dup := st.nontrivial[k]
			st.nontrivial[k] = struct{}{}
			if n := st.sampled[s.name]; !dup && len(data) < 3000 && (n < 2 || n < 4 && len(st.nontrivial)%97 == 0) {
				st.sampled[s.name]++
				st.samples = append(st.samples, map[string]interface{}{"sub": s.name, "case": json.RawMessage(data)})
			}
		}
		for k := range ctx.classes {
			st.classes[s.name+": "+k]++
		}
		for k, n := range ctx.excluded {
			st.excluded[k] += n
		}
	}
	if o.violation != "" {
		rf.Message = o.violation
		r.failing = rf
	}
	return o
}

// check runs a sub-check for n generated cases.  It returns true if it failed.
func (r *runner) check(s *sub, n int, seed uint64) (failed bool) {
	for _, e := range s.examples {
		if s.tried {
			break
		}
		r.counting = true
		o := r.one(s, e)
		if o.harness != "" {
			r.harness = o.harness
			return true
		}
		if o.violation != "" {
			return true
		}
	}
	s.tried = true
	tb := &fakeTB{name: s.prop + "/" + s.name}
	if seed == 0 {
		seed = 0x9e3779b97f4a7c15
	}
	must(flag.Set("rapid.checks", strconv.Itoa(n)))
	must(flag.Set("rapid.seed", strconv.FormatUint(seed, 10)))
	r.counting = true
	func() {
		defer func() {
			x := recover()
			if x == nil {
				return
			}
			if _, ok := x.(stopNow); ok {
				return
			}
			panic(x)
		}()
		rapid.Check(tb, func(t *rapid.T) {
			c := s.gen(t)
			if r.harness != "" {
				return
			}
			o := r.one(s, c)
			if o.harness != "" {
				r.harness = o.harness
				return
			}
			if o.violation != "" {
				r.counting = false
				t.Fatalf("violation")
			}
		})
	}()
	if r.harness != "" {
		return true
	}
	if tb.failed && r.failing == nil {
		r.harness = "rapid: " + strings.Join(tb.log, "\n")
	}
	return tb.failed
}

func must(err error) {
	if err != nil {
		fmt.Fprintln(os.Stderr, "harness:", err)
		os.Exit(exitHarness)
	}
}

// ---------------------------------------------------------------- main

// Main is the main function of a harness program.
func Main() {
	prop := flag.String("prop", "", "property to check")
	tier := flag.String("tier", "quick", "quick or thorough")
	seed := flag.Uint64("seed", 1, "seed")
	evidence := flag.String("evidence", "", "evidence file to write")
	replay := flag.String("replay", "", "replay file to run instead of generating")
	replayDir := flag.String("replaydir", ".", "where to write replay files")
	caseFile := flag.String("casefile", "", "where to write the current case")
	knownFile := flag.String("known", "", "known findings")
	budget := flag.Duration("budget", 10*time.Minute, "stop generating after this long")
	only := flag.String("sub", "", "run only this sub-check")
	scale := flag.Float64("scale", 1, "scale the number of cases")
	shrink := flag.Duration("shrink", 8*time.Second, "how long to shrink")
	list := flag.Bool("list", false, "list properties and sub-checks")
	testing.Init()
	flag.Parse()
	must(flag.Set("rapid.nofailfile", "true"))
	must(flag.Set("rapid.shrinktime", shrink.String()))
	Tier = *tier

	if *list {
		for _, s := range subs {
			fmt.Println(s.prop, s.name, s.quick, s.thorough)
		}
		os.Exit(0)
	}

	code := exitHarness
	done := func(t *testing.T) {
		T = t
		if *replay != "" {
			code = runReplay(*replay, *caseFile)
		} else {
			code = runChecks(*prop, *tier, *seed, *evidence, *replayDir, *caseFile, *knownFile, *budget, *only, *scale)
		}
		os.Exit(code)
	}
	testing.Main(func(a, b string) (bool, error) { return true, nil },
		[]testing.InternalTest{{Name: "V", F: done}}, nil, nil)
}

func runReplay(file, caseFile string) int {
	data, err := os.ReadFile(file)
	must(err)
	rf := &replayFile{}
	must(json.Unmarshal(data, rf))
	for _, k := range knowns {
		if rf.Sub == "known:"+k.key && rf.Property == k.prop {
			return report(guard(func() { k.run(&Ctx{classes: map[string]int{}, excluded: map[string]int{}}) }), rf.Property, file)
		}
	}
	for _, s := range subs {
		if s.prop == rf.Property && s.name == rf.Sub {
			c, err := s.decode(rf.Case)
			must(err)
			r := &runner{stats: newStats(), caseFile: caseFile}
			// map iteration and scheduling are random: once may not be enough
			o := r.one(s, c)
			for start, n := time.Now(), 1; n < 25 && o.violation == "" && o.harness == "" && time.Since(start) < time.Minute; n++ {
				o = r.one(s, c)
			}
			return report(o, rf.Property, file)
		}
	}
	fmt.Fprintln(os.Stderr, "harness: no such sub-check:", rf.Property, rf.Sub)
	return exitHarness
}

func report(o outcome, prop, file string) int {
	switch {
	case o.harness != "":
		fmt.Fprintln(os.Stderr, "harness:", o.harness)
		return exitHarness
	case o.violation != "":
		fmt.Println(o.violation)
		fmt.Printf("VIOLATION property=%s replay=%s\n", prop, file)
		return exitViolation
	}
	fmt.Println("no violation")
	return exitOK
}

func loadKnown(file, prop string) map[string]string {
	m := map[string]string{}
	if file == "" {
		return m
	}
	data, err := os.ReadFile(file)
	must(err)
	for _, line := range strings.Split(string(data), "\n") {
		// finding: property=D03 key=check-deferrable-end what fails
		if !strings.HasPrefix(line, "finding: ") {
			continue
		}
		f := strings.SplitN(line, " ", 4)
		if len(f) != 4 || !strings.HasPrefix(f[1], "property=") || !strings.HasPrefix(f[2], "key=") {
			must(fmt.Errorf("bad line in %s: %s", file, line))
		}
		if f[1][len("property="):] == prop {
			m[f[2][len("key="):]] = f[3]
		}
	}
	return m
}

func seedFor(seed uint64, name string, batch int) uint64 {
	sum := sha256.Sum256([]byte(fmt.Sprintf("%d/%s/%d", seed, name, batch)))
	var x uint64
	for i := 0; i < 8; i++ {
		x = x<<8 | uint64(sum[i])
	}
	return x
}

func runChecks(prop, tier string, seed uint64, evidence, replayDir, caseFile, knownFile string, budget time.Duration, only string, scale float64) int {
	start := time.Now()
	r := &runner{caseFile: caseFile, stats: newStats()}
	var rules []string
	var found bool
	var perSub = map[string]interface{}{}
	truncated := false
	violations := 0
	var knownSeen []string

	// known findings first: they are quick
	list := loadKnown(knownFile, prop)
	for _, k := range knowns {
		if k.prop != prop || only != "" {
			continue
		}
		o := guard(func() { k.run(&Ctx{classes: map[string]int{}, excluded: map[string]int{}}) })
		if o.harness != "" {
			fmt.Fprintln(os.Stderr, "harness:", o.harness)
			return exitHarness
		}
		what, listed := list[k.key]
		switch {
		case o.violation != "" && listed:
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", prop, what)
			knownSeen = append(knownSeen, k.key)
		case o.violation != "":
			r.failing = &replayFile{Property: prop, Sub: "known:" + k.key, Message: o.violation, Case: json.RawMessage("null")}
			violations++
		case listed:
			fmt.Printf("note: property=%s finding %s no longer reproduces\n", prop, k.key)
		}
	}

	deadline := start.Add(budget)
	for _, s := range subs {
		if s.prop != prop || only != "" && only != s.name {
			continue
		}
		found = true
		if violations > 0 {
			break
		}
		n := s.quick
		if tier == "thorough" {
			n = s.thorough
		}
		n = int(float64(n) * scale)
		if n < 1 {
			n = 1
		}
		before, beforeNT := r.stats.evaluations, len(r.stats.nontrivial)
		t0 := time.Now()
		batch := n/10 + 1
		for i, left := 0, n; left > 0; i++ {
			if batch > left {
				batch = left
			}
			if time.Now().After(deadline) {
				truncated = true
				break
			}
			if r.check(s, batch, seedFor(seed, s.name, i)) {
				if r.harness != "" {
					fmt.Fprintf(os.Stderr, "harness: %s/%s: %s\n", prop, s.name, r.harness)
					return exitHarness
				}
				violations++
				break
			}
			left -= batch
		}
		rules = append(rules, s.name+": "+s.rule)
		perSub[s.name] = map[string]interface{}{
			"evaluations":         r.stats.evaluations - before,
			"distinct_nontrivial": len(r.stats.nontrivial) - beforeNT,
			"wall_s":              time.Since(t0).Seconds(),
		}
	}
	if !found {
		fmt.Fprintln(os.Stderr, "harness: no sub-check for", prop)
		return exitHarness
	}

	if evidence != "" {
		if r.stats.samples == nil {
			r.stats.samples = []interface{}{}
		}
		keys := make([]string, 0, len(r.stats.classes))
		for k := range r.stats.classes {
			keys = append(keys, k)
		}
		sort.Strings(keys)
		classes := map[string]int{}
		for i, k := range keys {
			if i < 200 {
				classes[k] = r.stats.classes[k]
			}
		}
		ev := map[string]interface{}{
			"property": prop, "tier": tier, "seed": seed, "level": "exploration",
			"coverage": map[string]interface{}{
				"evaluations":             r.stats.evaluations,
				"distinct_nontrivial":     len(r.stats.nontrivial),
				"rule":                    strings.Join(rules, " | "),
				"samples":                 r.stats.samples,
				"classes":                 classes,
				"sub_checks":              perSub,
				"excluded_known_findings": r.stats.excluded,
				"known_findings_seen":     knownSeen,
				"stopped_at_time_budget":  truncated,
				"slowest_case_s":          r.slowest.Seconds(),
			},
			"assumptions": []string{"go " + runtime.Version()},
			"wall_s":      time.Since(start).Seconds(),
			"violations":  violations,
		}
		buf, err := json.MarshalIndent(ev, "", " ")
		must(err)
		must(os.WriteFile(evidence, append(buf, '\n'), 0o644))
	}
	if r.failing != nil && violations > 0 {
		buf, err := json.MarshalIndent(r.failing, "", " ")
		must(err)
		sum := sha256.Sum256(buf)
		must(os.MkdirAll(replayDir, 0o755))
		file := filepath.Join(replayDir, fmt.Sprintf("%s-%x.json", prop, sum[:4]))
		must(os.WriteFile(file, append(buf, '\n'), 0o644))
		fmt.Println(r.failing.Message)
		fmt.Printf("VIOLATION property=%s replay=%s\n", prop, file)
		return exitViolation
	}
	fmt.Printf("ok property=%s evaluations=%d distinct_nontrivial=%d wall=%.1fs\n", prop,
		r.stats.evaluations, len(r.stats.nontrivial), time.Since(start).Seconds())
	return exitOK
}
