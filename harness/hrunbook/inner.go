//go:build go1.23 && verif_inner

package main

import (
	"context"
	"errors"
	"fmt"
	"io"
	"os"
	"os/exec"
	"strconv"
	"strings"
	"sync"
	"testing"
	"testing/synctest"
	"time"

	"go.uber.org/zap"
	"go.uber.org/zap/zapcore"

	"github.com/sjansen/pgutil/internal/dag"
	"github.com/sjansen/pgutil/internal/runbook"
	"github.com/sjansen/pgutil/internal/runbook/types"
	. "github.com/sjansen/pgutil/internal/zzverif/engine"
	"github.com/sjansen/pgutil/internal/zzverif/rapid"
)

// The runner is executed inside a synctest bubble with targets that block until
// the schedule releases them: the case owns every order of completion, and a
// run that can no longer make progress is recognised exactly.

// Tgt is a target of a generated runbook.
type Tgt struct {
	Name      S
	Cap       int
	StartErr  bool
	SlowStart bool
	SlowStop  bool
	StopErr   bool `json:",omitempty"`
}

// Tsk is what a task has besides its dependencies.
type Tsk struct {
	Target int
	Msg    S
	Fail   bool
	As     string `json:",omitempty"` // what kind of error
}

// RunCase is a runbook with a schedule of completions.
type RunCase struct {
	G        Graph // names and dependencies, acyclic unless Back or Dangling is used
	Targets  []Tgt
	Tasks    []Tsk
	Schedule []int
	Back     [][2]int // extra dependencies that may close cycles
	Dangling []Missing
}

type runMode struct {
	fail, startErr, invalid, manyMsgs, huge, wide bool
	oneTarget                                     int // percent
}

func genRun(t *rapid.T, m runMode) RunCase {
	k := RunCase{G: genGraph(t, 16, true)}
	if m.wide && Chance(t, "wide", 60) {
		for i := range k.G.After {
			if Chance(t, "nodeps", 60) {
				k.G.After[i] = nil
			}
		}
	}
	nt := Int(t, "targets", 1, 4)
	if m.oneTarget > 0 && Chance(t, "one", m.oneTarget) {
		nt = 1
	}
	if k.G.n() == 0 && Chance(t, "notargets", 30) {
		nt = 0
	}
	caps := Pick(t, "caps", 0, 1, 2)
	for i, name := range distinctNames(t, "target", nt, true) {
		cap := 1
		switch caps {
		case 1:
			cap = Int(t, "cap", 1, 4)
			if m.wide {
				cap++
			}
		case 2:
			cap = Pick(t, "cap", 1, 2, 3, 100)
			if m.huge && Chance(t, "huge", 20) {
				cap = Pick(t, "hugecap", 1<<30, 1<<62)
			}
		}
		g := Tgt{Name: name, Cap: cap}
		g.SlowStart = Chance(t, "slowstart", 15)
		g.SlowStop = Chance(t, "slowstop", 15)
		g.StopErr = Chance(t, "stoperr", 12)
		if m.startErr {
			g.StartErr = Chance(t, "starterr", 35) || i == nt-1 && Chance(t, "starterr2", 35)
		}
		k.Targets = append(k.Targets, g)
	}
	msgs := 0
	if m.manyMsgs {
		msgs = Int(t, "msgs", 40, 100)
	} else if Chance(t, "somemsgs", 20) {
		msgs = 30
	}
	for i := 0; i < k.G.n(); i++ {
		x := Tsk{Target: Int(t, "tgt", 0, nt-1)}
		if Chance(t, "msg", msgs) {
			switch Even(t, "msgkind", 8) {
			case 0:
				x.Msg = "same message"
			case 2:
				// the name of a task or target
				x.Msg = k.G.Names[i]
				if Bool(t, "othername") {
					x.Msg = k.G.Names[Even(t, "othertask", k.G.n())]
				}
				if Chance(t, "targetname", 20) {
					x.Msg = k.Targets[x.Target].Name
				}
			case 3:
				x.Msg = S(strings.Repeat("long ", Size(t, "msglen", 3000)) + fmt.Sprint(i))
			case 1:
				x.Msg = S(Pick(t, "odd", " ", "%s %d %%", "msg\nwith newline", "\"quoted\"", "é漢🙂", "{}", "\t", "-v", "%!d(MISSING)"))
			default:
				x.Msg = S(fmt.Sprintf("message of task %d", i))
			}
		}
		if m.fail && !m.wide {
			x.Fail = Chance(t, "fail", 20)
		}
		if m.fail && Chance(t, "as?", 30) {
			x.As = taskErrs[Even(t, "as", len(taskErrs))]
		}
		k.Tasks = append(k.Tasks, x)
	}
	if m.fail && k.G.n() > 0 && (m.wide || Chance(t, "failone", 70)) {
		k.Tasks[Int(t, "failidx", 0, k.G.n()-1)].Fail = true
	}
	if m.invalid && k.G.n() > 0 {
		if Chance(t, "cycle", 60) {
			for n := Int(t, "back", 1, 3); n > 0; n-- {
				k.Back = append(k.Back, [2]int{Int(t, "from", 0, k.G.n()-1), Int(t, "to", 0, k.G.n()-1)})
			}
		}
		if Chance(t, "dangling", 45) {
			used := map[S]bool{}
			for _, n := range k.G.Names {
				used[n] = true
			}
			for n := Int(t, "ndangling", 1, 2); n > 0; n-- {
				to := S(Pick(t, "missing", "nope", "", "A", "a ", "missing task", "B", "task0"))
				for used[to] {
					to += "?"
				}
				k.Dangling = append(k.Dangling, Missing{Int(t, "dfrom", 0, k.G.n()-1), to})
			}
		}
	}
	switch Int(t, "schedstyle", 0, 3) {
	case 0: // first come, first served
	case 1: // last come, first served
		k.Schedule = rapid.SliceOfN(rapid.Just(1<<12-1), 0, k.G.n()).Draw(t, "lifo")
	default:
		k.Schedule = rapid.SliceOfN(rapid.IntRange(0, 1<<12), 0, k.G.n()+2).Draw(t, "schedule")
	}
	return k
}

// largeRuns are runbooks with many tasks.
func largeRuns(m runMode) (out []RunCase) {
	for i, g := range []Graph{
		largeGraph(300, 1, true), largeGraph(300, 0, false), largeGraph(200, 3, false), largeGraph(300, 4, false), largeGraph(120, 7, true), largeGraph(250, 2, true),
	} {
		k := RunCase{G: g}
		if m.invalid {
			k.G = []Graph{ring(120, 5), ring(400, 0), ring(300, 20), ring(80, 80), ring(65, 0), ring(2, 300)}[i]
		}
		k.Targets = []Tgt{{Name: "t0", Cap: 1}, {Name: "t1", Cap: 500}, {Name: "t2", Cap: 70}}[:1+i%3]
		for j := range k.G.Names {
			x := Tsk{Target: j * j % len(k.Targets), Fail: m.fail && j == k.G.n()*3/4}
			if m.manyMsgs {
				x.Msg = S(fmt.Sprintf("message of task %d", j))
			}
			k.Tasks = append(k.Tasks, x)
			k.Schedule = append(k.Schedule, j*j*i%(1<<12))
		}
		out = append(out, k)
	}
	return out
}

type event struct {
	kind         string // start, started, stop, stopped, begin, end, log, return, quiet (once a task was told to fail)
	target, task int
	text         string
}

func (e event) String() string {
	switch e.kind {
	case "log":
		return fmt.Sprintf("log %q", e.text)
	case "begin", "end":
		return fmt.Sprintf("%s task %d on target %d", e.kind, e.task, e.target)
	case "return":
		return "return"
	case "quiet":
		return "nothing moves"
	}
	return fmt.Sprintf("%s target %d", e.kind, e.target)
}

// history is everything observed about one run.
type history struct {
	mu     sync.Mutex
	events []event

	k        *RunCase
	err      error
	returned bool
	hung     bool
	leak     string // goroutines left behind
	blocked  int    // tasks executing when the run returned
	r06      string // first idle target with a ready task
	wrong    string // task handed over wrongly
	maxW     int
}

func (h *history) add(e event) {
	h.mu.Lock()
	h.events = append(h.events, e)
	h.mu.Unlock()
}

type taskErr struct{ task int }

func (e *taskErr) Error() string { return fmt.Sprintf("task %d failed", e.task) }

// taskErrs are the kinds of errors tasks end with, other than their own.
var taskErrs = []string{"canceled", "deadline", "eof", "empty", "closed", "not found", "wrapped canceled", "wrapped eof"}

var errEmpty = errors.New("")

func (k *RunCase) failure(task int) error {
	switch k.Tasks[task].As {
	case "canceled":
		return context.Canceled
	case "deadline":
		return context.DeadlineExceeded
	case "eof":
		return io.EOF
	case "empty":
		return errEmpty
	case "closed":
		return os.ErrClosed
	case "not found":
		return exec.ErrNotFound
	case "wrapped canceled":
		return fmt.Errorf("task %d failed: %w", task, context.Canceled)
	case "wrapped eof":
		return fmt.Errorf("task %d failed: %w", task, io.EOF)
	}
	return &taskErr{task}
}

type startErr struct{ target int }

func (e *startErr) Error() string { return fmt.Sprintf("target %d can't be started", e.target) }

type fakeConfig struct{ task int }

func (*fakeConfig) Check() error { return nil }

type execution struct {
	task int
	ch   chan struct{}
}

type fakeTarget struct {
	h       *history
	i       int
	waiting *[]execution // guarded by h.mu
}

func (t *fakeTarget) Analyze() error        { return nil }
func (t *fakeTarget) ConcurrencyLimit() int { return t.h.k.Targets[t.i].Cap }
func (t *fakeTarget) NewTaskConfig(string) (types.TaskConfig, error) {
	return nil, errors.New("unexpected")
}
func (t *fakeTarget) Start() error {
	t.h.add(event{kind: "start", target: t.i, task: -1})
	s := &t.h.k.Targets[t.i]
	if s.SlowStart {
		time.Sleep(time.Second)
	}
	if s.StartErr {
		return &startErr{t.i}
	}
	t.h.add(event{kind: "started", target: t.i, task: -1})
	return nil
}
func (t *fakeTarget) Stop() error {
	t.h.add(event{kind: "stop", target: t.i, task: -1})
	if t.h.k.Targets[t.i].SlowStop {
		time.Sleep(time.Second)
	}
	t.h.add(event{kind: "stopped", target: t.i, task: -1})
	if t.h.k.Targets[t.i].StopErr {
		return fmt.Errorf("target %d can't be stopped", t.i)
	}
	return nil
}
func (t *fakeTarget) Handle(ctx context.Context, cfg types.TaskConfig) error {
	fc, ok := cfg.(*fakeConfig)
	if !ok {
		t.h.mu.Lock()
		t.h.wrong = fmt.Sprintf("target %d was handed the configuration %#v", t.i, cfg)
		t.h.mu.Unlock()
		return nil
	}
	x := execution{fc.task, make(chan struct{})}
	t.h.mu.Lock()
	t.h.events = append(t.h.events, event{kind: "begin", target: t.i, task: fc.task})
	if t.h.k.Tasks[fc.task].Target != t.i {
		t.h.wrong = fmt.Sprintf("task %d ran on target %d instead of %d", fc.task, t.i, t.h.k.Tasks[fc.task].Target)
	}
	*t.waiting = append(*t.waiting, x)
	t.h.mu.Unlock()
	<-x.ch
	var err error
	if t.h.k.Tasks[fc.task].Fail {
		err = t.h.k.failure(fc.task)
	}
	t.h.add(event{kind: "end", target: t.i, task: fc.task})
	return err
}

type infoCore struct{ h *history }

func (c infoCore) Enabled(l zapcore.Level) bool      { return true }
func (c infoCore) With([]zapcore.Field) zapcore.Core { return c }
func (c infoCore) Sync() error                       { return nil }
func (c infoCore) Check(e zapcore.Entry, ce *zapcore.CheckedEntry) *zapcore.CheckedEntry {
	return ce.AddCore(e, c)
}
func (c infoCore) Write(e zapcore.Entry, _ []zapcore.Field) error {
	if e.Level == zapcore.InfoLevel {
		c.h.add(event{kind: "log", target: -1, task: -1, text: e.Message})
	}
	return nil
}

// after returns the full dependencies of each task, dangling ones as -1.
func (k *RunCase) after(i int) []int {
	out := append([]int(nil), k.G.deps(i)...)
	for _, b := range k.Back {
		if b[0] == i {
			out = append(out, b[1])
		}
	}
	for _, d := range k.Dangling {
		if d.From == i {
			out = append(out, -1)
		}
	}
	return out
}

func (k *RunCase) adjacency() map[string]map[string]bool {
	adj := k.G.adjacency()
	for _, b := range k.Back {
		adj[string(k.G.Names[b[0]])][string(k.G.Names[b[1]])] = true
	}
	return adj
}

func (k *RunCase) valid() bool { return len(k.Dangling) == 0 && acyclic(k.adjacency()) }

// execute runs the case and returns its history.
func execute(k *RunCase) (h *history) {
	h = &history{k: k}
	defer func() {
		switch x := recover().(type) {
		case nil:
		case *Violation, *HarnessError:
			panic(x)
		default:
			msg := fmt.Sprint(x)
			if strings.HasPrefix(msg, "deadlock:") {
				h.leak = msg
				return
			}
			panic(x)
		}
	}()
	synctest.Test(T, func(*testing.T) { h.bubble() })
	return h
}

func (h *history) bubble() {
	k := h.k
	var waiting []execution
	targets := types.Targets{}
	for i := range k.Targets {
		targets[string(k.Targets[i].Name)] = &fakeTarget{h: h, i: i, waiting: &waiting}
	}
	tasks := types.Tasks{}
	nodes := k.G.nodes()
	for _, b := range k.Back {
		n := string(k.G.Names[b[0]])
		nodes[n] = append(nodes[n], string(k.G.Names[b[1]]))
	}
	for _, d := range k.Dangling {
		n := string(k.G.Names[d.From])
		nodes[n] = append(nodes[n], string(d.To))
	}
	for i := range k.Tasks {
		n := string(k.G.Names[i])
		tasks[n] = &types.Task{
			Target: string(k.Targets[k.Tasks[i].Target].Name), After: nodes[n],
			Message: string(k.Tasks[i].Msg), Config: &fakeConfig{i},
		}
	}
	log := zap.New(infoCore{h}).Sugar()
	go func() {
		err := runbook.VerifRun(log, targets, tasks)
		h.mu.Lock()
		h.err, h.returned = err, true
		h.blocked = len(waiting)
		h.events = append(h.events, event{kind: "return", target: -1, task: -1})
		h.mu.Unlock()
	}()
	failed := false
	for _, t := range k.Targets {
		failed = failed || t.StartErr
	}
	naps, step := 0, 0
	for {
		synctest.Wait()
		h.mu.Lock()
		returned, w := h.returned, len(waiting)
		if w > h.maxW {
			h.maxW = w
		}
		if !returned && !failed && h.r06 == "" {
			h.r06 = h.idle()
		}
		if failed && !returned {
			h.events = append(h.events, event{kind: "quiet", target: -1, task: -1})
		}
		h.mu.Unlock()
		if returned {
			break
		}
		if w == 0 {
			if naps++; naps > 4 {
				h.hung = true
				return
			}
			time.Sleep(time.Hour)
			continue
		}
		naps = 0
		v := 0
		if step < len(k.Schedule) {
			v = k.Schedule[step]
		}
		step++
		n := 1
		if (v>>8)&3 == 3 {
			n = 2 + (v>>10)&3
		}
		for ; n > 0; n-- {
			h.mu.Lock()
			if len(waiting) == 0 {
				h.mu.Unlock()
				break
			}
			p := (v & 0xff) * len(waiting) / 256
			x := waiting[p]
			waiting = append(waiting[:p:p], waiting[p+1:]...)
			h.mu.Unlock()
			if k.Tasks[x.task].Fail {
				failed = true
			}
			close(x.ch)
		}
	}
	// whatever is still executing is let go, then the bubble must be empty
	h.mu.Lock()
	for _, x := range waiting {
		close(x.ch)
	}
	waiting = nil
	h.mu.Unlock()
	time.Sleep(time.Hour)
	synctest.Wait()
}

// idle reports a target that has a ready task, and yet executes nothing although
// nothing can move.  Called with mu held, at quiescence.
func (h *history) idle() string {
	k := h.k
	begun := make([]bool, len(k.Tasks))
	ended := make([]bool, len(k.Tasks))
	running := make([]int, len(k.Targets))
	started := make([]bool, len(k.Targets))
	pending := 0 // targets between start and started
	for _, e := range h.events {
		switch e.kind {
		case "begin":
			begun[e.task] = true
			running[e.target]++
		case "end":
			ended[e.task] = true
			running[e.target]--
		case "started":
			started[e.target] = true
			pending--
		case "start":
			pending++
		}
	}
	for t := range k.Targets {
		if running[t] > 0 || !started[t] {
			continue
		}
		for _, s := range started {
			if !s {
				return "" // starting up
			}
		}
		for i := range k.Tasks {
			if k.Tasks[i].Target != t || begun[i] {
				continue
			}
			ready := true
			for _, j := range k.after(i) {
				ready = ready && j >= 0 && ended[j]
			}
			if ready {
				return fmt.Sprintf("task %d is ready and target %d is idle, but the task is not started while tasks on other targets are executing\n%s", i, t, h)
			}
		}
	}
	return ""
}

func (h *history) String() string {
	var sb strings.Builder
	for i, e := range h.events {
		fmt.Fprintf(&sb, "  %d. %s\n", i, e)
	}
	fmt.Fprintf(&sb, "  error: %v, returned: %v, left behind: %s\n", h.err, h.returned, h.leak)
	return sb.String()
}

// ---------------------------------------------------------------- oracles

func (h *history) begins() []int {
	n := make([]int, len(h.k.Tasks))
	for _, e := range h.events {
		if e.kind == "begin" {
			n[e.task]++
		}
	}
	return n
}

func (h *history) terminated(c *Ctx) {
	c.Check(!h.hung, "the run never ends:\n%s", h)
	c.Check(h.blocked == 0, "%d tasks were executing when the run returned:\n%s", h.blocked, h)
	c.Check(h.leak == "", "the run left goroutines behind that wait for ever:\n%s", h)
}

func (h *history) classes(c *Ctx) {
	c.Class("tasks=%d-%d", len(h.k.Tasks)/4*4, len(h.k.Tasks)/4*4+3)
	c.Class("targets=%d", len(h.k.Targets))
	c.Class("width=%d", min(h.maxW, 4))
}

func runR01(c *Ctx, k RunCase) {
	h := execute(&k)
	h.classes(c)
	c.NonTrivialIf(k.G.edges() >= 2 && h.maxW >= 2)
	ended := make([]bool, len(k.Tasks))
	for _, e := range h.events {
		switch e.kind {
		case "begin":
			for _, j := range k.after(e.task) {
				c.Check(j >= 0 && ended[j] && !k.Tasks[j].Fail, "task %d started before task %d, on which it depends, had ended without an error:\n%s", e.task, j, h)
			}
		case "end":
			ended[e.task] = true
		}
	}
}

func runR02(c *Ctx, k RunCase) {
	h := execute(&k)
	h.classes(c)
	c.NonTrivialIf(len(k.Tasks) >= 3)
	h.terminated(c)
	stopErr := false
	for _, t := range k.Targets {
		stopErr = stopErr || t.StopErr
	}
	c.Check(h.err == nil || stopErr, "the run returned an error although no task failed: %v", h.err)
	c.Check(h.wrong == "", "%s:\n%s", h.wrong, h)
	for i, n := range h.begins() {
		c.Check(n == 1, "task %d was executed %d times:\n%s", i, n, h)
	}
}

func runR03(c *Ctx, k RunCase) {
	any := false
	for _, t := range k.Tasks {
		any = any || t.Fail
	}
	if !any {
		c.Class("no failing task")
		return
	}
	h := execute(&k)
	h.classes(c)
	h.terminated(c)
	failed := map[int]bool{}
	tainted := make([]bool, len(k.Tasks))
	begun := make([]bool, len(k.Tasks))
	for _, e := range h.events {
		switch e.kind {
		case "end":
			if k.Tasks[e.task].Fail {
				failed[e.task] = true
			}
		case "begin":
			c.Check(!begun[e.task], "task %d was started twice:\n%s", e.task, h)
			begun[e.task] = true
		}
	}
	c.Check(len(failed) > 0, "the run ended although no failing task was executed:\n%s", h)
	c.Check(h.err != nil, "the run returned no error although tasks failed:\n%s", h)
	real := false
	for i := range failed {
		e := k.failure(i)
		switch e.(type) {
		case *taskErr:
			var te *taskErr
			real = real || errors.As(h.err, &te) && te.task == i
		default:
			real = real || errors.Is(h.err, e) || strings.HasPrefix(k.Tasks[i].As, "wrapped") && h.err.Error() == e.Error()
		}
	}
	c.Check(real, "the run's error %v is not the error of a task that failed:\n%s", h.err, h)
	for changed := true; changed; {
		changed = false
		for i := range k.Tasks {
			for _, j := range k.after(i) {
				if !tainted[i] && j >= 0 && (k.Tasks[j].Fail || tainted[j]) {
					tainted[i] = true
					changed = true
				}
			}
		}
	}
	for i := range k.Tasks {
		c.Check(!(tainted[i] && begun[i]), "task %d was started although it depends on a task that fails:\n%s", i, h)
	}
	c.NonTrivialIf(len(k.Tasks) >= 3 && k.G.edges() >= 1)
	c.Class("failures seen=%d", min(len(failed), 3))
}

// runR21 checks what may still happen once a task has failed.
func runR21(c *Ctx, k RunCase) {
	h := execute(&k)
	h.classes(c)
	failedOn := make([]bool, len(k.Targets))
	failed, quiet := false, false
	ended := make([]bool, len(k.Tasks))
	ready := make([]bool, len(k.Tasks))
	begun := make([]bool, len(k.Tasks))
	left := make([]int, len(k.Targets)) // tasks the target may still start
	busy := make([]int, len(k.Targets))
	late, held := 0, 0
	for _, e := range h.events {
		switch e.kind {
		case "begin":
			c.Check(!failedOn[e.target], "task %d was started on target %d, which had executed a task that failed:\n%s", e.task, e.target, h)
			if quiet {
				late++
				c.Check(ready[e.task], "task %d was started, which was not ready when the run had taken notice of the failure:\n%s", e.task, h)
				c.Check(left[e.target] > 0, "target %d started more tasks than it can have been handed when the run had taken notice of the failure:\n%s", e.target, h)
				left[e.target]--
			}
			begun[e.task] = true
			busy[e.target]++
		case "end":
			busy[e.target]--
			if k.Tasks[e.task].Fail {
				failed, failedOn[e.target] = true, true
			} else {
				ended[e.task] = true
			}
		case "quiet":
			if !failed || quiet {
				continue
			}
			quiet = true
			for i := range k.Tasks {
				ready[i] = true
				for _, j := range k.after(i) {
					ready[i] = ready[i] && j >= 0 && ended[j]
				}
				if ready[i] && !begun[i] {
					held++
				}
			}
			for i := range k.Targets {
				left[i] = k.Targets[i].Cap - busy[i]
			}
		}
	}
	c.NonTrivialIf(failed && (held > 0 || quiet))
	c.Class("started later=%d", min(late, 3))
	c.Class("ready at the failure=%d", min(held, 3))
}

// names tells whether a message contains a name, as it is or quoted.
func names(msg, name string) bool {
	return strings.Contains(msg, name) || strings.Contains(msg, strconv.Quote(name)) || strings.Contains(msg, strconv.QuoteToASCII(name))
}

func runR04(c *Ctx, k RunCase) {
	if k.valid() {
		c.Class("valid")
		return
	}
	h := execute(&k)
	h.classes(c)
	c.NonTrivialIf(len(k.Tasks) >= 2)
	for i, n := range h.begins() {
		c.Check(n == 0, "task %d was executed although the dependencies are not valid:\n%s", i, h)
	}
	h.terminated(c)
	c.Check(h.err != nil, "a run with invalid dependencies was not refused:\n%s", h)
	var ce *dag.CircularDependencyError
	var ie *dag.InvalidEdgeError
	switch {
	case errors.As(h.err, &ce):
		c.Class("cycle reported")
		c.Check(realCycle(k.adjacency(), ce.Cycle), "the reported cycle %q is not a cycle of %v", ce.Cycle, k.adjacency())
		for _, n := range ce.Cycle {
			c.Check(names(h.err.Error(), n), "the message %q does not name %q of the cycle", h.err, n)
		}
	case errors.As(h.err, &ie):
		c.Class("missing task reported")
		ok := false
		for _, d := range k.Dangling {
			ok = ok || string(k.G.Names[d.From]) == ie.Node && string(d.To) == ie.Edge
		}
		c.Check(ok, "the error names %q -> %q, which is no dangling dependency", ie.Node, ie.Edge)
		msg := h.err.Error()
		c.Check(names(msg, ie.Node) && names(msg, ie.Edge), "the message %q does not name %q and %q", msg, ie.Node, ie.Edge)
		if parts := strings.SplitN(msg, "non-existent node ", 2); len(parts) == 2 && ie.Node != ie.Edge {
			rest := parts[1]
			c.Check(strings.HasPrefix(rest, strconv.Quote(ie.Edge)) || !strings.HasPrefix(rest, strconv.Quote(ie.Node)), "the message %q says that %q is missing, instead of %q", msg, ie.Node, ie.Edge)
		}
	default:
		c.Failf("the error identifies neither a cycle nor a missing task: %v", h.err)
	}
}

func runR05(c *Ctx, k RunCase) {
	h := execute(&k)
	running := make([]int, len(k.Targets))
	for _, e := range h.events {
		switch e.kind {
		case "begin":
			running[e.target]++
			c.Check(running[e.target] <= k.Targets[e.target].Cap, "target %d executes %d tasks at once, its limit is %d:\n%s", e.target, running[e.target], k.Targets[e.target].Cap, h)
		case "end":
			running[e.target]--
		}
	}
	c.NonTrivialIf(len(k.Tasks) >= 3)
}

func runR06(c *Ctx, k RunCase) {
	h := execute(&k)
	h.classes(c)
	c.NonTrivialIf(len(k.Tasks) >= 3 && len(k.Targets) >= 2)
	c.Check(h.r06 == "", "%s", h.r06)
}

func runR07(c *Ctx, k RunCase) {
	h := execute(&k)
	nt := len(k.Targets)
	start, started, stop := make([]int, nt), make([]int, nt), make([]int, nt)
	begun, anyStartErr := 0, false
	returned := false
	for _, e := range h.events {
		c.Check(!returned || e.kind == "log", "%s after the run had returned:\n%s", e, h)
		switch e.kind {
		case "start":
			start[e.target]++
			c.Check(start[e.target] == 1, "target %d was started twice:\n%s", e.target, h)
			anyStartErr = anyStartErr || k.Targets[e.target].StartErr
		case "started":
			started[e.target]++
		case "begin":
			begun++
			c.Check(started[e.target] == 1, "task %d was executed before target %d was started:\n%s", e.task, e.target, h)
			c.Check(stop[e.target] == 0, "task %d was executed after target %d was stopped:\n%s", e.task, e.target, h)
		case "end":
			c.Check(stop[e.target] == 0, "target %d was stopped while executing task %d:\n%s", e.target, e.task, h)
		case "stop":
			stop[e.target]++
			c.Check(started[e.target] == 1, "target %d was stopped without having been started:\n%s", e.target, h)
			c.Check(stop[e.target] == 1, "target %d was stopped twice:\n%s", e.target, h)
		case "return":
			returned = true
		}
	}
	c.Check(returned, "the run never ends:\n%s", h)
	c.Check(h.leak == "", "the run left goroutines behind that wait for ever:\n%s", h)
	for i := range k.Targets {
		c.Check(started[i] == stop[i], "target %d was started but not stopped:\n%s", i, h)
	}
	if anyStartErr {
		c.Class("start failure seen")
		c.Check(begun == 0, "tasks were executed although a target could not be started:\n%s", h)
		var se *startErr
		c.Check(errors.As(h.err, &se) && start[se.target] == 1, "the run returned %v, not the error of the target that could not be started:\n%s", h.err, h)
		c.NonTrivialIf(nt >= 2 && len(k.Tasks) >= 1)
	} else {
		c.NonTrivialIf(nt >= 2 && len(k.Tasks) >= 3)
	}
}

func runR08(c *Ctx, k RunCase) {
	h := execute(&k)
	tasksOf := map[string][]int{}
	for i, t := range k.Tasks {
		if t.Msg != "" {
			tasksOf[string(t.Msg)] = append(tasksOf[string(t.Msg)], i)
		}
	}
	logs, begins := map[string]int{}, map[string]int{}
	ended := make([]bool, len(k.Tasks))
	for _, e := range h.events {
		switch e.kind {
		case "log":
			ts, ok := tasksOf[e.text]
			c.Check(ok, "%q was announced, which is the message of no task:\n%s", e.text, h)
			logs[e.text]++
			able := 0
			for _, i := range ts {
				ready := true
				for _, j := range k.after(i) {
					ready = ready && j >= 0 && ended[j]
				}
				if ready {
					able++
				}
			}
			c.Check(logs[e.text] <= able, "%q was announced before the dependencies of its task had finished:\n%s", e.text, h)
		case "begin":
			m := string(k.Tasks[e.task].Msg)
			if m == "" {
				continue
			}
			begins[m]++
			c.Check(logs[m] >= begins[m], "task %d started without its message %q having been announced:\n%s", e.task, m, h)
		case "end":
			ended[e.task] = true
		}
	}
	for m := range tasksOf {
		c.Check(logs[m] == begins[m], "%q was announced %d times, but its task was executed %d times:\n%s", m, logs[m], begins[m], h)
	}
	c.NonTrivialIf(len(logs) >= 2)
}

func init() {
	rule := "runbook with random graph, targets, limits and names, executed by the real runner in a synctest bubble under a generated completion schedule; non-trivial: "
	Add("R01", "runner", Opt{Quick: 4000, Thorough: 120000, Rule: rule + "two or more edges and two tasks executing at once; a third of the runs have failing tasks"},
		func(t *rapid.T) RunCase { return genRun(t, runMode{fail: Chance(t, "mode", 33)}) }, runR01, largeRuns(runMode{})...)
	Add("R02", "runner", Opt{Quick: 5000, Thorough: 120000, Rule: rule + "three or more tasks"},
		func(t *rapid.T) RunCase { return genRun(t, runMode{huge: true}) }, runR02, largeRuns(runMode{})...)
	Add("R03", "runner", Opt{Quick: 5000, Thorough: 120000, Rule: rule + "three or more tasks, an edge and a failing task"},
		func(t *rapid.T) RunCase { return genRun(t, runMode{fail: true, oneTarget: 25}) }, runR03, largeRuns(runMode{fail: true})...)
	Add("R21", "runner", Opt{Quick: 5000, Thorough: 120000, Rule: rule + "a task failed while something else was ready or executing"},
		func(t *rapid.T) RunCase { return genRun(t, runMode{fail: true, wide: true, oneTarget: 25}) }, runR21, largeRuns(runMode{fail: true})...)
	Add("R04", "runner", Opt{Quick: 5000, Thorough: 120000, Rule: rule + "two or more tasks and a cycle or dangling dependency"},
		func(t *rapid.T) RunCase { return genRun(t, runMode{invalid: true}) }, runR04, largeRuns(runMode{invalid: true})...)
	Add("R05", "runner", Opt{Quick: 2500, Thorough: 60000, Rule: rule + "three or more tasks"},
		func(t *rapid.T) RunCase { return genRun(t, runMode{fail: Chance(t, "mode", 20), oneTarget: 30}) }, runR05, largeRuns(runMode{})...)
	Add("R06", "runner", Opt{Quick: 4000, Thorough: 100000, Rule: rule + "three or more tasks and two or more targets"},
		func(t *rapid.T) RunCase { return genRun(t, runMode{}) }, runR06, largeRuns(runMode{})...)
	Add("R07", "runner", Opt{Quick: 5000, Thorough: 120000, Rule: rule + "two or more targets with a start failure and tasks, or with three or more tasks"},
		func(t *rapid.T) RunCase {
			return genRun(t, runMode{startErr: Bool(t, "starterrs"), fail: Bool(t, "fails"), invalid: Chance(t, "inv", 15)})
		}, runR07, largeRuns(runMode{})...)
	Add("R08", "runner", Opt{Quick: 4000, Thorough: 100000, Rule: rule + "two or more different messages announced"},
		func(t *rapid.T) RunCase { return genRun(t, runMode{manyMsgs: true, fail: Chance(t, "mode", 30)}) }, runR08, largeRuns(runMode{manyMsgs: true})...)
}
