//go:build go1.23

package main

import (
	"fmt"
	"sort"
	"strings"
	"sync"
	"testing"
	"testing/synctest"
	"time"

	"go.uber.org/zap"
	"go.uber.org/zap/zapcore"

	"github.com/sjansen/pgutil/internal/runbook"
	"github.com/sjansen/pgutil/internal/sys"
	. "github.com/sjansen/pgutil/internal/zzverif/engine"
	"github.com/sjansen/pgutil/internal/zzverif/rapid"
)

// ---------------------------------------------------------------- R23

// TimedTask is a task of a demo target and how long it takes.
type TimedTask struct {
	Target int
	Kind   string // "sleep", "echo" or "fail"
	Secs   int
	Unset  bool `json:",omitempty"` // the setting is left out
	After  []int
	Text   bool `json:",omitempty"` // the name begins with a letter that sorts late
}

// Timed is a run book of demo tasks that take known times.
type Timed struct {
	Targets int
	Tasks   []TimedTask
	Shuffle []int
}

func genTimed(t *rapid.T) Timed {
	k := Timed{Targets: Int(t, "targets", 1, 5)}
	n := Int(t, "tasks", 1, 12)
	if Chance(t, "many", 5) {
		n = 12 + Size(t, "more", 60)
	}
	fails := Chance(t, "fails", 25)
	density := Pick(t, "density", 0, 10, 25, 25, 60)
	same := Chance(t, "same", 20)
	for i := 0; i < n; i++ {
		x := TimedTask{Target: Even(t, "on", k.Targets), Kind: Pick(t, "kind", "sleep", "sleep", "sleep", "sleep", "echo")}
		if fails && Chance(t, "fail", 15) {
			x.Kind = "fail"
		}
		if x.Kind == "sleep" {
			secs := []int{1, 2, 3, 4, 5, 7, 10, 29, 30, 31, 59, 60, 61, 90, 100, 119, 120, 255, 256, 300, 599, 600, 601, 999, 1000, 1001, 3599, 3600, 3601, 7200, 32768, 65536, 86399, 86400, 86401, 1000000, 100000000, 0, -1, -5, -3600}
			x.Secs = secs[Even(t, "secs", len(secs))]
			if Chance(t, "short", 50) {
				x.Secs = 1 + Even(t, "short secs", 6)
			}
			if same {
				x.Secs = 2
			}
			x.Unset = Chance(t, "unset", 5)
		}
		for j := 0; j < i; j++ {
			if i-j < 12 && Chance(t, "dep", density) {
				x.After = append(x.After, j)
			}
		}
		x.Text = Bool(t, "name")
		k.Tasks = append(k.Tasks, x)
	}
	k.Shuffle = Perm(t, "shuffle", n)
	return k
}

func (k *Timed) name(i int) string {
	if k.Tasks[i].Text {
		return fmt.Sprintf("z%03d", len(k.Tasks)-i)
	}
	return fmt.Sprintf("a%03d", i)
}

// takes is how long a task works.
func (x *TimedTask) takes() time.Duration {
	switch {
	case x.Kind != "sleep":
		return 0
	case x.Unset || x.Secs < 1:
		return time.Second
	}
	return time.Duration(x.Secs) * time.Second
}

// clockCore notes when messages are announced.
type clockCore struct {
	mu    sync.Mutex
	start time.Time
	begun map[string][]time.Duration
}

func (l *clockCore) Enabled(zapcore.Level) bool        { return true }
func (l *clockCore) With([]zapcore.Field) zapcore.Core { return l }
func (l *clockCore) Sync() error                       { return nil }
func (l *clockCore) Check(e zapcore.Entry, ce *zapcore.CheckedEntry) *zapcore.CheckedEntry {
	return ce.AddCore(e, l)
}

func (l *clockCore) Write(e zapcore.Entry, _ []zapcore.Field) error {
	if strings.HasPrefix(e.Message, "now begins ") {
		l.mu.Lock()
		defer l.mu.Unlock()
		l.begun[e.Message] = append(l.begun[e.Message], time.Since(l.start))
	}
	return nil
}

// clockWriter notes when lines are printed.
type clockWriter struct {
	mu    sync.Mutex
	start time.Time
	lines []string
}

func (w *clockWriter) Write(p []byte) (int, error) {
	w.mu.Lock()
	defer w.mu.Unlock()
	w.lines = append(w.lines, fmt.Sprintf("%q at %v", p, time.Since(w.start)))
	return len(p), nil
}

// clockPatience is how long a run may take on the real clock.
var clockPatience = 40 * time.Second

func runTimed(c *Ctx, k Timed) {
	tg, ts := obj(), obj()
	for i := 0; i < k.Targets; i++ {
		tg.set(S(fmt.Sprintf("t%d", i)), obj().set("class", str("demo")).set("config", obj().set("string", str(S(fmt.Sprintf("text %d", i))))))
	}
	sleeps := 0
	for _, i := range k.Shuffle {
		x := k.Tasks[i]
		o := obj().set("target", str(S(fmt.Sprintf("t%d/%s", x.Target, x.Kind)))).set("message", str(S("now begins "+k.name(i))))
		if len(x.After) > 0 {
			var after []S
			for _, j := range x.After {
				after = append(after, S(k.name(j)))
			}
			o.set("after", strs(after))
		}
		if x.Kind == "sleep" {
			sleeps++
			if !x.Unset {
				o.set("config", obj().set("seconds", num(x.Secs)))
			}
		}
		ts.set(S(k.name(i)), o)
	}
	c.NonTrivialIf(sleeps > 0 && len(k.Tasks) > 1)
	if k.Targets > 1 {
		c.Class("several targets")
	}
	text := obj().set("targets", tg).set("tasks", ts).json()
	dir := writeFiles(map[string]string{"book.jsonnet": text})
	defer dropDir(dir)

	var elapsed time.Duration
	var err error
	var ended bool
	log := &clockCore{begun: map[string][]time.Duration{}}
	out, errs := &clockWriter{}, &clockWriter{}
	stuck := ""
	over := make(chan interface{}, 1)
	go func() {
		defer func() {
			x := recover()
			if msg := fmt.Sprint(x); strings.HasPrefix(msg, "deadlock:") {
				stuck, x = msg, nil
			}
			over <- x
		}()
		synctest.Test(T, func(*testing.T) {
			start := time.Now()
			log.start, out.start, errs.start = start, start, start
			io := &sys.IO{Log: zap.New(log).Sugar(), Stdout: out, Stderr: errs}
			err = runbook.Run(io, dir+"/book.jsonnet")
			elapsed = time.Since(start)
			ended = true
		})
	}()
	select {
	case x := <-over:
		if x != nil {
			panic(x)
		}
	case <-time.After(clockPatience):
		// the clock stands still while a task waits for a lock that a sleeping
		// one holds
		clockPatience = 10 * time.Second
		c.Failf("the run doesn't get on: something other than an earlier task holds up a task\n%s", text)
	}
	c.Check(ended, "the run never ends: %s\n%s", stuck, text)

	n := len(k.Tasks)
	begin := make([]time.Duration, n)
	begun := make([]bool, n)
	failed := time.Duration(-1)
	last := time.Duration(0)
	var lines []string
	for i := range k.Tasks {
		x := &k.Tasks[i]
		at := log.begun["now begins "+k.name(i)]
		c.Check(len(at) < 2, "task %s is announced %d times\n%s", k.name(i), len(at), text)
		if len(at) == 0 {
			continue
		}
		begun[i], begin[i] = true, at[0]
		last = max(last, begin[i]+x.takes())
		switch x.Kind {
		case "fail":
			if failed < 0 || begin[i] < failed {
				failed = begin[i]
			}
		case "echo":
			lines = append(lines, fmt.Sprintf("%q at %v", fmt.Sprintf("text %d\n", x.Target), begin[i]))
		}
	}
	c.Check((err != nil) == (failed >= 0), "the run ends with %v, a task failed: %v\n%s", err, failed >= 0, text)
	c.Check(elapsed == last, "the run takes %v, its tasks end at %v\n%s", elapsed, last, text)
	sort.Strings(lines)
	sort.Strings(out.lines)
	c.Check(strings.Join(lines, "; ") == strings.Join(out.lines, "; "), "the run prints %s, expected %s\n%s", out.lines, lines, text)
	c.Check(len(errs.lines) == 0, "the run writes %s to the error stream", errs.lines)
	for i := range k.Tasks {
		x := &k.Tasks[i]
		ready, can := time.Duration(0), true
		for _, j := range x.After {
			if !begun[j] || k.Tasks[j].Kind == "fail" {
				can = false
				break
			}
			ready = max(ready, begin[j]+k.Tasks[j].takes())
		}
		if begun[i] {
			c.Check(can && ready <= begin[i], "task %s begins at %v, before the tasks it is after have ended\n%s", k.name(i), begin[i], text)
		}
		if !can {
			continue
		}
		// from the moment it could begin its target is busy
		until := begin[i]
		if !begun[i] {
			c.Check(failed >= 0, "task %s never begins\n%s", k.name(i), text)
			until = failed
		}
		if failed >= 0 && until > failed {
			until = failed
		}
		busy := time.Duration(0)
		for j := range k.Tasks {
			if j == i || !begun[j] || k.Tasks[j].Target != x.Target {
				continue
			}
			from, to := begin[j], begin[j]+k.Tasks[j].takes()
			if begun[i] && j < i {
				c.Check(to <= begin[i] || begin[i]+x.takes() <= from, "tasks %s and %s of one target overlap: %v and %v\n%s", k.name(j), k.name(i), from, begin[i], text)
			}
			from, to = max(from, ready), min(to, until)
			if to > from {
				busy += to - from
			}
		}
		if until > ready {
			c.Class("a task waits for its target")
			c.Check(busy == until-ready, "task %s could begin at %v, it hadn't at %v, and its target worked for only %v meanwhile\n%s", k.name(i), ready, until, busy, text)
		}
	}
}

func init() {
	Add("R23", "clock", Opt{Quick: 3000, Thorough: 100000,
		Rule: "runbook of demo tasks that sleep (from one second to years), print or fail on one to five targets with random dependencies, run by the real `runbook run` on a virtual clock; the moment each task is announced and each line printed is recorded; non-trivial: a sleep and another task"},
		genTimed, runTimed)
}
