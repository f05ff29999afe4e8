//go:build go1.23

package main

import (
	"bytes"
	"errors"
	"fmt"
	"strings"
	"sync"
	"testing"
	"testing/synctest"
	"time"

	"github.com/sjansen/pgutil/internal/taskset/demo"
	"github.com/sjansen/pgutil/internal/taskset/pg"
	"github.com/sjansen/pgutil/internal/taskset/sh"
	"github.com/sjansen/pgutil/internal/taskset/types"
	. "github.com/sjansen/pgutil/internal/zzverif/engine"
	"github.com/sjansen/pgutil/internal/zzverif/rapid"
)

// ---------------------------------------------------------------- T02

// QueueCase is what is done to a target's queue.
type QueueCase struct {
	Kind   string // demo, pg or sh
	Max    int    // demo: max_concurrency
	Ops    []QueueOp
	Linger int // seconds between the last operation and closing the queue
}

// QueueOp queues a batch, lets time pass or reads some results.
type QueueOp struct {
	Op    string      // "batch", "pass", "read", "readall"
	Batch []QueueTask `json:",omitempty"`
	N     int         `json:",omitempty"`
}

// QueueTask is one task; tasks of the same case have different names unless
// Again says to repeat an earlier name.
type QueueTask struct {
	Kind  string
	Secs  int
	Again int // 0, or the name of the task so many before
}

func genQueue(t *rapid.T) QueueCase {
	k := QueueCase{
		Kind:   Pick(t, "kind", "demo", "demo", "demo", "demo", "pg", "sh"),
		Max:    Pick(t, "max", 1, 1, 2, 3, 5, 0, 20, -1, -5, 1<<62, -1<<63, 1<<40),
		Linger: Int(t, "linger", 0, 12),
	}
	for n := Int(t, "ops", 0, 10); n > 0; n-- {
		op := QueueOp{Op: Pick(t, "op", "batch", "batch", "batch", "pass", "pass", "read", "readall")}
		switch op.Op {
		case "pass":
			op.N = Int(t, "secs", 1, 5)
		case "read":
			op.N = Int(t, "n", 1, 4)
		case "batch":
			for m := Int(t, "size", 0, 5); m > 0; m-- {
				x := QueueTask{Kind: Pick(t, "task", "sleep", "sleep", "sleep", "echo", "rev", "rot13", "fail", "foreign", "nil")}
				if x.Kind == "sleep" {
					x.Secs = Int(t, "for", 0, 6)
				}
				if Chance(t, "again", 8) {
					x.Again = Int(t, "againn", 1, 6)
				}
				op.Batch = append(op.Batch, x)
			}
			if m := len(op.Batch); m > 0 && Chance(t, "many", 1) {
				for n := []int{9, 17, 33, 65, 130, 300, 1100}[Even(t, "more", 7)]; n > 0; n-- {
					op.Batch = append(op.Batch, op.Batch[n%m])
				}
			}
		}
		k.Ops = append(k.Ops, op)
	}
	return k
}

type countingWriter struct {
	mu  sync.Mutex
	buf bytes.Buffer
}

func (w *countingWriter) Write(p []byte) (int, error) {
	w.mu.Lock()
	defer w.mu.Unlock()
	return w.buf.Write(p)
}

type queued struct {
	task QueueTask
	at   time.Time
}

type queueRun struct {
	k       *QueueCase
	problem string
	total   int
}

func (q *queueRun) fail(format string, args ...interface{}) {
	if q.problem == "" {
		q.problem = fmt.Sprintf(format, args...)
	}
}

func newTarget(kind string, max int, out *countingWriter) types.Target {
	switch kind {
	case "pg":
		return (&pg.TargetFactory{}).NewTarget()
	case "sh":
		return (&sh.TargetFactory{}).NewTarget()
	}
	t := (&demo.TargetFactory{Stdout: out}).NewTarget()
	if d, ok := t.(*demo.Target); ok {
		d.MaxConcurrency = max
		d.String = "word"
	}
	return t
}

func (q *queueRun) bubble() {
	k := q.k
	out := &countingWriter{}
	target := newTarget(k.Kind, k.Max, out)
	queue, results := target.Start()

	var mu sync.Mutex
	sent := map[types.TaskID][]queued{}
	got := map[types.TaskID][]error{}
	gotAt := map[types.TaskID][]time.Time{}
	closed := false
	order := []types.TaskID{}

	// the reader reads as many results as it is permitted
	permits := make(chan int, 1000)
	go func() {
		left := 0
		for {
			for left == 0 {
				n, ok := <-permits
				if !ok {
					left = -1
				} else {
					left += n
				}
			}
			r, ok := <-results
			mu.Lock()
			if !ok {
				closed = true
				mu.Unlock()
				return
			}
			if len(r) != 1 {
				q.fail("a result with %d entries: %v", len(r), r)
			}
			for id, err := range r {
				got[id] = append(got[id], err)
				gotAt[id] = append(gotAt[id], time.Now())
				order = append(order, id)
			}
			mu.Unlock()
			if left > 0 {
				left--
			}
		}
	}()

	// the writer queues the batches in order
	batches := make(chan types.TaskBatch, 1000)
	go func() {
		for b := range batches {
			mu.Lock()
			for id := range b {
				x := sent[id]
				x[len(x)-1].at = time.Now()
			}
			mu.Unlock()
			queue <- b
		}
		close(queue)
	}()

	n := 0
	all := false
	for _, op := range k.Ops {
		switch op.Op {
		case "pass":
			time.Sleep(time.Duration(op.N) * time.Second)
		case "read":
			if !all {
				permits <- op.N
			}
		case "readall":
			if !all {
				close(permits)
				all = true
			}
		case "batch":
			b := types.TaskBatch{}
			for _, x := range op.Batch {
				i := n
				if x.Again > 0 {
					i = max(0, n-x.Again)
				} else {
					n++
				}
				id := types.TaskID(fmt.Sprint("x", i))
				if _, dup := b[id]; dup {
					continue
				}
				var task types.Task
				var err error
				switch x.Kind {
				case "nil":
				case "foreign":
					other := "sh"
					if k.Kind == "sh" {
						other = "pg"
					}
					task, err = newTarget(other, 1, out).NewTask("")
				default:
					task, err = target.NewTask(x.Kind)
				}
				if err != nil {
					q.fail("NewTask: %v", err)
					continue
				}
				if s, ok := task.(*demo.Sleep); ok {
					s.Seconds = x.Secs
				}
				b[id] = task
				mu.Lock()
				sent[id] = append(sent[id], queued{x, time.Time{}})
				mu.Unlock()
				q.total++
			}
			batches <- b
		}
		synctest.Wait()
		mu.Lock()
		for id := range got {
			if len(got[id]) > len(sent[id]) {
				q.fail("%d results for %q, which was queued %d times", len(got[id]), id, len(sent[id]))
			}
		}
		if closed {
			q.fail("the results are closed although the queue is open")
		}
		mu.Unlock()
	}
	time.Sleep(time.Duration(k.Linger) * time.Second)
	close(batches)
	if !all {
		close(permits)
	}
	// longer than the tasks take one after another
	time.Sleep(time.Hour + time.Duration(6*q.total)*time.Second)
	synctest.Wait()
	mu.Lock()
	defer mu.Unlock()
	for id, xs := range sent {
		if len(got[id]) != len(xs) {
			q.fail("%d results for %q, which was queued %d times", len(got[id]), id, len(xs))
			continue
		}
		fails, wantFails := 0, 0
		known := 0
		for _, e := range got[id] {
			if e != nil {
				fails++
			}
			if errors.Is(e, demo.ErrFail) {
				known++
			}
		}
		wantKnown := 0
		for _, x := range xs {
			switch {
			case x.task.Kind == "foreign" || x.task.Kind == "nil":
				wantFails++
			case x.task.Kind == "fail" && k.Kind == "demo":
				wantFails++
				wantKnown++
			}
		}
		if fails != wantFails || known != wantKnown {
			q.fail("the results of %q are %v for the tasks %+v", id, got[id], xs)
		}
		if len(xs) == 1 && xs[0].task.Kind == "sleep" && k.Kind == "demo" {
			if d := gotAt[id][0].Sub(xs[0].at); d < time.Duration(xs[0].task.Secs)*time.Second {
				q.fail("%q sleeps for %d seconds, its result came after %v", id, xs[0].task.Secs, d)
			}
		}
	}
	for id := range got {
		if len(sent[id]) == 0 {
			q.fail("a result for %q, which was never queued", id)
		}
	}
	if !closed {
		q.fail("every result was read and the queue is closed, but the results are not")
	}
	if k.Kind == "demo" {
		echos, odd, rot := 0, 0, 0
		for _, xs := range sent {
			for _, x := range xs {
				switch x.task.Kind {
				case "echo":
					echos++
				case "rev":
					odd++
				case "rot13":
					rot++
				}
			}
		}
		out.mu.Lock()
		lines := strings.Count(out.buf.String(), "\n")
		out.mu.Unlock()
		if lines != echos {
			q.fail("%d lines were echoed by %d tasks", lines, echos)
		}
		want := map[int]string{0: "word", 1: "drow", 2: "jbeq", 3: "qebj"}[odd%2+2*(rot%2)]
		if d, ok := target.(*demo.Target); ok && d.String != want {
			q.fail("the string is %q after %d rev and %d rot13 tasks, expected %q", d.String, odd, rot, want)
		}
	}
}

func runQueue(c *Ctx, k QueueCase) {
	q := &queueRun{k: &k}
	leak := ""
	func() {
		defer func() {
			x := recover()
			if x == nil {
				return
			}
			if msg := fmt.Sprint(x); strings.HasPrefix(msg, "deadlock:") {
				leak = msg
				return
			}
			panic(x)
		}()
		quietly(func() {
			synctest.Test(T, func(*testing.T) { q.bubble() })
		})
	}()
	c.Class("%s", k.Kind)
	c.NonTrivialIf(q.total > 1)
	c.Check(q.problem == "", "%s", q.problem)
	c.Check(leak == "", "work is left behind: %s", leak)
}

func init() {
	Add("T02", "queue", Opt{Quick: 20000, Thorough: 600000,
		Rule: "sequence of batches of sleep, echo, rev, rot13, fail and unsuitable tasks put on a target's queue while time passes and results are read at a generated pace, then the queue is closed; executed in a synctest bubble; non-trivial: two or more tasks"},
		genQueue, runQueue)
}
