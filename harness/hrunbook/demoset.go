//go:build go1.23

package main

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"os"

	tsdemo "github.com/sjansen/pgutil/internal/taskset/demo"
	"github.com/sjansen/pgutil/internal/taskset/types"
	. "github.com/sjansen/pgutil/internal/zzverif/engine"
)

// quietly sends what is printed on the process's own output nowhere.
func quietly(f func()) {
	null, err := os.OpenFile(os.DevNull, os.O_WRONLY, 0)
	if err != nil {
		Harnessf("%v", err)
	}
	saved := os.Stdout
	os.Stdout = null
	defer func() {
		os.Stdout = saved
		null.Close()
	}()
	f()
}

// runDemoSet executes the tasks on task-set targets, one after the other, and
// looks at the strings after each.
func runDemoSet(c *Ctx, k DemoCase) {
	var out bytes.Buffer
	f := &tsdemo.TargetFactory{Stdout: &out}
	var targets []*tsdemo.Target
	for _, s := range k.Strings {
		t, ok := f.NewTarget().(*tsdemo.Target)
		if !ok {
			Harnessf("unexpected target type")
		}
		t.String = string(s)
		targets = append(targets, t)
	}
	c.NonTrivialIf(len(k.Tasks) > 1)
	type queue struct {
		in  chan<- types.TaskBatch
		out <-chan types.TaskResults
	}
	queues := map[int]queue{}
	queued := len(k.Shuffle)%2 == 1
	step := DemoCase{Strings: k.Strings}
	quietly(func() {
		for i, x := range k.Tasks {
			t := targets[x.Target]
			task, err := t.NewTask(x.Kind)
			c.Check(err == nil, "NewTask(%q): %v", x.Kind, err)
			c.Check(task.Ready() == nil, "%s is not ready", x.Kind)
			id := types.TaskID(fmt.Sprint("x", i))
			if queued {
				q, ok := queues[x.Target]
				if !ok {
					q.in, q.out = t.Start()
					queues[x.Target] = q
				}
				q.in <- types.TaskBatch{id: task}
				r := <-q.out
				e, ok := r[id]
				c.Check(len(r) == 1 && ok, "the result of %s is %v", id, r)
				err = e
			} else {
				err = t.Run(context.Background(), task)
			}
			if x.Kind == "fail" {
				c.Check(errors.Is(err, tsdemo.ErrFail), "fail ends with %v", err)
			} else {
				c.Check(err == nil, "%s ends with %v", x.Kind, err)
			}
			step.Tasks = k.Tasks[:i+1]
			want, ss, _ := step.model(false)
			c.Check(out.String() == want, "%q is printed, expected %q", out.String(), want)
			for j := range ss {
				s := targets[j].String
				c.Check(s == ss[j], "after task %d (%s on %d) string %d is %q, expected %q", i, x.Kind, x.Target, j, s, ss[j])
			}
		}
		for _, q := range queues {
			close(q.in)
		}
	})
}

func init() {
	Add("R19", "taskset", Opt{Quick: 3000, Thorough: 100000,
		Rule: "sequence of echo, rev, rot13 and fail tasks executed one after the other on task-set targets, directly or through a queue, strings compared after each; non-trivial: two or more tasks"},
		genDemo, runDemoSet)
}
