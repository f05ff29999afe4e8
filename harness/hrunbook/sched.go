//go:build go1.23

package main

import (
	"context"
	"errors"

	"github.com/sjansen/pgutil/internal/runbook/scheduler"
	"github.com/sjansen/pgutil/internal/runbook/types"
	. "github.com/sjansen/pgutil/internal/zzverif/engine"
	"github.com/sjansen/pgutil/internal/zzverif/rapid"
)

// SchedCase is a runbook and an order of completions.
type SchedCase struct {
	G       Graph
	Targets []S
	Caps    []int
	On      []int // target of each task
	Choice  []int
}

func genSched(t *rapid.T) SchedCase {
	k := SchedCase{G: genGraph(t, 24, true)}
	n := k.G.n()
	nt := Int(t, "targets", 1, 4)
	k.Targets = distinctNames(t, "target", nt, true)
	for range k.Targets {
		k.Caps = append(k.Caps, Pick(t, "cap", 1, 1, 2, 3, 4, 100))
	}
	for i := 0; i < n; i++ {
		k.On = append(k.On, Int(t, "on", 0, nt-1))
	}
	k.Choice = rapid.SliceOfN(rapid.IntRange(0, 23), 0, n).Draw(t, "choice")
	return k
}

type capTarget int

func (c capTarget) Analyze() error                                 { return nil }
func (c capTarget) ConcurrencyLimit() int                          { return int(c) }
func (c capTarget) Handle(context.Context, types.TaskConfig) error { return nil }
func (c capTarget) NewTaskConfig(string) (types.TaskConfig, error) { return nil, nil }
func (c capTarget) Start() error                                   { return nil }
func (c capTarget) Stop() error                                    { return nil }

// runSched drives the scheduler against a model.  Which aspect is judged
// depends on the property: the limit (R05), maximality (R06), or that
// everything is issued once and after its dependencies (R01, R02).
func runSched(prop string) func(*Ctx, SchedCase) {
	return func(c *Ctx, k SchedCase) {
		g := &k.G
		n := g.n()
		idx := map[string]int{}
		for i, s := range g.Names {
			idx[string(s)] = i
		}
		tgt := map[string]int{}
		targets := types.Targets{}
		for i, s := range k.Targets {
			tgt[string(s)] = i
			targets[string(s)] = capTarget(k.Caps[i])
		}
		tasks := types.Tasks{}
		nodes := g.nodes()
		for i, s := range g.Names {
			tasks[string(s)] = &types.Task{Target: string(k.Targets[k.On[i]]), After: nodes[string(s)]}
		}
		aspect := func(p string) bool { return p == prop }
		issued, done := make([]bool, n), make([]bool, n)
		load := make([]int, len(k.Targets))
		var inflight []int
		nIssued, maxLoad := 0, 0
		held := false
		take := func(when string, ready map[string][]string) {
			for ts, ids := range ready {
				ti, ok := tgt[ts]
				if aspect("R02") {
					c.Check(ok, "%s: unknown target %q", when, ts)
				}
				for _, id := range ids {
					i, ok2 := idx[id]
					if !ok || !ok2 || k.On[i] != ti || issued[i] {
						if aspect("R02") {
							c.Failf("%s: task %q was handed to target %q (known target %v, known task %v, handed out before %v)", when, id, ts, ok, ok2, ok2 && issued[i])
						}
						if !ok2 || issued[i] {
							continue
						}
						ti = k.On[i]
					}
					if aspect("R01") {
						for _, j := range g.deps(i) {
							c.Check(done[j], "%s: task %q was handed out before %q, on which it depends, was completed", when, id, g.Names[j])
						}
					}
					issued[i] = true
					nIssued++
					load[ti]++
					if load[ti] > maxLoad {
						maxLoad = load[ti]
					}
					inflight = append(inflight, i)
					if aspect("R05") {
						c.Check(load[ti] <= k.Caps[ti], "%s: target %q has %d unfinished tasks, its limit is %d", when, ts, load[ti], k.Caps[ti])
					}
				}
			}
			for i := range issued {
				if issued[i] {
					continue
				}
				ok := true
				for _, j := range g.deps(i) {
					ok = ok && done[j]
				}
				if !ok {
					continue
				}
				if load[k.On[i]] >= k.Caps[k.On[i]] {
					held = true
					continue
				}
				if aspect("R06") {
					c.Failf("%s: task %q is ready and target %q has %d of %d unfinished tasks, but the task was not handed out", when, g.Names[i], k.Targets[k.On[i]], load[k.On[i]], k.Caps[k.On[i]])
				}
			}
		}
		s, ready, err := scheduler.New(targets, tasks)
		if aspect("R02") {
			c.Check(err == nil, "valid tasks refused: %v", err)
		}
		if err != nil {
			return
		}
		take("at the start", ready)
		for step := 0; len(inflight) > 0; step++ {
			p := 0
			if step < len(k.Choice) {
				p = k.Choice[step] % len(inflight)
			}
			i := inflight[p]
			inflight = append(inflight[:p:p], inflight[p+1:]...)
			done[i] = true
			load[k.On[i]]--
			ready, err := s.Next(string(g.Names[i]))
			if nIssued == n {
				if aspect("R02") {
					c.Check(errors.Is(err, scheduler.ErrNoPendingTasks) || err == nil && len(ready) == 0, "everything was handed out, but Next returned %v, %v", ready, err)
				}
				continue
			}
			if err != nil {
				if aspect("R02") || aspect("R06") {
					c.Failf("after completing %q: %v, but only %d of %d tasks were handed out", g.Names[i], err, nIssued, n)
				}
				return
			}
			take("after completing \""+string(g.Names[i])+"\"", ready)
		}
		if aspect("R02") {
			c.Check(nIssued == n, "only %d of %d tasks were ever handed out", nIssued, n)
		}
		switch prop {
		case "R05":
			c.NonTrivialIf(held)
		case "R06":
			c.NonTrivialIf(held && maxLoad > 1)
		default:
			c.NonTrivialIf(g.edges() >= 2)
		}
	}
}

func init() {
	rule := "random graph, targets and limits; the scheduler is driven through a random completion order and compared with a model after each step; non-trivial: "
	Add("R05", "scheduler", Opt{Quick: 8000, Thorough: 300000, Rule: rule + "some task had to wait for capacity"}, genSched, runSched("R05"))
	Add("R06", "scheduler", Opt{Quick: 8000, Thorough: 300000, Rule: rule + "some task had to wait for capacity and a target held several tasks"}, genSched, runSched("R06"))
	Add("R01", "scheduler", Opt{Quick: 5000, Thorough: 200000, Rule: rule + "two or more edges"}, genSched, runSched("R01"))
	Add("R02", "scheduler", Opt{Quick: 5000, Thorough: 200000, Rule: rule + "two or more edges"}, genSched, runSched("R02"))
}
