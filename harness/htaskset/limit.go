//go:build go1.23

package main

import (
	"fmt"
	"sort"
	"strings"
	"sync"
	"testing"
	"testing/synctest"
	"time"

	"github.com/sjansen/pgutil/internal/taskset/demo"
	"github.com/sjansen/pgutil/internal/taskset/types"
	. "github.com/sjansen/pgutil/internal/zzverif/engine"
	"github.com/sjansen/pgutil/internal/zzverif/rapid"
)

// ---------------------------------------------------------------- T04

// LimitCase is one or two demo targets with tasks queued over time.
type LimitCase struct {
	Targets []LimitTarget
}

// LimitTarget is a target's limit and what is put on its queue.
type LimitTarget struct {
	Max     int // 0: not set
	Batches []LimitBatch
}

// LimitBatch is queued some seconds after the one before it.
type LimitBatch struct {
	Pause int
	Secs  []int // sleep tasks; 0: a task that takes no time
}

func genLimit(t *rapid.T) LimitCase {
	var k LimitCase
	n := 1
	if Chance(t, "two", 20) {
		n = 2
	}
	for ; n > 0; n-- {
		x := LimitTarget{Max: []int{0, 1, 2, 2, 3, 3, 4, 5, 8, 1 << 40}[Even(t, "max", 10)]}
		for m := Int(t, "batches", 1, 5); m > 0; m-- {
			b := LimitBatch{Pause: Even(t, "pause", 5)}
			size := Even(t, "size", 8)
			if Chance(t, "many", 1) {
				size = []int{17, 33, 70, 140, 300}[Even(t, "more", 5)]
				x.Max = []int{1, 2, 16, 17, 32, 64, 65, 120, 250, 1 << 40}[Even(t, "maxmore", 10)]
			}
			for ; size > 0; size-- {
				b.Secs = append(b.Secs, Even(t, "secs", 6))
			}
			x.Batches = append(x.Batches, b)
		}
		k.Targets = append(k.Targets, x)
	}
	return k
}

// stretch is the time a task waited and was executed.
type stretch struct {
	id                 types.TaskID
	queued, start, end int // seconds
}

func runLimit(c *Ctx, k LimitCase) {
	problem, leak := "", ""
	most, waited := 0, false
	func() {
		defer func() {
			if x := recover(); x != nil {
				msg := fmt.Sprint(x)
				if !strings.HasPrefix(msg, "deadlock:") {
					panic(x)
				}
				leak = msg
			}
		}()
		quietly(func() {
			synctest.Test(T, func(*testing.T) {
				out := &countingWriter{}
				factory := &demo.TargetFactory{Stdout: out}
				began := time.Now()
				now := func() int { return int(time.Since(began) / time.Second) }
				var mu sync.Mutex
				var wg sync.WaitGroup
				for i := range k.Targets {
					x := k.Targets[i]
					target, ok := factory.NewTarget().(*demo.Target)
					if !ok {
						Harnessf("unexpected target type")
					}
					if x.Max > 0 {
						target.MaxConcurrency = x.Max
					}
					queue, results := target.Start()
					tasks := map[types.TaskID]*stretch{}
					secs := map[types.TaskID]int{}
					wg.Add(1)
					go func() {
						defer wg.Done()
						for r := range results {
							mu.Lock()
							for id := range r {
								if s := tasks[id]; s != nil {
									s.end = now()
									s.start = s.end - secs[id]
								}
							}
							mu.Unlock()
						}
						mu.Lock()
						defer mu.Unlock()
						var all []*stretch
						for _, s := range tasks {
							if s.end >= 0 {
								all = append(all, s)
							}
						}
						p, m, w := judgeLimit(all, max(1, x.Max))
						if problem == "" {
							problem = p
						}
						most = max(most, m)
						waited = waited || w
					}()
					wg.Add(1)
					go func() {
						defer wg.Done()
						n := 0
						for _, b := range x.Batches {
							time.Sleep(time.Duration(b.Pause) * time.Second)
							batch := types.TaskBatch{}
							mu.Lock()
							for _, s := range b.Secs {
								id := types.TaskID(fmt.Sprint("x", n))
								n++
								kind := "sleep"
								if s == 0 {
									kind = "rev"
								}
								task, err := target.NewTask(kind)
								if err != nil {
									Harnessf("NewTask: %v", err)
								}
								if s > 0 {
									task.(*demo.Sleep).Seconds = s
								}
								batch[id] = task
								secs[id] = s
								tasks[id] = &stretch{id: id, queued: now(), end: -1}
							}
							mu.Unlock()
							queue <- batch
						}
						close(queue)
					}()
				}
				wg.Wait()
			})
		})
	}()
	c.NonTrivialIf(waited)
	c.Class("up to %d executed at once", min(most, 16))
	c.Check(leak == "", "work is left behind: %s", leak)
	c.Check(problem == "", "%s", problem)
}

// judgeLimit looks at every second: no more tasks are executed than the limit
// allows, and as many while any wait.
func judgeLimit(all []*stretch, limit int) (problem string, most int, waited bool) {
	sort.Slice(all, func(i, j int) bool { return all[i].end < all[j].end })
	last := 0
	for _, s := range all {
		last = max(last, s.end)
		if s.start < s.queued {
			return fmt.Sprintf("%s ended %d s after it was queued, but takes %d", s.id, s.end-s.queued, s.end-s.start), most, waited
		}
	}
	for t := 0; t < last; t++ {
		running, waiting := 0, types.TaskID("")
		for _, s := range all {
			switch {
			case s.start <= t && t < s.end:
				running++
			case s.queued <= t && t < s.start:
				waiting = s.id
			}
		}
		most = max(most, running)
		waited = waited || waiting != ""
		if running > limit {
			return fmt.Sprintf("%d tasks are executed at once %d s after the beginning, although max_concurrency is %d", running, t, limit), most, waited
		}
		if waiting != "" && running < limit {
			return fmt.Sprintf("%d s after the beginning %s is held back while only %d tasks are executed and max_concurrency is %d", t, waiting, running, limit), most, waited
		}
	}
	return "", most, waited
}

func init() {
	Add("T04", "limit", Opt{Quick: 20000, Thorough: 600000,
		Rule: "one or two demo targets with a limit of 1 to 64 or a huge one, on whose queues batches of sleep tasks and of tasks that take no time are put over time, every result read at once, executed in a synctest bubble; what was executed when follows from when the results come; non-trivial: some task had to wait"},
		genLimit, runLimit)
}
