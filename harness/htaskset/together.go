//go:build go1.23

package main

import (
	"context"
	"errors"
	"fmt"
	"runtime"
	"strings"
	"sync"

	"github.com/sjansen/pgutil/internal/taskset/demo"
	"github.com/sjansen/pgutil/internal/taskset/types"
	. "github.com/sjansen/pgutil/internal/zzverif/engine"
	"github.com/sjansen/pgutil/internal/zzverif/rapid"
)

// ---------------------------------------------------------------- T03

// SharedCase is a demo target that works on several tasks at once.
type SharedCase struct {
	String S
	Max    int
	Rounds []SharedRound
	Yields int // how often a write lets the others go first
	Second bool
}

// SharedRound is work that is begun together; the next round begins when all
// of it has ended.
type SharedRound struct {
	Batches [][]string // tasks that are queued
	Direct  []string   // tasks that are run by as many callers
}

func genShared(t *rapid.T) SharedCase {
	k := SharedCase{
		Max: Pick(t, "max", 1, 2, 3, 8, 0, -1, 1<<62), Yields: Even(t, "yields", 4), Second: Chance(t, "second", 20),
		String: S(strings.ToValidUTF8(strings.ReplaceAll(Text(t, "string", 8), "\n", "n"), "?")),
	}
	if Chance(t, "long", 20) {
		k.String += S(strings.Repeat("Lorem ipsum ", 30*Int(t, "longer", 1, 30)))
	}
	tasks := func(name string, max int) []string {
		var out []string
		for n := Even(t, name+"#", max+1); n > 0; n-- {
			out = append(out, []string{"echo", "echo", "rev", "rev", "rot13", "rot13", "fail", "foreign"}[Even(t, name, 8)])
		}
		return out
	}
	for n := Int(t, "rounds", 1, 4); n > 0; n-- {
		var r SharedRound
		for m := Even(t, "batches", 4); m > 0; m-- {
			r.Batches = append(r.Batches, tasks("queued", 6))
		}
		r.Direct = tasks("direct", 4)
		k.Rounds = append(k.Rounds, r)
	}
	return k
}

// yieldingWriter gives the others a chance between the bytes and keeps no
// lock while it does.
type yieldingWriter struct {
	mu     sync.Mutex
	buf    []byte
	yields int
}

func (w *yieldingWriter) Write(p []byte) (int, error) {
	for i := 0; i < w.yields; i++ {
		runtime.Gosched()
	}
	w.mu.Lock()
	w.buf = append(w.buf, p...)
	w.mu.Unlock()
	for i := 0; i < w.yields; i++ {
		runtime.Gosched()
	}
	return len(p), nil
}

func refReverse(s string) string {
	r := []rune(s)
	for i, j := 0, len(r)-1; i < j; i, j = i+1, j-1 {
		r[i], r[j] = r[j], r[i]
	}
	return string(r)
}

func refRotate(s string) string {
	const letters = "abcdefghijklmnopqrstuvwxyzabcdefghijklm"
	const upper = "ABCDEFGHIJKLMNOPQRSTUVWXYZABCDEFGHIJKLM"
	return strings.Map(func(r rune) rune {
		if i := strings.IndexRune(letters, r); i >= 0 {
			return rune(letters[i+13])
		}
		if i := strings.IndexRune(upper, r); i >= 0 {
			return rune(upper[i+13])
		}
		return r
	}, s)
}

func runShared(c *Ctx, k SharedCase) {
	w := &yieldingWriter{yields: k.Yields}
	factory := &demo.TargetFactory{Stdout: w}
	target, ok := factory.NewTarget().(*demo.Target)
	if !ok {
		Harnessf("unexpected target type")
	}
	target.MaxConcurrency = k.Max
	target.String = string(k.String)

	// the string as it is, reversed, rotated and both
	forms := [4]string{string(k.String), refReverse(string(k.String)), refRotate(string(k.String)), refRotate(refReverse(string(k.String)))}
	base := 0
	atOnce := 0
	quietly(func() {
		queue, results := target.Start()
		defer func() {
			close(queue)
			n := 0
			for range results {
				n++
			}
			c.Check(n == 0, "%d results after the last", n)
		}()
		// another target of the factory is busy at the same time
		var bystander *demo.Target
		if k.Second {
			bystander, _ = factory.NewTarget().(*demo.Target)
			bystander.String = "bystander"
			bystander.MaxConcurrency = 3
		}
		nr := 0
		for ri, round := range k.Rounds {
			counts := map[string]int{}
			kinds := map[types.TaskID]string{}
			total := 0
			newTask := func(kind string) types.Task {
				if kind == "foreign" {
					task, _ := newTarget("sh", 1, nil).NewTask("")
					return task
				}
				task, err := target.NewTask(kind)
				c.Check(err == nil, "NewTask(%q): %v", kind, err)
				return task
			}
			before := len(w.buf)
			var batches []types.TaskBatch
			for _, kindsOf := range round.Batches {
				b := types.TaskBatch{}
				for _, kind := range kindsOf {
					id := types.TaskID(fmt.Sprint("x", nr))
					nr++
					b[id] = newTask(kind)
					kinds[id] = kind
					counts[kind]++
					total++
				}
				batches = append(batches, b)
			}
			var direct []types.Task
			for _, kind := range round.Direct {
				direct = append(direct, newTask(kind))
				counts[kind]++
			}
			if n := total + len(direct); n > atOnce {
				atOnce = n
			}

			var wg sync.WaitGroup
			got := map[types.TaskID][]error{}
			wg.Add(1)
			go func() {
				defer wg.Done()
				for n := 0; n < total; n++ {
					r, ok := <-results
					if !ok {
						return
					}
					for id, err := range r {
						got[id] = append(got[id], err)
					}
				}
			}()
			errs := make([]error, len(direct))
			for i := range direct {
				i := i
				wg.Add(1)
				go func() {
					defer wg.Done()
					errs[i] = target.Run(context.Background(), direct[i])
				}()
			}
			if bystander != nil {
				wg.Add(1)
				go func() {
					defer wg.Done()
					bystander.Run(context.Background(), &demo.Rev{})
					bystander.Run(context.Background(), &demo.Rot13{})
				}()
			}
			for _, b := range batches {
				queue <- b
			}
			wg.Wait()

			verdict := func(what string, kind string, err error) {
				switch kind {
				case "fail":
					c.Check(errors.Is(err, demo.ErrFail), "%s ends with %v", what, err)
				case "foreign":
					c.Check(err != nil, "%s, a task of another class, is executed", what)
				default:
					c.Check(err == nil, "%s ends with %v", what, err)
				}
			}
			for id, kind := range kinds {
				c.Check(len(got[id]) == 1, "round %d: %d results for %q", ri, len(got[id]), id)
				verdict(fmt.Sprintf("round %d: %s", ri, kind), kind, got[id][0])
			}
			c.Check(len(got) == len(kinds), "round %d: results for %d tasks, %d were queued", ri, len(got), len(kinds))
			for i, kind := range round.Direct {
				verdict(fmt.Sprintf("round %d: %s, run directly", ri, kind), kind, errs[i])
			}

			// is there an order of the round's tasks that explains the output?
			text := string(w.buf[before:])
			lines := strings.Split(text, "\n")
			c.Check(lines[len(lines)-1] == "", "round %d: the last line of %q is not complete", ri, text)
			lines = lines[:len(lines)-1]
			c.Check(len(lines) == counts["echo"], "round %d: %d echo tasks print %q", ri, counts["echo"], text)
			type state struct{ rev, rot int }
			reach := map[state]bool{{0, 0}: true}
			form := func(s state) string { return forms[base^(s.rev%2)^(s.rot%2*2)] }
			for li, line := range lines {
				next := map[state]bool{}
				for s := range reach {
					for i := s.rev; i <= counts["rev"] && i <= s.rev+1; i++ {
						for j := s.rot; j <= counts["rot13"] && j <= s.rot+1; j++ {
							if form(state{i, j}) == line {
								next[state{i, j}] = true
							}
						}
					}
				}
				c.Check(len(next) > 0, "round %d began with the string %q and had %d rev and %d rot13 tasks; no order of the tasks explains line %d of %q", ri, forms[base], counts["rev"], counts["rot13"], li+1, text)
				reach = next
			}
			base = base ^ (counts["rev"] % 2) ^ (counts["rot13"] % 2 * 2)
			c.Check(target.String == forms[base], "after round %d with %d rev and %d rot13 tasks the string is %q, expected %q", ri, counts["rev"], counts["rot13"], target.String, forms[base])
			if bystander != nil {
				want := "bystander"
				if ri%2 == 0 {
					want = refRotate(refReverse(want))
				}
				c.Check(bystander.String == want, "the string of another target is %q, expected %q", bystander.String, want)
			}
		}
	})
	c.NonTrivialIf(atOnce > 1)
	c.Class("up to %d at once", atOnce/4*4+3)
}

func init() {
	Add("T03", "shared", Opt{Quick: 2000, Thorough: 100000,
		Rule: "rounds of echo, rev, rot13, fail and unsuitable tasks begun together on one demo target, queued in batches and run by several callers, with real concurrency and a writer that lets others go first, by a harness built with the race detector; the lines echoed must be explained by some order of the tasks; non-trivial: a round with two or more tasks"},
		genShared, runShared)
}
