//go:build go1.23

package main

import (
	"fmt"
	"strings"
	"time"

	"github.com/sjansen/pgutil/internal/runbook"
	. "github.com/sjansen/pgutil/internal/zzverif/engine"
	"github.com/sjansen/pgutil/internal/zzverif/rapid"
)

// Runbooks whose targets are of the classes sh and demo, run as a whole. A
// command writes when it begins and when it ends; that it has ended is written
// before its task can have ended.

// MixedTask is a task of such a runbook.
type MixedTask struct {
	Target int // demo tasks that print have a target of their own
	Kind   string
	N      int // status, signal or milliseconds
	Slow   bool
}

// MixedCase is such a runbook.
type MixedCase struct {
	G     Graph
	Caps  []int // of the shell targets
	Tasks []MixedTask
}

func genMixed(failing int) func(*rapid.T) MixedCase {
	return func(t *rapid.T) MixedCase {
		k := MixedCase{G: genGraph(t, 9, true)}
		if len(k.G.Names) > 40 {
			k.G = genGraph(t, 7, true)
		}
		if len(k.G.Names) > 40 {
			k.G = Graph{Names: []S{"a", "b"}, After: [][]int{nil, {0}}}
		}
		for n := Int(t, "shells", 1, 3); n > 0; n-- {
			k.Caps = append(k.Caps, Even(t, "cap", 4))
		}
		for range k.G.Names {
			x := MixedTask{Kind: []string{"exit", "exit", "exit", "echo", "rev"}[Even(t, "kind", 5)], Target: Even(t, "on", len(k.Caps))}
			if Chance(t, "fails", failing) {
				x.Kind = []string{"exit", "kill", "fail", "missing", "notexec"}[Even(t, "how", 5)]
				if x.Kind == "exit" {
					x.N = []int{1, 2, 3, 126, 127, 128, 137, 255}[Even(t, "status", 8)]
				}
				if x.Kind == "kill" {
					x.N = []int{9, 10, 12, 15}[Even(t, "signal", 4)]
				}
			}
			x.Slow = Chance(t, "slow", 10)
			k.Tasks = append(k.Tasks, x)
		}
		return k
	}
}

func (x *MixedTask) fails() bool {
	return x.N > 0 || x.Kind == "fail" || x.Kind == "missing" || x.Kind == "notexec"
}

func (x *MixedTask) shell() bool { return x.Kind != "echo" && x.Kind != "rev" && x.Kind != "fail" }

// place is the name of the target of a task.
func (k *MixedCase) place(i int) string {
	if k.Tasks[i].shell() {
		return fmt.Sprintf("sh%d", k.Tasks[i].Target)
	}
	return fmt.Sprintf("demo%d", i)
}

func (k *MixedCase) doc() *Node {
	tg, ts := obj(), obj()
	for i, n := range k.Caps {
		cfg := obj()
		if n > 0 {
			cfg.set("concurrency", num(n))
		}
		tg.set(S(fmt.Sprintf("sh%d", i)), obj().set("class", str("sh")).set("config", cfg))
	}
	for i, x := range k.Tasks {
		o := obj()
		if x.shell() {
			script := fmt.Sprintf("echo begin %d;", i)
			if x.Slow {
				script += "sleep 0.03;"
			}
			if x.Kind == "kill" {
				script += fmt.Sprintf("kill -%d $$; exit 0", x.N)
			} else {
				script += fmt.Sprintf("echo end %d; exit %d", i, x.N)
			}
			args := strs([]S{"/bin/sh", "-c", S(script)})
			switch x.Kind {
			case "missing":
				args = strs([]S{"./no-such-command"})
			case "notexec":
				args = strs([]S{"./book.jsonnet"})
			}
			o.set("target", str(S(k.place(i)))).set("config", obj().set("args", args))
		} else {
			tg.set(S(k.place(i)), obj().set("class", str("demo")).set("config", obj().set("string", str(S(fmt.Sprintf("end %d", i))))))
			o.set("target", str(S(k.place(i)+"/"+x.Kind)))
		}
		var after []S
		for _, j := range k.G.deps(i) {
			after = append(after, k.G.Names[j])
		}
		if after != nil {
			o.set("after", strs(after))
		}
		ts.set(k.G.Names[i], o)
	}
	return obj().set("targets", tg).set("tasks", ts)
}

func runMixed(prop string) func(*Ctx, MixedCase) {
	return func(c *Ctx, k MixedCase) {
		text := k.doc().json()
		dir := writeFiles(map[string]string{"book.jsonnet": text})
		defer dropDir(dir)
		io, o, e := recordingIO()
		ended := make(chan error, 1)
		go func() { ended <- runbook.Run(io, dir+"/book.jsonnet") }()
		var err error
		select {
		case err = <-ended:
		case <-time.After(patience):
			c.Failf("the run does not end\n%s", text)
		}
		out := o.String()
		c.NonTrivialIf(len(k.Tasks) > 1)
		show := func() string {
			return fmt.Sprintf("error: %v\noutput:\n%s%s\nrunbook:\n%s", err, out, e.String(), text)
		}

		n := len(k.Tasks)
		begun, done := make([]int, n), make([]int, n)
		running := map[string]int{}
		broken := map[string]bool{}
		for _, line := range strings.Split(strings.TrimSuffix(out, "\n"), "\n") {
			var what string
			var i int
			if line == "" {
				continue
			}
			if m, _ := fmt.Sscanf(line, "%s %d", &what, &i); m != 2 || i < 0 || i >= n || what != "begin" && what != "end" {
				c.Failf("unexpected output %q\n%s", line, show())
			}
			x := &k.Tasks[i]
			first := what == "begin" || !x.shell()
			if first {
				begun[i]++
				c.Check(begun[i] == 1, "task %d was executed twice\n%s", i, show())
				for _, j := range k.G.deps(i) {
					y := &k.Tasks[j]
					c.Check(!y.fails(), "task %d was started although %d failed\n%s", i, j, show())
					c.Check(y.Kind == "rev" || done[j] > 0, "task %d was started before %d had ended\n%s", i, j, show())
				}
				// what ends without a trace has to have had its turn, too
				for _, j := range k.ancestors(i) {
					y := &k.Tasks[j]
					c.Check(!y.fails(), "task %d was started although %d failed\n%s", i, j, show())
					c.Check(y.Kind == "rev" || done[j] > 0, "task %d was started before %d had ended\n%s", i, j, show())
				}
				if prop == "R21" {
					c.Check(!broken[k.place(i)], "task %d was started on a target that had executed a task that failed\n%s", i, show())
				}
				running[k.place(i)]++
				if x.shell() {
					limit := k.Caps[x.Target]
					if limit < 1 {
						limit = 1
					}
					c.Check(prop != "R05" || running[k.place(i)] <= limit, "%d tasks at once on a target limited to %d\n%s", running[k.place(i)], limit, show())
				}
			}
			if what == "end" {
				done[i]++
				running[k.place(i)]--
				if x.fails() {
					broken[k.place(i)] = true
				}
			} else if x.Kind == "kill" {
				running[k.place(i)]--
				broken[k.place(i)] = true
			}
		}
		bad := false
		for i := range k.Tasks {
			x := &k.Tasks[i]
			bad = bad || x.fails()
			c.Check(x.Kind == "kill" || begun[i] == done[i], "task %d was still being executed when the run had ended\n%s", i, show())
		}
		if !bad {
			c.Class("no failure")
			c.Check(err == nil, "an error although no task fails\n%s", show())
			for i := range k.Tasks {
				c.Check(k.Tasks[i].Kind == "rev" || begun[i] == 1, "task %d was not executed\n%s", i, show())
			}
			return
		}
		c.Check(err != nil, "no error although a task fails\n%s", show())
		ok := false
		for i := range k.Tasks {
			x := &k.Tasks[i]
			var words []string
			switch {
			case x.Kind == "fail":
				words = []string{"fail task executed"}
			case x.Kind == "missing":
				words = []string{"no such file", "not found"}
			case x.Kind == "notexec":
				words = []string{"permission denied"}
			case x.Kind == "kill" && begun[i] > 0:
				words = []string{"signal"}
			case x.Kind == "exit" && x.N > 0 && begun[i] > 0:
				words = []string{fmt.Sprintf("exit status %d", x.N)}
			}
			for _, w := range words {
				ok = ok || strings.Contains(err.Error(), w)
			}
			if words != nil {
				c.Class("%s", x.Kind)
			}
		}
		c.Check(ok, "the run's error is not that of a task that failed\n%s", show())
	}
}

// ancestors are all the tasks that have to end before one.
func (k *MixedCase) ancestors(i int) []int {
	seen := map[int]bool{}
	var out []int
	var visit func(int)
	visit = func(i int) {
		for _, j := range k.G.deps(i) {
			if !seen[j] {
				seen[j] = true
				out = append(out, j)
				visit(j)
			}
		}
	}
	visit(i)
	return out
}

func init() {
	rule := "runbook of shell and demo targets run as a whole; commands end with any status, by a signal or cannot be started. Non-trivial: two or more tasks"
	for _, x := range []struct {
		prop    string
		failing int
	}{{"R01", 4}, {"R02", -5}, {"R03", 15}, {"R05", -5}, {"R21", 15}} {
		Add(x.prop, "mixed", Opt{Quick: 200, Thorough: 6000, Rule: rule}, genMixed(x.failing), runMixed(x.prop))
	}
}
