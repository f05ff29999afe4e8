//go:build go1.23

package main

import (
	"fmt"
	"os"
	"sort"
	"strings"

	"github.com/sjansen/pgutil/internal/runbook"
	. "github.com/sjansen/pgutil/internal/zzverif/engine"
	"github.com/sjansen/pgutil/internal/zzverif/fakepg"
	"github.com/sjansen/pgutil/internal/zzverif/rapid"
)

// ---------------------------------------------------------------- R22

// SideTarget is one of the targets that work side by side.
type SideTarget struct {
	Class  string
	String S       `json:",omitempty"`
	Env    *EnvDef `json:",omitempty"`
	Limit  int     `json:",omitempty"`
}

// SideTask is a task; the tasks of a target form a chain.
type SideTask struct {
	Target int
	Kind   string
	Env    *EnvDef `json:",omitempty"`
	After  []int   `json:",omitempty"` // tasks of any target
	Text   S
}

// SideCase is a runbook whose targets work side by side.
type SideCase struct {
	Targets []SideTarget
	Tasks   []SideTask
}

func oneLine(s string) S {
	return S(strings.Map(func(r rune) rune {
		if r == '\n' || r == '\r' || r == 0 {
			return -1
		}
		return r
	}, s))
}

func genSide(t *rapid.T) SideCase {
	var k SideCase
	for n := Int(t, "targets", 2, 5); n > 0; n-- {
		g := SideTarget{Class: []string{"demo", "demo", "sh", "pg"}[Even(t, "class", 4)]}
		switch g.Class {
		case "demo":
			g.String = oneLine(Text(t, "string", 6))
			if Chance(t, "long", 20) {
				g.String += S(strings.Repeat("Lorem ipsum ", 20*Int(t, "longer", 1, 20)))
			}
		case "sh":
			if Bool(t, "env?") {
				g.Env = genEnvDef(t, envText)
			}
			g.Limit = Even(t, "limit", 3)
		case "pg":
			g.Limit = Even(t, "limit", 3)
		}
		k.Targets = append(k.Targets, g)
	}
	for n := 2 + Even(t, "tasks", 14); n > 0; n-- {
		x := SideTask{Target: Even(t, "on", len(k.Targets))}
		switch k.Targets[x.Target].Class {
		case "demo":
			x.Kind = []string{"echo", "rev", "rot13"}[Even(t, "kind", 3)]
			if Chance(t, "fail", 2) {
				x.Kind = "fail"
			}
		case "sh":
			x.Kind = []string{"env", "env", "say", "here"}[Even(t, "kind", 4)]
			x.Text = oneLine(Text(t, "text", 3))
			if Bool(t, "env?") {
				x.Env = genEnvDef(t, envText)
			}
		case "pg":
			x.Kind = "sql"
			x.Text = S(clean(Text(t, "text", 3)))
		}
		for n := len(k.Tasks); n > 0 && Chance(t, "after?", 30) && len(x.After) < 3; {
			x.After = append(x.After, Even(t, "after", n))
		}
		k.Tasks = append(k.Tasks, x)
	}
	return k
}

// deps returns the tasks that task i names.
func (k *SideCase) deps(i int) []int {
	var out []int
	seen := map[int]bool{}
	for j := i - 1; j >= 0; j-- {
		if k.Tasks[j].Target == k.Tasks[i].Target {
			out = append(out, j)
			seen[j] = true
			break
		}
	}
	for _, j := range k.Tasks[i].After {
		if !seen[j] {
			out = append(out, j)
			seen[j] = true
		}
	}
	return out
}

// a rune that tells a target's string from those of the others and that
// neither reversing nor rotating changes
func mark(i int) string { return string(rune('①' + i)) }

func runSide(c *Ctx, k SideCase) {
	dir := writeFiles(map[string]string{})
	defer dropDir(dir)
	if err := os.Symlink("/bin/cat", dir+"/here"); err != nil {
		Harnessf("%v", err)
	}

	// what the process's environment is
	os.Setenv("A", "a of the process")
	os.Setenv("USER", "someone")
	var environ []KV
	for _, e := range os.Environ() {
		if i := strings.Index(e, "="); i > 0 {
			environ = append(environ, KV{S(e[:i]), S(e[i+1:])})
		}
	}

	var server *fakepg.Server
	tg, ts := obj(), obj()
	for i, g := range k.Targets {
		cfg := obj()
		switch g.Class {
		case "demo":
			cfg.set("string", str(g.String+S(mark(i))))
		case "sh":
			if g.Env != nil {
				cfg.set("env", g.Env.node())
			}
		case "pg":
			if server == nil {
				s, err := fakepg.Listen(&fakepg.Server{
					Script: func(int) fakepg.Script { return fakepg.Script{} },
					Answer: func(*fakepg.Query) *fakepg.Result { return &fakepg.Result{Tag: "SELECT 0"} },
				}, "")
				if err != nil {
					Harnessf("%v", err)
				}
				server = s
				defer s.Close()
			}
			cfg.set("host", str("127.0.0.1")).set("port", num(server.Port())).set("sslmode", str("disable"))
			cfg.set("username", str(S(fmt.Sprintf("user%d", i)))).set("database", str(S(fmt.Sprintf("db%d", i))))
		}
		if g.Limit > 0 {
			cfg.set("concurrency", num(g.Limit))
		}
		tg.set(S(fmt.Sprintf("t%d", i)), obj().set("class", str(S(g.Class))).set("config", cfg))
	}

	n := len(k.Tasks)
	strs2 := make([]string, len(k.Targets)) // the targets' strings
	for i, g := range k.Targets {
		strs2[i] = string(g.String) + mark(i)
	}
	ancestors := make([]map[int]bool, n)
	lines := make([]string, n)           // what a task prints
	envs := make([]map[string]string, n) // what a task's environment is
	sqls := make([][]string, len(k.Targets))
	failing := []int{}
	cross := false
	for i, x := range k.Tasks {
		g := k.Targets[x.Target]
		o := obj()
		how := x.Kind
		cfg := obj()
		switch x.Kind {
		case "echo":
			lines[i] = strs2[x.Target]
		case "rev":
			strs2[x.Target] = refRev(strs2[x.Target])
		case "rot13":
			strs2[x.Target] = refRot13(strs2[x.Target])
		case "fail":
			failing = append(failing, i)
		case "env":
			how = "exec"
			cfg.set("args", strs([]S{"/bin/cp", "/proc/self/environ", S(fmt.Sprintf("%s/env%d", dir, i))}))
			kept, added := refFilter(g.Env, environ)
			for key, v := range added {
				kept = append(kept, KV{S(key), S(v)})
			}
			kept, added = refFilter(x.Env, kept)
			envs[i] = map[string]string{}
			for key, v := range added {
				envs[i][key] = v
			}
			for _, kv := range kept {
				envs[i][string(kv.K)] = string(kv.V)
			}
		case "say":
			how = "exec"
			lines[i] = fmt.Sprintf("task %d says %s", i, x.Text)
			cfg.set("args", strs([]S{"/usr/bin/printf", "%s\\n", S(lines[i])}))
		case "here":
			// a program and a file in the directory of the run book
			how = "exec"
			lines[i] = fmt.Sprintf("task %d is here", i)
			mustWrite(fmt.Sprintf("%s/line%d", dir, i), []byte(lines[i]+"\n"))
			cfg.set("args", strs([]S{"./here", S(fmt.Sprintf("line%d", i))}))
		case "sql":
			how = "exec"
			sql := fmt.Sprintf("SELECT %d /* %s */", i, x.Text)
			sqls[x.Target] = append(sqls[x.Target], sql)
			cfg.set("sql", str(S(sql)))
		}
		if x.Env != nil {
			cfg.set("env", x.Env.node())
		}
		ancestors[i] = map[int]bool{}
		var after []S
		for _, j := range k.deps(i) {
			after = append(after, S(fmt.Sprintf("x%d", j)))
			ancestors[i][j] = true
			for a := range ancestors[j] {
				ancestors[i][a] = true
			}
			cross = cross || k.Tasks[j].Target != x.Target
		}
		o.set("target", str(S(fmt.Sprintf("t%d/%s", x.Target, how))))
		if len(after) > 0 {
			o.set("after", strs(after))
		}
		if g.Class != "demo" {
			o.set("config", cfg)
		}
		ts.set(S(fmt.Sprintf("x%d", i)), o)
	}
	mustWrite(dir+"/book.json", []byte(obj().set("targets", tg).set("tasks", ts).json()))

	// the first failure ends the run; which other tasks get to run depends on
	// the schedule, apart from those it depends on and those that depend on it
	must := func(i int) bool {
		if len(failing) == 0 {
			return true
		}
		if len(failing) > 1 {
			return false
		}
		return ancestors[failing[0]][i]
	}
	may := func(i int) bool {
		for _, f := range failing {
			if ancestors[i][f] {
				return false
			}
		}
		return true
	}
	used := map[int]bool{}
	for _, x := range k.Tasks {
		used[x.Target] = true
	}
	c.NonTrivialIf(len(used) > 1)
	c.Class("%d targets at work", len(used))
	if cross {
		c.Class("dependencies between targets")
	}
	if len(failing) > 0 {
		c.Class("failing")
	}

	here, _ := os.Getwd()
	io, o, e := recordingIO()
	err := runbook.Run(io, dir+"/book.json")
	var after []KV
	for _, e := range os.Environ() {
		if i := strings.Index(e, "="); i > 0 {
			after = append(after, KV{S(e[:i]), S(e[i+1:])})
		}
	}
	c.Check(fmt.Sprintf("%q", after) == fmt.Sprintf("%q", environ), "the run changed the environment of the process from %q to %q", environ, after)
	wd, _ := os.Getwd()
	c.Check(wd == here, "the run changed the working directory of the process to %q", wd)
	c.Check((err != nil) == (len(failing) > 0), "the run ends with %v, %d tasks fail", err, len(failing))
	c.Check(e.String() == "", "the run wrote %q to the error stream", e.String())

	text := o.String()
	c.Check(text == "" || strings.HasSuffix(text, "\n"), "the last line of %q is not complete", text)
	at := map[int]int{}
	for nr, line := range strings.SplitAfter(text, "\n") {
		if line == "" {
			continue
		}
		line = strings.TrimSuffix(line, "\n")
		task := -1
		for i := range k.Tasks {
			if _, dup := at[i]; !dup && lines[i] != "" && lines[i] == line {
				task = i
				break
			}
		}
		c.Check(task >= 0, "the line %q is printed, which none of the tasks that are left prints; they print %q; the output is %q", line, lines, text)
		c.Check(may(task), "task %d printed %q although one before it failed", task, line)
		at[task] = nr
	}
	for i := range k.Tasks {
		if lines[i] == "" {
			continue
		}
		_, ok := at[i]
		c.Check(ok || !must(i), "task %d did not print %q; the output is %q", i, lines[i], text)
		if !ok {
			continue
		}
		for a := range ancestors[i] {
			if lines[a] != "" {
				p, ok := at[a]
				c.Check(ok && p < at[i], "task %d printed before task %d, on which it depends; the output is %q", i, a, text)
			}
		}
	}
	for i := range k.Tasks {
		if envs[i] == nil {
			continue
		}
		data, err := os.ReadFile(fmt.Sprintf("%s/env%d", dir, i))
		if err != nil {
			c.Check(os.IsNotExist(err) && !must(i), "task %d left no record: %v", i, err)
			continue
		}
		c.Check(may(i), "task %d was executed although one before it failed", i)
		var got, want []string
		for _, s := range strings.Split(string(data), "\x00") {
			if s != "" {
				got = append(got, s)
			}
		}
		for key, v := range envs[i] {
			want = append(want, key+"="+v)
		}
		sort.Strings(got)
		sort.Strings(want)
		c.Check(fmt.Sprintf("%q", got) == fmt.Sprintf("%q", want), "the environment of task %d is %q, expected %q", i, got, want)
	}
	if server == nil {
		return
	}
	conns := map[string][]string{}
	for _, s := range server.Conns() {
		db := s.Startup["database"]
		_, dup := conns[db]
		c.Check(!dup, "two connections to database %q", db)
		c.Check(s.Startup["user"] == "user"+strings.TrimPrefix(db, "db"), "user %q connected to database %q", s.Startup["user"], db)
		conns[db] = []string{}
		for _, q := range s.Queries {
			if strings.HasPrefix(q, "SELECT ") && strings.Contains(q, "/*") {
				conns[db] = append(conns[db], q)
			}
		}
	}
	for i, g := range k.Targets {
		if g.Class != "pg" {
			continue
		}
		got := conns[fmt.Sprintf("db%d", i)]
		want := sqls[i]
		if len(failing) > 0 && len(got) < len(want) {
			want = want[:len(got)]
		}
		c.Check(fmt.Sprintf("%q", got) == fmt.Sprintf("%q", append([]string{}, want...)), "target t%d executed %q, expected %q", i, got, want)
	}
}

func init() {
	Add("R22", "sides", Opt{Quick: 500, Thorough: 20000,
		Rule: "runbook with two to five demo, shell and PostgreSQL targets, the tasks of each in a chain and with dependencies between the chains, executed with real concurrency by a harness built with the race detector; output, environments and statements compared with what each target does on its own; non-trivial: two or more targets with tasks"},
		genSide, runSide)
}
