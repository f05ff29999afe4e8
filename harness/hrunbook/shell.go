//go:build go1.23

package main

import (
	"encoding/json"
	"fmt"
	"io"
	"os"
	"path/filepath"
	"strings"
	"syscall"

	"github.com/sjansen/pgutil/internal/runbook"
	"github.com/sjansen/pgutil/internal/runbook/sh"
	. "github.com/sjansen/pgutil/internal/zzverif/engine"
	"github.com/sjansen/pgutil/internal/zzverif/rapid"
)

// ---------------------------------------------------------------- R16

// EnvCase is a filter and an environment.
type EnvCase struct {
	Filter  EnvDef
	Environ []KV
}

func genEnvCase(t *rapid.T) EnvCase {
	k := EnvCase{Filter: *genEnvDef(t, anyText)}
	n := Int(t, "vars", 0, 8)
	for i := 0; i < n; i++ {
		key := Pick(t, "key", S("PATH"), "HOME", "USER", "A", "B", "AB", "LANG", "X_1", "empty", "é", "a", "PAT", "PATHS", "A ", "A*", "*", "PWD", "Path")
		k.Environ = append(k.Environ, KV{key, Lengthen(t, "value", S(Text(t, "value", 4)), 1, 100000)})
	}
	if Chance(t, "many", 1) {
		// a large environment with a filter that names every third variable
		var names []S
		n := Size(t, "more", 1500)
		for i := 0; i < n; i++ {
			k.Environ = append(k.Environ, KV{S(fmt.Sprintf("V%d", i)), S(fmt.Sprintf("value %d", i))})
			if i%3 == 0 {
				names = append(names, S(fmt.Sprintf("V%d", i)))
			}
		}
		switch Even(t, "naming", 3) {
		case 0:
			k.Filter.Allow = append(names, k.Filter.Allow...)
		case 1:
			k.Filter.Deny = append(names, k.Filter.Deny...)
		default:
			have := map[S]bool{}
			for _, kv := range k.Filter.Set {
				have[kv.K] = true
			}
			for _, name := range names {
				if !have[name] {
					k.Filter.Set = append(k.Filter.Set, KV{name, "new " + name})
				}
			}
		}
	}
	return k
}

// refFilter is the reference filter.  It returns the variables to keep and the
// set variables that are absent.
func refFilter(e *EnvDef, environ []KV) (kept []KV, added map[string]string) {
	in := func(list []S, key S) bool {
		for _, x := range list {
			if x == key {
				return true
			}
		}
		return false
	}
	added = e.set()
	if e == nil {
		return environ, added
	}
	set := e.set()
	for _, kv := range environ {
		v, ok := set[string(kv.K)]
		switch {
		case ok:
			kept = append(kept, KV{kv.K, S(v)})
			delete(added, string(kv.K))
		case len(e.Allow) > 0:
			if in(e.Allow, kv.K) {
				kept = append(kept, kv)
			}
		case !in(e.Deny, kv.K):
			kept = append(kept, kv)
		}
	}
	return
}

func runEnvCase(c *Ctx, k EnvCase) {
	e := &sh.Env{Set: k.Filter.set()}
	for _, s := range k.Filter.Allow {
		e.Allow = append(e.Allow, string(s))
	}
	for _, s := range k.Filter.Deny {
		e.Deny = append(e.Deny, string(s))
	}
	var environ []string
	for _, kv := range k.Environ {
		environ = append(environ, string(kv.K+"="+kv.V))
	}
	before := fmt.Sprintf("%q", environ)
	kept, added := refFilter(&k.Filter, k.Environ)
	c.NonTrivialIf(len(kept) > 0 && (len(kept) < len(environ) || len(e.Set) > 0))
	for again := 0; again < 2; again++ { // filtering doesn't wear the filter out
		left := map[string]string{}
		for key, v := range added {
			left[key] = v
		}
		checkFiltered(c, e, environ, before, kept, left)
	}
}

func checkFiltered(c *Ctx, e *sh.Env, environ []string, before string, kept []KV, added map[string]string) {
	var got []string
	c.Protect("Apply", func() { got = e.Apply(environ) })
	show := fmt.Sprintf("allow %q deny %q set %q of %s gives %q", e.Allow, e.Deny, e.Set, before, got)
	c.Check(fmt.Sprintf("%q", environ) == before, "%s; the given environment was changed to %q", show, environ)
	i := 0
	for _, kv := range got {
		key, value := kv, ""
		if j := strings.Index(kv, "="); j >= 0 {
			key, value = kv[:j], kv[j+1:]
		} else {
			c.Failf("%s: %q has no value", show, kv)
		}
		if v, ok := added[key]; ok {
			c.Check(v == value, "%s: %q is set to %q instead of %q", show, key, value, v)
			delete(added, key)
			continue
		}
		c.Check(i < len(kept), "%s: %q is not permitted", show, kv)
		c.Check(kv == string(kept[i].K+"="+kept[i].V), "%s: expected %q=%q, found %q", show, kept[i].K, kept[i].V, kv)
		i++
	}
	for ; i < len(kept); i++ {
		c.Failf("%s: %q=%q is missing", show, kept[i].K, kept[i].V)
	}
	c.Check(len(added) == 0, "%s: %q are not set", show, added)
}

// ---------------------------------------------------------------- R17

// ShTask is a shell task.
type ShTask struct {
	Target int
	How    string // how the command is named
	Args   []S
	Env    *EnvDef `json:",omitempty"`
	Out    S
	Err    S
	Exit   int
	Kill   bool
	Big    int // so many more bytes of output
}

// ShCase is a chain of shell tasks.
type ShCase struct {
	Environ  []KV
	Targets  []*EnvDef
	Caps     []int // the targets' concurrency, if it is set
	Tasks    []ShTask
	Relative bool // the runbook is named by a relative path
	Deep     bool // the runbook is in a subdirectory of the current directory
	Link     int  `json:",omitempty"` // 1: the runbook, 2: its directory is a symbolic link
}

func envText(t *rapid.T, name string) S { return S(clean(Text(t, name, 4))) }

func genSh(t *rapid.T) ShCase {
	k := ShCase{Relative: Bool(t, "relative"), Deep: Bool(t, "deep")}
	seen := map[S]bool{"PATH": true}
	for n := Int(t, "vars", 0, 6); n > 0; n-- {
		key := Pick(t, "key", S("HOME"), "USER", "A", "B", "AB", "LANG", "X_1", "empty", "é", "PWD", "A*", "Path")
		if !seen[key] {
			seen[key] = true
			k.Environ = append(k.Environ, KV{key, envText(t, "value")})
		}
	}
	if Chance(t, "manyvars", 2) {
		for m := Size(t, "morevars", 600); m > 0; m-- {
			k.Environ = append(k.Environ, KV{S(fmt.Sprintf("V%d", m)), S(fmt.Sprintf("value %d", m))})
		}
	}
	env := func(pct int) *EnvDef {
		if Chance(t, "env", pct) {
			return genEnvDef(t, envText)
		}
		return nil
	}
	if Chance(t, "link", 25) {
		k.Link = Int(t, "what", 1, 2)
	}
	for n := Int(t, "targets", 1, 2); n > 0; n-- {
		k.Targets = append(k.Targets, env(60))
		k.Caps = append(k.Caps, Pick(t, "cap", 0, 0, 1, 2, 5))
	}
	for n := Int(t, "tasks", 1, 3); n > 0; n-- {
		x := ShTask{Target: Int(t, "on", 0, len(k.Targets)-1), How: Pick(t, "how", "abs", "rel", "up", "bare", "bare", "sub", "absodd", "relodd", "upodd"), Env: env(50)}
		if Chance(t, "unstartable", 10) {
			x.How = Pick(t, "unstartable", "missing", "missingpath", "notexec", "dir", "elsewhere")
		}
		for m := Int(t, "args#", 0, 4); m > 0; m-- {
			x.Args = append(x.Args, envText(t, "arg"))
		}
		if Chance(t, "manyargs", 3) {
			for m := Size(t, "moreargs", 1000); m > 0; m-- {
				x.Args = append(x.Args, S(fmt.Sprintf("arg %d", m)))
			}
		}
		for i := range x.Args {
			if i < 4 {
				x.Args[i] = Lengthen(t, "arg", x.Args[i], 1, 100000)
			}
		}
		if Chance(t, "shelly", 30) {
			x.Args = append(x.Args, Pick(t, "shell", S("$HOME"), "*", "~", "a b", "'", "`id`", "$(id)", ";", "&&", "|", ">x", "\\", "-c", "--", "",
				"~/x", "~root", "$A", "${A}", "%A%", "{a,b}", "[ab]*", "?", "a\tb", "a\n", "#x", "=x", "A=b", "@x", "-", "\"", "!x", "a//b", "./a/../b", " a ", "%s", "\\n"))
		}
		if Bool(t, "out") {
			x.Out = S(rapid.SliceOfN(rapid.Byte(), 0, 12).Draw(t, "stdout"))
		}
		if Chance(t, "err", 30) {
			x.Err = S(rapid.SliceOfN(rapid.Byte(), 0, 12).Draw(t, "stderr"))
		}
		if Chance(t, "exit", 15) {
			x.Exit = Pick(t, "status", 1, 2, 3, 64, 75, 100, 125, 126, 127, 128, 129, 130, 137, 141, 143, 254, 255)
			if Bool(t, "any status") {
				x.Exit = 1 + Even(t, "status", 255)
			}
		} else if Chance(t, "kill", 5) {
			x.Kill = true
		}
		if Chance(t, "big", 5) {
			x.Big = Pick(t, "bigv", 1000, 70000, 200000, 1200000)
		}
		k.Tasks = append(k.Tasks, x)
	}
	return k
}

type shPlan struct {
	Args []S
	Out  S
	Err  S
	Exit int
	Kill bool
	Big  int
}

type shRecord struct {
	Args  []S
	Env   []S
	Dir   S
	Stdin S
	Exe   S
}

const recorderName = "pgutil-recorder"

// recorder is the command that shell tasks run: it records how it was called
// and does what the plan next to it says.
func recorder() {
	die := func(what string, err error) {
		if err != nil {
			fmt.Fprintln(os.Stderr, "recorder:", what, err)
			os.Exit(99)
		}
	}
	exe, err := os.Readlink("/proc/self/exe")
	die("exe", err)
	where, err := os.ReadFile(filepath.Join(filepath.Dir(exe), ".recorder"))
	die("where", err)
	dir := string(where)
	rec := shRecord{Exe: S(exe)}
	for _, a := range os.Args {
		rec.Args = append(rec.Args, S(a))
	}
	for _, e := range os.Environ() {
		rec.Env = append(rec.Env, S(e))
	}
	cwd, err := os.Readlink("/proc/self/cwd")
	die("cwd", err)
	rec.Dir = S(cwd)
	in, err := io.ReadAll(io.LimitReader(os.Stdin, 1000))
	if err != nil {
		in = []byte("error: " + err.Error())
	}
	rec.Stdin = S(in)
	data, err := json.Marshal(rec)
	die("marshal", err)
	n := 0
	for {
		f, err := os.OpenFile(fmt.Sprintf("%s/rec%d", dir, n), os.O_CREATE|os.O_EXCL|os.O_WRONLY, 0o644)
		if os.IsExist(err) {
			n++
			continue
		}
		die("record", err)
		_, err = f.Write(data)
		die("record", err)
		f.Close()
		break
	}
	text, err := os.ReadFile(fmt.Sprintf("%s/plan%d", dir, n))
	if err != nil {
		os.Exit(0)
	}
	var p shPlan
	die("plan", json.Unmarshal(text, &p))
	os.Stdout.WriteString(string(p.Out) + strings.Repeat("x", p.Big))
	os.Stderr.WriteString(string(p.Err))
	if p.Kill {
		syscall.Kill(os.Getpid(), syscall.SIGKILL)
		select {}
	}
	os.Exit(p.Exit)
}

func runSh(c *Ctx, k ShCase) {
	exe, err := os.Executable()
	if err != nil {
		Harnessf("%v", err)
	}
	top := writeFiles(nil)
	defer dropDir(top)
	book := top + "/home"
	rec := top + "/rec"
	for _, d := range []string{book, rec, top + "/bin", top + "/up", book + "/sub dir", book + "/adir", top + "/cwd"} {
		if err := os.MkdirAll(d, 0o755); err != nil {
			Harnessf("%v", err)
		}
	}
	for _, d := range []string{book, top + "/bin", top, book + "/sub dir", top + "/cwd"} {
		if err := os.Link(exe, d+"/"+recorderName); err != nil {
			Harnessf("%v", err)
		}
		mustWrite(d+"/.recorder", []byte(rec))
	}
	mustWrite(book+"/plain", []byte("not a program"))
	if err := os.Link(exe, top+"/cwd/only-here"); err != nil {
		Harnessf("%v", err)
	}

	// the process's own environment
	path := top + "/bin:/usr/bin:/bin"
	saved := os.Environ()
	os.Clearenv()
	os.Setenv("PATH", path)
	environ := []KV{{"PATH", S(path)}}
	for _, kv := range k.Environ {
		if err := os.Setenv(string(kv.K), string(kv.V)); err != nil {
			Harnessf("%v", err)
		}
		environ = append(environ, kv)
	}
	restore := func() {
		os.Clearenv()
		for _, kv := range saved {
			i := strings.Index(kv, "=")
			os.Setenv(kv[:i], kv[i+1:])
		}
	}
	defer restore()

	// something on standard input which no task may see
	leak, err := os.CreateTemp(top, "stdin")
	if err != nil {
		Harnessf("%v", err)
	}
	leak.WriteString("this is not for the tasks")
	leak.Seek(0, 0)
	if err := syscall.Dup2(int(leak.Fd()), 0); err != nil {
		Harnessf("%v", err)
	}
	leak.Close()
	defer func() {
		if f, err := os.Open("/dev/null"); err == nil {
			syscall.Dup2(int(f.Fd()), 0)
			f.Close()
		}
	}()

	type expectation struct {
		exe  string
		args []S
		env  map[string]string
	}
	var want []expectation
	var out, errs strings.Builder
	failed := -1
	tg, ts := obj(), obj()
	for i, e := range k.Targets {
		cfg := obj()
		if e != nil {
			cfg.set("env", e.node())
		}
		if i < len(k.Caps) && k.Caps[i] > 0 {
			cfg.set("concurrency", num(k.Caps[i]))
		}
		tg.set(S(fmt.Sprintf("t%d", i)), obj().set("class", str("sh")).set("config", cfg))
	}
	for i, x := range k.Tasks {
		// what the child's environment has to be
		final := map[string]string{}
		kept, added := refFilter(k.Targets[x.Target], environ)
		for key, v := range added {
			kept = append(kept, KV{S(key), S(v)})
		}
		kept, added = refFilter(x.Env, kept)
		for key, v := range added {
			final[key] = v
		}
		for _, kv := range kept {
			final[string(kv.K)] = string(kv.V)
		}
		how := x.How
		if how == "bare" && final["PATH"] != path {
			how = "abs" // where a bare name is looked up is not stated for this case
		}
		var arg0, bin string
		switch how {
		case "abs":
			arg0 = top + "/bin/" + recorderName
			bin = arg0
		case "rel":
			arg0, bin = "./"+recorderName, book+"/"+recorderName
		case "up":
			arg0, bin = "../"+recorderName, top+"/"+recorderName
		case "sub":
			arg0, bin = "./sub dir/"+recorderName, book+"/sub dir/"+recorderName
		case "absodd":
			arg0, bin = top+"/bin/..//bin/./"+recorderName, top+"/bin/"+recorderName
		case "relodd":
			arg0, bin = "./sub dir/..//"+recorderName, book+"/"+recorderName
		case "upodd":
			arg0, bin = "../home//./sub dir/"+recorderName, book+"/sub dir/"+recorderName
		case "bare":
			arg0, bin = recorderName, top+"/bin/"+recorderName
		case "missing":
			arg0 = "pgutil-no-such-command"
		case "missingpath":
			arg0 = "./no-such-command"
		case "notexec":
			arg0 = "./plain"
		case "dir":
			arg0 = "./adir"
		case "elsewhere":
			arg0 = "./only-here" // exists in the current directory only
		}
		c.Class("%s", how)
		args := append([]S{S(arg0)}, x.Args...)
		cfg := obj().set("args", strs(args))
		if x.Env != nil {
			cfg.set("env", x.Env.node())
		}
		o := obj().set("target", str(S(fmt.Sprintf("t%d", x.Target)))).set("config", cfg)
		if i > 0 {
			o.set("after", arr(str(S(fmt.Sprintf("x%d", i-1)))))
		}
		ts.set(S(fmt.Sprintf("x%d", i)), o)
		if failed >= 0 {
			continue
		}
		if bin == "" {
			failed = i
			continue
		}
		plan, _ := json.Marshal(shPlan{Out: x.Out, Err: x.Err, Exit: x.Exit, Kill: x.Kill, Big: x.Big})
		mustWrite(fmt.Sprintf("%s/plan%d", rec, len(want)), plan)
		want = append(want, expectation{bin, args, final})
		out.WriteString(string(x.Out) + strings.Repeat("x", x.Big))
		errs.WriteString(string(x.Err))
		if x.Exit != 0 || x.Kill {
			failed = i
		}
	}
	text := obj().set("targets", tg).set("tasks", ts).json()
	home := "home"
	switch k.Link {
	case 1:
		mustWrite(top+"/up/elsewhere.jsonnet", []byte(text))
		mustLink("../up/elsewhere.jsonnet", book+"/book.jsonnet")
	case 2:
		mustWrite(book+"/book.jsonnet", []byte(text))
		mustLink("home", top+"/linked")
		home = "linked"
	default:
		mustWrite(book+"/book.jsonnet", []byte(text))
	}

	cwd, err := os.Getwd()
	if err != nil {
		Harnessf("%v", err)
	}
	file := top + "/" + home + "/book.jsonnet"
	now := top + "/cwd"
	if k.Relative {
		file = "../" + home + "/book.jsonnet"
		if k.Deep {
			now, file = book, "book.jsonnet"
		}
	}
	if err := os.Chdir(now); err != nil {
		Harnessf("%v", err)
	}
	sys, o, e := recordingIO()
	err = runbook.Run(sys, file)
	os.Chdir(cwd)
	restore()

	c.NonTrivialIf(len(want) > 0)
	c.Check((err != nil) == (failed >= 0), "the run ends with %v; the task to fail is %d\n%s", err, failed, text)
	var recs []shRecord
	for i := 0; ; i++ {
		data, err := os.ReadFile(fmt.Sprintf("%s/rec%d", rec, i))
		if err != nil {
			break
		}
		var r shRecord
		if err := json.Unmarshal(data, &r); err != nil {
			Harnessf("%v", err)
		}
		recs = append(recs, r)
	}
	c.Check(len(recs) == len(want), "%d commands were run instead of %d\n%s", len(recs), len(want), text)
	for i, w := range want {
		r := recs[i]
		c.Check(string(r.Exe) == w.exe, "task %d ran %q instead of %q", i, r.Exe, w.exe)
		same := len(r.Args) == len(w.args)
		for j := range w.args {
			same = same && r.Args[j] == w.args[j]
		}
		c.Check(same, "task %d ran with the arguments %q, the runbook says %q", i, r.Args, w.args)
		got := map[string]string{}
		for _, kv := range r.Env {
			j := strings.Index(string(kv), "=")
			c.Check(j >= 0, "task %d: %q in the environment", i, kv)
			key := string(kv[:j])
			_, dup := got[key]
			c.Check(!dup, "task %d: %q is twice in the environment %q", i, key, r.Env)
			got[key] = string(kv[j+1:])
		}
		for key, v := range w.env {
			g, ok := got[key]
			c.Check(ok && g == v, "task %d: %q is %q (present: %v) in its environment, expected %q\n%s", i, key, g, ok, v, text)
		}
		for key := range got {
			_, ok := w.env[key]
			c.Check(ok, "task %d: unexpected %q in its environment\n%s", i, key, text)
		}
		c.Check(string(r.Dir) == book, "task %d ran in %q instead of %q", i, r.Dir, book)
		c.Check(r.Stdin == "", "task %d read %q from its standard input", i, r.Stdin)
	}
	c.Check(o.String() == out.String(), "standard output is %q, expected %q", cut(o.String()), cut(out.String()))
	c.Check(e.String() == errs.String(), "standard error is %q, expected %q", cut(e.String()), cut(errs.String()))
}

func mustLink(to, name string) {
	if err := os.Symlink(to, name); err != nil {
		Harnessf("%v", err)
	}
}

func cut(s string) string {
	if len(s) > 300 {
		return fmt.Sprintf("%s... (%d bytes)", s[:300], len(s))
	}
	return s
}

func init() {
	Add("R16", "filter", Opt{Quick: 5000, Thorough: 300000,
		Rule: "random filter and environment with repeated, empty and prefix-sharing names and values containing `=`; non-trivial: something is kept and something is dropped or set"},
		genEnvCase, runEnvCase)
	o := Opt{Quick: 150, Thorough: 4000,
		Rule: "chain of shell tasks in a runbook whose command records its arguments, environment, directory and standard input, prints given bytes and ends with a given status; non-trivial: a command was run"}
	Add("R16", "child", Opt{Quick: 60, Thorough: 1500, Rule: o.Rule}, genSh, runSh)
	Add("R17", "child", o, genSh, runSh)
}
