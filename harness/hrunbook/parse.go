//go:build go1.23

package main

import (
	"bytes"
	"fmt"
	"reflect"
	"sort"
	"strings"
	"sync"
	"time"

	"github.com/sjansen/pgutil/internal/runbook"
	"github.com/sjansen/pgutil/internal/runbook/demo"
	"github.com/sjansen/pgutil/internal/runbook/parser"
	"github.com/sjansen/pgutil/internal/runbook/pg"
	"github.com/sjansen/pgutil/internal/runbook/sh"
	"github.com/sjansen/pgutil/internal/runbook/types"
	. "github.com/sjansen/pgutil/internal/zzverif/engine"
	"github.com/sjansen/pgutil/internal/zzverif/rapid"
)

type lockedBuffer struct {
	mu sync.Mutex
	b  bytes.Buffer
}

func (b *lockedBuffer) Write(p []byte) (int, error) {
	b.mu.Lock()
	defer b.mu.Unlock()
	return b.b.Write(p)
}

func (b *lockedBuffer) String() string {
	b.mu.Lock()
	defer b.mu.Unlock()
	return b.b.String()
}

func realParser(dir string) *parser.Parser {
	return &parser.Parser{Targets: map[string]types.TargetFactory{
		"pg":   &pg.TargetFactory{},
		"sh":   &sh.TargetFactory{Basedir: dir},
		"demo": &demo.TargetFactory{},
	}}
}

func val[V any](p *V) (v V) {
	if p != nil {
		v = *p
	}
	return
}

func sameList(got []string, want []S) bool {
	if len(got) != len(want) {
		return false
	}
	for i := range got {
		if got[i] != string(want[i]) {
			return false
		}
	}
	return true
}

func checkEnv(c *Ctx, what string, got sh.Env, want *EnvDef) {
	if want == nil {
		want = &EnvDef{}
	}
	c.Check(sameList(got.Allow, want.Allow), "%s: the allow list is %q, the file says %q", what, got.Allow, want.Allow)
	c.Check(sameList(got.Deny, want.Deny), "%s: the deny list is %q, the file says %q", what, got.Deny, want.Deny)
	ws := want.set()
	c.Check(len(got.Set) == len(ws) && (len(ws) == 0 || reflect.DeepEqual(got.Set, ws)), "%s: set is %q, the file says %q", what, got.Set, ws)
}

func runParse(c *Ctx, k DocCase) {
	dir, file := k.write("book.jsonnet")
	defer dropDir(dir)
	c.NonTrivialIf(len(k.Tasks) >= 1)
	if k.plain() {
		c.Class("plain JSON")
	} else {
		c.Class("Jsonnet")
	}
	var book *types.Runbook
	var err error
	c.Protect("parsing", func() { book, err = realParser(dir).Parse(file) })
	c.Check(err == nil, "a well-formed runbook is refused: %v\n%s", err, k.text())
	c.Check(book != nil, "no runbook and no error")

	c.Check(len(book.Targets) == len(k.Targets), "%d targets instead of %d", len(book.Targets), len(k.Targets))
	for i := range k.Targets {
		d := &k.Targets[i]
		what := fmt.Sprintf("target %q", d.Name)
		got, ok := book.Targets[string(d.Name)]
		c.Check(ok, "%s is missing", what)
		conc := 1
		if d.Concurrency != nil {
			conc = *d.Concurrency
		}
		c.Check(got.ConcurrencyLimit() == conc, "%s: concurrency limit %d instead of %d", what, got.ConcurrencyLimit(), conc)
		switch d.Class {
		case "demo":
			x, ok := got.(*demo.Target)
			c.Check(ok, "%s is a %T", what, got)
			c.Check(x.String == string(val(d.String)), "%s: string %q instead of %q", what, x.String, val(d.String))
		case "sh":
			x, ok := got.(*sh.Target)
			c.Check(ok, "%s is a %T", what, got)
			checkEnv(c, what, x.Env, d.Env)
		case "pg":
			x, ok := got.(*pg.Target)
			c.Check(ok, "%s is a %T", what, got)
			for _, f := range []struct {
				name string
				got  string
				want *S
			}{{"host", x.Host, d.Host}, {"sslmode", x.SSLMode, d.Mode}, {"username", x.Username, d.User}, {"password", x.Password, d.Pass}, {"database", x.Database, d.DB}} {
				c.Check(f.got == string(val(f.want)), "%s: %s is %q, the file says %q", what, f.name, f.got, val(f.want))
			}
			c.Check(int(x.Port) == val(d.Port), "%s: port %d instead of %d", what, x.Port, val(d.Port))
			c.Check(x.ConnectRetries == val(d.Retries), "%s: connect_retries %d instead of %d", what, x.ConnectRetries, val(d.Retries))
		}
	}

	c.Check(len(book.Tasks) == len(k.Tasks), "%d tasks instead of %d", len(book.Tasks), len(k.Tasks))
	for i := range k.Tasks {
		d := &k.Tasks[i]
		what := fmt.Sprintf("task %q", d.Name)
		got, ok := book.Tasks[string(d.Name)]
		c.Check(ok && got != nil, "%s is missing", what)
		c.Check(got.Target == string(k.Targets[d.Target].Name), "%s is on target %q instead of %q", what, got.Target, k.Targets[d.Target].Name)
		var after []S
		for _, j := range d.After {
			after = append(after, k.Tasks[j].Name)
		}
		c.Check(sameList(got.After, after), "%s is after %q, the file says %q", what, got.After, after)
		c.Check(got.Message == string(val(d.Message)), "%s: message %q instead of %q", what, got.Message, val(d.Message))
		switch k.Targets[d.Target].Class + "/" + d.Kind {
		case "demo/echo":
			_, ok = got.Config.(*demo.Echo)
		case "demo/fail":
			_, ok = got.Config.(*demo.Fail)
		case "demo/rev":
			_, ok = got.Config.(*demo.Rev)
		case "demo/rot13":
			_, ok = got.Config.(*demo.Rot13)
		case "demo/sleep":
			var x *demo.Sleep
			x, ok = got.Config.(*demo.Sleep)
			if ok {
				want := val(d.Seconds)
				if want < 1 {
					want = 1
				}
				c.Check(x.Seconds == want, "%s sleeps %d seconds instead of %d", what, x.Seconds, want)
			}
		case "sh/", "sh/exec":
			var x *sh.Exec
			x, ok = got.Config.(*sh.Exec)
			if ok {
				c.Check(sameList(x.Args, d.Args), "%s runs %q, the file says %q", what, x.Args, d.Args)
				checkEnv(c, what, x.Env, d.Env)
			}
		case "pg/", "pg/exec":
			var x *pg.Exec
			x, ok = got.Config.(*pg.Exec)
			if ok {
				c.Check(x.SQL == string(d.SQL), "%s: SQL %q instead of %q", what, x.SQL, d.SQL)
			}
		}
		c.Check(ok, "%s (%s/%s) was loaded as %T", what, k.Targets[d.Target].Class, d.Kind, got.Config)
	}

	// the program's own entry point agrees
	io, o, e := recordingIO()
	list, err := runbook.List(io, file)
	c.Check(err == nil, "listing a well-formed runbook: %v", err)
	c.Check(len(list) == len(k.Tasks), "List returns %d tasks instead of %d", len(list), len(k.Tasks))
	for i := range k.Tasks {
		d := &k.Tasks[i]
		got, ok := list[runbook.TaskID(d.Name)]
		c.Check(ok && string(got) == string(k.Targets[d.Target].Name), "List puts task %q on %q (present: %v), the file says %q", d.Name, got, ok, k.Targets[d.Target].Name)
	}
	c.Check(o.String() == "" && e.String() == "", "listing printed %q %q", o.String(), e.String())
}

func (k *DocCase) text() string {
	fs := files(k.node(), k.Tape, "book.jsonnet")
	var names []string
	for n := range fs {
		names = append(names, n)
	}
	sort.Strings(names)
	var sb strings.Builder
	for _, n := range names {
		fmt.Fprintf(&sb, "--- %s\n%s\n", n, fs[n])
	}
	return sb.String()
}

// ---------------------------------------------------------------- R12

// BadCase is a runbook with one mistake.
type BadCase struct {
	Files map[string]S
	What  string
}

// at returns the targets and tasks objects of a document.
func parts(root *Node) (tg, ts *Node) { return root.get("targets"), root.get("tasks") }

var mistakes = []string{
	"truncated", "garbage", "error", "missing import", "assertion", "toplevel type", "unknown top", "unknown target field", "unknown task field",
	"unknown target setting", "unknown task setting", "unknown class", "no class", "unknown target", "unknown kind", "no target",
	"null target", "null task", "empty target", "empty task", "ill typed", "ill typed", "ill typed", "no args", "no sql", "bad arg0", "bad concurrency", "not json", "import cycle",
}

var unknownFields = []S{"x", "afterr", "target_", "classs", "configs", "foo", "", "sql2", "arg", "environment", "task", "é", "con fig"}

func genBad(t *rapid.T) BadCase {
	k := genDoc(t, docOpt{max: 4})
	// at least one target and one task of a class that can carry the mistake
	what := Pick(t, "mistake", mistakes...)
	class := Pick(t, "badclass", "demo", "sh", "pg")
	switch what {
	case "no args", "bad arg0":
		class = "sh"
	case "no sql":
		class = "pg"
	case "bad concurrency":
		class = Pick(t, "badclass2", "sh", "pg")
	}
	bt := TargetDef{Name: "bad target", Class: class}
	for i := range k.Targets {
		if k.Targets[i].Name == bt.Name {
			k.Targets[i].Name += "'"
		}
	}
	k.Targets = append(k.Targets, bt)
	bad := TaskDef{Name: "bad task", Target: len(k.Targets) - 1, Empty: true}
	switch class {
	case "demo":
		bad.Kind = Pick(t, "badkind", "echo", "fail", "rev", "rot13", "sleep")
	case "sh":
		bad.Args = []S{"./touched", "x"}
	case "pg":
		bad.SQL = "SELECT 1"
	}
	for i := range k.Tasks {
		if k.Tasks[i].Name == bad.Name {
			k.Tasks[i].Name += "'"
		}
	}
	k.Tasks = append(k.Tasks, bad)
	// something that prints, were it run
	k.Targets = append(k.Targets, TargetDef{Name: "printing target", Class: "demo", String: func() *S { s := S("printed"); return &s }()})
	k.Tasks = append(k.Tasks, TaskDef{Name: "printing task", Target: len(k.Targets) - 1, Kind: "echo"})

	root := k.node()
	tg, ts := parts(root)
	btn, bkn := tg.get("bad target"), ts.get("bad task")
	if btn.get("config") == nil {
		btn.set("config", obj())
	}
	unknown := Pick(t, "unknown", unknownFields...)
	junk := Pick(t, "junk", "null", "1", "\"x\"", "{}", "[]", "true")
	switch what {
	case "toplevel type":
		root = &Node{Kind: "raw", Text: S(Pick(t, "top", "1", "'x'", "[]", "[{}]", "true", "1.5"))}
	case "unknown top":
		root.set(unknown, &Node{Kind: "raw", Text: S(junk)})
	case "unknown target field":
		btn.set(unknown, &Node{Kind: "raw", Text: S(junk)})
	case "unknown task field":
		bkn.set(unknown, &Node{Kind: "raw", Text: S(junk)})
	case "unknown target setting":
		btn.get("config").set(unknown, &Node{Kind: "raw", Text: S(junk)})
	case "unknown task setting":
		bkn.get("config").set(unknown, &Node{Kind: "raw", Text: S(junk)})
	case "unknown class":
		btn.set("class", str(Pick(t, "class", S("shh"), "", "PG", "demo ", "postgres", "sh/exec", "é")))
	case "no class":
		btn.del("class")
	case "unknown target":
		bkn.set("target", str(Pick(t, "tgt", S("nobody"), "no target/echo", "bad target ", "Bad Target")))
	case "unknown kind":
		bkn.set("target", str("bad target/"+Pick(t, "kind", S("exe"), "Echo", "exec/", "/", " ", "rot13 ", "none", "EXEC")))
	case "no target":
		bkn.del("target")
		for i, n := range tg.Keys { // a target named "" would be right
			if n == "" {
				tg.Keys[i] = "unnamed"
			}
		}
		ts.Keys, ts.Kids = []S{"bad task"}, []*Node{bkn}
		bkn.del("after")
	case "null target":
		tg.set("bad target", null())
		if Bool(t, "alone") {
			ts.Keys, ts.Kids = nil, nil
		}
	case "null task":
		ts.set("bad task", null())
	case "empty target":
		tg.set("bad target", obj())
	case "empty task":
		ts.set("bad task", obj())
		for i, n := range tg.Keys {
			if n == "" {
				tg.Keys[i] = "unnamed"
			}
		}
		ts.Keys, ts.Kids = []S{"bad task"}, []*Node{obj()}
	case "ill typed":
		type field struct {
			o     *Node
			k     S
			wrong []string
		}
		text := []string{"1", "true", "[]", "{}", "['x']"}
		number := []string{"'1'", "true", "[]", "{}", "1.5", "1e30"}
		list := []string{"'x'", "1", "true", "{}", "[1]", "[{}]", "[['x']]", "['x', 2]"}
		object := []string{"'x'", "1", "true", "[]", "[{}]"}
		fs := []field{
			{root, "targets", object}, {root, "tasks", object}, {tg, "bad target", object}, {ts, "bad task", object},
			{btn, "class", text}, {bkn, "target", text}, {bkn, "message", text}, {bkn, "after", list}, {btn, "config", object}, {bkn, "config", object}, {btn, "config", object}, {bkn, "config", object},
		}
		bc, kc := btn.get("config"), bkn.get("config")
		env := func(o *Node) {
			e := obj()
			fs = append(fs, field{o, "env", object}, field{e, "allow", list}, field{e, "deny", list}, field{e, "set", append([]string{"{A: 1}", "{A: ['x']}"}, object...)})
		}
		switch class {
		case "demo":
			fs = append(fs, field{bc, "string", text})
			if bad.Kind == "sleep" {
				fs = append(fs, field{kc, "seconds", number})
			}
		case "sh":
			env(bc)
			env(kc)
			fs = append(fs, field{bc, "concurrency", number}, field{kc, "args", list})
		case "pg":
			fs = append(fs, field{bc, "concurrency", number}, field{kc, "sql", text}, field{bc, "port", append([]string{"-1", "65536"}, number...)},
				field{bc, "connect_retries", number})
			for _, s := range []S{"host", "username", "password", "database", "sslmode"} {
				fs = append(fs, field{bc, s, text})
			}
		}
		f := fs[Int(t, "field", 0, len(fs)-1)]
		wrong := Pick(t, "wrong", f.wrong...)
		v := &Node{Kind: "raw", Text: S(wrong)}
		f.o.set(f.k, v)
		if len(f.o.Keys) == 1 && f.o != bc && f.o != kc && (f.k == "allow" || f.k == "deny" || f.k == "set") {
			if Bool(t, "intarget") {
				bc.set("env", f.o)
			} else {
				kc.set("env", f.o)
			}
		}
		if f.k == "after" && wrong == "[{}]" {
			v.Text = "[{x: 1}]"
		}
		what = fmt.Sprintf("ill typed: %s %s = %s", class, f.k, wrong)
	case "no args":
		switch Int(t, "noargs", 0, 2) {
		case 0:
			bkn.get("config").del("args")
		case 1:
			bkn.get("config").set("args", arr())
		case 2:
			bkn.del("config")
		}
	case "no sql":
		switch Int(t, "nosql", 0, 2) {
		case 0:
			bkn.get("config").del("sql")
		case 1:
			bkn.get("config").set("sql", str(""))
		case 2:
			bkn.del("config")
		}
	case "bad arg0":
		bkn.get("config").set("args", arr(str(Pick(t, "arg0", S("a/b"), "bin/true", "~/x", ".../x", "a/", " /x", ".x/y", "..x/y", ".a/b"))))
	case "bad concurrency":
		btn.get("config").set("concurrency", num(Pick(t, "conc", 0, -1, -2147483648)))
	case "error":
		btn.set("class", &Node{Kind: "raw", Text: "error 'told so'"})
	case "missing import":
		// there's a file of that name in the current directory
		bkn.set("message", &Node{Kind: "raw", Text: S(Pick(t, "how", "import", "importstr")) + " 'missing.libsonnet'"})
	case "assertion":
		bkn.set("config", &Node{Kind: "raw", Text: "{ assert 1 > 2 : 'no' }"})
	case "import cycle":
		bkn.set("config", &Node{Kind: "raw", Text: "(import 'book.jsonnet').tasks['bad task'].config"})
	case "not json":
		bkn.set("config", &Node{Kind: "raw", Text: S(Pick(t, "fn", "function(x) x", "std.foo", "self.x", "undefinedname", "{a: 1, a: 2}", "{x: self.y}", "1/0", "[1][5]"))})
	}
	fs := files(root, k.Tape, "book.jsonnet")
	text := fs["book.jsonnet"]
	switch what {
	case "truncated":
		text = strings.TrimRight(root.json(), " ")
		text = text[:Int(t, "cut", 0, len(text)-1)]
	case "garbage":
		j := root.json()
		// after a structural character, outside of strings
		var spots []int
		in, esc := false, false
		for i := 0; i < len(j); i++ {
			switch {
			case esc:
				esc = false
			case in && j[i] == '\\':
				esc = true
			case j[i] == '"':
				in = !in
			case !in && strings.IndexByte("{}[],:", j[i]) >= 0:
				spots = append(spots, i+1)
			}
		}
		p := spots[Int(t, "spot", 0, len(spots)-1)]
		text = j[:p] + Pick(t, "char", "::::", "§", "\\", "\x00", ";", "}", "]", ")", "1 1", "? ", "local ", "\xff\xfe") + j[p:]
	}
	fs["book.jsonnet"] = text
	out := BadCase{Files: map[string]S{}, What: what}
	for n, s := range fs {
		out.Files[n] = S(s)
	}
	return out
}

// refuse runs every command on a bad runbook.
func refuse(c *Ctx, file string, shown string) {
	do := func(what string, f func() (error, string)) {
		done := make(chan struct{})
		var err error
		var out string
		var pan interface{}
		go func() {
			defer close(done)
			defer func() { pan = recover() }()
			err, out = f()
		}()
		select {
		case <-done:
		case <-time.After(20 * time.Second):
			c.Failf("%s does not come back\n%s", what, shown)
		}
		c.Check(pan == nil, "%s panics: %v\n%s", what, pan, shown)
		c.Check(err != nil, "%s accepts a malformed runbook\n%s", what, shown)
		c.Check(out == "", "%s fails (%v) but printed %q\n%s", what, err, out, shown)
	}
	do("list", func() (error, string) {
		io, o, e := recordingIO()
		_, err := runbook.List(io, file)
		return err, o.String() + e.String()
	})
	for _, splines := range []string{"", "ortho"} {
		do("dot", func() (error, string) {
			io, o, e := recordingIO()
			var w bytes.Buffer
			err := runbook.Dot(io, file, &w, splines)
			return err, o.String() + e.String() + w.String()
		})
	}
	do("run", func() (error, string) {
		io, o, e := recordingIO()
		err := runbook.Run(io, file)
		return err, o.String() + e.String()
	})
}

func runBad(c *Ctx, k BadCase) {
	fs := map[string]string{}
	var sb strings.Builder
	for n, s := range k.Files {
		fs[n] = string(s)
		fmt.Fprintf(&sb, "--- %s\n%s\n", n, s)
	}
	dir := writeFiles(fs)
	defer dropDir(dir)
	c.NonTrivial()
	c.Class("%s", strings.SplitN(k.What, ":", 2)[0])
	refuse(c, dir+"/book.jsonnet", k.What+"\n"+sb.String())
}

// RawCase is any file content.
type RawCase struct{ Data S }

var rawAtoms = []string{
	"{", "}", "[", "]", ":", ",", "targets", "tasks", "class", "config", "after", "target", "message", "'demo'", "'sh'", "'pg'", "null", "1", "-1", "1e999",
	"'", "\"", "|||\n", "local x = ", "; ", "x", "self", "$", "super", "function(x) x", "(", ")", "import 'a'", "importstr '.'", "for i in [1,2]", "if true then ", "else ", "error 'x'",
	"std.", "std.range(1,3)", "+", "%", "//", "/*", "*/", "#", "\n", " ", "\x00", "\xff", "é", "::", ":::", "'%s' % 1", "@'", "assert true", "tailstrict", "in", "{a:1}", "[1]",
}

func genRaw(t *rapid.T) RawCase {
	switch Int(t, "how", 0, 2) {
	case 0:
		return RawCase{S(rapid.SliceOfN(rapid.Byte(), 0, 40).Draw(t, "bytes"))}
	case 1:
		var sb strings.Builder
		for n := Int(t, "n", 0, 25); n > 0; n-- {
			sb.WriteString(Pick(t, "atom", rawAtoms...))
		}
		return RawCase{S(sb.String())}
	}
	k := genDoc(t, docOpt{max: 3})
	text := files(k.node(), k.Tape, "m")["m"]
	for n := Int(t, "edits", 1, 3); n > 0; n-- {
		p := 0
		if len(text) > 0 {
			p = Int(t, "pos", 0, len(text))
		}
		q := p + Int(t, "del", 0, 4)
		if q > len(text) {
			q = len(text)
		}
		text = text[:p] + Pick(t, "ins", append([]string{""}, rawAtoms...)...) + text[q:]
	}
	return RawCase{S(text)}
}

func runRaw(c *Ctx, k RawCase) {
	dir := writeFiles(map[string]string{"book.jsonnet": string(k.Data)})
	defer dropDir(dir)
	file := dir + "/book.jsonnet"
	c.NonTrivialIf(len(k.Data) > 3)
	pure, how, detail := ask("jsonnet", file, 4*time.Second)
	if how == "timeout" || how == "crash" && strings.Contains(detail, "out of memory") {
		// a program that does not terminate
		c.Class("endless program")
		return
	}
	c.Check(how == "" && pure.Panic == "", "evaluating crashes: %s%s\n%s", detail, pure.Panic, k.Data)
	for _, op := range []string{"list", "dot", "eval", "evalcolor"} {
		r, how, detail := ask(op, file, 60*time.Second)
		c.Check(how == "", "%s: %s %s\n%s", op, how, detail, k.Data)
		c.Check(r.Panic == "", "%s panics: %s\n%s", op, r.Panic, k.Data)
		if r.Fail {
			c.Check(r.Out == "", "%s fails (%s) but printed %q\n%s", op, r.Err, r.Out, k.Data)
		}
		c.Check(!pure.Fail || r.Fail, "%s accepts a document that does not evaluate (%s)\n%s", op, pure.Err, k.Data)
		if op == "list" {
			if r.Fail {
				c.Class("refused")
			} else {
				c.Class("accepted")
			}
		}
	}
}

// ---------------------------------------------------------------- R18

// ValidCase is one setting to be accepted or refused.
type ValidCase struct {
	What  string
	Args  []S
	SQL   S
	N     int
	Unset bool
	Bare  bool // there is no config at all
}

func genValid(t *rapid.T) ValidCase {
	k := ValidCase{What: Pick(t, "what", "sh", "sh", "sh", "pg", "shtarget", "pgtarget", "sleep")}
	switch k.What {
	case "sh":
		for n := Int(t, "args", 0, 3); n > 0; n-- {
			k.Args = append(k.Args, anyText(t, "arg"))
		}
		if len(k.Args) > 0 && Chance(t, "path", 70) {
			var sb strings.Builder
			for n := Int(t, "atoms", 1, 6); n > 0; n-- {
				sb.WriteString(Pick(t, "atom", "/", ".", "..", "a", "./", "../", " ", "\\", "~", "a/b", ""))
			}
			k.Args[0] = S(sb.String())
		}
	case "pg":
		k.SQL = anyText(t, "sql")
	case "sleep":
		k.N = Pick(t, "n", -1, 0, 1, 2, 3, 1000000, -1000000)
		k.Unset = Chance(t, "unset", 20)
	default:
		k.N = Pick(t, "n", -1, 0, 1, 2, 3, 2147483647, -2147483648)
		k.Unset = Chance(t, "unset", 20)
	}
	if Chance(t, "bare", 15) {
		k.Bare, k.Unset, k.Args, k.SQL = true, true, nil, ""
	}
	return k
}

func okCommand(s string) bool {
	for i := 0; i < len(s); i++ {
		if s[i] == '/' {
			return i == 0 || s[:i] == "." || s[:i] == ".."
		}
	}
	return true
}

func runValid(c *Ctx, k ValidCase) {
	c.Class("%s", k.What)
	c.NonTrivial()
	// the same settings inside a runbook
	root, tg, ts := obj(), obj(), obj()
	root.set("targets", tg)
	root.set("tasks", ts)
	cfg := obj()
	want := true
	switch k.What {
	case "sh":
		want = len(k.Args) > 0 && okCommand(string(k.Args[0]))
		var args []string
		for _, a := range k.Args {
			args = append(args, string(a))
		}
		err := (&sh.Exec{Args: args}).Check()
		c.Check((err == nil) == want, "a shell task with arguments %q: %v, expected accepted=%v", args, err, want)
		cfg.set("args", strs(k.Args))
		tg.set("t", obj().set("class", str("sh")))
		ts.set("x", obj().set("target", str("t")).set("config", cfg))
	case "pg":
		want = k.SQL != ""
		err := (&pg.Exec{SQL: string(k.SQL)}).Check()
		c.Check((err == nil) == want, "an SQL task with SQL %q: %v, expected accepted=%v", k.SQL, err, want)
		cfg.set("sql", str(k.SQL))
		tg.set("t", obj().set("class", str("pg")))
		ts.set("x", obj().set("target", str("t")).set("config", cfg))
	case "sleep":
		x := &demo.Sleep{Seconds: k.N}
		if k.Unset {
			x.Seconds = 0
		}
		w := x.Seconds
		if w < 1 {
			w = 1
		}
		c.Check(x.Check() == nil, "a sleep task of %d seconds is refused", x.Seconds)
		c.Check(x.Seconds == w, "a sleep task of %d seconds sleeps %d seconds", k.N, x.Seconds)
		if !k.Unset {
			cfg.set("seconds", num(k.N))
		}
		tg.set("t", obj().set("class", str("demo")))
		ts.set("x", obj().set("target", str("t/sleep")).set("config", cfg))
	case "shtarget", "pgtarget":
		class := k.What[:2]
		want = k.Unset || k.N >= 1
		if !k.Unset {
			cfg.set("concurrency", num(k.N))
		}
		tg.set("t", obj().set("class", str(S(class))).set("config", cfg))
		var tgt types.Target = (&sh.TargetFactory{}).NewTarget()
		if class == "pg" {
			tgt = (&pg.TargetFactory{}).NewTarget()
		}
		c.Check(tgt.ConcurrencyLimit() == 1, "a new %s target has concurrency %d", class, tgt.ConcurrencyLimit())
		c.Check(tgt.Analyze() == nil, "a new %s target is refused", class)
	}
	if k.Bare {
		c.Class("no config")
		for _, o := range []*Node{tg.get("t"), ts.get("x")} {
			if o != nil {
				o.del("config")
			}
		}
	}
	dir := writeFiles(map[string]string{"b.jsonnet": root.json()})
	defer dropDir(dir)
	book, err := realParser(dir).Parse(dir + "/b.jsonnet")
	c.Check((err == nil) == want, "%s: %v, expected accepted=%v", root.json(), err, want)
	io, _, _ := recordingIO()
	_, err = runbook.List(io, dir+"/b.jsonnet")
	c.Check((err == nil) == want, "list of %s: %v, expected accepted=%v", root.json(), err, want)
	if want && strings.HasSuffix(k.What, "target") {
		w := 1
		if !k.Unset {
			w = k.N
		}
		c.Check(book.Targets["t"].ConcurrencyLimit() == w, "%s: concurrency limit %d", root.json(), book.Targets["t"].ConcurrencyLimit())
	}
	if k.What == "sleep" {
		x, ok := book.Tasks["x"].Config.(*demo.Sleep)
		c.Check(ok && x.Seconds >= 1, "%s sleeps %+v", root.json(), book.Tasks["x"].Config)
	}
}

func init() {
	Add("R11", "parse", Opt{Quick: 1500, Thorough: 60000,
		Rule: "runbook model (targets of every class with random settings, tasks with arbitrary names, after lists, messages, settings) written as JSON or as random equivalent Jsonnet (locals, imports, comprehensions, functions, merges, quoting styles, comments); non-trivial: at least one task"},
		func(t *rapid.T) DocCase { return genDoc(t, docOpt{max: 6, sleep: true}) }, runParse)
	Add("R12", "mistake", Opt{Quick: 1500, Thorough: 60000,
		Rule: "valid runbook model with exactly one injected mistake of 27 kinds, written as JSON or Jsonnet and given to list, dot and run; every case is non-trivial"},
		genBad, runBad)
	Add("R12", "robust", Opt{Quick: 1500, Thorough: 60000,
		Rule: "random bytes, random Jsonnet tokens or a valid runbook with random edits given to list, dot and eval; non-trivial: more than three bytes"},
		genRaw, runRaw)
	Add("R18", "settings", Opt{Quick: 3000, Thorough: 100000,
		Rule: "one task or target setting, checked directly and inside a runbook; every case is non-trivial"},
		genValid, runValid)
}
