//go:build go1.23

package main

import (
	"bytes"
	"fmt"
	"os"
	"sort"
	"strings"

	"github.com/sjansen/pgutil/internal/taskset/demo"
	"github.com/sjansen/pgutil/internal/taskset/parser"
	"github.com/sjansen/pgutil/internal/taskset/pg"
	"github.com/sjansen/pgutil/internal/taskset/sh"
	"github.com/sjansen/pgutil/internal/taskset/types"
	. "github.com/sjansen/pgutil/internal/zzverif/engine"
	"github.com/sjansen/pgutil/internal/zzverif/rapid"
)

// ---------------------------------------------------------------- T01

// SetCase is a task set.
type SetCase struct {
	Types   map[string]string // registered name -> demo, pg or sh
	Targets []SetTarget
	Tasks   []SetTask
	Order   []int // order of the blocks
	Tape    []int
	Mistake string `json:",omitempty"`
	Where   int    `json:",omitempty"`
	Text    S      `json:",omitempty"`
}

// SetTarget is a target block.
type SetTarget struct {
	Type string
	ID   S
	Str  S
	Max  *int64 `json:",omitempty"`
}

// SetTask is a task block.
type SetTask struct {
	Type                    string
	Kind                    string
	ID                      S
	Target                  *S  `json:",omitempty"`
	After, Provide, Require []S `json:",omitempty"`
	HasAfter, HasP, HasR    bool
	SQL                     S      `json:",omitempty"`
	Args                    []S    `json:",omitempty"`
	Secs                    *int64 `json:",omitempty"`
}

func genName(t *rapid.T, name string) S {
	if Bool(t, name+"?") {
		return S(Pick(t, name, "a", "b", "c", "src", "x1", "msg1/rotate", "task:x1", "task:", "target:a", "with space", "é", "demo", "true"))
	}
	return S(Normal(Text(t, name, 5)))
}

func genNames(t *rapid.T, name string) []S {
	out := []S{}
	for n := Int(t, name+"#", 0, 3); n > 0; n-- {
		out = append(out, genName(t, name))
	}
	if Chance(t, name+"many", 1) {
		for i := []int{9, 17, 65, 101}[Even(t, name+"more", 4)]; i > 0; i-- {
			out = append(out, S(fmt.Sprintf("m%d", i)))
		}
	}
	return out
}

func genInt(t *rapid.T, name string) *int64 {
	if Bool(t, name+"?") {
		n := Pick(t, name, int64(1), 2, 3, 10, 0, -1, 1<<31-1, -1<<31, 1<<40, 1<<52+1)
		return &n
	}
	return nil
}

func genSet(t *rapid.T) SetCase {
	k := SetCase{Types: map[string]string{}}
	var names []string
	for _, typ := range []string{"demo", "pg", "sh"} {
		if Chance(t, typ, 75) {
			name := Pick(t, "as", typ, typ, typ, typ, typ+"2", "other "+typ, "é"+typ)
			k.Types[name] = typ
			names = append(names, name)
		}
	}
	seen := map[string]bool{}
	byType := map[string][]S{}
	if len(names) > 0 {
		for n := Int(t, "targets", 0, 4); n > 0; n-- {
			x := SetTarget{Type: rapid.SampledFrom(names).Draw(t, "type"), ID: genName(t, "id")}
			if Chance(t, "blank", 10) {
				x.ID = ""
			}
			if seen[x.Type+"\x00"+string(x.ID)] {
				continue
			}
			seen[x.Type+"\x00"+string(x.ID)] = true
			byType[x.Type] = append(byType[x.Type], x.ID)
			if k.Types[x.Type] == "demo" {
				x.Str = S(Normal(Text(t, "string", 6)))
				x.Max = genInt(t, "max")
			}
			k.Targets = append(k.Targets, x)
		}
		ids := map[S]bool{}
		if Chance(t, "many", 1) {
			for i := []int{9, 17, 65, 101}[Even(t, "more", 4)]; i > 0; i-- {
				x := SetTask{Type: names[i%len(names)], ID: S(fmt.Sprintf("m%d", i))}
				switch k.Types[x.Type] {
				case "demo":
					x.Kind = "echo"
				case "pg":
					x.SQL = S(fmt.Sprintf("SELECT %d", i))
				case "sh":
					x.Args = []S{S(fmt.Sprintf("arg %d", i))}
				}
				ids[x.ID] = true
				k.Tasks = append(k.Tasks, x)
			}
		}
		for n := Int(t, "tasks", 0, 5); n > 0; n-- {
			x := SetTask{Type: rapid.SampledFrom(names).Draw(t, "type"), ID: genName(t, "id")}
			if ids[x.ID] {
				continue
			}
			ids[x.ID] = true
			if ts := byType[x.Type]; len(ts) > 0 && Chance(t, "target?", 70) {
				s := rapid.SampledFrom(ts).Draw(t, "target")
				x.Target = &s
			} else if Chance(t, "default", 20) {
				s := S("")
				x.Target = &s
			}
			if x.HasAfter = Bool(t, "after?"); x.HasAfter {
				x.After = genNames(t, "after")
			}
			if x.HasP = Chance(t, "provides?", 30); x.HasP {
				x.Provide = genNames(t, "provides")
			}
			if x.HasR = Chance(t, "requires?", 30); x.HasR {
				x.Require = genNames(t, "requires")
				if len(x.After) > 0 && Chance(t, "same", 25) {
					x.Require = append(x.Require, "task:"+x.After[Even(t, "which", len(x.After))])
				}
			}
			switch k.Types[x.Type] {
			case "demo":
				x.Kind = Pick(t, "kind", "echo", "fail", "rev", "rot13", "sleep")
				if x.Kind == "sleep" {
					x.Secs = genInt(t, "secs")
				}
			case "pg":
				x.SQL = S(Normal(Text(t, "sql", 8)))
			case "sh":
				x.Args = genNames(t, "args")
			}
			k.Tasks = append(k.Tasks, x)
		}
	}
	k.Order = Perm(t, "order", len(k.Targets)+len(k.Tasks))
	k.Where = Int(t, "where", 0, 100)
	if Bool(t, "spell") {
		k.Tape = rapid.SliceOfN(rapid.IntRange(0, 1000), 0, 60).Draw(t, "tape")
	}
	return k
}

func (k *SetCase) doc() *HBlock {
	var bs []*HBlock
	for _, x := range k.Targets {
		b := &HBlock{Type: "target", Labels: []S{S(x.Type), x.ID}}
		if k.Types[x.Type] == "demo" {
			b.Attr("string", HS(x.Str))
			if x.Max != nil {
				b.Attr("max_concurrency", HN(*x.Max))
			}
		}
		bs = append(bs, b)
	}
	for _, x := range k.Tasks {
		typ := x.Type
		if x.Kind != "" {
			typ += "/" + x.Kind
		}
		b := &HBlock{Type: "task", Labels: []S{S(typ), x.ID}}
		if x.Target != nil {
			b.Attr("target", HS(*x.Target))
		}
		switch k.Types[x.Type] {
		case "pg":
			b.Attr("sql", HS(x.SQL))
		case "sh":
			b.Attr("args", HL(x.Args))
		}
		if x.HasAfter {
			b.Attr("after", HL(x.After))
		}
		if x.Secs != nil {
			b.Attr("seconds", HN(*x.Secs))
		}
		if x.HasP {
			b.Attr("provides", HL(x.Provide))
		}
		if x.HasR {
			b.Attr("requires", HL(x.Require))
		}
		bs = append(bs, b)
	}
	d := &HBlock{}
	for _, i := range k.Order {
		d.Items = append(d.Items, HItem{Block: bs[i]})
	}
	return d
}

func (k *SetCase) parser() *parser.Parser {
	p := &parser.Parser{Targets: map[string]types.TargetFactory{}}
	for name, typ := range k.Types {
		switch typ {
		case "demo":
			p.Targets[name] = &demo.TargetFactory{Stdout: &bytes.Buffer{}}
		case "pg":
			p.Targets[name] = &pg.TargetFactory{}
		case "sh":
			p.Targets[name] = &sh.TargetFactory{}
		}
	}
	return p
}

func parseText(p *parser.Parser, text string) (*types.TaskSet, error) {
	f, err := os.CreateTemp("", "set*.hcl")
	if err != nil {
		Harnessf("%v", err)
	}
	defer os.Remove(f.Name())
	if _, err := f.WriteString(text); err != nil {
		Harnessf("%v", err)
	}
	f.Close()
	return p.Parse(f.Name())
}

func same(got []string, want ...[]S) bool {
	n := 0
	for _, ws := range want {
		for _, w := range ws {
			if n >= len(got) || got[n] != string(w) {
				return false
			}
			n++
		}
	}
	return n == len(got)
}

func keysOf[K ~string, V any](m map[K]V) []string {
	var out []string
	for k := range m {
		out = append(out, string(k))
	}
	sort.Strings(out)
	return out
}

func runSet(c *Ctx, k SetCase) {
	text := (&HRender{Tape: k.Tape}).Doc(k.doc())
	var ts *types.TaskSet
	var err error
	c.Protect("Parse", func() { ts, err = parseText(k.parser(), text) })
	c.Check(err == nil, "Parse: %v\n%s", err, text)
	c.Check(ts != nil, "Parse returns nothing\n%s", text)
	c.NonTrivialIf(len(k.Targets)+len(k.Tasks) > 1)

	c.Check(fmt.Sprint(keysOf(ts.Targets)) == fmt.Sprint(keysOf(k.Types)), "target types %q, expected %q\n%s", keysOf(ts.Targets), keysOf(k.Types), text)
	want := map[string]map[string]*SetTarget{}
	for name := range k.Types {
		want[name] = map[string]*SetTarget{"": nil}
	}
	for i := range k.Targets {
		x := &k.Targets[i]
		want[x.Type][string(x.ID)] = x
	}
	for name, typ := range k.Types {
		a, b := fmt.Sprintf("%q", keysOf(ts.Targets[name])), fmt.Sprintf("%q", keysOf(want[name]))
		c.Check(a == b, "the %s targets are %s, expected %s\n%s", name, a, b, text)
		for id, x := range want[name] {
			target := ts.Targets[name][types.TargetID(id)]
			switch typ {
			case "demo":
				d, ok := target.(*demo.Target)
				c.Check(ok, "target %q is a %T", id, target)
				str, max := S(""), int64(1)
				if x != nil {
					str = x.Str
					if x.Max != nil {
						max = *x.Max
					}
				}
				c.Check(d.String == string(str), "string of target %q is %q, expected %q\n%s", id, d.String, str, text)
				c.Check(int64(d.MaxConcurrency) == max, "max_concurrency of target %q is %d, expected %d\n%s", id, d.MaxConcurrency, max, text)
			case "pg":
				_, ok := target.(*pg.Target)
				c.Check(ok, "target %q is a %T", id, target)
			case "sh":
				_, ok := target.(*sh.Target)
				c.Check(ok, "target %q is a %T", id, target)
			}
		}
	}
	ids := map[string]bool{}
	for i := range k.Tasks {
		ids[string(k.Tasks[i].ID)] = true
	}
	a, b := fmt.Sprintf("%q", keysOf(ts.Tasks)), fmt.Sprintf("%q", keysOf(ids))
	c.Check(a == b, "the tasks are %s, expected %s\n%s", a, b, text)
	for i := range k.Tasks {
		x := &k.Tasks[i]
		task := ts.Tasks[types.TaskID(x.ID)]
		ok := false
		switch k.Types[x.Type] {
		case "demo":
			switch x.Kind {
			case "echo":
				_, ok = task.(*demo.Echo)
			case "fail":
				_, ok = task.(*demo.Fail)
			case "rev":
				_, ok = task.(*demo.Rev)
			case "rot13":
				_, ok = task.(*demo.Rot13)
			case "sleep":
				var s *demo.Sleep
				s, ok = task.(*demo.Sleep)
				secs := int64(0)
				if x.Secs != nil {
					secs = *x.Secs
				}
				c.Check(!ok || int64(s.Seconds) == secs || secs < 1 && s.Seconds == 1, "task %q sleeps %d seconds, expected %d\n%s", x.ID, s.Seconds, secs, text)
			}
		case "pg":
			var s *pg.Task
			s, ok = task.(*pg.Task)
			c.Check(!ok || s.SQL == string(x.SQL), "the SQL of task %q is %q, expected %q\n%s", x.ID, s.SQL, x.SQL, text)
		case "sh":
			var s *sh.Task
			s, ok = task.(*sh.Task)
			c.Check(!ok || same(s.Args, x.Args), "the arguments of task %q are %q, expected %q\n%s", x.ID, s.Args, x.Args, text)
		}
		c.Check(ok, "task %q (%s/%s) is a %T\n%s", x.ID, x.Type, x.Kind, task, text)
		var after []S
		for _, s := range x.After {
			after = append(after, "task:"+s)
		}
		for again := 0; again < 2; again++ {
			deps, provided := task.Dependencies(), task.Provides()
			c.Check(same(deps, after, x.Require), "the dependencies of task %q are %q, it is after %q and requires %q\n%s", x.ID, deps, x.After, x.Require, text)
			c.Check(same(provided, x.Provide), "task %q provides %q, expected %q\n%s", x.ID, provided, x.Provide, text)
		}
	}
}

// ---------------------------------------------------------------- mistakes

var setMistakes = []string{
	"target type", "task type", "missing target", "other type's target", "kind", "no kind", "target attribute", "task attribute", "missing string", "missing setting",
	"ill-typed string", "ill-typed int", "fraction", "ill-typed setting", "ill-typed list", "ill-typed after", "ill-typed target", "block", "top attribute", "inner block", "label", "labels", "brace", "open brace", "assign",
	"variable", "function", "repeated", "null", "no value",
}

func genMistake(t *rapid.T) SetCase {
	k := genSet(t)
	for tries := 0; len(k.Types) == 0 || len(k.Targets)+len(k.Tasks) == 0; tries++ {
		if tries > 20 {
			k.Types = map[string]string{"pg": "pg"}
			k.Tasks = []SetTask{{Type: "pg", ID: "a", SQL: "x"}}
			k.Targets = nil
			k.Order = []int{0}
			break
		}
		k = genSet(t)
	}
	k.Mistake = rapid.SampledFrom(setMistakes).Draw(t, "mistake")
	k.Where = Int(t, "where", 0, 100)
	return k
}

// spoil applies the mistake; it returns false if it does not fit.
func (k *SetCase) spoil(d *HBlock) (text string, ok bool) {
	bs := d.Blocks()
	pick := func(f func(*HBlock) bool) *HBlock {
		var fit []*HBlock
		for _, b := range bs {
			if f(b) {
				fit = append(fit, b)
			}
		}
		if len(fit) == 0 {
			return nil
		}
		return fit[k.Where%len(fit)]
	}
	class := func(b *HBlock) string { return k.Types[strings.SplitN(string(b.Labels[0]), "/", 2)[0]] }
	any := func(*HBlock) bool { return true }
	target := func(b *HBlock) bool { return b.Type == "target" }
	task := func(b *HBlock) bool { return b.Type == "task" }
	demoTarget := func(b *HBlock) bool { return target(b) && class(b) == "demo" }
	var b *HBlock
	render := func() string { return (&HRender{Tape: k.Tape}).Doc(d) }
	bad := &HVal{Kind: "l", Kids: []*HVal{HS("x"), HS("y")}}
	if k.Where%3 == 0 {
		bad = &HVal{Kind: "o", Keys: []S{"a"}, Kids: []*HVal{HS("x")}}
	}
	switch k.Mistake {
	case "target type":
		if b = pick(target); b != nil {
			b.Labels[0] = []S{"nosuch", "", b.Labels[0] + "x", b.Labels[0] + "/x"}[k.Where%4]
		}
	case "task type":
		if b = pick(task); b != nil {
			b.Labels[0] = []S{"nosuch", "", "x" + b.Labels[0], "/" + b.Labels[0]}[k.Where%4]
		}
	case "missing target":
		if b = pick(task); b != nil {
			b.Attr("target", HS("no such target"+b.Labels[1]))
			for _, x := range k.Targets {
				if x.ID == "no such target"+b.Labels[1] {
					return "", false
				}
			}
		}
	case "other type's target":
		if b = pick(task); b != nil {
			var id *S
			for i := range k.Targets {
				x := &k.Targets[i]
				mine := false
				for j := range k.Targets {
					mine = mine || k.Targets[j].ID == x.ID && k.Targets[j].Type == strings.SplitN(string(b.Labels[0]), "/", 2)[0]
				}
				if !mine && x.ID != "" {
					id = &x.ID
				}
			}
			if id == nil {
				return "", false
			}
			b.Attr("target", HS(*id))
		}
	case "kind":
		if b = pick(func(b *HBlock) bool { return task(b) && class(b) == "demo" }); b != nil {
			b.Labels[0] += []S{"x", "/", "/echo"}[k.Where%3]
		}
	case "no kind":
		if b = pick(func(b *HBlock) bool { return task(b) && class(b) == "demo" }); b != nil {
			b.Labels[0] = b.Labels[0][:strings.Index(string(b.Labels[0]), "/")]
			if k.Where%2 == 0 {
				b.Labels[0] += "/"
			}
		}
	case "target attribute":
		if b = pick(target); b != nil {
			b.Attr([]string{"nosuch", "String", "after", "type", "name"}[k.Where%5], HS("x"))
		}
	case "task attribute":
		if b = pick(task); b != nil {
			b.Attr([]string{"nosuch", "Target", "string", "type", "name", "max_concurrency"}[k.Where%6], HS("x"))
		}
	case "missing string":
		if b = pick(demoTarget); b != nil {
			b.Del("string")
		}
	case "missing setting":
		if b = pick(func(b *HBlock) bool { return b.Get("sql") != nil || b.Get("args") != nil }); b != nil {
			b.Del("sql")
			b.Del("args")
		}
	case "ill-typed string":
		if b = pick(demoTarget); b != nil {
			b.Attr("string", bad)
		}
	case "ill-typed int":
		if b = pick(demoTarget); b != nil {
			b.Attr("max_concurrency", []*HVal{bad, HS("many"), HS(""), HB(true)}[k.Where%4])
		}
	case "fraction":
		if b = pick(demoTarget); b != nil {
			b.Attr("max_concurrency", &HVal{Kind: "n", Text: []S{"1.5", "1e30", "-0.25", "9223372036854775808"}[k.Where%4]})
		}
	case "ill-typed setting":
		if b = pick(func(b *HBlock) bool { return b.Get("sql") != nil }); b != nil {
			b.Attr("sql", bad)
		}
	case "ill-typed list":
		if b = pick(func(b *HBlock) bool { return b.Get("args") != nil }); b != nil {
			b.Attr("args", []*HVal{HS("x"), HN(1), HB(true), {Kind: "l", Kids: []*HVal{bad}}}[k.Where%4])
		}
	case "ill-typed after":
		if b = pick(task); b != nil {
			b.Attr([]string{"after", "provides", "requires"}[k.Where%3], []*HVal{HS("x"), HN(1), HB(true), {Kind: "l", Kids: []*HVal{bad}}}[k.Where%4])
		}
	case "ill-typed target":
		if b = pick(task); b != nil {
			b.Attr("target", bad)
		}
	case "block":
		d.Add([]string{"nosuch", "targets", "Task", "tasks"}[k.Where%4], "a", "b")
		return render(), true
	case "top attribute":
		d.Attr([]string{"nosuch", "target", "task"}[k.Where%3], HS("x"))
		return render(), true
	case "inner block":
		if b = pick(any); b != nil {
			b.Add([]string{"nosuch", "target", "config"}[k.Where%3])
		}
	case "label":
		if b = pick(any); b != nil {
			b.Labels = b.Labels[:k.Where%2]
		}
	case "labels":
		if b = pick(any); b != nil {
			b.Labels = append(b.Labels, "x")
		}
	case "brace":
		s := render()
		i := strings.LastIndex(s, "}")
		return s[:i] + s[i+1:], true
	case "open brace":
		return render() + "\n}\n", true
	case "assign":
		return render() + "\ntarget\n", true
	case "variable", "function", "no value":
		v := map[string]S{"variable": "nosuch", "function": "nosuch(1)", "no value": ""}[k.Mistake]
		if b = pick(task); b != nil {
			b.Attr("target", &HVal{Kind: "raw", Text: v})
		}
	case "repeated":
		if b = pick(func(b *HBlock) bool { return len(b.Items) > 0 }); b != nil {
			b.Items = append(b.Items, b.Items[k.Where%len(b.Items)])
		}
	case "null":
		if b = pick(demoTarget); b != nil {
			b.Attr("string", &HVal{Kind: "0"})
		}
	}
	if b == nil {
		return "", false
	}
	return render(), true
}

func runMistake(c *Ctx, k SetCase) {
	text, ok := k.spoil(k.doc())
	if !ok {
		return
	}
	c.NonTrivial()
	c.Class("%s", k.Mistake)
	var ts *types.TaskSet
	var err error
	c.Protect("Parse", func() { ts, err = parseText(k.parser(), text) })
	c.Check(err != nil, "no error although the file is wrong (%s)\n%s", k.Mistake, text)
	c.Check(ts == nil, "an error and a task set (%s)\n%s", k.Mistake, text)
	c.Check(err.Error() != "", "the error has no text")
}

// ---------------------------------------------------------------- any text

var hclAtoms = []string{
	"target", "task", " ", "\n", "\"", "{", "}", "=", "demo", "demo/echo", "\"a\"", "\"demo\"", "\"sh\"", "\"pg\"", "[", "]", ",", "string", "args", "sql", "after", "${", "%{", "$${", "}", "~}",
	"if true", "else", "endif", "for x in [1]", "(", ")", "<<EOT\n", "EOT\n", "<<-EOT\n", "null", "true", "false", "1", "-", "1e999999", "0x1", "1.", ".", "..", "?", ":", "+", "/", "%", "*", "!", "&&", "||", "==", "=>", "...",
	"#", "//", "/*", "*/", "\\", "\\u12", "\\n", "\r\n", "\t", "\x00", "\xff", "\xef\xbb\xbf", "é", "foo.bar", "foo[0]", "foo.*", "foo[*]", "f(x)", "'", "`", ";", "@", "1/0", "{a=1}", "[for x in y: x]", "-5", "1-", "seconds", "max_concurrency",
	"target \"demo\" \"a\" {\n", "task \"demo/rev\" \"b\" {\n", "string = \"x\"\n", "}\n", "task \"sh\" \"c\" {\n  args = [\"x\"]\n}\n",
}

func genAny(t *rapid.T) SetCase {
	k := SetCase{Types: map[string]string{"demo": "demo", "pg": "pg", "sh": "sh"}}
	var s string
	switch Int(t, "how", 0, 3) {
	case 0:
		for n := Int(t, "n", 0, 25); n > 0; n-- {
			s += rapid.SampledFrom(hclAtoms).Draw(t, "atom")
		}
	case 1:
		s = string(rapid.SliceOfN(rapid.Byte(), 0, 40).Draw(t, "bytes"))
	default:
		x := genSet(t)
		s = (&HRender{Tape: x.Tape}).Doc(x.doc())
		for n := Int(t, "edits", 1, 3); n > 0; n-- {
			i := Int(t, "at", 0, len(s))
			j := i + Int(t, "del", 0, 6)
			if j > len(s) {
				j = len(s)
			}
			ins := ""
			if Bool(t, "ins") {
				ins = rapid.SampledFrom(hclAtoms).Draw(t, "atom")
			}
			s = s[:i] + ins + s[j:]
		}
	}
	k.Text = S(s)
	return k
}

func runAny(c *Ctx, k SetCase) {
	var ts *types.TaskSet
	var err error
	c.Protect("Parse", func() { ts, err = parseText(k.parser(), string(k.Text)) })
	c.Check((ts == nil) == (err != nil), "Parse returns %v and %v", ts, err)
	if err != nil {
		c.Check(err.Error() != "", "the error has no text")
	} else {
		c.Class("accepted")
	}
	c.NonTrivialIf(err == nil && len(ts.Tasks) > 0)
}

func runNoFile(c *Ctx, k SetCase) {
	ts, err := k.parser().Parse(os.TempDir() + "/no such file.hcl")
	c.Check(ts == nil && err != nil, "a missing file is parsed as %v, %v", ts, err)
	ts, err = k.parser().Parse(os.TempDir())
	c.Check(ts == nil && err != nil, "a directory is parsed as %v, %v", ts, err)
	c.NonTrivial()
}

func init() {
	Add("T01", "roundtrip", Opt{Quick: 5000, Thorough: 200000,
		Rule: "task set model with demo, pg and sh targets registered under generated names, rendered as HCL in equivalent spellings; non-trivial: two or more blocks"},
		genSet, runSet)
	Add("T01", "mistake", Opt{Quick: 5000, Thorough: 200000,
		Rule: "a task set with exactly one mistake; non-trivial: the mistake fits the task set"},
		genMistake, runMistake)
	Add("T01", "any", Opt{Quick: 5000, Thorough: 200000,
		Rule: "random HCL-like text, random bytes and damaged task sets; non-trivial: accepted with at least one task"},
		genAny, runAny)
	Add("T01", "nofile", Opt{Quick: 1, Thorough: 1, Rule: "a missing file and a directory"},
		func(t *rapid.T) SetCase { return SetCase{Where: Int(t, "x", 0, 1)} }, runNoFile)
}
