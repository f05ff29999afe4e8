//go:build go1.23

package main

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"

	"go.uber.org/zap"

	"github.com/sjansen/pgutil/internal/sys"
	. "github.com/sjansen/pgutil/internal/zzverif/engine"
	"github.com/sjansen/pgutil/internal/zzverif/rapid"
)

// ---------------------------------------------------------------- document trees

// A Node is a JSON value.  Objects keep their order.
type Node struct {
	Kind string // "s", "n", "b", "0", "a", "o"; "raw" is text put as it is
	Text S      `json:",omitempty"`
	Keys []S    `json:",omitempty"`
	Kids []*Node
}

func str(s S) *Node           { return &Node{Kind: "s", Text: s} }
func num(i int) *Node         { return &Node{Kind: "n", Text: S(strconv.Itoa(i))} }
func null() *Node             { return &Node{Kind: "0"} }
func arr(kids ...*Node) *Node { return &Node{Kind: "a", Kids: kids} }
func obj() *Node              { return &Node{Kind: "o"} }
func strs(ss []S) *Node {
	a := arr()
	for _, s := range ss {
		a.Kids = append(a.Kids, str(s))
	}
	return a
}

func (n *Node) set(key S, v *Node) *Node {
	for i, k := range n.Keys {
		if k == key {
			n.Kids[i] = v
			return n
		}
	}
	n.Keys = append(n.Keys, key)
	n.Kids = append(n.Kids, v)
	return n
}

func (n *Node) get(key S) *Node {
	for i, k := range n.Keys {
		if k == key {
			return n.Kids[i]
		}
	}
	return nil
}

func (n *Node) del(key S) {
	for i, k := range n.Keys {
		if k == key {
			n.Keys = append(n.Keys[:i:i], n.Keys[i+1:]...)
			n.Kids = append(n.Kids[:i:i], n.Kids[i+1:]...)
			return
		}
	}
}

func quote(s S) string {
	data, err := json.Marshal(string(s))
	if err != nil {
		Harnessf("%v", err)
	}
	return string(data)
}

// json renders the tree plainly.
func (n *Node) json() string {
	switch n.Kind {
	case "s":
		return quote(n.Text)
	case "0":
		return "null"
	case "a":
		var parts []string
		for _, k := range n.Kids {
			parts = append(parts, k.json())
		}
		return "[" + strings.Join(parts, ",") + "]"
	case "o":
		var parts []string
		for i, k := range n.Kids {
			parts = append(parts, quote(n.Keys[i])+":"+k.json())
		}
		return "{" + strings.Join(parts, ",") + "}"
	}
	return string(n.Text)
}

// ---------------------------------------------------------------- Jsonnet renderings

// render writes a tree as Jsonnet that evaluates to it.  The choices come from
// tape; an exhausted tape means plain JSON.
type render struct {
	tape   []int
	files  map[string]string
	locals []string
	nfile  int
	depth  int
	insub  bool // the text goes to a file in the subdirectory
}

func (r *render) pick(n int) int {
	if len(r.tape) == 0 {
		return 0
	}
	v := r.tape[0]
	r.tape = r.tape[1:]
	return v % n
}

func (r *render) ws() string {
	return []string{"", "", "", " ", "\n", "\t", "  \n  ", "\r\n", " // c\n", "/* c { */", "# '\n"}[r.pick(11)]
}

var jsonnetKeywords = map[string]bool{"assert": true, "else": true, "error": true, "false": true, "for": true, "function": true, "if": true,
	"import": true, "importstr": true, "in": true, "local": true, "null": true, "tailstrict": true, "then": true, "self": true, "super": true, "true": true}

func plainIdent(s S) bool {
	if s == "" || jsonnetKeywords[string(s)] {
		return false
	}
	for i, c := range string(s) {
		if !(c == '_' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || i > 0 && c >= '0' && c <= '9') {
			return false
		}
	}
	return true
}

func (r *render) text(s S) string {
	switch r.pick(8) {
	case 1: // single quotes
		q := quote(s)
		q = strings.ReplaceAll(q[1:len(q)-1], `\"`, `"`)
		return "'" + strings.ReplaceAll(q, "'", `\'`) + "'"
	case 2: // verbatim
		return `@"` + strings.ReplaceAll(string(s), `"`, `""`) + `"`
	case 3:
		return `@'` + strings.ReplaceAll(string(s), `'`, `''`) + `'`
	case 4: // concatenation
		rs := []rune(string(s))
		m := len(rs) / 2
		return "(" + r.text(S(rs[:m])) + r.ws() + "+" + r.ws() + r.text(S(rs[m:])) + ")"
	case 5: // block
		if strings.HasSuffix(string(s), "\n") && !strings.Contains(string(s), "\r") && !strings.Contains(string(s), "|||") && s[0] != '\n' && s[0] != ' ' && s[0] != '\t' {
			var sb strings.Builder
			sb.WriteString("|||\n")
			for _, l := range strings.SplitAfter(string(s), "\n") {
				if l != "" && l != "\n" {
					l = "   " + l
				}
				sb.WriteString(l)
			}
			sb.WriteString(" |||")
			return sb.String()
		}
	case 6: // \u escapes
		var sb strings.Builder
		sb.WriteByte('"')
		for _, c := range string(s) {
			if c < 0x10000 && (c < 0x20 || c > 0x7e || c == '"' || c == '\\' || c == 'a') {
				fmt.Fprintf(&sb, `\u%04x`, c)
			} else {
				sb.WriteRune(c)
			}
		}
		sb.WriteByte('"')
		return sb.String()
	case 7:
		name := r.file(".txt", r.pick(3) == 1)
		r.files[name] = string(s)
		return "(importstr " + r.text0(S(r.ref(name))) + ")"
	}
	return quote(s)
}

func (r *render) text0(s S) string { return "'" + string(s) + "'" }

// file names a new file to be imported.
func (r *render) file(ext string, sub bool) string {
	r.nfile++
	name := fmt.Sprintf("f%d%s", r.nfile, ext)
	if sub {
		name = "sub/" + name
	}
	return name
}

// ref is how the file being written refers to another: relative to itself, or
// to the run book's directory.
func (r *render) ref(name string) string {
	if !r.insub || r.pick(3) == 1 {
		return name
	}
	if strings.HasPrefix(name, "sub/") {
		return name[len("sub/"):]
	}
	return "../" + name
}

func (r *render) val(n *Node) string {
	r.depth++
	defer func() { r.depth-- }()
	p := r.pick(16)
	if r.insub && p < 10 && r.pick(3) == 1 {
		p = 14 // imports from there too
	}
	if n.Kind == "raw" {
		p = 0
	}
	switch p {
	case 10:
		return "(" + r.ws() + r.val(n) + r.ws() + ")"
	case 11:
		name := fmt.Sprintf("x%d", len(r.locals))
		r.locals = append(r.locals, "")
		i := len(r.locals) - 1
		r.locals[i] = "local " + name + " =" + r.ws() + " " + r.val(n) + ";" + r.ws()
		return name
	case 12:
		return "(function(q)" + r.ws() + " q)(" + r.val(n) + ")"
	case 13:
		return "(if " + []string{"true", "1 < 2", "'a' != 'b'", "!false"}[r.pick(4)] + " then " + r.val(n) + " else error 'no')"
	case 14:
		// an imported file sees none of the locals
		saved, insub := r.locals, r.insub
		name := r.file(".libsonnet", r.pick(3) == 1)
		r.locals, r.insub = nil, strings.HasPrefix(name, "sub/")
		body := r.val(n)
		body = strings.Join(reversed(r.locals), "\n") + body
		r.locals, r.insub = saved, insub
		r.files[name] = body
		return "(import " + r.text0(S(r.ref(name))) + ")"
	case 15:
		return "{" + r.ws() + "v" + r.ws() + ":: " + r.val(n) + "," + r.ws() + "}.v"
	}
	switch n.Kind {
	case "s":
		return r.text(n.Text)
	case "n":
		t := string(n.Text)
		if i, err := strconv.Atoi(t); err == nil {
			switch r.pick(6) {
			case 1:
				return fmt.Sprintf("(%d + %d)", i-7, 7)
			case 2:
				return fmt.Sprintf("%d.0", i)
			case 3:
				return fmt.Sprintf("(%d / 2)", i*2)
			case 4:
				return fmt.Sprintf("%de0", i)
			case 5:
				return fmt.Sprintf("std.length(std.range(1, %d))", max(i%50, 0)) + fmt.Sprintf(" + %d", i-max(i%50, 0))
			}
		}
		return t
	case "a":
		if len(n.Kids) > 0 {
			switch r.pick(6) {
			case 4:
				return "[" + r.ws() + "e for e in " + r.plainArr(n.Kids) + r.ws() + "]"
			case 5:
				m := len(n.Kids) / 2
				return "(" + r.plainArr(n.Kids[:m]) + r.ws() + "+" + r.ws() + r.plainArr(n.Kids[m:]) + ")"
			}
		}
		return r.plainArr(n.Kids)
	case "o":
		idx := make([]int, len(n.Keys))
		for i := range idx {
			idx[i] = i
		}
		// key order is irrelevant
		for i := len(idx) - 1; i > 0; i-- {
			j := i - r.pick(i+1)
			idx[i], idx[j] = idx[j], idx[i]
		}
		if len(idx) > 0 {
			switch r.pick(8) {
			case 4:
				var parts []string
				for _, i := range idx {
					parts = append(parts, "["+r.text(n.Keys[i])+","+r.ws()+r.val(n.Kids[i])+"]")
				}
				return "{" + r.ws() + "[kv[0]]: kv[1] for kv in [" + strings.Join(parts, ","+r.ws()) + "]" + r.ws() + "}"
			case 5:
				m := len(idx) / 2
				return "(" + r.plainObj(n, idx[:m]) + r.ws() + "+" + r.ws() + r.plainObj(n, idx[m:]) + ")"
			case 6:
				return "(" + r.plainObj(n, idx) + "{ hidden:: error 'unused' })"
			case 7: // an overridden field
				return "({" + r.ws() + quote(n.Keys[idx[0]]) + ": 'overridden' }+" + r.plainObj(n, idx) + ")"
			}
		}
		return r.plainObj(n, idx)
	}
	return n.json()
}

func (r *render) plainArr(kids []*Node) string {
	var sb strings.Builder
	sb.WriteString("[" + r.ws())
	for i, k := range kids {
		if i > 0 {
			sb.WriteString("," + r.ws())
		}
		sb.WriteString(r.val(k) + r.ws())
	}
	if len(kids) > 0 && r.pick(4) == 1 {
		sb.WriteString(",")
	}
	return sb.String() + "]"
}

func (r *render) plainObj(n *Node, idx []int) string {
	var sb strings.Builder
	sb.WriteString("{" + r.ws())
	for j, i := range idx {
		if j > 0 {
			sb.WriteString("," + r.ws())
		}
		k := n.Keys[i]
		v := r.pick(4)
		switch {
		case v == 1 && plainIdent(k):
			sb.WriteString(string(k))
		case v == 2:
			sb.WriteString("[" + r.text(k) + "]")
		default:
			t := r.text(k)
			if c := t[0]; c != '"' && c != '\'' && c != '@' || strings.HasPrefix(t, "|||") {
				t = quote(k)
			}
			sb.WriteString(t)
		}
		sb.WriteString(r.ws() + ":" + r.ws() + " " + r.val(n.Kids[i]) + r.ws())
	}
	if len(idx) > 0 && r.pick(4) == 1 {
		sb.WriteString(",")
	}
	return sb.String() + "}"
}

func reversed(ss []string) []string {
	out := make([]string, len(ss))
	for i, s := range ss {
		out[len(ss)-1-i] = s
	}
	return out
}

// files renders the tree as runbook files; the main one is named main.
func files(n *Node, tape []int, main string) map[string]string {
	r := &render{tape: tape, files: map[string]string{}}
	body := r.ws() + r.val(n) + r.ws()
	r.files[main] = strings.Join(reversed(r.locals), "\n") + body
	return r.files
}

func genTape(t *rapid.T) []int {
	switch Int(t, "style", 0, 2) {
	case 0:
		return nil
	}
	return rapid.SliceOfN(rapid.IntRange(0, 239), 0, 400).Draw(t, "tape")
}

var caseDirs int

// writeFiles puts files into a new scratch directory and returns it.
func writeFiles(fs map[string]string) string {
	caseDirs++
	dir := scratchFile(fmt.Sprintf("case%d", caseDirs))
	if err := os.MkdirAll(dir+"/sub", 0o755); err != nil {
		Harnessf("%v", err)
	}
	for name, content := range fs {
		mustWrite(filepath.Join(dir, name), []byte(content))
	}
	return dir
}

func dropDir(dir string) {
	if strings.Contains(dir, "/case") {
		os.RemoveAll(dir)
	}
}

// ---------------------------------------------------------------- runbook models

// KV is a name with a value.
type KV struct{ K, V S }

// EnvDef is an environment filter; nil fields are left out.
type EnvDef struct {
	Allow, Deny []S
	Set         []KV
}

func (e *EnvDef) node() *Node {
	o := obj()
	if e.Allow != nil {
		o.set("allow", strs(e.Allow))
	}
	if e.Deny != nil {
		o.set("deny", strs(e.Deny))
	}
	if e.Set != nil {
		s := obj()
		for _, kv := range e.Set {
			s.set(kv.K, str(kv.V))
		}
		o.set("set", s)
	}
	return o
}

func (e *EnvDef) set() map[string]string {
	m := map[string]string{}
	if e != nil {
		for _, kv := range e.Set {
			m[string(kv.K)] = string(kv.V)
		}
	}
	return m
}

// TargetDef is a target of a runbook model; nil fields are left out.
type TargetDef struct {
	Name  S
	Class string
	// sh and pg
	Concurrency *int    `json:",omitempty"`
	Env         *EnvDef `json:",omitempty"`
	// pg
	Host, Mode, User, Pass, DB *S   `json:",omitempty"`
	Port, Retries              *int `json:",omitempty"`
	// demo
	String   *S `json:",omitempty"`
	NoConfig bool
}

// TaskDef is a task of a runbook model.
type TaskDef struct {
	Name    S
	Target  int
	Kind    string // what follows the slash
	Slash   bool   // the kind is written, even when empty
	After   []int
	HasAft  bool
	Message *S `json:",omitempty"`
	Args    []S
	Env     *EnvDef `json:",omitempty"`
	SQL     S
	Seconds *int `json:",omitempty"`
	Empty   bool // an empty config is written
}

// DocCase is a runbook model and how to write it.
type DocCase struct {
	Targets []TargetDef
	Tasks   []TaskDef
	NoTgts  bool // no "targets" when there are none
	NoTasks bool
	Tape    []int
}

func (k *DocCase) node() *Node {
	root := obj()
	tg := obj()
	for i := range k.Targets {
		d := &k.Targets[i]
		o := obj().set("class", str(S(d.Class)))
		cfg := obj()
		if d.Concurrency != nil {
			cfg.set("concurrency", num(*d.Concurrency))
		}
		if d.Env != nil {
			cfg.set("env", d.Env.node())
		}
		for _, f := range []struct {
			k S
			v *S
		}{{"host", d.Host}, {"sslmode", d.Mode}, {"username", d.User}, {"password", d.Pass}, {"database", d.DB}, {"string", d.String}} {
			if f.v != nil {
				cfg.set(f.k, str(*f.v))
			}
		}
		if d.Port != nil {
			cfg.set("port", num(*d.Port))
		}
		if d.Retries != nil {
			cfg.set("connect_retries", num(*d.Retries))
		}
		if !d.NoConfig || len(cfg.Keys) > 0 {
			o.set("config", cfg)
		}
		tg.set(d.Name, o)
	}
	if len(k.Targets) > 0 || !k.NoTgts {
		root.set("targets", tg)
	}
	ts := obj()
	for i := range k.Tasks {
		d := &k.Tasks[i]
		target := k.Targets[d.Target].Name
		if d.Kind != "" || d.Slash {
			target += S("/" + d.Kind)
		}
		o := obj().set("target", str(target))
		if d.HasAft || len(d.After) > 0 {
			a := arr()
			for _, j := range d.After {
				a.Kids = append(a.Kids, str(k.Tasks[j].Name))
			}
			o.set("after", a)
		}
		if d.Message != nil {
			o.set("message", str(*d.Message))
		}
		cfg := obj()
		if d.Args != nil {
			cfg.set("args", strs(d.Args))
		}
		if d.Env != nil {
			cfg.set("env", d.Env.node())
		}
		if d.SQL != "" {
			cfg.set("sql", str(d.SQL))
		}
		if d.Seconds != nil {
			cfg.set("seconds", num(*d.Seconds))
		}
		if len(cfg.Keys) > 0 || d.Empty {
			o.set("config", cfg)
		}
		ts.set(d.Name, o)
	}
	if len(k.Tasks) > 0 || !k.NoTasks {
		root.set("tasks", ts)
	}
	return root
}

var freshNames = 0

// docNames draws n distinct names made of arbitrary text.
func docNames(t *rapid.T, what string, n int, slash bool) []S {
	seen := map[S]bool{}
	var out []S
	for i := 0; i < n && n > 30; i++ {
		out = append(out, S(fmt.Sprintf("%s%d", what, i)))
	}
	for i := 0; i < n && n <= 30; i++ {
		var s S
		switch Int(t, what+"k", 0, 3) {
		case 3:
			s = S(Text(t, what, 6))
		case 2:
			s = S(rapid.SampledFrom(namePool).Draw(t, what))
		default:
			s = S(Ident(t, what))
		}
		if Chance(t, what+"long", 4) {
			s += S(strings.Repeat(Pick(t, what+"rep", "x", "é", "ab ", "漢", "w-"), Pick(t, what+"len", 20, 33, 64, 128, 257)))
		}
		if !slash {
			s = S(strings.ReplaceAll(string(s), "/", "|"))
		}
		for seen[s] {
			s += S(strconv.Itoa(i))
		}
		seen[s] = true
		out = append(out, s)
	}
	return out
}

func textp(t *rapid.T, name string) *S {
	s := S(Text(t, name, 6))
	return &s
}

func genEnvDef(t *rapid.T, val func(*rapid.T, string) S) *EnvDef {
	e := &EnvDef{}
	pool := []S{"PATH", "HOME", "USER", "A", "B", "AB", "LANG", "X_1", "empty", "é"}
	if Chance(t, "odd names", 20) {
		// names that other programs take for patterns, and names shells set
		pool = append(pool, "A*", "*", "X_?", "[AB]", "^A", "%", "PWD", "a", "Path")
	}
	list := func(name string) []S {
		n := Int(t, name+"#", 0, 4)
		out := []S{}
		for i := 0; i < n; i++ {
			out = append(out, Pick(t, name, pool...))
		}
		return out
	}
	if Chance(t, "allow", 40) {
		e.Allow = list("allow")
	}
	if Chance(t, "deny", 40) {
		e.Deny = list("deny")
	}
	if Chance(t, "set", 60) {
		e.Set = []KV{}
		seen := map[S]bool{}
		for _, key := range list("set") {
			if !seen[key] {
				seen[key] = true
				e.Set = append(e.Set, KV{key, val(t, "setv")})
			}
		}
	}
	return e
}

func anyText(t *rapid.T, name string) S { return S(Text(t, name, 5)) }

type docOpt struct {
	max     int
	classes []string
	sleep   bool // sleep tasks are allowed
}

// genDoc draws a valid runbook model.
func genDoc(t *rapid.T, o docOpt) DocCase {
	var k DocCase
	nt := Int(t, "targets", 0, 4)
	if len(o.classes) == 0 {
		o.classes = []string{"demo", "sh", "pg"}
	}
	for _, name := range docNames(t, "target", nt, false) {
		d := TargetDef{Name: name, Class: Pick(t, "class", o.classes...), NoConfig: Bool(t, "noconfig")}
		if d.Class != "demo" && Chance(t, "conc", 50) {
			v := Pick(t, "concv", 1, 2, 3, 10, 1000, 2147483647)
			d.Concurrency = &v
		}
		switch d.Class {
		case "demo":
			if Chance(t, "string", 60) {
				d.String = textp(t, "string")
			}
		case "sh":
			if Chance(t, "env", 50) {
				d.Env = genEnvDef(t, anyText)
			}
		case "pg":
			for _, f := range []**S{&d.Host, &d.Mode, &d.User, &d.Pass, &d.DB} {
				if Bool(t, "field") {
					*f = textp(t, "value")
				}
			}
			if Bool(t, "port") {
				v := Pick(t, "portv", 0, 1, 5432, 65535)
				d.Port = &v
			}
			if Bool(t, "retries") {
				v := Pick(t, "retriesv", 0, 1, 3, 100, -1)
				d.Retries = &v
			}
		}
		k.Targets = append(k.Targets, d)
	}
	if nt > 0 {
		g := genGraph(t, o.max, true)
		names := docNames(t, "task", g.n(), true)
		for i := 0; i < g.n(); i++ {
			d := TaskDef{Name: names[i], Target: Int(t, "on", 0, nt-1), HasAft: Bool(t, "hasafter"), Empty: Bool(t, "empty")}
			d.After = append(d.After, g.After[i]...)
			if Chance(t, "msg", 40) {
				d.Message = textp(t, "msg")
			}
			switch k.Targets[d.Target].Class {
			case "demo":
				d.Kind = Pick(t, "kind", "echo", "fail", "rev", "rot13")
				if o.sleep && Chance(t, "sleep", 20) {
					d.Kind = "sleep"
					if Bool(t, "sec") {
						v := Pick(t, "secv", -5, 0, 1, 2, 100)
						d.Seconds = &v
					}
				}
			case "sh":
				d.Kind = Pick(t, "kind", "", "exec")
				d.Slash = Bool(t, "slash")
				d.Args = []S{S(Pick(t, "arg0", "true", "./a b", "../x", "/bin/true", "a'b", "--", "$X", "", "é", ".", "..", ". /"[:1]))}
				m := Int(t, "args#", 0, 4)
				for j := 0; j < m; j++ {
					d.Args = append(d.Args, anyText(t, "arg"))
				}
				if Chance(t, "env", 40) {
					d.Env = genEnvDef(t, anyText)
				}
			case "pg":
				d.Kind = Pick(t, "kind", "", "exec")
				d.Slash = Bool(t, "slash")
				d.SQL = anyText(t, "sql")
				if d.SQL == "" {
					d.SQL = " "
				}
			}
			k.Tasks = append(k.Tasks, d)
		}
	}
	k.NoTgts, k.NoTasks = Bool(t, "notargets"), Bool(t, "notasks")
	k.Tape = genTape(t)
	return k
}

// write puts the case's runbook into a scratch directory.
func (k *DocCase) write(main string) (dir, file string) {
	dir = writeFiles(files(k.node(), k.Tape, main))
	return dir, filepath.Join(dir, main)
}

// taskNames returns the task names in ascending order.
func (k *DocCase) taskNames() []string {
	var out []string
	for i := range k.Tasks {
		out = append(out, string(k.Tasks[i].Name))
	}
	sort.Strings(out)
	return out
}

func (k *DocCase) plain() bool { return len(k.Tape) == 0 }

// silentIO returns an IO that records both streams.
func recordingIO() (*sys.IO, *lockedBuffer, *lockedBuffer) {
	o, e := &lockedBuffer{}, &lockedBuffer{}
	return &sys.IO{Log: zap.NewNop().Sugar(), Stdout: o, Stderr: e}, o, e
}
