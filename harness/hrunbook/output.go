//go:build go1.23

package main

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"html"
	"io"
	"os"
	"reflect"
	"strconv"
	"strings"
	"syscall"
	"unicode/utf8"
	_ "unsafe" // for go:linkname

	jsonnet "github.com/google/go-jsonnet"

	"github.com/sjansen/pgutil/internal/commands"
	"github.com/sjansen/pgutil/internal/runbook"
	. "github.com/sjansen/pgutil/internal/zzverif/engine"
	"github.com/sjansen/pgutil/internal/zzverif/rapid"
)

// ---------------------------------------------------------------- R13

// EvalCase is any JSON value and how to write it.
type EvalCase struct {
	Doc  *Node
	Tape []int
}

func genValue(t *rapid.T, depth int) *Node {
	k := Int(t, "kind", 0, 9)
	if depth == 0 && k > 6 {
		k = 0
	}
	switch k {
	case 0, 1:
		s := anyText(t, "text")
		if Chance(t, "long", 2) {
			s += S(strings.Repeat(Pick(t, "of", "x", "ab", "é", "\n"), []int{300, 1100, 5000, 9000, 70000}[Even(t, "times", 5)]) + "end")
		}
		return str(s)
	case 2:
		return num(Pick(t, "int", 0, 1, -1, 10, 1000000, 2147483647, -2147483648, 123456789))
	case 3:
		return &Node{Kind: "n", Text: S(Pick(t, "float", "0.1", "-0.5", "1e300", "1e-300", "1.7976931348623157e308", "5e-324", "123456789012345680000", "1e21", "9007199254740993", "0.30000000000000004", "-0", "1e100", "33.333333333333336", "1e6", "12345678.9"))}
	case 4:
		f := rapid.Float64().Draw(t, "f")
		if f != f || f-f != 0 {
			f = 1
		}
		return &Node{Kind: "n", Text: S(strconv.FormatFloat(f, 'g', -1, 64))}
	case 5:
		return &Node{Kind: "b", Text: S(Pick(t, "bool", "true", "false"))}
	case 6:
		return null()
	case 7:
		a := arr()
		for n := Int(t, "len", 0, 4); n > 0; n-- {
			a.Kids = append(a.Kids, genValue(t, depth-1))
		}
		return a
	}
	o := obj()
	for n := Int(t, "len", 0, 4); n > 0; n-- {
		o.set(anyText(t, "key"), genValue(t, depth-1))
	}
	return o
}

func genEval(t *rapid.T) EvalCase {
	k := EvalCase{Doc: genValue(t, 4)}
	if Chance(t, "many", 2) {
		// a long list or a large object
		n := Size(t, "kids", 600)
		list, members := arr(), obj()
		for i := 0; i < n; i++ {
			x := num(i)
			switch (n + i) % 9 {
			case 1:
				x = obj().set(S(fmt.Sprintf("\"k%d\t", i)), str("v\n"))
			case 2:
				x = str(S(fmt.Sprintf("s%d<>", i)))
			case 3:
				x = arr(null(), num(i))
			}
			list.Kids = append(list.Kids, x)
			members.set(S(fmt.Sprintf("m\\%d", i)), x)
		}
		k.Doc = obj().set("before", k.Doc).set("list", list)
		if Bool(t, "large object") {
			k.Doc.set("members", members)
		}
	}
	if Chance(t, "deep", 2) {
		for n := Size(t, "nesting", 60); n > 0; n-- {
			if n%3 == 0 {
				k.Doc = arr(k.Doc)
			} else {
				k.Doc = obj().set("a \"key\"\n", k.Doc)
			}
		}
	}
	if k.Doc.Kind != "o" && Chance(t, "object", 70) {
		k.Doc = obj().set(anyText(t, "key"), k.Doc)
	}
	k.Tape = genTape(t)
	return k
}

// decodeExact reads a JSON document strictly: one value, no duplicate keys.
func decodeExact(text string) (interface{}, error) {
	dec := json.NewDecoder(strings.NewReader(text))
	var rd func() (interface{}, error)
	rd = func() (interface{}, error) {
		tok, err := dec.Token()
		if err != nil {
			return nil, err
		}
		switch x := tok.(type) {
		case json.Delim:
			if x == '{' {
				m := map[string]interface{}{}
				for dec.More() {
					kt, err := dec.Token()
					if err != nil {
						return nil, err
					}
					key, ok := kt.(string)
					if !ok {
						return nil, fmt.Errorf("key %v", kt)
					}
					if _, dup := m[key]; dup {
						return nil, fmt.Errorf("duplicate key %q", key)
					}
					v, err := rd()
					if err != nil {
						return nil, err
					}
					m[key] = v
				}
				_, err := dec.Token()
				return m, err
			}
			if x == '[' {
				a := []interface{}{}
				for dec.More() {
					v, err := rd()
					if err != nil {
						return nil, err
					}
					a = append(a, v)
				}
				_, err := dec.Token()
				return a, err
			}
			return nil, fmt.Errorf("unexpected %v", x)
		}
		return tok, nil
	}
	v, err := rd()
	if err != nil {
		return nil, err
	}
	if !json.Valid([]byte(text)) {
		return nil, errors.New("not a JSON document")
	}
	return v, nil
}

// uncolor removes the colour codes.
func uncolor(s string) (string, int) {
	var sb strings.Builder
	n := 0
	for i := 0; i < len(s); i++ {
		if s[i] == 0x1b && i+1 < len(s) && s[i+1] == '[' {
			j := i + 2
			for j < len(s) && (s[j] >= '0' && s[j] <= '9' || s[j] == ';') {
				j++
			}
			if j < len(s) && s[j] == 'm' {
				i = j
				n++
				continue
			}
		}
		sb.WriteByte(s[i])
	}
	return sb.String(), n
}

// colorNoColor is the variable that says whether the colour library, an
// indirect dependency that can't be imported here, leaves its colours out
// because the standard output is not a terminal.
//
//go:linkname colorNoColor github.com/fatih/color.NoColor
var colorNoColor bool

func runEval(c *Ctx, k EvalCase) {
	fs := files(k.Doc, k.Tape, "book.jsonnet")
	dir := writeFiles(fs)
	defer dropDir(dir)
	file := dir + "/book.jsonnet"
	c.NonTrivialIf(len(k.Doc.Kids) > 0)

	vm := jsonnet.MakeVM()
	vm.Importer(&jsonnet.FileImporter{JPaths: []string{dir}})
	want, err := vm.EvaluateSnippet(file, fs["book.jsonnet"])
	if err != nil {
		Harnessf("the generated document does not evaluate: %v\n%s", err, fs["book.jsonnet"])
	}
	expected, err := decodeExact(want)
	if err != nil {
		Harnessf("%v", err)
	}

	defer func(b bool) { colorNoColor = b }(colorNoColor)
	colorNoColor = false
	var outs []string
	for _, colored := range []bool{false, true} {
		io, o, e := recordingIO()
		var w bytes.Buffer
		err := runbook.Eval(io, file, &w, colored)
		c.Check(err == nil, "eval: %v\n%s", err, fs["book.jsonnet"])
		c.Check(o.String() == "" && e.String() == "", "eval also printed %q %q", o.String(), e.String())
		outs = append(outs, w.String())
	}
	// the command agrees
	for i, mode := range []string{"false", "auto", "true"} {
		io, o, e := recordingIO()
		cmd := &commands.RunBookEvalCmd{File: file, Color: mode}
		err := cmd.Run(&commands.Base{IO: *io})
		c.Check(err == nil && e.String() == "", "eval -c %s: %v %q", mode, err, e.String())
		c.Check(o.String() == outs[i/2], "eval -c %s prints %q instead of %q", mode, o.String(), outs[i/2])
	}
	got, err := decodeExact(outs[0])
	c.Check(err == nil, "eval does not print a JSON document: %v\n%s", err, outs[0])
	c.Check(reflect.DeepEqual(got, expected), "eval prints\n%s\nthe document is\n%s", outs[0], want)
	plain, n := uncolor(outs[1])
	if n > 0 {
		c.Class("coloured")
	}
	got, err = decodeExact(plain)
	c.Check(err == nil, "eval with colour does not print a JSON document: %v\n%q", err, outs[1])
	c.Check(reflect.DeepEqual(got, expected), "eval with colour prints\n%q\nthe document is\n%s", outs[1], want)
}

// ---------------------------------------------------------------- R14

type dotTok struct {
	kind byte // 'i' identifier, 'q' quoted, 'p' punctuation, 0 end
	text string
}

func dotLex(s string) ([]dotTok, error) {
	var out []dotTok
	idStart := func(c byte) bool {
		return c == '_' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= 0x80
	}
	for i := 0; i < len(s); {
		c := s[i]
		switch {
		case c == ' ' || c == '\t' || c == '\n' || c == '\r':
			i++
		case strings.HasPrefix(s[i:], "//"), c == '#' && (i == 0 || s[i-1] == '\n'):
			for i < len(s) && s[i] != '\n' {
				i++
			}
		case strings.HasPrefix(s[i:], "/*"):
			j := strings.Index(s[i+2:], "*/")
			if j < 0 {
				return nil, errors.New("unterminated comment")
			}
			i += j + 4
		case idStart(c):
			j := i
			for j < len(s) && (idStart(s[j]) || s[j] >= '0' && s[j] <= '9') {
				j++
			}
			out = append(out, dotTok{'i', s[i:j]})
			i = j
		case c >= '0' && c <= '9' || c == '.' || c == '-' && i+1 < len(s) && (s[i+1] == '.' || s[i+1] >= '0' && s[i+1] <= '9'):
			j := i + 1
			dots := 0
			if c == '.' {
				dots++
			}
			for j < len(s) && (s[j] >= '0' && s[j] <= '9' || s[j] == '.' && dots == 0) {
				if s[j] == '.' {
					dots++
				}
				j++
			}
			if s[i:j] == "." || s[i:j] == "-." {
				return nil, fmt.Errorf("bad number at byte %d", i)
			}
			if j < len(s) && idStart(s[j]) {
				return nil, fmt.Errorf("badly delimited number at byte %d", i)
			}
			out = append(out, dotTok{'i', s[i:j]})
			i = j
		case c == '"':
			var sb strings.Builder
			j := i + 1
			for {
				if j >= len(s) {
					return nil, fmt.Errorf("unterminated string at byte %d", i)
				}
				if s[j] == '"' {
					break
				}
				if s[j] == '\\' && j+1 < len(s) {
					switch s[j+1] {
					case '"':
						sb.WriteByte('"')
					case '\n':
					default:
						sb.WriteString(s[j : j+2])
					}
					j += 2
					continue
				}
				sb.WriteByte(s[j])
				j++
			}
			out = append(out, dotTok{'q', sb.String()})
			i = j + 1
		case c == '-' && i+1 < len(s) && (s[i+1] == '>' || s[i+1] == '-'):
			out = append(out, dotTok{'p', s[i : i+2]})
			i += 2
		case strings.IndexByte("{}[];,=:+", c) >= 0:
			out = append(out, dotTok{'p', s[i : i+1]})
			i++
		default:
			return nil, fmt.Errorf("unexpected %q at byte %d", c, i)
		}
	}
	return out, nil
}

type dotCluster struct {
	id    string
	attrs map[string]string
	nodes map[string]bool
	inner int
}

type dotGraph struct {
	toks     []dotTok
	attrs    map[string]string
	nodes    map[string]map[string]string
	edges    map[[2]string]int
	clusters []*dotCluster
	stack    []*dotCluster
}

type dotErr struct{ msg string }

func (g *dotGraph) fail(format string, args ...interface{}) {
	panic(dotErr{fmt.Sprintf(format, args...)})
}

func (g *dotGraph) peek() dotTok {
	if len(g.toks) == 0 {
		return dotTok{}
	}
	return g.toks[0]
}

func (g *dotGraph) next() dotTok {
	t := g.peek()
	if t.kind != 0 {
		g.toks = g.toks[1:]
	}
	return t
}

func (g *dotGraph) isP(p string) bool { t := g.peek(); return t.kind == 'p' && t.text == p }
func (g *dotGraph) isK(k string) bool {
	t := g.peek()
	return t.kind == 'i' && strings.EqualFold(t.text, k)
}
func (g *dotGraph) expect(p string) {
	if !g.isP(p) {
		g.fail("expected %q, found %q", p, g.peek().text)
	}
	g.next()
}

var dotKeywords = []string{"strict", "graph", "digraph", "node", "edge", "subgraph"}

func (g *dotGraph) id() string {
	t := g.next()
	switch t.kind {
	case 'i':
		for _, k := range dotKeywords {
			if strings.EqualFold(k, t.text) {
				g.fail("keyword %q used as a name", t.text)
			}
		}
		return t.text
	case 'q':
		s := t.text
		for g.isP("+") {
			g.next()
			u := g.next()
			if u.kind != 'q' {
				g.fail("%q after +", u.text)
			}
			s += u.text
		}
		return s
	}
	g.fail("expected a name, found %q", t.text)
	return ""
}

func (g *dotGraph) attrList(into map[string]string) {
	for g.isP("[") {
		g.next()
		for !g.isP("]") {
			k := g.id()
			v := "true"
			if g.isP("=") {
				g.next()
				v = g.id()
			}
			into[k] = v
			if g.isP(",") || g.isP(";") {
				g.next()
			}
		}
		g.next()
	}
}

func (g *dotGraph) node(id string) {
	if g.nodes[id] == nil {
		g.nodes[id] = map[string]string{}
	}
	for _, c := range g.stack {
		if c != nil {
			c.nodes[id] = true
		}
	}
}

func (g *dotGraph) body(attrs map[string]string) {
	g.expect("{")
	for !g.isP("}") {
		if g.isP(";") {
			g.next()
			continue
		}
		g.stmt(attrs)
	}
	g.next()
}

// endpoint reads a node or subgraph and returns its nodes.
func (g *dotGraph) endpoint() ([]string, bool) {
	if g.isK("subgraph") || g.isP("{") {
		name := ""
		if g.isK("subgraph") {
			g.next()
			if !g.isP("{") {
				name = g.id()
			}
		}
		sub := &dotCluster{id: name, attrs: map[string]string{}, nodes: map[string]bool{}}
		if strings.HasPrefix(name, "cluster") {
			for _, c := range g.clusters {
				if c.id == name {
					g.fail("two subgraphs named %q", name)
				}
			}
			for _, c := range g.stack {
				if strings.HasPrefix(c.id, "cluster") {
					g.fail("cluster %q inside cluster %q", name, c.id)
				}
			}
			g.clusters = append(g.clusters, sub)
		}
		g.stack = append(g.stack, sub)
		g.body(sub.attrs)
		g.stack = g.stack[:len(g.stack)-1]
		var out []string
		for n := range sub.nodes {
			out = append(out, n)
		}
		return out, true
	}
	id := g.id()
	if g.isP("=") {
		return []string{id}, false
	}
	if g.isP(":") {
		g.fail("port on node %q", id)
	}
	g.node(id)
	return []string{id}, false
}

func (g *dotGraph) stmt(attrs map[string]string) {
	for _, k := range []string{"graph", "node", "edge"} {
		if g.isK(k) {
			g.next()
			if !g.isP("[") {
				g.fail("keyword %q used as a name", k)
			}
			m := map[string]string{}
			g.attrList(m)
			if k == "graph" {
				for a, b := range m {
					attrs[a] = b
				}
			} else if m["label"] != "" {
				g.fail("default label")
			}
			return
		}
	}
	left, sub := g.endpoint()
	if g.isP("=") && !sub {
		g.next()
		attrs[left[0]] = g.id()
		return
	}
	if g.isP("--") {
		g.fail("undirected edge")
	}
	edge := false
	for g.isP("->") {
		edge = true
		g.next()
		right, _ := g.endpoint()
		for _, a := range left {
			for _, b := range right {
				g.edges[[2]string{a, b}]++
			}
		}
		left, sub = right, true
	}
	m := map[string]string{}
	g.attrList(m)
	if !edge && !sub {
		for a, b := range m {
			g.nodes[left[0]][a] = b
		}
	}
	if edge && (m["dir"] == "back" || m["dir"] == "both" || m["style"] == "invis") {
		g.fail("edge drawn as %v", m)
	}
}

func dotRead(s string) (g *dotGraph, err error) {
	toks, err := dotLex(s)
	if err != nil {
		return nil, err
	}
	g = &dotGraph{toks: toks, attrs: map[string]string{}, nodes: map[string]map[string]string{}, edges: map[[2]string]int{}}
	defer func() {
		switch x := recover().(type) {
		case nil:
		case dotErr:
			err = errors.New(x.msg)
		default:
			panic(x)
		}
	}()
	if g.isK("strict") {
		g.next()
	}
	if !g.isK("digraph") {
		return nil, fmt.Errorf("expected digraph, found %q", g.peek().text)
	}
	g.next()
	if !g.isP("{") {
		g.id()
	}
	g.body(g.attrs)
	if g.peek().kind != 0 {
		return nil, fmt.Errorf("%q after the graph", g.peek().text)
	}
	return g, nil
}

// shown is what GraphViz displays for a label or node name.
func shown(s string) string {
	s = html.UnescapeString(s)
	var sb strings.Builder
	for i := 0; i < len(s); i++ {
		if s[i] == '\\' && i+1 < len(s) {
			i++
			switch s[i] {
			case 'n', 'l', 'r':
				sb.WriteByte('\n')
			case 'N', 'G', 'E', 'T', 'H', 'L':
				sb.WriteString("\x00" + s[i:i+1]) // replaced by something else
			default:
				sb.WriteByte(s[i])
			}
			continue
		}
		sb.WriteByte(s[i])
	}
	return sb.String()
}

// DotCase is a runbook and the splines option.
type DotCase struct {
	Doc     DocCase
	Splines string
	Unknown bool // one task is after a task that does not exist
	Broken  int  // the destination fails after that many bytes; -1 for never
}

func genDot(t *rapid.T) DotCase {
	k := DotCase{Doc: genDoc(t, docOpt{max: 7}), Splines: Pick(t, "splines", "", "curved", "line", "ortho"), Broken: -1}
	if Chance(t, "like", 30) && len(k.Doc.Tasks) > 0 {
		// names that mean something to GraphViz or look like clusters
		pool := []S{"node", "edge", "graph", "digraph", "subgraph", "strict", "Node", "runbook", "label", "cluster", "-1", "1.5", ".", "1.2.3", "-", "->",
			"a->b", "a;b", "a:b", "{a}", "a[b", "a=b", "<b>x</b>", "<>", "&amp;", "&lt;", "&#34;", "\"a\"", "\"", "\\", "\\\\", "a\\", "\\n", "\\N", "\\G", "%3", "%", "/*", "//", "#x", "a b", " ", "  ", "\t",
			"cluster_" + k.Doc.Targets[0].Name, "\"cluster_" + k.Doc.Targets[0].Name + "\"", "newrank"}
		seen := map[S]bool{}
		for _, d := range k.Doc.Tasks {
			seen[d.Name] = true
		}
		for n := Int(t, "likes", 1, 3); n > 0; n-- {
			i := Int(t, "which", 0, len(k.Doc.Tasks)-1)
			name := Pick(t, "like", pool...)
			if !seen[name] {
				delete(seen, k.Doc.Tasks[i].Name)
				seen[name] = true
				k.Doc.Tasks[i].Name = name
			}
		}
		name := S(strings.ReplaceAll(string(Pick(t, "likeTarget", pool...)), "/", "|"))
		clash := false
		for i := range k.Doc.Targets {
			clash = clash || k.Doc.Targets[i].Name == name
		}
		if !clash {
			k.Doc.Targets[Int(t, "whichT", 0, len(k.Doc.Targets)-1)].Name = name
		}
	}
	if n := len(k.Doc.Tasks); n > 0 && Chance(t, "cyclic", 25) {
		// the graph of a runbook that can't be run is shown all the same
		for m := Int(t, "back", 1, 3); m > 0; m-- {
			i, j := Int(t, "from", 0, n-1), Int(t, "to", 0, n-1)
			for _, x := range k.Doc.Tasks[i].After {
				if x == j {
					j = -1
				}
			}
			if j >= 0 {
				k.Doc.Tasks[i].After = append(k.Doc.Tasks[i].After, j)
			}
		}
	}
	switch Int(t, "fault", 0, 9) {
	case 8:
		k.Unknown = len(k.Doc.Tasks) > 0
	case 9:
		k.Broken = Int(t, "broken", 0, 30)
	}
	return k
}

type brokenWriter struct {
	left int
	buf  bytes.Buffer
}

var brokenErrors = []error{errors.New("destination is full"), syscall.EPIPE, os.ErrPermission, io.ErrClosedPipe, io.EOF, syscall.ENOSPC}

func (w *brokenWriter) Write(p []byte) (int, error) {
	if len(p) > w.left {
		n := w.left
		w.buf.Write(p[:n])
		w.left = 0
		return n, brokenErrors[n%len(brokenErrors)]
	}
	w.left -= len(p)
	return w.buf.Write(p)
}

func runDot(c *Ctx, k DotCase) {
	root := k.Doc.node()
	if k.Unknown {
		task := root.get("tasks").Kids[0]
		a := task.get("after")
		if a == nil {
			a = arr()
			task.set("after", a)
		}
		name := S("no such task")
		for _, n := range k.Doc.taskNames() {
			name += S(n) // longer than any task name
		}
		a.Kids = append(a.Kids, str(name))
	}
	dir := writeFiles(files(root, k.Doc.Tape, "book.jsonnet"))
	defer dropDir(dir)
	file := dir + "/book.jsonnet"
	io, o, e := recordingIO()
	if k.Unknown || k.Broken >= 0 {
		c.Class("fault")
		w := &brokenWriter{left: 1 << 30}
		if k.Broken >= 0 {
			w.left = k.Broken
		}
		err := runbook.Dot(io, file, w, k.Splines)
		c.NonTrivial()
		c.Check(err != nil, "dot reports no error although %s; it wrote %q", map[bool]string{true: "a task is after a task that does not exist", false: "its output could not be written"}[k.Unknown], w.buf.String())
		if k.Unknown {
			c.Check(w.buf.Len() == 0, "dot fails (%v) but wrote %q", err, w.buf.String())
		}
		return
	}
	var w bytes.Buffer
	var err error
	c.Protect("dot", func() { err = runbook.Dot(io, file, &w, k.Splines) })
	c.Check(err == nil, "dot: %v\n%s", err, k.Doc.text())
	c.Check(o.String() == "" && e.String() == "", "dot also printed %q %q", o.String(), e.String())
	out := w.String()
	g, err := dotRead(out)
	c.Check(err == nil, "the output is not valid GraphViz: %v\n%s", err, out)
	c.NonTrivialIf(len(k.Doc.Tasks) > 1)

	sp, has := g.attrs["splines"]
	c.Check(sp == k.Splines && has == (k.Splines != ""), "splines is %q (given: %v) instead of %q\n%s", sp, has, k.Splines, out)

	want := map[string]string{}
	wantEdges := map[[2]string]bool{}
	for i := range k.Doc.Tasks {
		d := &k.Doc.Tasks[i]
		want[string(d.Name)] = string(k.Doc.Targets[d.Target].Name)
		for _, j := range d.After {
			wantEdges[[2]string{string(k.Doc.Tasks[j].Name), string(d.Name)}] = true
		}
	}
	name := map[string]string{}
	for id, attrs := range g.nodes {
		label := id
		if l, ok := attrs["label"]; ok {
			label = l
		}
		name[id] = shown(label)
		_, ok := want[name[id]]
		c.Check(ok, "node %q is shown as %q, there is no such task\n%s", id, name[id], out)
	}
	c.Check(len(name) == len(want), "%d nodes for %d tasks\n%s", len(name), len(want), out)
	back := map[string]bool{}
	for _, n := range name {
		c.Check(!back[n], "two nodes shown as %q\n%s", n, out)
		back[n] = true
	}
	c.Check(len(g.clusters) == len(k.Doc.Targets), "%d clusters for %d targets\n%s", len(g.clusters), len(k.Doc.Targets), out)
	seen := map[string]bool{}
	in := map[string]string{}
	for _, cl := range g.clusters {
		label := shown(cl.attrs["label"])
		found := false
		for i := range k.Doc.Targets {
			found = found || string(k.Doc.Targets[i].Name) == label
		}
		c.Check(found, "cluster %q is shown as %q, there is no such target\n%s", cl.id, label, out)
		c.Check(!seen[label], "two clusters shown as %q\n%s", label, out)
		seen[label] = true
		for n := range cl.nodes {
			prev, dup := in[n]
			c.Check(!dup, "node %q is in the clusters %q and %q\n%s", n, prev, label, out)
			in[n] = label
		}
	}
	for id, n := range name {
		cl, ok := in[id]
		c.Check(ok && cl == want[n], "task %q is in cluster %q (in any: %v), its target is %q\n%s", n, cl, ok, want[n], out)
	}
	got := map[[2]string]bool{}
	for ed := range g.edges {
		x := [2]string{name[ed[0]], name[ed[1]]}
		got[x] = true
		c.Check(wantEdges[x], "edge %q -> %q, but %q is not after %q\n%s", x[0], x[1], x[1], x[0], out)
	}
	for x := range wantEdges {
		c.Check(got[x], "no edge %q -> %q\n%s", x[0], x[1], out)
	}
}

// ---------------------------------------------------------------- R15

func genList(t *rapid.T) DocCase {
	k := genDoc(t, docOpt{max: 9, sleep: true})
	// names are shown on one line
	line := func(s S) S {
		return S(strings.Map(func(r rune) rune {
			if r < ' ' || r == 0x7f || r == 0x85 || r == 0x2028 || r == 0x2029 {
				return '_'
			}
			return r
		}, string(s)))
	}
	seenT, seen := map[S]bool{}, map[S]bool{}
	for i := range k.Targets {
		n := line(k.Targets[i].Name)
		for seenT[n] {
			n += "'"
		}
		seenT[n] = true
		k.Targets[i].Name = n
	}
	for i := range k.Tasks {
		n := line(k.Tasks[i].Name)
		for seen[n] {
			n += "'"
		}
		seen[n] = true
		k.Tasks[i].Name = n
	}
	return k
}

func runList(c *Ctx, k DocCase) {
	dir, file := k.write("book.jsonnet")
	defer dropDir(dir)
	io, o, e := recordingIO()
	err := (&commands.RunBookListCmd{File: file}).Run(&commands.Base{IO: *io})
	c.Check(err == nil, "list: %v\n%s", err, k.text())
	c.Check(e.String() == "", "list wrote to the error stream: %q", e.String())
	on := map[string]string{}
	lo, hi := 0, 0
	for i := range k.Tasks {
		n := string(k.Tasks[i].Name)
		on[n] = string(k.Targets[k.Tasks[i].Target].Name)
		if r := utf8.RuneCountInString(n); r > lo {
			lo = r
		}
		if len(n) > hi {
			hi = len(n)
		}
	}
	c.NonTrivialIf(len(on) > 1)
	names := k.taskNames()
	if len(names) == 0 {
		c.Check(o.String() == "Tasks & Targets:\n", "list prints %q for a runbook without tasks", o.String())
		return
	}
	// the width of the name column: at least the longest name's characters and
	// at most its bytes
	var first string
	for w := lo; w <= hi; w++ {
		var sb strings.Builder
		sb.WriteString("Tasks & Targets:\n")
		for _, n := range names {
			sb.WriteString("  " + n + strings.Repeat(" ", w-utf8.RuneCountInString(n)) + "  " + on[n] + "\n")
		}
		if sb.String() == o.String() {
			return
		}
		if first == "" {
			first = sb.String()
		}
	}
	c.Failf("list prints\n%q\nexpected\n%q", o.String(), first)
}

// ---------------------------------------------------------------- R19

// DemoCase is a sequence of demo tasks on some strings.
type DemoCase struct {
	Strings []S
	Tasks   []DemoTask
	Shuffle []int // order in which the tasks are written
}

// DemoTask is one task.
type DemoTask struct {
	Target int
	Kind   string
}

func genDemo(t *rapid.T) DemoCase {
	var k DemoCase
	for n := Int(t, "targets", 1, 3); n > 0; n-- {
		s := Text(t, "string", 12)
		if Chance(t, "range", 3) {
			s = runeRange(Even(t, "first", 0x110), 1+Even(t, "step", 3))
		}
		for _, edge := range []string{"first", "last"} {
			if Chance(t, edge+"?", 12) {
				e := []string{"\x00", " ", "\t", "\n", "\r", "\r\n", "\v", "\f", "\x1b", "\x7f", "\u0085", "\u00a0", "\u2028", "\u2029", "\u200b", "\ufeff", "\u3000", "'", "\"", "\\", "%", "$", "\U0010ffff", "\ufffd", "\u0301", "\u200d"}[Even(t, edge, 26)]
				if edge == "first" {
					s = e + s
				} else {
					s += e
				}
			}
		}
		k.Strings = append(k.Strings, S(s))
	}
	for n := Int(t, "tasks", 0, 8); n > 0; n-- {
		x := DemoTask{Target: Int(t, "on", 0, len(k.Strings)-1), Kind: Pick(t, "kind", "echo", "echo", "rev", "rev", "rot13", "rot13", "rot13")}
		if Chance(t, "fail", 6) {
			x.Kind = "fail"
		}
		k.Tasks = append(k.Tasks, x)
	}
	k.Shuffle = Perm(t, "shuffle", len(k.Tasks))
	return k
}

// runeRange is text made of many characters next to each other, the first of
// them in one of the first 0x110 pages of 4096 code points.
func runeRange(page, step int) string {
	var sb strings.Builder
	for r, n := rune(page)<<12, 0; n < 2000 && r <= utf8.MaxRune; n, r = n+1, r+rune(step) {
		if utf8.ValidRune(r) && r != 0 {
			sb.WriteRune(r)
		}
	}
	return sb.String()
}

func refRev(s string) string {
	var parts []string
	for _, r := range s {
		parts = append(parts, string(r))
	}
	var sb strings.Builder
	for i := len(parts) - 1; i >= 0; i-- {
		sb.WriteString(parts[i])
	}
	return sb.String()
}

func refRot13(s string) string {
	const from = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ"
	const to = "nopqrstuvwxyzabcdefghijklmNOPQRSTUVWXYZABCDEFGHIJKLM"
	b := []byte(s)
	for i, c := range b {
		if j := strings.IndexByte(from, c); j >= 0 {
			b[i] = to[j]
		}
	}
	return string(b)
}

// model returns what is printed, the final strings and the index of the first
// failing task, or -1.
func (k *DemoCase) model(stop bool) (string, []string, int) {
	var ss []string
	for _, s := range k.Strings {
		ss = append(ss, string(s))
	}
	out := ""
	failed := -1
	for i, x := range k.Tasks {
		s := &ss[x.Target]
		switch x.Kind {
		case "echo":
			out += *s + "\n"
		case "rev":
			*s = refRev(*s)
		case "rot13":
			*s = refRot13(*s)
		case "fail":
			if failed < 0 {
				failed = i
			}
			if stop {
				return out, ss, failed
			}
		}
	}
	return out, ss, failed
}

func runDemoBook(c *Ctx, k DemoCase) {
	tg, ts := obj(), obj()
	for i, s := range k.Strings {
		tg.set(S(fmt.Sprintf("t%d", i)), obj().set("class", str("demo")).set("config", obj().set("string", str(s))))
	}
	for _, i := range k.Shuffle {
		o := obj().set("target", str(S(fmt.Sprintf("t%d/%s", k.Tasks[i].Target, k.Tasks[i].Kind))))
		if i > 0 {
			o.set("after", arr(str(S(fmt.Sprintf("x%d", i-1)))))
		}
		ts.set(S(fmt.Sprintf("x%d", i)), o)
	}
	dir := writeFiles(map[string]string{"book.jsonnet": obj().set("targets", tg).set("tasks", ts).json()})
	defer dropDir(dir)
	want, _, failed := k.model(true)
	io, o, e := recordingIO()
	err := runbook.Run(io, dir+"/book.jsonnet")
	c.NonTrivialIf(len(k.Tasks) > 1)
	c.Check((err != nil) == (failed >= 0), "the run ends with %v, the first failing task is %d", err, failed)
	c.Check(o.String() == want, "the run prints %q, expected %q", o.String(), want)
	c.Check(e.String() == "", "the run wrote %q to the error stream", e.String())
}

func init() {
	Add("R13", "eval", Opt{Quick: 1500, Thorough: 60000,
		Rule: "random JSON value (any keys, strings, numbers, nesting) written as JSON or equivalent Jsonnet and printed by eval with and without colour; non-trivial: a non-empty array or object"},
		genEval, runEval)
	Add("R14", "dot", Opt{Quick: 1500, Thorough: 60000,
		Rule: "runbook model with names rich in GraphViz syntax, keywords and cluster-like names, every splines option; failing destinations and unknown `after` names; non-trivial: two or more tasks, or a fault"},
		genDot, runDot)
	Add("R15", "list", Opt{Quick: 1500, Thorough: 60000,
		Rule: "runbook model with names of any length and script on one line; non-trivial: two or more tasks"},
		genList, runList)
	Add("R19", "runbook", Opt{Quick: 1000, Thorough: 40000,
		Rule: "sequence of echo, rev, rot13 and fail tasks on one to three strings, run as a runbook; non-trivial: two or more tasks"},
		genDemo, runDemoBook)
}
