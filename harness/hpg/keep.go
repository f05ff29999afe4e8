//go:build go1.23

package main

import (
	"bytes"
	"os"
	"path/filepath"
	"strings"

	"github.com/sjansen/pgutil/internal/commands"
	"github.com/sjansen/pgutil/internal/logger"
	"github.com/sjansen/pgutil/internal/sys"
	. "github.com/sjansen/pgutil/internal/zzverif/engine"
	"github.com/sjansen/pgutil/internal/zzverif/fakepg"
	"github.com/sjansen/pgutil/internal/zzverif/rapid"
)

// Keep is a command with an output file that fails before it has a result, or
// whose output file is the run book itself.
type Keep struct {
	Cmd   string
	How   string
	Dest  string // file, auto, self
	Base  S      // of the run book's name
	Old   S      // "": the file doesn't exist
	Link  bool
	Twice bool
	Seed  int
	Book  *Book
	Cat   *Cat   `json:",omitempty"`
	Fault *Fault `json:",omitempty"`
}

var keepHows = map[string][]string{
	"dot":     {"ok", "missing", "syntax", "syntax", "evaluation", "import", "target", "task", "field", "config", "shape"},
	"eval":    {"ok", "missing", "syntax", "syntax", "evaluation", "import"},
	"inspect": {"no server", "rejected", "fault", "fault", "fault"},
}

func genKeep(t *rapid.T) *Keep {
	k := &Keep{Cmd: Pick(t, "cmd", "dot", "eval", "inspect"), Book: genBook(t), Link: Chance(t, "link", 15), Twice: Chance(t, "twice", 20), Seed: Even(t, "n", 1000)}
	hows := keepHows[k.Cmd]
	k.How = hows[Even(t, "how", len(hows))]
	k.Base = S(Pick(t, "base", "book.jsonnet", "book", "a.b.json", "x.dot", "dir.d/book.dot", "sp ace.x y"))
	if k.Cmd == "inspect" {
		k.Dest = "file"
		if k.How == "fault" {
			b := genBroken(t)
			k.Cat, k.Fault = b.Cat, &b.Fault
			k.Fault.At = Int(t, "inspectat", 0, 30)
		}
	} else {
		k.Dest = Pick(t, "dest", "file", "file", "self")
		if k.Cmd == "dot" {
			k.Dest = Pick(t, "destd", "file", "auto", "auto", "self")
		}
		if k.How == "ok" {
			k.Dest = "self"
			if k.Cmd == "dot" && Bool(t, "selfauto") {
				k.Dest, k.Base = "auto", S(Pick(t, "selfbase", "x.dot", "dir.d/book.dot"))
			}
		}
	}
	if Chance(t, "old", 85) {
		k.Old = S(strings.Repeat(Pick(t, "olds", "old text\n", "x", "digraph { a -> b }\n", "{}"), Pick(t, "oldn", 1, 50, 2000)))
	}
	return k
}

// spoiled is the text of a run book in which something is wrong.
func (k *Keep) spoiled() string {
	text := string(k.Book.json())
	switch k.How {
	case "syntax":
		if k.Seed%2 == 0 {
			return text[:len(text)-1-k.Seed%(len(text)-1)]
		}
		return text + "}"
	case "evaluation":
		return "local x = " + text + "; x + { z: " + []string{"error 'no'", "1 / 0", "nosuch", "self.nosuch", "'a' - 1"}[k.Seed%5] + " }"
	case "import":
		return "local x = import" + []string{"", "str"}[k.Seed%2] + " 'nosuch.libsonnet'; x + " + text
	case "target":
		return "local x = " + text + "; x + { targets+: { zz: { class: 'nosuch' } } }"
	case "task":
		return "local x = " + text + "; x + { tasks+: { zz: { target: 'nosuch/echo' } } }"
	case "field":
		return "local x = " + text + "; x + { " + []string{"nosuch: 1", "tasks+: { zz: { nosuch: 1 } }", "targets+: { zz: { class: 'sh', nosuch: 1 } }"}[k.Seed%3] + " }"
	case "config":
		return "local x = " + text + "; x + { targets+: { zz: { class: 'sh', config: { " + []string{"concurrency: 0", "nosuch: 1", "concurrency: 'a'"}[k.Seed%3] + " } } } }"
	case "shape":
		return []string{"[]", "1", "'text'", "{ targets: 5 }", "{ tasks: [] }"}[k.Seed%5]
	}
	return text
}

func runKeep(c *Ctx, k *Keep) {
	dir := caseDir()
	defer dropCase(dir)
	must := func(err error) {
		if err != nil {
			Harnessf("%v", err)
		}
	}
	must(os.Mkdir(filepath.Join(dir, "dir.d"), 0o700))
	file := filepath.Join(dir, string(k.Base))
	out := filepath.Join(dir, "dest")
	switch k.Dest {
	case "self":
		out = file
	case "auto":
		out = file
		if i := strings.LastIndexByte(out, '.'); i > strings.LastIndexByte(out, '/') {
			out = out[:i]
		}
		out += ".dot"
	}
	exists := k.Old != "" || out == file
	if k.Old != "" && out != file {
		real := out
		if k.Link {
			real = out + "-real"
			must(os.Symlink(real, out))
		}
		must(os.WriteFile(real, []byte(k.Old), 0o600))
	}
	if k.Cmd != "inspect" {
		if k.How == "missing" {
			exists = exists && out != file
		} else {
			must(os.WriteFile(file, []byte(k.spoiled()), 0o600))
		}
	}

	var stdout, stderr bytes.Buffer
	base := &commands.Base{IO: sys.IO{Log: logger.Discard(), Stdout: &stdout, Stderr: &stderr}}
	var cmd interface{ Run(*commands.Base) error }
	want := ""
	switch k.Cmd {
	case "dot", "eval":
		if k.How == "ok" {
			want = reference(k.Cmd, file, "", false)
		}
		output := out
		if k.Dest == "auto" {
			output = ""
		}
		cmd = &commands.RunBookDotCmd{File: file, Output: output, AutoOut: k.Dest == "auto"}
		if k.Cmd == "eval" {
			cmd = &commands.RunBookEvalCmd{File: file, Output: output, Color: []string{"auto", "false"}[k.Seed%2]}
		}
	case "inspect":
		b := &backend{}
		path := b.socket()
		switch k.How {
		case "rejected":
			s, err := fakepg.Listen(&fakepg.Server{Answer: answers, Script: func(int) fakepg.Script {
				return fakepg.Script{Reject: &fakepg.Err{Severity: "FATAL", Code: "28000", Message: "no"}}
			}}, path)
			must(err)
			defer s.Close()
		case "fault":
			f := *k.Fault
			f.Fired = false
			// the statements of a run without a fault tell where it can be
			clean := serve(k.Cat, nil)
			(&commands.InspectCmd{Host: socketDir(), Port: clean.port, SSLMode: "disable", Username: "u", DBName: "db", Output: filepath.Join(dir, "clean")}).Run(base)
			clean.server.Close()
			clean.settle()
			f.At = clean.place(k.Fault.At, f.Kind == "definition")
			os.Remove(filepath.Join(dir, "clean"))
			b = serve(k.Cat, &f)
			defer b.server.Close()
			defer b.settle()
		}
		cmd = &commands.InspectCmd{Host: socketDir(), Port: b.port, SSLMode: "disable", Username: "u", DBName: "db", Output: out, SortColumns: k.Seed%2 == 0}
	}
	stdout.Reset()
	before := snapshot(dir)
	what := k.Cmd + " " + k.How + ", output to " + filepath.Base(out)
	var err error
	for n := 0; n < 1 || k.Twice && n < 2; n++ {
		err = cmd.Run(base)
		if err == nil {
			break
		}
	}
	rel, _ := filepath.Rel(dir, out)
	diff := changes(before, snapshot(dir))
	data, readErr := os.ReadFile(out)
	if k.How == "ok" {
		c.Class("%s over its run book", k.Cmd)
		c.NonTrivial()
		if !strings.HasPrefix(want, "error: ") {
			c.Check(err == nil, "%s: %v", what, err)
			c.Check(equal(k.Cmd, string(data), want), "%s: the file has\n%s\ninstead of\n%s", what, data, want)
		}
		return
	}
	if err == nil {
		c.Class("%s %s: succeeds", k.Cmd, k.How)
		return
	}
	c.Class("%s %s", k.Cmd, k.How)
	c.Class("output %s", k.Dest)
	c.NonTrivialIf(exists)
	if exists {
		c.Check(len(diff) == 0 && readErr == nil, "%s: the command failed (%v) but changed %q; %d bytes are left", what, err, diff, len(data))
		return
	}
	c.Class("new file")
	c.Check(len(data) == 0, "%s: the command failed (%v) but left\n%s", what, err, data)
	delete(diff, rel)
	c.Check(len(diff) == 0, "%s: the command failed (%v) but changed %q", what, err, diff)
}

func init() {
	Add("C07", "keep", Opt{Quick: 2500, Thorough: 60000,
		Rule: "dot, eval or inspect with an output file that has earlier content (or doesn't exist, or is a link, or is the run book itself), made to fail: a run book that is missing or wrong in one of ten ways, a server that isn't there, refuses the connection or fails at a random statement and row; afterwards the file is compared. Non-trivial: the file existed, or the command was to replace its own run book."},
		genKeep, runKeep)
}
