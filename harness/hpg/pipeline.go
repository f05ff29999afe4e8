//go:build go1.23

package main

import (
	"bytes"
	"math"
	"os"
	"path/filepath"
	"reflect"
	"strconv"
	"strings"

	"github.com/sjansen/pgutil/internal/commands"
	"github.com/sjansen/pgutil/internal/ddl"
	"github.com/sjansen/pgutil/internal/logger"
	"github.com/sjansen/pgutil/internal/sys"
	. "github.com/sjansen/pgutil/internal/zzverif/engine"
	"github.com/sjansen/pgutil/internal/zzverif/rapid"
)

// ---------------------------------------------------------------- C06

// Pipe is a database that is inspected by the command, whose output is read
// back.
type Pipe struct {
	Sorted  *Sorted
	Program bool // the program itself is run
	Out     string
	Old     S `json:",omitempty"`
}

// normalize replaces what HCL would normalize in all texts that are not names;
// it returns false if a name had to be changed.
func normalize(v reflect.Value, name bool) bool {
	ok := true
	switch v.Kind() {
	case reflect.Ptr:
		if !v.IsNil() {
			ok = normalize(v.Elem(), name)
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			n := v.Type().Field(i).Name
			ok = normalize(v.Field(i), n == "Name" || n == "Roles" || n == "SearchPath" || n == "Options" || n == "Expr" || n == "Where") && ok
		}
	case reflect.Slice:
		for i := 0; i < v.Len(); i++ {
			ok = normalize(v.Index(i), name) && ok
		}
	case reflect.String:
		if s := v.String(); Normal(s) != s {
			if name {
				return false
			}
			v.SetString(Normal(s))
		}
	}
	return ok
}

func genPipe(t *rapid.T) *Pipe {
	normalNames = true
	defer func() { normalNames = false }()
	p := &Pipe{
		Sorted:  &Sorted{Cat: genCat(t), Checks: Bool(t, "checks"), Columns: Bool(t, "columns"), Indexes: Bool(t, "indexes")},
		Program: Chance(t, "program", 30), Out: Pick(t, "out", "", "-", "file", "file"),
	}
	if Bool(t, "old") {
		p.Old = S(strings.Repeat("schema \"old\" {}\n", Pick(t, "oldn", 1, 50, 4000)))
	}
	normalize(reflect.ValueOf(p.Sorted.Cat), false)
	return p
}

func runPipe(c *Ctx, p *Pipe) {
	cat := p.Sorted.Cat
	if !normalize(reflect.ValueOf(cat), false) {
		c.Class("names that HCL normalizes: not judged")
		return
	}
	for i := range cat.Rels {
		for _, v := range cat.wantOptions(&cat.Rels[i]) {
			if x, err := strconv.ParseFloat(v, 64); err == nil && x != 0 {
				if frac, exp := math.Frexp(math.Abs(x)); frac == 0.5 && (exp < -20 || exp > 60) {
					c.Class("a number that is a small power of two: not judged")
					return
				}
			}
		}
	}
	b := serve(cat, nil)
	defer b.server.Close()
	dir := caseDir()
	defer dropCase(dir)
	out := filepath.Join(dir, "out.hcl")
	var text []byte
	output := p.Out
	if output == "file" {
		output = out
		if p.Old != "" {
			if err := os.WriteFile(out, []byte(p.Old), 0o600); err != nil {
				Harnessf("%v", err)
			}
		}
	}
	if p.Program {
		c.Class("the program")
		args := []string{"inspect", "--host", socketDir(), "--port", strconv.Itoa(int(b.port)), "--sslmode", "disable", "--username", "u", "--dbname", "db"}
		if output != "" {
			args = append(args, "--output="+output)
		}
		if p.Sorted.Checks {
			args = append(args, "--sort-check-constraints")
		}
		if p.Sorted.Columns {
			args = append(args, "--sort-columns")
		}
		if p.Sorted.Indexes {
			args = append(args, "--sort-indexes")
		}
		e := pgutil(c, dir, nil, "", args...)
		b.settle()
		c.Check(e.code == 0, "inspect ended with %d: %s%s", e.code, e.stdout, e.stderr)
		text = []byte(e.stdout)
	} else {
		var stdout bytes.Buffer
		cmd := &commands.InspectCmd{Host: socketDir(), Port: b.port, SSLMode: "disable", Username: "u", DBName: "db", Output: output,
			SortChecks: p.Sorted.Checks, SortColumns: p.Sorted.Columns, SortIndexes: p.Sorted.Indexes}
		var err error
		timely(c, "inspect", func() {
			err = cmd.Run(&commands.Base{IO: sys.IO{Log: logger.Discard(), Stdout: &stdout, Stderr: &stdout}})
		})
		b.settle()
		c.Check(err == nil, "inspect failed: %v", err)
		text = stdout.Bytes()
	}
	var db *ddl.Database
	var err error
	if p.Out == "file" {
		c.Check(len(text) == 0, "inspect printed %q although the output goes to a file", text)
		db, err = ddl.ParseFile(out)
		text, _ = os.ReadFile(out)
	} else {
		db, err = ddl.ParseBytes(text, "stdin")
	}
	c.Check(err == nil, "the description can't be read back: %v\n%s", err, text)
	cat.classes(c)
	c.NonTrivialIf(cat.parts() > 1)

	// everything that is there, in the order that was asked for
	cat.sameParameters(c, db.Parameters)
	cat.sameSchemas(c, db.Schemas)
	cat.sameFunctions(c, db.Functions)
	cat.sameSequences(c, db.Sequences)
	p.Sorted.check(c, db)

	// and written once more it is the same text
	var again bytes.Buffer
	err = db.Write(&again)
	c.Check(err == nil, "writing the description again: %v", err)
	c.Check(again.String() == string(text), "written again the description differs:\n%s\ninstead of\n%s", again.String(), text)
}

func init() {
	Add("C06", "pipeline", Opt{Rule: "random catalog as for P01; inspected by the command, in-process or as a program, with any sort options and destinations; the text is read back and compared with the catalog; non-trivial: a visible table has at least two parts", Quick: 1500, Thorough: 40000},
		genPipe, runPipe)
}
