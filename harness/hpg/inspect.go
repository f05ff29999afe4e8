//go:build go1.23

package main

import (
	"encoding/json"
	"errors"
	"fmt"
	"reflect"
	"sort"
	"strconv"
	"strings"
	"time"

	"go.uber.org/zap"

	"github.com/sjansen/pgutil/internal/ddl"
	"github.com/sjansen/pgutil/internal/pg"
	. "github.com/sjansen/pgutil/internal/zzverif/engine"
	"github.com/sjansen/pgutil/internal/zzverif/rapid"
)

const patience = 30 * time.Second

// timely runs f and fails if it doesn't end.
func timely(c *Ctx, what string, f func()) {
	done := make(chan interface{}, 1)
	go func() {
		defer func() {
			if r := recover(); r != nil {
				done <- fmt.Errorf("%s panicked: %v", what, r)
				return
			}
			done <- nil
		}()
		f()
	}()
	select {
	case r := <-done:
		if r != nil {
			c.Failf("%v", r)
		}
	case <-time.After(patience):
		c.Failf("%s did not end within %v", what, patience)
	}
}

// dial connects to a backend.
func (b *backend) dial(c *Ctx) *pg.Conn {
	var conn *pg.Conn
	timely(c, "connecting", func() {
		var err error
		conn, err = pg.New(&pg.Options{Log: zap.NewNop().Sugar(), Host: socketDir(), Port: b.port, SSLMode: "disable", Username: "u", Database: "db"})
		if err != nil {
			panic(err)
		}
	})
	return conn
}

// with connects to a server that holds the catalog.
func with(c *Ctx, cat *Cat, f *Fault, run func(b *backend, conn *pg.Conn)) {
	b := serve(cat, f)
	defer b.server.Close()
	conn := b.dial(c)
	defer conn.Close()
	defer func() {
		r := recover()
		if _, ok := r.(*Violation); ok || r == nil {
			b.settle()
		}
		if r != nil {
			panic(r)
		}
	}()
	run(b, conn)
}

// ---------------------------------------------------------------- comparison

// shown is how a value is compared and printed; no distinction is made between
// nil and empty lists.
func shown(v interface{}) string {
	data, err := json.MarshalIndent(v, "", " ")
	if err != nil {
		Harnessf("%v", err)
	}
	s := strings.ReplaceAll(string(data), ": null", ": []")
	if s == "null" {
		s = "[]"
	}
	return s
}

func same(c *Ctx, what string, got, want interface{}) {
	g, w := shown(got), shown(want)
	if g == w {
		return
	}
	gl, wl := strings.Split(g, "\n"), strings.Split(w, "\n")
	i := 0
	for i < len(gl) && i < len(wl) && gl[i] == wl[i] {
		i++
	}
	cut := func(l []string) string {
		lo, hi := i-3, i+6
		if lo < 0 {
			lo = 0
		}
		if hi > len(l) {
			hi = len(l)
		}
		return strings.Join(l[lo:hi], "\n")
	}
	c.Failf("%s: described as\n%s\n...\ninstead of\n%s\n...", what, cut(gl), cut(wl))
}

// settleTies puts elements with equal sort keys in a fixed order.
func settleTies[E any](l []E, key func(E) string) []E {
	out := append([]E(nil), l...)
	for i := 0; i < len(out); {
		j := i + 1
		for j < len(out) && key(out[j]) == key(out[i]) {
			j++
		}
		run := out[i:j]
		sort.SliceStable(run, func(a, b int) bool { return shown(run[a]) < shown(run[b]) })
		i = j
	}
	return out
}

func functionKey(f *ddl.Function) string { return f.Schema + "\x00" + f.Name }
func fkKey(f *ddl.ForeignKey) string     { return f.Table + "\x00" + strings.Join(f.Columns, "\x00") }

// options turns storage parameters into text by name.
func options(p *ddl.TableStorageParameters) map[string]string {
	out := map[string]string{}
	if p == nil {
		return out
	}
	v := reflect.ValueOf(p).Elem()
	for i := 0; i < v.NumField(); i++ {
		if f := v.Field(i); f.Kind() == reflect.Ptr && !f.IsNil() {
			name := strings.Split(v.Type().Field(i).Tag.Get("hcl"), ",")[0]
			out[name] = fmt.Sprint(f.Elem().Interface())
		}
	}
	return out
}

func sameOptions(c *Ctx, what string, p *ddl.TableStorageParameters, want map[string]string) {
	got := options(p)
	for k, v := range want {
		g, ok := got[k]
		c.Check(ok, "%s: storage parameter %s is missing", what, k)
		if fg, err := strconv.ParseFloat(g, 64); err == nil {
			fw, _ := strconv.ParseFloat(v, 64)
			c.Check(fg == fw, "%s: storage parameter %s is %s instead of %s", what, k, g, v)
		} else {
			c.Check(g == v, "%s: storage parameter %s is %s instead of %s", what, k, g, v)
		}
	}
	for k := range got {
		_, ok := want[k]
		c.Check(ok, "%s: storage parameter %s is not set", what, k)
	}
}

func (cat *Cat) name(i int) string {
	return fmt.Sprintf("%q.%q", string(cat.Schemas[cat.Rels[i].Schema].Name), string(cat.Rels[i].Name))
}

// sameTable compares a described table.
func (cat *Cat) sameTable(c *Ctx, i int, t *ddl.Table) {
	r := &cat.Rels[i]
	n := "table " + cat.name(i)
	c.Check(t.Schema == string(cat.Schemas[r.Schema].Name) && t.Name == string(r.Name), "%s: described as %q.%q", n, t.Schema, t.Name)
	c.Check(t.Owner == string(cat.Roles[r.Owner]), "%s: owner %q", n, t.Owner)
	c.Check(t.Comment == opt(r.Comment), "%s: comment %q instead of %q", n, t.Comment, opt(r.Comment))
}

func (cat *Cat) sameSchemas(c *Ctx, l []*ddl.Schema) { same(c, "schemas", l, cat.wantSchemas()) }
func (cat *Cat) sameSequences(c *Ctx, l []*ddl.Sequence) {
	same(c, "sequences", l, cat.wantSequences())
}
func (cat *Cat) sameFunctions(c *Ctx, l []*ddl.Function) {
	same(c, "functions", settleTies(l, functionKey), settleTies(cat.wantFunctions(), functionKey))
}
func (cat *Cat) sameFKs(c *Ctx, i int, l []*ddl.ForeignKey) {
	same(c, "foreign keys of "+cat.name(i), settleTies(l, fkKey), settleTies(cat.wantForeignKeys(&cat.Rels[i]), fkKey))
}

func (cat *Cat) sameParameters(c *Ctx, p *ddl.Parameters) {
	c.Check(p != nil, "no parameters")
	var got []string
	for _, s := range p.SearchPath {
		got = append(got, strings.TrimSpace(s))
	}
	same(c, "search path", got, strings.Split(string(cat.SearchPath), ", "))
	c.Check(p.Timezone == string(cat.Timezone), "timezone %q instead of %q", p.Timezone, cat.Timezone)
}

// sameDatabase compares the description of everything.
func (cat *Cat) sameDatabase(c *Ctx, db *ddl.Database) {
	cat.sameParameters(c, db.Parameters)
	cat.sameSchemas(c, db.Schemas)
	cat.sameFunctions(c, db.Functions)
	cat.sameSequences(c, db.Sequences)
	want := cat.tables()
	var got, exp []string
	for _, t := range db.Tables {
		got = append(got, fmt.Sprintf("%q.%q", t.Schema, t.Name))
	}
	for _, i := range want {
		exp = append(exp, cat.name(i))
	}
	same(c, "tables", got, exp)
	var xs []*ddl.Index
	var gs []*ddl.Trigger
	for k, i := range want {
		t := db.Tables[k]
		cat.sameTable(c, i, t)
		same(c, "columns of "+cat.name(i), t.Columns, cat.wantColumns(&cat.Rels[i]))
		same(c, "checks of "+cat.name(i), t.Checks, cat.wantChecks(&cat.Rels[i]))
		cat.sameFKs(c, i, t.ForeignKeys)
		sameOptions(c, cat.name(i), t.StorageParameters, cat.wantOptions(&cat.Rels[i]))
		xs = append(xs, cat.wantIndexes(i)...)
		gs = append(gs, cat.wantTriggers(i)...)
	}
	same(c, "indexes", db.Indexes, xs)
	same(c, "triggers", db.Triggers, gs)
}

// classes records what a catalog has.
func (cat *Cat) classes(c *Ctx) {
	if cat.Old {
		c.Class("old server")
	} else {
		c.Class("new server")
	}
	tables := cat.tables()
	hidden := 0
	for i := range cat.Rels {
		if !cat.visible(i) {
			hidden++
		}
	}
	if hidden > 0 {
		c.Class("hidden relations")
	}
	if len(tables) > 1 {
		c.Class("several tables")
	}
	for _, i := range tables {
		r := &cat.Rels[i]
		for _, x := range []struct {
			n int
			s string
		}{{len(r.Cols), "columns"}, {len(r.Checks), "checks"}, {len(r.FKs), "foreign keys"}, {len(r.Idx), "indexes"}, {len(cat.wantTriggers(i)), "triggers"}, {len(r.Options), "storage parameters"}} {
			if x.n > 1 {
				c.Class("several %s", x.s)
			}
		}
	}
	if len(cat.wantSequences()) > 0 {
		c.Class("owned sequences")
	}
}

// parts counts the kinds of things a description of the catalog has.
func (cat *Cat) parts() int {
	n := 0
	for _, i := range cat.tables() {
		r := &cat.Rels[i]
		n += len(r.Cols) + len(r.Checks) + len(r.FKs) + len(r.Idx) + len(cat.wantTriggers(i)) + len(r.Options)
	}
	return n
}

func inspectAll(c *Ctx, conn *pg.Conn, o *pg.InspectOptions) (db *ddl.Database, err error) {
	timely(c, "inspecting", func() { db, err = conn.InspectDatabase(o) })
	return
}

// ---------------------------------------------------------------- P01

// Look is a look at single lists.
type Look struct {
	Cat   *Cat
	Which []Pick2
}

// Pick2 names what to list: Rel < 0 names something that isn't there.
type Pick2 struct {
	Kind string
	Rel  int
	Twin S `json:",omitempty"` // another schema or table name
}

func genLook(t *rapid.T) *Look {
	l := &Look{Cat: genCat(t)}
	for n := Int(t, "looks", 1, 8); n > 0; n-- {
		p := Pick2{Kind: Pick(t, "lk", "schemas", "functions", "tables", "columns", "columns", "checks", "checks", "fks", "fks", "options", "options", "indexes", "indexes", "triggers", "triggers", "parameters", "version"), Rel: Int(t, "lr", 0, 6)}
		if Chance(t, "absent", 15) {
			p.Twin = genName(t, "twin")
		}
		l.Which = append(l.Which, p)
	}
	return l
}

// describable tells whether the definitions of a relation's indexes and
// triggers are printed with names the parsers take; those of relations that
// need a schema are a listed finding.
func (cat *Cat) describable(i int) bool {
	r := &cat.Rels[i]
	return len(r.Idx) == 0 && len(r.Trigs) == 0 || cat.visible(i)
}

func runLook(c *Ctx, l *Look) {
	cat := l.Cat
	cat.classes(c)
	with(c, cat, nil, func(b *backend, conn *pg.Conn) {
		for _, p := range l.Which {
			p := p
			rel := -1
			schema, table := "", ""
			if len(cat.Rels) > 0 {
				rel = p.Rel % len(cat.Rels)
				schema, table = string(cat.Schemas[cat.Rels[rel].Schema].Name), string(cat.Rels[rel].Name)
			}
			if p.Twin != "" || rel < 0 {
				// the same table name in another schema, or the other way around
				table2 := string(p.Twin)
				if rel >= 0 && p.Rel%2 == 0 {
					schema, table2 = table2, table
				}
				table = table2
				rel = -1
				for i := range cat.Rels {
					if string(cat.Schemas[cat.Rels[i].Schema].Name) == schema && string(cat.Rels[i].Name) == table {
						rel = i
					}
				}
				for _, r := range cat.Rels {
					for _, x := range r.Idx {
						if string(x.Name) == table {
							return
						}
					}
				}
				if schema == "pg_catalog" || schema == "information_schema" {
					continue
				}
			}
			if rel >= 0 && cat.Rels[rel].Kind != "r" && cat.Rels[rel].Kind != "p" {
				continue // only tables are described
			}
			if rel >= 0 && !cat.describable(rel) && (p.Kind == "indexes" || p.Kind == "triggers") {
				c.Excluded("names")
				continue
			}
			var r *Rel
			if rel >= 0 {
				r = &cat.Rels[rel]
				c.NonTrivial()
			}
			var err error
			ok := func() {
				c.Check(err == nil, "listing %s of %q.%q failed: %v", p.Kind, schema, table, err)
			}
			c.Class("list %s", p.Kind)
			timely(c, "listing "+p.Kind, func() {
				defer func() {
					if v, is := recover().(*Violation); is {
						err = errors.New(v.Msg)
						p.Kind = "violation"
					}
				}()
				switch p.Kind {
				case "version":
					var s string
					s, err = conn.ServerVersion()
					if err == nil {
						c.Check(s == cat.versionText(), "server version %q", s)
					}
				case "parameters":
					var x *ddl.Parameters
					if x, err = conn.ListParameters(); err == nil {
						cat.sameParameters(c, x)
					}
				case "schemas":
					var x []*ddl.Schema
					if x, err = conn.ListSchemas(); err == nil {
						cat.sameSchemas(c, x)
					}
				case "functions":
					var x []*ddl.Function
					if x, err = conn.ListFunctions(); err == nil {
						cat.sameFunctions(c, x)
					}
				case "tables":
					var x []*ddl.Table
					if x, err = conn.ListTables(); err == nil {
						want := cat.tables()
						c.Check(len(x) == len(want), "%d tables instead of %d", len(x), len(want))
						for k, i := range want {
							cat.sameTable(c, i, x[k])
						}
					}
				case "columns":
					var x []*ddl.Column
					if x, err = conn.ListColumns(schema, table); err == nil {
						if r == nil {
							c.Check(len(x) == 0, "columns of a table that isn't there: %s", shown(x))
						} else {
							same(c, "columns of "+cat.name(rel), x, cat.wantColumns(r))
						}
					}
				case "checks":
					var x []*ddl.Check
					if x, err = conn.ListChecks(schema, table); err == nil {
						if r == nil {
							c.Check(len(x) == 0, "checks of a table that isn't there: %s", shown(x))
						} else {
							same(c, "checks of "+cat.name(rel), x, cat.wantChecks(r))
						}
					}
				case "fks":
					var x []*ddl.ForeignKey
					if x, err = conn.ListForeignKeys(schema, table); err == nil {
						if r == nil {
							c.Check(len(x) == 0, "foreign keys of a table that isn't there: %s", shown(x))
						} else {
							cat.sameFKs(c, rel, x)
						}
					}
				case "options":
					var x *ddl.TableStorageParameters
					if x, err = conn.ListTableStorageParameters(schema, table); err == nil {
						want := map[string]string{}
						if r != nil {
							want = cat.wantOptions(r)
						}
						sameOptions(c, schema+"."+table, x, want)
					}
				case "indexes":
					var x []*ddl.Index
					if x, err = conn.ListIndexes(schema, table); err == nil {
						var want []*ddl.Index
						if r != nil {
							want = cat.wantIndexes(rel)
						}
						same(c, fmt.Sprintf("indexes of %q.%q", schema, table), x, want)
					}
				case "triggers":
					var x []*ddl.Trigger
					if x, err = conn.ListTriggers(schema, table); err == nil {
						var want []*ddl.Trigger
						if r != nil {
							want = cat.wantTriggers(rel)
						}
						same(c, fmt.Sprintf("triggers of %q.%q", schema, table), x, want)
					}
				}
			})
			if p.Kind == "violation" {
				c.Failf("%v", err)
			}
			ok()
		}
	})
}

// ---------------------------------------------------------------- P04

// Sorted is an inspection with sort options.
type Sorted struct {
	Cat                      *Cat
	Checks, Columns, Indexes bool
	Again                    bool `json:",omitempty"` // inspected once more without options
}

func perm[E any](l []E) string {
	var out []string
	for _, x := range l {
		out = append(out, shown(x))
	}
	sort.Strings(out)
	return strings.Join(out, "\n")
}

func runSorted(c *Ctx, s *Sorted) {
	cat := s.Cat
	cat.classes(c)
	with(c, cat, nil, func(b *backend, conn *pg.Conn) {
		db, err := inspectAll(c, conn, &pg.InspectOptions{SortChecks: s.Checks, SortColumns: s.Columns, SortIndexes: s.Indexes})
		c.Check(err == nil, "inspecting failed: %v", err)
		s.check(c, db)
		if s.Again {
			c.Class("then without options")
			db, err := inspectAll(c, conn, nil)
			c.Check(err == nil, "inspecting failed: %v", err)
			(&Sorted{Cat: cat}).check(c, db)
		}
	})
}

func (s *Sorted) check(c *Ctx, db *ddl.Database) {
	cat := s.Cat
	{
		want := cat.tables()
		c.Check(len(db.Tables) == len(want), "%d tables instead of %d", len(db.Tables), len(want))
		var xs []*ddl.Index
		for k, i := range want {
			t, r := db.Tables[k], &cat.Rels[i]
			wc := cat.wantColumns(r)
			if s.Columns {
				sort.Slice(wc, func(a, b int) bool { return wc[a].Name < wc[b].Name })
				if len(wc) > 1 {
					c.Class("columns sorted")
					c.NonTrivial()
				}
			}
			same(c, fmt.Sprintf("columns of %s (sorted: %v)", cat.name(i), s.Columns), t.Columns, wc)
			wk := cat.wantChecks(r)
			gk := t.Checks
			if s.Checks {
				byExpr := func(k *ddl.Check) string { return k.Expression }
				sort.SliceStable(wk, func(a, b int) bool { return wk[a].Expression < wk[b].Expression })
				gk, wk = settleTies(gk, byExpr), settleTies(wk, byExpr)
				if len(wk) > 1 {
					c.Class("checks sorted")
					c.NonTrivial()
				}
			}
			same(c, fmt.Sprintf("checks of %s (sorted: %v)", cat.name(i), s.Checks), gk, wk)
			xs = append(xs, cat.wantIndexes(i)...)
			// what the options don't concern
			cat.sameTable(c, i, t)
			cat.sameFKs(c, i, t.ForeignKeys)
			sameOptions(c, cat.name(i), t.StorageParameters, cat.wantOptions(r))
		}
		if s.Indexes {
			c.Check(perm(db.Indexes) == perm(xs), "indexes: sorting changed the set\n%s\ninstead of\n%s", shown(db.Indexes), shown(xs))
			if len(xs) > 1 {
				c.Class("indexes sorted")
				c.NonTrivial()
				checkIndexOrder(c, db.Indexes, xs)
			}
		} else {
			same(c, "indexes", db.Indexes, xs)
		}
		var gs []*ddl.Trigger
		for _, i := range want {
			gs = append(gs, cat.wantTriggers(i)...)
		}
		same(c, "triggers", db.Triggers, gs)
	}
}

// checkIndexOrder compares with the alphanumeric order. The listed finding is
// that the option has no effect; any other order is a violation.
func checkIndexOrder(c *Ctx, got, unsorted []*ddl.Index) {
	want := append([]*ddl.Index(nil), unsorted...)
	sort.SliceStable(want, func(i, j int) bool {
		a, b := want[i], want[j]
		if a.Schema != b.Schema {
			return a.Schema < b.Schema
		}
		if a.Table != b.Table {
			return a.Table < b.Table
		}
		return a.Name < b.Name
	})
	if shown(want) != shown(got) && shown(got) == shown(unsorted) {
		c.Excluded("index-order")
		return
	}
	same(c, "indexes, sorted", got, want)
}

// ---------------------------------------------------------------- P03

// Broken is an operation during which something goes wrong.
type Broken struct {
	Cat   *Cat
	Op    string
	Rel   int
	Fault Fault
	Sort  bool
}

var ops = []string{"inspect", "inspect", "inspect", "schemas", "functions", "sequences", "sequences", "tables", "columns", "checks", "fks", "options", "indexes", "triggers", "parameters", "version", "function", "trigger"}

func genBroken(t *rapid.T) *Broken {
	b := &Broken{Cat: genCat(t), Op: Pick(t, "op", ops...), Rel: Int(t, "rel", 0, 6), Sort: Bool(t, "sort")}
	b.Fault.Kind = Pick(t, "fault", "row", "row", "row-break", "row-partial", "execute", "execute-break", "prepare", "prepare-break", "definition", "definition")
	b.Fault.Code = Pick(t, "code", "57014", "XX000", "40001", "53200", "42501", "57P01", "42P01", "22012")
	b.Fault.Row = Int(t, "row", 0, 6)
	if b.Op == "inspect" {
		b.Fault.At = Int(t, "at", 0, 30)
	} else if b.Op == "sequences" {
		b.Fault.At = Int(t, "at", 0, 5)
		b.Cat = genSeqCat(t)
	} else if b.Op == "parameters" {
		b.Fault.At = Int(t, "at", 0, 1)
	}
	if b.Fault.Kind == "definition" && Chance(t, "readable op", 80) {
		b.Op, b.Fault.At = Pick(t, "defop", "checks", "fks", "options", "indexes", "triggers", "trigger"), 0
		if Chance(t, "first", 70) {
			b.Fault.Row = 0
		}
	}
	return b
}

// perform runs an operation; the answer is whatever it returned.
func perform(conn *pg.Conn, cat *Cat, op string, rel int, sorted bool) (answer interface{}, err error) {
	schema, table := "public", "t"
	if len(cat.Rels) > 0 {
		r := &cat.Rels[rel%len(cat.Rels)]
		schema, table = string(cat.Schemas[r.Schema].Name), string(r.Name)
	}
	if ts := cat.tables(); len(ts) > 0 {
		r := &cat.Rels[ts[rel%len(ts)]]
		schema, table = string(cat.Schemas[r.Schema].Name), string(r.Name)
	}
	null := func(v interface{}) bool { return v == nil || reflect.ValueOf(v).IsNil() }
	switch op {
	case "inspect":
		answer, err = conn.InspectDatabase(&pg.InspectOptions{SortChecks: sorted, SortColumns: sorted, SortIndexes: sorted})
	case "schemas":
		answer, err = conn.ListSchemas()
	case "functions":
		answer, err = conn.ListFunctions()
	case "sequences":
		answer, err = conn.ListSequences()
	case "tables":
		answer, err = conn.ListTables()
	case "columns":
		answer, err = conn.ListColumns(schema, table)
	case "checks":
		answer, err = conn.ListChecks(schema, table)
	case "fks":
		answer, err = conn.ListForeignKeys(schema, table)
	case "options":
		answer, err = conn.ListTableStorageParameters(schema, table)
	case "indexes":
		answer, err = conn.ListIndexes(schema, table)
	case "triggers":
		answer, err = conn.ListTriggers(schema, table)
	case "parameters":
		answer, err = conn.ListParameters()
	case "version":
		var s string
		s, err = conn.ServerVersion()
		if err != nil && s == "" {
			return nil, err
		}
		return s, err
	case "function":
		name := "f"
		if len(cat.Funcs) > 0 {
			f := &cat.Funcs[rel%len(cat.Funcs)]
			schema, name = string(cat.Schemas[f.Schema].Name), string(f.Name)
		}
		answer, err = conn.DescribeFunction(schema, name)
	case "trigger":
		name := "g"
		for _, i := range cat.tables() {
			if r := &cat.Rels[i]; len(r.Trigs) > 0 {
				schema, table, name = string(cat.Schemas[r.Schema].Name), string(r.Name), string(r.Trigs[rel%len(r.Trigs)].Name)
			}
		}
		answer, err = conn.DescribeTrigger(schema, table, name)
	}
	if null(answer) {
		answer = nil
	}
	return answer, err
}

var readsDefinitions = map[string]bool{"checks": true, "fks": true, "options": true, "indexes": true, "triggers": true, "trigger": true}

func runBroken(c *Ctx, s *Broken) {
	f := s.Fault
	var clean interface{}
	var cleanErr error
	with(c, s.Cat, nil, func(b *backend, conn *pg.Conn) {
		timely(c, s.Op, func() { clean, cleanErr = perform(conn, s.Cat, s.Op, s.Rel, s.Sort) })
		f.At = b.place(s.Fault.At, f.Kind == "definition")
	})
	with(c, s.Cat, &f, func(b *backend, conn *pg.Conn) {
		var answer interface{}
		var err error
		timely(c, s.Op, func() { answer, err = perform(conn, s.Cat, s.Op, s.Rel, s.Sort) })
		if !f.Fired {
			c.Class("fault not reached: %s %s", s.Op, f.Kind)
			if err == nil || err == pg.ErrNotFound {
				return
			}
			if len(s.Cat.tables()) == 0 && readsDefinitions[s.Op] {
				// a relation that isn't described may have definitions that aren't accepted
				return
			}
			c.Failf("%s failed without a fault: %v", s.Op, err)
		}
		c.NonTrivial()
		c.Class("%s", s.Op)
		c.Class("fault %s", f.Kind)
		if f.Last {
			c.Class("after the last row")
		}
		if err == nil && f.Last && f.Rows == 1 && oneRow(s.Op, f.SQL) {
			// every row of an answer of one row had arrived: it may be used, if it is right
			c.Class("error after a single row")
			same(c, s.Op, answer, clean)
			return
		}
		c.Check(err != nil, "%s reported no error although %s failed (%s, row %d of %d)\n%s", s.Op, "a statement", f.Kind, f.Row, f.Rows, f.SQL)
		c.Check(err != pg.ErrNotFound, "%s took a failure (%s) for something that isn't there", s.Op, f.Kind)
		c.Check(answer == nil, "%s reported the error %v and an answer:\n%s", s.Op, err, shown(answer))
		if strings.Contains(f.Kind, "break") || f.Kind == "row-partial" || cleanErr != nil && cleanErr != pg.ErrNotFound {
			return
		}
		// the connection is still there
		c.Class("asked again")
		var again interface{}
		timely(c, s.Op, func() { again, err = perform(conn, s.Cat, s.Op, s.Rel, s.Sort) })
		c.Check(err == cleanErr, "after %s had failed with an error of the server, the same connection gave the error %v", s.Op, err)
		same(c, s.Op+" after a failure", again, clean)
	})
}

// oneRow tells whether a statement is one whose only row is asked for.
func oneRow(op, sql string) bool {
	switch op {
	case "version", "parameters", "function", "trigger":
		return true
	}
	u := strings.ToUpper(strings.TrimSpace(sql))
	return strings.HasPrefix(u, "SHOW") || strings.Contains(u, "EXISTS") || strings.Contains(u, "PG_SEQUENCE'") || strings.Contains(u, "IS_CYCLED") || strings.Contains(u, "START_VALUE")
}

// ---------------------------------------------------------------- P09

// Describe asks for single objects.
type Describe struct {
	Cat   *Cat
	Asks  []Ask
	Fault *Fault `json:",omitempty"`
}

// Ask is a question.
type Ask struct {
	Trigger             bool `json:",omitempty"`
	Schema, Table, Name S
}

func genDescribe(t *rapid.T) *Describe {
	d := &Describe{Cat: genCat(t)}
	cat := d.Cat
	for n := Int(t, "asks", 1, 5); n > 0; n-- {
		a := Ask{Trigger: Bool(t, "tr"), Schema: genName(t, "as"), Table: genName(t, "at"), Name: genName(t, "an")}
		if len(cat.Funcs) > 0 && !a.Trigger {
			f := cat.Funcs[Int(t, "fi", 0, len(cat.Funcs)-1)]
			if Chance(t, "fs", 80) {
				a.Schema = cat.Schemas[f.Schema].Name
			}
			if Chance(t, "fn", 80) {
				a.Name = f.Name
			}
			a.Table = ""
		}
		if len(cat.Rels) > 0 && a.Trigger {
			i := Int(t, "ri", 0, len(cat.Rels)-1)
			for d := 0; d < len(cat.Rels) && len(cat.Rels[i].Trigs) == 0; d++ {
				i = (i + 1) % len(cat.Rels)
			}
			r := cat.Rels[i]
			if Chance(t, "ts", 85) {
				a.Schema = cat.Schemas[r.Schema].Name
			}
			if Chance(t, "tt", 85) {
				a.Table = r.Name
			}
			if len(r.Trigs) > 0 && Chance(t, "tn", 85) {
				a.Name = r.Trigs[Int(t, "ti", 0, len(r.Trigs)-1)].Name
			}
		}
		d.Asks = append(d.Asks, a)
	}
	if Chance(t, "faulty", 25) {
		d.Fault = &Fault{At: Int(t, "at", 0, 4), Kind: Pick(t, "fk", "row", "execute", "prepare", "row-break", "execute-break"), Row: 0, Code: Pick(t, "code", "57014", "02000", "P0002", "42501", "42883")}
	}
	return d
}

func runDescribe(c *Ctx, d *Describe) {
	cat := d.Cat
	with(c, cat, d.Fault, func(b *backend, conn *pg.Conn) {
		for k, a := range d.Asks {
			if a.Schema == "pg_catalog" || a.Schema == "information_schema" {
				continue
			}
			if len(a.Schema) > 63 || len(a.Table) > 63 || len(a.Name) > 63 {
				continue // the server cuts such names
			}
			var want []string
			if a.Trigger {
				skip := false
				for i := range cat.Rels {
					r := &cat.Rels[i]
					if cat.Schemas[r.Schema].Name != a.Schema || r.Name != a.Table {
						continue
					}
					for j := range r.Trigs {
						if r.Trigs[j].Name == a.Name {
							want = append(want, shown(cat.trigger(r, &r.Trigs[j])))
							skip = skip || !cat.visible(i)
						}
					}
				}
				if skip {
					c.Excluded("names")
					continue
				}
			} else {
				for i := range cat.Funcs {
					if f := &cat.Funcs[i]; cat.Schemas[f.Schema].Name == a.Schema && f.Name == a.Name {
						want = append(want, shown(cat.function(f)))
					}
				}
			}
			what := fmt.Sprintf("function %q.%q", string(a.Schema), string(a.Name))
			if a.Trigger {
				what = fmt.Sprintf("trigger %q of %q.%q", string(a.Name), string(a.Schema), string(a.Table))
			}
			var got interface{}
			var null bool
			var err error
			before := len(b.served)
			timely(c, "describing "+what, func() {
				if a.Trigger {
					x, e := conn.DescribeTrigger(string(a.Schema), string(a.Table), string(a.Name))
					got, null, err = x, x == nil, e
				} else {
					x, e := conn.DescribeFunction(string(a.Schema), string(a.Name))
					got, null, err = x, x == nil, e
				}
			})
			if d.Fault != nil && d.Fault.Fired {
				c.Class("fault")
				c.NonTrivial()
				c.Check(err != nil, "describing %s: no error although the statement failed (%s)", what, d.Fault.Kind)
				c.Check(err != pg.ErrNotFound, "describing %s: a failure (%s) was reported as not found", what, d.Fault.Kind)
				c.Check(null, "describing %s: an error and an answer", what)
				return
			}
			b.mu.Lock()
			for _, s := range b.served[before:] {
				for _, n := range []S{a.Schema, a.Table, a.Name} {
					if strings.ContainsAny(string(n), `'";$\`) && len(n) > 8 && strings.Contains(s.sql, string(n)) {
						b.mu.Unlock()
						c.Failf("describing %s: the name is part of the statement\n%s", what, s.sql)
					}
				}
			}
			b.mu.Unlock()
			if len(want) == 0 {
				c.Class("not there")
				c.Check(err == pg.ErrNotFound, "describing %s, which isn't there: error %v and %s", what, err, shown(got))
				c.Check(null, "describing %s, which isn't there: %s", what, shown(got))
				continue
			}
			c.NonTrivial()
			if a.Trigger {
				c.Class("trigger")
			} else {
				c.Class("function")
			}
			if len(want) > 1 {
				c.Class("overloaded")
			}
			c.Check(err == nil, "describing %s failed: %v", what, err)
			ok := false
			g := shown(got)
			for _, w := range want {
				ok = ok || strings.ReplaceAll(w, ": null", ": []") == g
			}
			c.Check(ok, "describing %s: described as\n%s\ninstead of\n%s\n(case %d)", what, g, strings.Join(want, "\nor\n"), k)
		}
	})
}

// ---------------------------------------------------------------- registration

func init() {
	catRule := "a catalog of up to 4 schemas, 5 functions and 7 relations of every kind, with objects that must not show up, served by a fake server that evaluates the program's SQL"
	Add("P01", "database", Opt{Rule: catRule + "; the whole database is inspected; non-trivial: a visible table has at least two parts", Quick: 2500, Thorough: 60000}, genCat,
		func(c *Ctx, cat *Cat) {
			cat.classes(c)
			c.NonTrivialIf(cat.parts() > 1)
			with(c, cat, nil, func(b *backend, conn *pg.Conn) {
				db, err := inspectAll(c, conn, nil)
				c.Check(err == nil, "inspecting failed: %v", err)
				c.Check(db != nil, "no description and no error")
				cat.sameDatabase(c, db)
			})
		})
	Add("P01", "lists", Opt{Rule: catRule + "; single lists are asked for, also of hidden and missing tables; non-trivial: a table that is there was asked about", Quick: 2500, Thorough: 60000}, genLook, runLook)
	Add("P02", "sequences", Opt{Rule: catRule + "; sequences are listed; non-trivial: there is a visible sequence with an owning column", Quick: 5000, Thorough: 120000}, genSeqCat,
		func(c *Ctx, cat *Cat) {
			cat.classes(c)
			c.NonTrivialIf(len(cat.wantSequences()) > 0)
			with(c, cat, nil, func(b *backend, conn *pg.Conn) {
				var l []*ddl.Sequence
				var err error
				timely(c, "listing sequences", func() { l, err = conn.ListSequences() })
				c.Check(err == nil, "listing sequences failed: %v", err)
				cat.sameSequences(c, l)
			})
		})
	Add("P03", "faults", Opt{Rule: catRule + "; one operation with one fault at a statement and row; non-trivial: the fault happened", Quick: 5000, Thorough: 120000}, genBroken, runBroken)
	Add("P04", "options", Opt{Rule: catRule + "; inspected with a combination of sort options; non-trivial: at least two objects to sort", Quick: 4000, Thorough: 80000},
		func(t *rapid.T) *Sorted {
			return &Sorted{Cat: genCat(t), Checks: Bool(t, "sk"), Columns: Bool(t, "sc"), Indexes: Bool(t, "si"), Again: Chance(t, "again", 30)}
		}, runSorted)
	Add("P09", "describe", Opt{Rule: catRule + "; functions and triggers, present and absent, are asked for, sometimes with a fault; non-trivial: one that is there, or a fault", Quick: 5000, Thorough: 120000}, genDescribe, runDescribe)
}

// genSeqCat draws catalogs with many sequences.
func genSeqCat(t *rapid.T) *Cat {
	c := genCat(t)
	for n := Int(t, "moreseqs", 0, 5); n > 0; n-- {
		r := Rel{Schema: Int(t, "rs", 0, 3), Owner: Int(t, "o", 0, 9), Name: genName(t, "rel"), Kind: "S", Comment: genComment(t, "rc"), Seq: genSeq(t)}
		c.Rels = append(c.Rels, r)
	}
	if Chance(t, "table", 80) {
		c.Rels = append(c.Rels, Rel{Schema: Int(t, "rs", 0, 3), Name: genName(t, "rel"), Kind: "r", Cols: []Col{{Name: "id"}, {Name: genName(t, "col"), Gap: Bool(t, "gap")}}})
	}
	if Chance(t, "collide", 60) {
		// ids of column defaults that are those of sequences
		c.Bases[0], c.Bases[4] = Int(t, "classbase", 0, 2), Int(t, "defbase", 0, 8)
		c.Noise |= noiseDeps
		d := S("0")
		for i := range c.Rels {
			if r := &c.Rels[i]; r.Kind == "r" {
				for j := range r.Cols {
					r.Cols[j].Default = &d
				}
			}
		}
	}
	c.normalise()
	return c
}
