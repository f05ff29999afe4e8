//go:build go1.23

package main

import (
	"fmt"
	"hash/fnv"
	"strings"

	. "github.com/sjansen/pgutil/internal/zzverif/engine"
	"github.com/sjansen/pgutil/internal/zzverif/rapid"
)

// attrs are columns that nothing a description holds depends on: an unlogged
// table, a disabled trigger, an inherited column or an invalid index are
// described as any other. The first value is the ordinary one; the others are
// had by some of the rows for which the condition, on other columns, holds.
var attrs = []struct {
	col  string // table.column
	cond string // column=values, space separated
	vals string
}{
	{"pg_class.relpersistence", "relpersistence=p relkind=rpiSm", "p u"},
	{"pg_class.relrowsecurity", "relkind=rp", "f t"},
	{"pg_class.relforcerowsecurity", "relkind=rp", "f t"},
	{"pg_class.relreplident", "relkind=rpm", "d n f i"},
	{"pg_class.relhasrules", "relkind=rp", "f t"},
	{"pg_class.relhassubclass", "relkind=rpi", "f t"},
	{"pg_class.relispopulated", "", "t f"},
	{"pg_class.relispartition", "relkind=rpi", "f t"},
	{"pg_class.reloftype", "relkind=r", "0 90002"},
	{"pg_class.relfilenode", "", "0 16999"},
	{"pg_class.reltablespace", "", "0 1664"},
	{"pg_class.reltuples", "relkind=rp", "0 -1 1 5000"},
	{"pg_class.relpages", "relkind=r", "0 1 5000"},
	{"pg_class.relallvisible", "relkind=r", "0 1 5000"},
	{"pg_class.relisshared", "", "f"},
	{"pg_attribute.attislocal", "attisdropped=f", "t f"},
	{"pg_attribute.attinhcount", "attisdropped=f", "0 1 2"},
	{"pg_attribute.attlen", "", "-1 4 8"},
	{"pg_attribute.attndims", "", "0 1 3"},
	{"pg_attribute.attbyval", "", "f t"},
	{"pg_attribute.attalign", "", "i c d s"},
	{"pg_attribute.attstorage", "", "p x m e"},
	{"pg_attribute.attcollation", "", "0 100 12345"},
	{"pg_attribute.attidentity", "atthasdef=f attisdropped=f", "~ a d"},
	{"pg_attribute.atthasmissing", "", "f"},
	{"pg_proc.prosecdef", "", "f t"},
	{"pg_proc.proleakproof", "", "f t"},
	{"pg_proc.proisstrict", "", "f t"},
	{"pg_proc.provolatile", "", "v i s"},
	{"pg_proc.proparallel", "", "u r s"},
	{"pg_proc.pronargdefaults", "pronargs=12", "0 1"},
	{"pg_proc.provariadic", "", "0"},
	{"pg_constraint.conislocal", "contype=cf", "t f"},
	{"pg_constraint.coninhcount", "contype=cfp", "0 1"},
	{"pg_constraint.connoinherit", "contype=fpt", "t f"},
	{"pg_constraint.conparentid", "contype=f", "0 17001"},
	{"pg_constraint.confmatchtype", "confmatchtype=s", "s"},
	{"pg_index.indisvalid", "", "t f"},
	{"pg_index.indisready", "", "t f"},
	{"pg_index.indisclustered", "", "f t"},
	{"pg_index.indimmediate", "indisunique=t", "t f"},
	{"pg_index.indisreplident", "", "f t"},
	{"pg_index.indcheckxmin", "", "f t"},
	{"pg_trigger.tgenabled", "", "O D R A"},
	{"pg_trigger.tgparentid", "", "0 17002"},
}

// newOnly are columns that only newer servers have.
var newOnly = map[string]bool{
	"pg_constraint.conparentid": true, "pg_trigger.tgparentid": true, "pg_attribute.attidentity": true, "pg_class.relispartition": true,
	"pg_attribute.atthasmissing": true, "pg_index.indnkeyatts": true, "pg_proc.prokind": true, "pg_proc.proparallel": false,
}

// vary gives the rows of the catalogs values of the columns above.
func (w *world) vary() {
	for _, a := range attrs {
		dot := strings.IndexByte(a.col, '.')
		t := w.tables[a.col[:dot]]
		at := -1
		index := map[string]int{}
		for i, c := range t.Cols {
			index[c.Name] = i
			if c.Name == a.col[dot+1:] {
				at = i
			}
		}
		if at < 0 {
			if !newOnly[a.col] || !w.c.Old {
				Harnessf("no column %s", a.col)
			}
			continue
		}
		vals := strings.Fields(a.vals)
		for n, row := range t.Rows {
			ok := true
			for _, f := range strings.Fields(a.cond) {
				i := strings.IndexByte(f, '=')
				k, found := index[f[:i]]
				if !found {
					Harnessf("no column %s", f)
				}
				ok = ok && strings.Contains(f[i+1:], letter(row[k]))
			}
			if !ok {
				continue
			}
			v := vals[0]
			if w.c.Attrs > 0 {
				h := fnv.New32a()
				fmt.Fprintf(h, "%d %s %d", w.c.Attrs, a.col, n)
				x := h.Sum32()
				x ^= x >> 15
				x *= 2246822519
				x ^= x >> 13
				if x>>8&1 == 1 {
					v = vals[int(x>>16)%len(vals)]
				}
			}
			switch row[at].(type) {
			case bool:
				row[at] = v == "t"
			case int64:
				var i int64
				fmt.Sscan(v, &i)
				row[at] = i
			default:
				row[at] = strings.Replace(v, "~", "", 1)
			}
		}
	}
}

// letter is a value as conditions above name it.
func letter(v V) string {
	switch x := v.(type) {
	case bool:
		if x {
			return "t"
		}
		return "f"
	case string:
		if x == "" {
			return "\x00"
		}
		return x
	}
	return fmt.Sprint(v)
}

// actions are the letters of the actions of foreign keys.
var actions = map[string]string{"": "a", "RESTRICT": "r", "CASCADE": "c", "SET NULL": "n", "SET DEFAULT": "d"}

// retTypes are the types that the generated functions return.
var retTypes = map[string]int{"void": 2278, "integer": 23, "trigger": 2279, "SETOF text": 25, "TABLE(a integer, b text)": 2249, "\"My Type\"": 90001, "text": 25, "boolean": 16, "timestamp with time zone": 1184}

// tgtype is a trigger's type as the catalog has it.
func tgtype(g *Trig) int {
	n := 0
	if g.Row {
		n |= 1
	}
	if g.When == "BEFORE" {
		n |= 2
	}
	for i, bit := range []int{4, 8, 16, 32} {
		if g.Events>>uint(i)&1 == 1 {
			n |= bit
		}
	}
	return n
}

// christen gives objects the names that the server, or habit, would.
func (c *Cat) christen(t *rapid.T) {
	give := func(old S, must bool, names ...string) S {
		n := names[Even(t, "christenname", len(names))]
		if !Chance(t, "christen", 60) || len(n) > 50 || must && !simple(n) {
			return old
		}
		return S(n)
	}
	for i := range c.Rels {
		r := &c.Rels[i]
		rel, schema, col := string(r.Name), string(c.Schemas[r.Schema].Name), "c"
		for k := range r.Idx {
			x := &r.Idx[k]
			if len(x.Keys) > 0 {
				col = string(r.Cols[x.Keys[0].Col].Name)
			}
			x.Name = give(x.Name, true, rel+"_pkey", rel+"_"+col+"_idx", rel+"_"+col+"_key", rel+"_idx", "pk_"+rel, "idx_"+rel+"_"+col, rel+"_pk", "ix", col)
		}
		for k := range r.Checks {
			r.Checks[k].Name = give(r.Checks[k].Name, false, rel+"_check", rel+"_"+col+"_check", rel+"_check1", "ck_"+rel, schema+"_"+rel+"_check", "$1", col, rel)
		}
		for k := range r.FKs {
			f := &r.FKs[k]
			if len(f.Cols) > 0 {
				col = string(r.Cols[f.Cols[0]].Name)
			}
			to := string(c.Rels[f.To].Name)
			f.Name = give(f.Name, false, rel+"_fkey", schema+"_"+rel+"_fkey", rel+"_"+col+"_fkey", rel+"_"+to+"_fkey", "fk_"+rel+"_"+to, "$1", to, col, col+"_fk")
		}
		for k := range r.Trigs {
			r.Trigs[k].Name = give(r.Trigs[k].Name, true, rel+"_trigger", "trg_"+rel, rel, "before_insert", "ri_constrainttrigger_a_1", rel+"_tr", "pg_sync_roles")
		}
		if s := r.Seq; s != nil && s.OwnerRel >= 0 {
			o := &c.Rels[s.OwnerRel]
			col := string(o.Cols[s.OwnerCol].Name)
			r.Name = give(r.Name, false, string(o.Name)+"_"+col+"_seq", string(o.Name)+"_seq", "seq_"+string(o.Name), col+"_seq")
			if Chance(t, "christenschema", 70) {
				r.Schema = o.Schema
			}
		}
	}
	for i := range c.Funcs {
		if len(c.Rels) > 0 {
			rel := string(c.Rels[i%len(c.Rels)].Name)
			c.Funcs[i].Name = give(c.Funcs[i].Name, false, rel, rel+"_trigger", "get_"+rel, "count")
		}
	}
	c.normalise()
}
