//go:build go1.23

package main

import (
	"fmt"
	"reflect"
	"regexp"
	"sort"
	"strconv"
	"strings"

	"github.com/sjansen/pgutil/internal/ddl"
	. "github.com/sjansen/pgutil/internal/zzverif/engine"
	"github.com/sjansen/pgutil/internal/zzverif/rapid"
)

// ---------------------------------------------------------------- reading SQL

type stok struct {
	kind       byte // w word, q quoted identifier, s string, $ dollar-quoted string, n number, other: the character
	text       string
	val        string
	start, end int
}

// slex splits SQL following PostgreSQL's lexical rules.
func slex(s string) ([]stok, error) {
	var toks []stok
	for i := 0; i < len(s); {
		c := s[i]
		j := i + 1
		t := stok{kind: c, start: i}
		switch {
		case isSpace(c):
			i++
			continue
		case strings.HasPrefix(s[i:], "--"):
			k := strings.IndexByte(s[i:], '\n')
			if k < 0 {
				i = len(s)
			} else {
				i += k
			}
			continue
		case strings.HasPrefix(s[i:], "/*"):
			depth := 1
			for j = i + 2; depth > 0; {
				switch {
				case j >= len(s):
					return nil, fmt.Errorf("unterminated comment")
				case strings.HasPrefix(s[j:], "/*"):
					depth++
					j += 2
				case strings.HasPrefix(s[j:], "*/"):
					depth--
					j += 2
				default:
					j++
				}
			}
			i = j
			continue
		case (c == 'E' || c == 'e') && j < len(s) && s[j] == '\'':
			return nil, fmt.Errorf("escape string")
		case wordByte(c, true):
			for j < len(s) && wordByte(s[j], false) {
				j++
			}
			t.kind = 'w'
			t.val = strings.Map(func(r rune) rune {
				if r >= 'A' && r <= 'Z' {
					return r + 32
				}
				return r
			}, s[i:j])
		case c >= '0' && c <= '9':
			for j < len(s) && (s[j] >= '0' && s[j] <= '9' || s[j] == '.') {
				j++
			}
			t.kind = 'n'
		case c == '\'' || c == '"':
			t.kind = 's'
			if c == '"' {
				t.kind = 'q'
			}
			for {
				if j >= len(s) {
					return nil, fmt.Errorf("unterminated quote")
				}
				if s[j] == c {
					if j+1 < len(s) && s[j+1] == c {
						t.val += string(c)
						j += 2
						continue
					}
					j++
					break
				}
				t.val += s[j : j+1]
				j++
			}
		case c == '$':
			m := dollar.FindString(s[i:])
			if m == "" {
				break
			}
			rest := s[i+len(m):]
			k := strings.Index(rest, m)
			if k < 0 {
				return nil, fmt.Errorf("unterminated dollar quote")
			}
			t.val = rest[:k]
			j = i + len(m) + k + len(m)
		}
		t.end = j
		t.text = s[i:j]
		toks = append(toks, t)
		i = j
	}
	return toks, nil
}

var dollar = regexp.MustCompile(`^\$([A-Za-z_\x{80}-\x{10ffff}][A-Za-z0-9_\x{80}-\x{10ffff}]*)?\$`)

type sreader struct {
	c    *Ctx
	src  string
	toks []stok
	i    int
}

func readSQL(c *Ctx, sql string) *sreader {
	toks, err := slex(sql)
	c.Check(err == nil, "the statement does not read: %v\n%s", err, sql)
	return &sreader{c: c, src: sql, toks: toks}
}

func (r *sreader) peek(n int) stok {
	if r.i+n < len(r.toks) {
		return r.toks[r.i+n]
	}
	return stok{}
}

func (r *sreader) kws(words string) bool {
	ws := strings.Fields(words)
	for i, w := range ws {
		if t := r.peek(i); t.kind != 'w' || !strings.EqualFold(t.text, w) {
			return false
		}
	}
	r.i += len(ws)
	return true
}

func (r *sreader) need(words string) {
	if !r.kws(words) {
		r.c.Failf("%s expected before %q\n%s", words, r.rest(), r.src)
	}
}

func (r *sreader) rest() string {
	if r.i < len(r.toks) {
		return r.src[r.toks[r.i].start:]
	}
	return ""
}

func (r *sreader) punct(ch byte) bool {
	if r.peek(0).kind == ch {
		r.i++
		return true
	}
	return false
}

func (r *sreader) needPunct(ch byte) {
	if !r.punct(ch) {
		r.c.Failf("%q expected before %q\n%s", string(ch), r.rest(), r.src)
	}
}

// words that name nothing without quotes, in general and for functions
var (
	reservedWords = wordSet("all analyse analyze and any array as asc asymmetric both case cast check collate column constraint create current_catalog current_date current_role current_time current_timestamp current_user default deferrable desc distinct do else end except false fetch for foreign from grant group having in initially intersect into lateral leading limit localtime localtimestamp not null offset on only or order placing primary references returning select session_user some symmetric table then to trailing true union unique user using variadic when where window with")
	notFunctions  = wordSet("between bigint bit boolean char character coalesce dec decimal exists extract float greatest grouping inout int integer interval least national nchar none nullif numeric out overlay position precision real row setof smallint substring time timestamp treat trim values varchar xmlattributes xmlconcat xmlelement xmlexists xmlforest xmlnamespaces xmlparse xmlpi xmlroot xmlserialize xmltable")
	notRelations  = wordSet("authorization binary collation concurrently cross current_schema freeze full ilike inner is isnull join left like natural notnull outer overlaps right similar tablesample verbose")
)

var anyWord map[string]bool

func wordSet(s string) map[string]bool {
	m := map[string]bool{}
	for _, w := range strings.Fields(s) {
		m[w] = true
	}
	return m
}

func (r *sreader) name() string { return r.nameOf(notRelations) }

func (r *sreader) nameOf(not map[string]bool) string {
	t := r.peek(0)
	if t.kind == 'w' && not != nil && (reservedWords[t.val] || not[t.val]) {
		r.c.Failf("the keyword %s is used as a name\n%s", t.val, r.src)
	}
	if t.kind != 'w' && t.kind != 'q' {
		r.c.Failf("a name expected before %q\n%s", r.rest(), r.src)
	}
	r.i++
	return t.val
}

// table reads a name that may have the right schema.
func (r *sreader) table(schema, name string) { r.tableOf(notRelations, schema, name) }

func (r *sreader) tableOf(not map[string]bool, schema, name string) {
	got := r.nameOf(not)
	if r.punct('.') {
		r.c.Check(got == schema, "schema %q instead of %q\n%s", got, schema, r.src)
		got = r.name()
	}
	r.c.Check(got == name, "named %q instead of %q\n%s", got, name, r.src)
}

func (r *sreader) end() {
	r.needPunct(';')
	r.c.Check(r.i == len(r.toks), "more after the statement: %q\n%s", r.rest(), r.src)
}

// until consumes tokens up to one of the punctuation characters outside parentheses.
func (r *sreader) until(stop string) []stok {
	from := r.i
	depth := 0
	for ; r.i < len(r.toks); r.i++ {
		k := r.toks[r.i].kind
		if depth == 0 && strings.IndexByte(stop, k) >= 0 {
			break
		}
		switch k {
		case '(', '[':
			depth++
		case ')', ']':
			depth--
		}
	}
	return r.toks[from:r.i]
}

func (r *sreader) raw(toks []stok) string {
	if len(toks) == 0 {
		return ""
	}
	return r.src[toks[0].start:toks[len(toks)-1].end]
}

// ---------------------------------------------------------------- generators

// genName draws the name of an object: never empty.
func genName(t *rapid.T, name string) S {
	if Bool(t, name+"p") {
		return S(strings.ToLower(Ident(t, name)))
	}
	s := Text(t, name, 4)
	if s == "" {
		s = "n"
	}
	return S(s)
}

// genPhrase draws an SQL expression or type: balanced, without a comma, NOT,
// NULL or DEFAULT outside parentheses.
func genPhrase(t *rapid.T, name string, max int, outer bool) string {
	var sb strings.Builder
	for n := Int(t, name+"#", 1, max); n > 0; n-- {
		if sb.Len() > 0 {
			sb.WriteString(Pick(t, name+"w", " ", " ", "\n", "  ", " /* x */ "))
		}
		switch Int(t, name+"k", 0, 9) {
		case 0:
			sb.WriteString("'" + strings.ReplaceAll(Text(t, name+"s", 4), "'", "''") + "'")
		case 1:
			sb.WriteString(`"` + strings.ReplaceAll(string(genName(t, name+"q")), `"`, `""`) + `"`)
		case 2:
			if max > 1 {
				sb.WriteString("(" + genPhrase(t, name+"p", 2, false) + ")")
			} else {
				sb.WriteString("()")
			}
		case 3:
			if outer {
				sb.WriteString("now()")
			} else {
				sb.WriteString(Pick(t, name+"n", "NOT NULL", "a, b", "DEFAULT", ", c", "; x", "CHECK(1)"))
			}
		default:
			sb.WriteString(Pick(t, name+"a", "a", "1", "+", "x.y", "::text", "integer", "varying(50)", "numeric(10,2)", "text[]", "timestamp with time zone", "$$b,c$$", "<=", "now()", "é", "CHECK", "TRUE"))
		}
	}
	return sb.String()
}

// ---------------------------------------------------------------- tables

// Col is a column.
type Col struct {
	Name    S
	Type    S
	NotNull bool `json:",omitempty"`
	Default S    `json:",omitempty"`
}

var manyN = []int{17, 33, 65, 101}

// manyNames sometimes adds many more names.
func manyNames(t *rapid.T, l []S) []S {
	if Chance(t, "many", 1) {
		for i, n := 0, manyN[Even(t, "more", 4)]; i < n; i++ {
			l = append(l, S(fmt.Sprintf("m%d", i)))
		}
	}
	return l
}

// Tab is a table.
type Tab struct {
	Schema S
	Name   S
	Cols   []Col
	Checks []S
}

func genTab(t *rapid.T) Tab {
	k := Tab{Name: genName(t, "table")}
	if Chance(t, "schema", 30) {
		k.Schema = genName(t, "schema")
	}
	for n := Int(t, "cols", 0, 4); n > 0; n-- {
		col := Col{Name: genName(t, "col"), Type: S(genPhrase(t, "type", 2, true)), NotNull: Bool(t, "notnull")}
		if Chance(t, "known type", 25) {
			col.Type = S(Pick(t, "types", "serial", "bigserial", "smallserial", "int", "int4", "varchar", "varchar(1)", "decimal", "timestamp", "timestamptz", "bool", "text[]", "char", "bit(3)", "SERIAL", "TEXT"))
		}
		if Bool(t, "default") {
			col.Default = S(genPhrase(t, "def", 3, true))
			if Chance(t, "known default", 30) {
				col.Default = S(Pick(t, "defaults", "NULL", "null", "NULL::text", "''", "''::text", "0", "false", "true", "now()", "-1", "'NULL'", "CURRENT_TIMESTAMP", "nextval('a_b_seq'::regclass)"))
			}
		}
		k.Cols = append(k.Cols, col)
	}
	for n := Int(t, "checks", 0, 3); n > 0; n-- {
		k.Checks = append(k.Checks, S(genPhrase(t, "check", 4, false)))
	}
	if Chance(t, "many", 1) {
		for i, n := 0, manyN[Even(t, "more", 4)]; i < n; i++ {
			k.Cols = append(k.Cols, Col{Name: S(fmt.Sprintf("m%d", i)), Type: "integer", NotNull: i%3 == 0})
			if i%5 == 0 {
				k.Checks = append(k.Checks, S(fmt.Sprintf("m%d > 0", i)))
			}
		}
	}
	return k
}

func toSQL(c *Ctx, what string, f func() (string, error)) string {
	var sql string
	var err error
	c.Protect("ToSQL of "+what, func() { sql, err = f() })
	c.Check(err == nil, "ToSQL of %s failed: %v", what, err)
	again, err := f()
	c.Check(err == nil && again == sql, "writing the same %s again gives %v\n%s\ninstead of\n%s", what, err, again, sql)
	return sql
}

func runTab(c *Ctx, k Tab) {
	table := &ddl.Table{Schema: string(k.Schema), Name: string(k.Name), Owner: "o", Comment: "c"}
	nasty := false
	for _, col := range k.Cols {
		table.Columns = append(table.Columns, &ddl.Column{Name: string(col.Name), Type: string(col.Type), NotNull: col.NotNull, Default: string(col.Default), Comment: "not this"})
		nasty = nasty || !plain.MatchString(string(col.Name))
	}
	for _, e := range k.Checks {
		table.Checks = append(table.Checks, &ddl.Check{Expression: string(e)})
	}
	c.NonTrivialIf(len(k.Cols) > 1 && (nasty || len(k.Checks) > 0))
	before := dumpAny(table)
	sql := toSQL(c, "a table", table.ToSQL)
	c.Check(dumpAny(table) == before, "ToSQL changed the table")
	r := readSQL(c, sql)
	r.need("CREATE TABLE")
	r.table(string(k.Schema), string(k.Name))
	r.needPunct('(')
	items := 0
	for _, col := range k.Cols {
		if items > 0 {
			r.needPunct(',')
		}
		items++
		name := r.name()
		c.Check(name == string(col.Name), "column %q instead of %q\n%s", name, col.Name, sql)
		toks := r.until(",)")
		// NOT NULL and DEFAULT, in either order
		typ, notNull, def := toks, false, []stok(nil)
		depth := 0
		for i, t := range toks {
			switch {
			case t.kind == '(' || t.kind == '[':
				depth++
			case t.kind == ')' || t.kind == ']':
				depth--
			case depth == 0 && t.kind == 'w' && t.val == "not" && i+1 < len(toks) && toks[i+1].val == "null":
				c.Check(!notNull, "NOT NULL twice\n%s", sql)
				notNull = true
				if def == nil {
					typ = toks[:i]
				} else {
					def = def[:i-(len(toks)-len(def))]
				}
			case depth == 0 && t.kind == 'w' && t.val == "default":
				if !notNull {
					typ = toks[:i]
				}
				def = toks[i+1:]
			}
		}
		c.Check(r.raw(typ) == strings.TrimSpace(string(col.Type)), "column %q has type %q instead of %q\n%s", col.Name, r.raw(typ), col.Type, sql)
		c.Check(notNull == col.NotNull, "column %q is NOT NULL: %v instead of %v\n%s", col.Name, notNull, col.NotNull, sql)
		c.Check(r.raw(def) == strings.TrimSpace(string(col.Default)), "column %q has default %q instead of %q\n%s", col.Name, r.raw(def), col.Default, sql)
	}
	for _, e := range k.Checks {
		if items > 0 {
			r.needPunct(',')
		}
		items++
		r.need("CHECK")
		r.needPunct('(')
		got := r.raw(r.until(")"))
		c.Check(got == strings.TrimSpace(string(e)), "check %q instead of %q\n%s", got, e, sql)
		r.needPunct(')')
	}
	r.needPunct(')')
	r.end()
}

var plain = regexp.MustCompile(`^[a-z_][a-z0-9_]*$`)

// ---------------------------------------------------------------- the rest

// Stmt is a primary key, trigger or function.
type Stmt struct {
	Kind   string
	Schema S
	Table  S
	Name   S
	Cols   []S `json:",omitempty"`

	Unique bool `json:",omitempty"`

	When       string   `json:",omitempty"`
	Events     []string `json:",omitempty"`
	Constraint bool     `json:",omitempty"`
	Deferrable bool     `json:",omitempty"`
	Deferred   bool     `json:",omitempty"`
	Row        bool     `json:",omitempty"`
	Function   string   `json:",omitempty"`

	Returns  S      `json:",omitempty"`
	Language string `json:",omitempty"`
	Body     S      `json:",omitempty"`
}

func genStmt(t *rapid.T) Stmt {
	k := Stmt{Kind: Pick(t, "kind", "primary key", "trigger", "function"), Name: genName(t, "name"), Table: genName(t, "table")}
	if Chance(t, "schema", 30) {
		k.Schema = genName(t, "schema")
	}
	switch k.Kind {
	case "primary key":
		if Chance(t, "unnamed", 20) {
			k.Name = ""
		}
		k.Unique = Bool(t, "unique")
		for n := Int(t, "cols", 1, 4); n > 0; n-- {
			k.Cols = append(k.Cols, genName(t, "col"))
		}
		k.Cols = manyNames(t, k.Cols)
	case "trigger":
		k.When = Pick(t, "when", "BEFORE", "AFTER", "INSTEAD OF", "before", "After")
		all := []string{"INSERT", "UPDATE", "DELETE", "TRUNCATE"}
		for _, i := range Perm(t, "events", 4)[:Int(t, "#events", 1, 4)] {
			k.Events = append(k.Events, all[i])
			if all[i] == "UPDATE" {
				for n := Int(t, "cols", 0, 3); n > 0; n-- {
					k.Cols = append(k.Cols, genName(t, "col"))
				}
				if k.Cols != nil {
					k.Cols = manyNames(t, k.Cols)
				}
			}
		}
		k.Row = Bool(t, "row")
		if k.Constraint = Chance(t, "constraint", 30); k.Constraint {
			k.Deferrable = Bool(t, "deferrable")
			k.Deferred = Bool(t, "deferred") // implies that it is deferrable
		}
		k.Function = strings.ToLower(Ident(t, "function"))
	case "function":
		k.Returns = S(genPhrase(t, "returns", 2, true))
		k.Language = Pick(t, "language", "plpgsql", "sql", "c", "plpython3u")
		k.Body = Lengthen(t, "body", S(Text(t, "body", 8)), 1, 100000, "\n  line;", "x", " ", "$", "é")
		if Bool(t, "dollars") {
			k.Body += S(Pick(t, "tail", "$", "$$", "$body$", "$body1$ x", "$$ LANGUAGE 'sql'; --", "$b", "$body1", "\n"))
			k.Body = S(Pick(t, "head", "", "BEGIN\n", "$$", "'")) + k.Body
		}
	}
	return k
}

func runStmt(c *Ctx, k Stmt) {
	c.Class("%s", k.Kind)
	switch k.Kind {
	case "primary key":
		idx := &ddl.Index{Schema: string(k.Schema), Table: string(k.Table), Name: string(k.Name), Primary: true, Unique: k.Unique}
		for _, s := range k.Cols {
			idx.Keys = append(idx.Keys, &ddl.IndexKey{Column: string(s)})
		}
		c.NonTrivialIf(len(k.Cols) > 1 || !plain.MatchString(string(k.Table)))
		sql := toSQL(c, k.Kind, idx.ToSQL)
		r := readSQL(c, sql)
		r.need("ALTER TABLE")
		if !r.kws("ONLY") {
			r.kws("IF EXISTS")
		}
		r.table(string(k.Schema), string(k.Table))
		r.need("ADD")
		if k.Name != "" {
			r.need("CONSTRAINT")
			r.table(string(k.Schema), string(k.Name))
		}
		r.need("PRIMARY KEY")
		r.needPunct('(')
		for i, s := range k.Cols {
			if i > 0 {
				r.needPunct(',')
			}
			got := r.name()
			c.Check(got == string(s), "key column %q instead of %q\n%s", got, s, sql)
		}
		r.needPunct(')')
		r.end()
	case "trigger":
		tr := &ddl.Trigger{Schema: string(k.Schema), Table: string(k.Table), Name: string(k.Name), Function: k.Function, When: k.When,
			Constraint: k.Constraint, Deferrable: k.Deferrable, InitiallyDeferred: k.Deferred, ForEachRow: k.Row}
		for _, e := range k.Events {
			switch e {
			case "INSERT":
				tr.Insert = true
			case "UPDATE":
				tr.Update = true
			case "DELETE":
				tr.Delete = true
			case "TRUNCATE":
				tr.Truncate = true
			}
		}
		for _, s := range k.Cols {
			tr.Columns = append(tr.Columns, string(s))
		}
		c.NonTrivialIf(len(k.Events) > 1 || len(k.Cols) > 0)
		sql := toSQL(c, k.Kind, tr.ToSQL)
		r := readSQL(c, sql)
		r.need("CREATE")
		r.kws("OR REPLACE")
		c.Check(r.kws("CONSTRAINT") == k.Constraint, "a constraint trigger or not?\n%s", sql)
		r.need("TRIGGER")
		r.table(string(k.Schema), string(k.Name))
		r.need(k.When)
		seen := map[string]bool{}
		for {
			ev := ""
			for _, e := range []string{"INSERT", "UPDATE", "DELETE", "TRUNCATE"} {
				if r.kws(e) {
					ev = e
				}
			}
			c.Check(ev != "" && !seen[ev], "an event expected before %q\n%s", r.rest(), sql)
			seen[ev] = true
			if ev == "UPDATE" && len(k.Cols) > 0 {
				r.need("OF")
				for i, s := range k.Cols {
					if i > 0 {
						r.needPunct(',')
					}
					got := r.name()
					c.Check(got == string(s), "column %q instead of %q\n%s", got, s, sql)
				}
			}
			if !r.kws("OR") {
				break
			}
		}
		for _, e := range k.Events {
			c.Check(seen[e], "the event %s is missing\n%s", e, sql)
		}
		c.Check(len(seen) == len(k.Events), "other events than %v\n%s", k.Events, sql)
		r.need("ON")
		r.table(string(k.Schema), string(k.Table))
		if !r.kws("NOT DEFERRABLE INITIALLY IMMEDIATE") && !r.kws("NOT DEFERRABLE") {
			deferrable, deferred := r.kws("DEFERRABLE"), false
			if !r.kws("INITIALLY IMMEDIATE") {
				deferred = r.kws("INITIALLY DEFERRED")
			}
			c.Check(deferred == k.Deferred, "deferred or not?\n%s", sql)
			c.Check((deferrable || deferred) == (k.Deferrable || k.Deferred), "deferrable or not?\n%s", sql)
		} else {
			c.Check(!k.Deferrable && !k.Deferred, "not deferrable\n%s", sql)
		}
		row := false
		if r.kws("FOR") {
			r.kws("EACH")
			if row = r.kws("ROW"); !row {
				r.need("STATEMENT")
			}
		}
		c.Check(row == k.Row, "for each row: %v instead of %v\n%s", row, k.Row, sql)
		r.need("EXECUTE")
		if !r.kws("PROCEDURE") {
			r.need("FUNCTION")
		}
		r.tableOf(anyWord, string(k.Schema), k.Function) // stored as it is to be written
		r.needPunct('(')
		r.needPunct(')')
		r.end()
	case "function":
		f := &ddl.Function{Schema: string(k.Schema), Name: string(k.Name), Owner: "o", Comment: "c", Returns: string(k.Returns), Language: k.Language, Definition: string(k.Body)}
		c.NonTrivialIf(strings.ContainsAny(string(k.Body), "$'\n"))
		sql := toSQL(c, k.Kind, f.ToSQL)
		r := readSQL(c, sql)
		r.need("CREATE")
		r.kws("OR REPLACE")
		r.need("FUNCTION")
		r.tableOf(notFunctions, string(k.Schema), string(k.Name))
		r.needPunct('(')
		r.needPunct(')')
		r.need("RETURNS")
		from := r.i
		for r.i < len(r.toks) && !(r.peek(0).val == "as" && r.peek(0).kind == 'w') && !(r.peek(0).val == "language" && r.peek(0).kind == 'w') {
			r.i++
		}
		got := r.raw(r.toks[from:r.i])
		c.Check(got == strings.TrimSpace(string(k.Returns)), "returns %q instead of %q\n%s", got, k.Returns, sql)
		var as, lang bool
		for {
			switch {
			case !as && r.kws("AS"):
				as = true
				t := r.peek(0)
				c.Check(t.kind == '$' || t.kind == 's', "a body expected before %q\n%s", r.rest(), sql)
				c.Check(t.val == string(k.Body) || t.val == "\n"+string(k.Body), "the body is %q instead of %q\n%s", t.val, k.Body, sql)
				r.i++
				continue
			case !lang && r.kws("LANGUAGE"):
				lang = true
				t := r.peek(0)
				c.Check((t.kind == 'w' || t.kind == 's' || t.kind == 'q') && t.val == k.Language, "the language is %q instead of %q\n%s", t.val, k.Language, sql)
				r.i++
				continue
			}
			break
		}
		c.Check(as && lang, "body: %v, language: %v\n%s", as, lang, sql)
		r.end()
	}
}

// ---------------------------------------------------------------- storage parameters

// Setting is one call of Set, on one of two tables.
type Setting struct {
	Table int
	Key   string
	Value S
}

var params = map[string]byte{"fillfactor": 'i', "parallel_workers": 'i', "autovacuum_enabled": 'b', "autovacuum_vacuum_threshold": 'i', "autovacuum_vacuum_scale_factor": 'f',
	"autovacuum_analyze_threshold": 'i', "autovacuum_analyze_scale_factor": 'f', "autovacuum_vacuum_cost_limit": 'i', "autovacuum_freeze_min_age": 'i', "autovacuum_freeze_max_age": 'i',
	"autovacuum_freeze_table_age": 'i', "autovacuum_multixact_freeze_min_age": 'i', "autovacuum_multixact_freeze_max_age": 'i', "autovacuum_multixact_freeze_table_age": 'i',
	"log_autovacuum_min_duration": 'i', "user_catalog_table": 'b'}

var paramNames = func() (l []string) {
	for _, e := range format["TableStorageParameters"] {
		n, _, _ := part(e)
		l = append(l, n)
	}
	return
}()

var bools = map[string]bool{"true": true, "on": true, "yes": true, "1": true, "t": true, "y": true, "tru": true, "ye": true, "tr": true,
	"false": false, "off": false, "no": false, "0": false, "f": false, "n": false, "fal": false, "of": false, "fa": false, "fals": false}

var boolWords = []string{"true", "on", "yes", "1", "t", "y", "tru", "ye", "tr", "false", "off", "no", "0", "f", "n", "fal", "of", "fa", "fals"}

func genSettings(t *rapid.T) []Setting {
	var l []Setting
	for n := Int(t, "n", 1, 12); n > 0; n-- {
		s := Setting{Table: Int(t, "table", 0, 1), Key: Pick(t, "key", paramNames...)}
		if Chance(t, "unknown", 12) {
			s.Key = Pick(t, "other", "toast_tuple_target", "vacuum_truncate", "", "Fillfactor", "fillfactor ", "autovacuum_vacuum_cost_delay", "user_catalog", "buffering", "vacuum_index_cleanup", "toast.autovacuum_enabled")
		}
		switch {
		case params[s.Key] == 0 || Chance(t, "bad", 20):
			s.Value = S(Pick(t, "value", "", "abc", "1 2", "12x", "--3", "o", "maybe", "onn", "truely", "99999999999999999999", "1e999", "0x", "tt", "nope", ",", "=", "1,5", "70%", "1k", "1MB", "5s", "1 min", "1d", "5.0x", "none", "default", "NULL", "null", "enabled", "disabled", "onoff", "truefalse", "yesno", "2", "-1-", "+-1", "1/2", "'1'", "\"1\"", "1;", "on;", "(1)", "1_", "_1"))
		case params[s.Key] == 'i':
			v := rapid.OneOf(rapid.IntRange(-1, 200), rapid.IntRange(-1<<31, 1<<31-1)).Draw(t, "int")
			s.Value = S(fmt.Sprint(v))
		case params[s.Key] == 'f':
			s.Value = S(Pick(t, "float", "0.1", "0", "0.05", "1", "100", "0.0001", "1e-3", "2.5E2", ".5", "50."))
			if Bool(t, "anyfloat") {
				s.Value = S(fmt.Sprint(rapid.Float64Range(0, 100).Draw(t, "f")))
			}
		default:
			w := Pick(t, "bool", boolWords...)
			switch Int(t, "case", 0, 2) {
			case 1:
				w = strings.ToUpper(w)
			case 2:
				w = strings.ToUpper(w[:1]) + w[1:]
			}
			s.Value = S(w)
		}
		l = append(l, s)
	}
	return l
}

func runSettings(c *Ctx, l []Setting) {
	tables := [2]*ddl.TableStorageParameters{{}, {}}
	model := [2]map[string]string{{}, {}}
	used := map[string]bool{}
	bad := false
	for i, s := range l {
		var err error
		c.Protect("Set", func() { err = tables[s.Table].Set(s.Key, string(s.Value)) })
		val, ok := "", false
		switch params[s.Key] {
		case 'i':
			var v int64
			n, e := fmt.Sscanf(string(s.Value), "%d", &v)
			if ok = n == 1 && e == nil && fmt.Sprint(v) == string(s.Value); ok {
				val = fmt.Sprint(v)
			}
		case 'f':
			v, e := parseFloat(string(s.Value))
			ok, val = e == nil, fmt.Sprint(v)
		case 'b':
			v, is := bools[strings.ToLower(string(s.Value))]
			ok, val = is, fmt.Sprint(v)
		default:
			c.Check(err == nil, "an unknown parameter %q is refused: %v", s.Key, err)
		}
		if params[s.Key] != 0 {
			if ok {
				c.Check(err == nil, "%s=%q is refused: %v", s.Key, s.Value, err)
				model[s.Table][s.Key] = val
				used[s.Key] = true
			} else {
				bad = true
				c.Check(err != nil, "%s=%q is accepted", s.Key, s.Value)
			}
		}
		for j := range tables {
			got := settings(tables[j])
			want := showSettings(model[j])
			c.Check(got == want, "after setting %d (%s=%q of table %d), table %d has\n%s\ninstead of\n%s", i, s.Key, s.Value, s.Table, j, got, want)
		}
	}
	c.NonTrivialIf(len(used) > 1)
	if bad {
		c.Class("with a refused value")
	}
}

func parseFloat(s string) (float64, error) { return strconv.ParseFloat(s, 64) }

func showSettings(m map[string]string) string {
	var l []string
	for k, v := range m {
		l = append(l, k+"="+v)
	}
	sort.Strings(l)
	return strings.Join(l, " ")
}

// settings shows what is recorded, under the names of the file format.
func settings(p *ddl.TableStorageParameters) string {
	m := map[string]string{}
	v := reflect.ValueOf(p).Elem()
	for i := 0; i < v.NumField(); i++ {
		n, _ := hclTag(v.Type().Field(i))
		if f := v.Field(i); f.Kind() == reflect.Ptr && !f.IsNil() {
			m[n] = fmt.Sprint(f.Elem().Interface())
		}
	}
	return showSettings(m)
}

func dumpAny(x interface{}) string { return dump(x) }

func init() {
	Add("D08", "table", Opt{Quick: 20000, Rule: "tables with drawn names, types, defaults and checks; the statement is read back by an SQL reader; non-trivial: several columns and a name that needs quotes or a check"}, genTab, runTab)
	Add("D09", "statement", Opt{Quick: 25000, Rule: "primary keys, triggers and functions with drawn names, events and bodies; the statement is read back by an SQL reader; non-trivial: several key columns or a name that needs quotes, several events or update columns, a body with dollar signs, quotes or lines"}, genStmt, runStmt)
	Add("D10", "settings", Opt{Quick: 20000, Rule: "sequences of settings of two tables against a map; non-trivial: two or more parameters set"}, genSettings, runSettings)
}
