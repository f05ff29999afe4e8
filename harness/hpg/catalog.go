//go:build go1.23

package main

import (
	"fmt"
	"sort"
	"strings"

	"github.com/sjansen/pgutil/internal/ddl"
	. "github.com/sjansen/pgutil/internal/zzverif/engine"
	"github.com/sjansen/pgutil/internal/zzverif/minisql"
	"github.com/sjansen/pgutil/internal/zzverif/rapid"
)

// Cat is the content of a database's catalogs.
type Cat struct {
	Old        bool // a server without pg_sequence
	Ver        int  `json:",omitempty"` // which of the versions of such servers
	Bare       bool `json:",omitempty"` // a database without schemas of its own
	SearchPath S
	Timezone   S
	Roles      []S
	Schemas    []Schem
	Path       []int  // search path, as indexes into Schemas
	Funcs      []Func `json:",omitempty"`
	Rels       []Rel  `json:",omitempty"`
	Bases      [5]int // first object id in pg_class, pg_namespace, pg_proc, pg_constraint, pg_trigger
	Noise      int    // bits: objects that must not show up
	Shuffle    int    `json:",omitempty"` // how rows are stored
	Attrs      int    `json:",omitempty"` // values of what has no bearing
}

// Noise bits.
const (
	noiseSystem   = 1 << iota // objects of pg_catalog
	noiseInfo                 // information_schema, in the search path
	noiseTemp                 // other sessions' temporary tables
	noiseToast                // toast tables
	noiseInternal             // internal triggers of foreign keys
	noiseDeps                 // unrelated dependencies
	noiseComments             // comments of other kinds of objects that share an id
	noiseDropped              // dropped and system columns
	noiseAll      = 1<<iota - 1
)

// Schem is a schema.
type Schem struct {
	Name    S
	Owner   int
	Comment *S `json:",omitempty"`
}

// Func is a function.
type Func struct {
	Schema, Owner, Lang int
	Name                S
	Args                S
	Returns             S
	Comment             *S `json:",omitempty"`
	Body                S
}

// Rel is a relation: r table, p partitioned table, v view, m materialized view,
// f foreign table, c composite type, S sequence.
type Rel struct {
	Schema, Owner int
	Name          S
	Kind          string
	Comment       *S     `json:",omitempty"`
	Options       []S    `json:",omitempty"`
	Cols          []Col  `json:",omitempty"`
	Checks        []Chk  `json:",omitempty"`
	FKs           []FK   `json:",omitempty"`
	Idx           []Idx  `json:",omitempty"`
	Trigs         []Trig `json:",omitempty"`
	Seq           *Seq   `json:",omitempty"`
}

// Col is a column.
type Col struct {
	Name    S
	Type    int  // into types
	NotNull bool `json:",omitempty"`
	Default *S   `json:",omitempty"`
	Comment *S   `json:",omitempty"`
	Gap     bool `json:",omitempty"` // a column was dropped before it
}

// Chk is a check constraint.
type Chk struct {
	Name, Expr S
	Defer      int `json:",omitempty"`
}

// FK is a foreign key; columns are indexes.
type FK struct {
	Name     S
	Cols     []int
	To       int // relation
	Refs     []int
	OnDelete string `json:",omitempty"`
	OnUpdate string `json:",omitempty"`
	Match    bool   `json:",omitempty"`
	Defer    int    `json:",omitempty"`
}

// Idx is an index.
type Idx struct {
	Name            S
	Primary, Unique bool `json:",omitempty"`
	Using           string
	Keys            []IdxKey
	Where           S   `json:",omitempty"`
	Options         []S `json:",omitempty"`
	Comment         *S  `json:",omitempty"`
}

// IdxKey is an index key.
type IdxKey struct {
	Col  int
	Expr bool   `json:",omitempty"` // lower(column); first key only
	Desc bool   `json:",omitempty"`
	Op   string `json:",omitempty"`
}

// Trig is a trigger.
type Trig struct {
	Name       S
	When       string
	Events     int   // bits: insert, delete, update, truncate
	Cols       []int `json:",omitempty"`
	Row        bool
	Constraint bool `json:",omitempty"`
	Deferred   bool `json:",omitempty"`
	Cloned     bool `json:",omitempty"` // from the parent of a partition, which some servers mark as internal
	Fn         string
}

// Seq is what a sequence has more than a relation.
type Seq struct {
	Type                        int // into seqTypes
	Start, Min, Max, Inc, Cache int64
	Cycle                       bool
	OwnerRel, OwnerCol          int  // -1: not owned
	Identity                    bool `json:",omitempty"`
}

var seqTypes = []struct {
	oid  int64
	name string
}{{20, "bigint"}, {23, "integer"}, {21, "smallint"}}

// types are type oid, modifier and how they are shown.
var types = []struct {
	oid, mod   int64
	base, text string
}{
	{23, -1, "integer", "integer"},
	{25, -1, "text", "text"},
	{20, -1, "bigint", "bigint"},
	{1043, 14, "character varying", "character varying(10)"},
	{1043, -1, "character varying", "character varying"},
	{1700, 655366, "numeric", "numeric(10,2)"},
	{1184, -1, "timestamp with time zone", "timestamp with time zone"},
	{1009, -1, "text[]", "text[]"},
	{16, -1, "boolean", "boolean"},
	{90001, -1, "other.\"My Type\"", "other.\"My Type\""},
	{1042, 5, "character", "character(1)"},
}

var deferrals = []string{"", " DEFERRABLE", " DEFERRABLE INITIALLY DEFERRED"}
var langs = []string{"plpgsql", "sql", "c", "internal"}

// simple tells whether definitions print a name without quotes and the parsers
// take it.
func simple(s string) bool {
	if s == "" || len(s) > 63 || !(s[0] >= 'a' && s[0] <= 'z') {
		return false
	}
	for i := 0; i < len(s); i++ {
		if ch := s[i]; !(ch == '_' || ch >= 'a' && ch <= 'z' || ch >= '0' && ch <= '9') {
			return false
		}
	}
	return minisql.QuoteIdent(s) == s
}

// visible tells whether a relation is found by its bare name.
func (c *Cat) visible(i int) bool {
	r := &c.Rels[i]
	switch r.Name {
	case "pg_class", "pg_proc", "pg_attribute", "pg_type", "pg_namespace", "pg_constraint", "pg_trigger", "pg_attrdef":
		return false // pg_catalog comes first
	case "pg_sequence":
		if !c.Old {
			return false
		}
	}
	for _, s := range c.Path {
		if s == r.Schema {
			return true
		}
		for j := range c.Rels {
			if c.Rels[j].Schema == s && c.Rels[j].Name == r.Name {
				return false
			}
			for _, x := range c.Rels[j].Idx {
				if c.Rels[j].Schema == s && x.Name == r.Name {
					return false
				}
			}
		}
	}
	return false
}

func (c *Cat) funcVisible(i int) bool {
	f := &c.Funcs[i]
	for _, s := range c.Path {
		if s == f.Schema {
			return true
		}
		for j := range c.Funcs {
			if g := &c.Funcs[j]; g.Schema == s && g.Name == f.Name && g.Args == f.Args {
				return false
			}
		}
	}
	return false
}

// normalise makes a drawn catalog consistent; it is idempotent.
func (c *Cat) normalise() {
	if c.Bare {
		c.Schemas, c.Path, c.Funcs, c.Rels = nil, nil, nil, nil
	} else if len(c.Schemas) == 0 {
		c.Schemas = []Schem{{Name: "public"}}
	}
	if len(c.Roles) == 0 {
		c.Roles = []S{"postgres"}
	}
	mod := func(i *int, n int) {
		if *i < 0 {
			*i = -*i
		}
		*i %= n
	}
	fix := func(s S, used map[S]bool, def string) S {
		if s == "" {
			s = S(def)
		}
		for len(s) > 50 {
			r := []rune(string(s))
			s = S(r[:len(r)-1])
		}
		for n := 2; used[s]; n++ {
			s = S(strings.TrimRight(string(s), "0123456789_")) + S(fmt.Sprintf("_%d", n))
			if s[0] == '_' {
				s = "x" + s
			}
		}
		used[s] = true
		return s
	}
	used := map[S]bool{"information_schema": true, "pg_catalog": true}
	for i := range c.Schemas {
		s := &c.Schemas[i]
		mod(&s.Owner, len(c.Roles))
		s.Name = fix(s.Name, used, "public")
		if strings.HasPrefix(string(s.Name), "pg_") {
			s.Name = fix("p"+s.Name, used, "public")
		}
	}
	used = map[S]bool{}
	for i := range c.Roles {
		c.Roles[i] = fix(c.Roles[i], used, "postgres")
	}
	seen := map[int]bool{}
	var path []int
	for _, p := range c.Path {
		mod(&p, len(c.Schemas))
		if !seen[p] {
			seen[p] = true
			path = append(path, p)
		}
	}
	c.Path = path
	sigs := map[string]bool{}
	var funcs []Func
	for _, f := range c.Funcs {
		mod(&f.Schema, len(c.Schemas))
		mod(&f.Owner, len(c.Roles))
		mod(&f.Lang, len(langs))
		if f.Name == "" {
			f.Name = "f"
		}
		for len(f.Name) > 63 {
			r := []rune(string(f.Name))
			f.Name = S(r[:len(r)-1])
		}
		k := fmt.Sprintf("%d %q %q", f.Schema, f.Name, f.Args)
		if !sigs[k] {
			sigs[k] = true
			funcs = append(funcs, f)
		}
	}
	c.Funcs = funcs
	names := make([]map[S]bool, len(c.Schemas))
	for i := range names {
		names[i] = map[S]bool{}
	}
	for i := range c.Rels {
		r := &c.Rels[i]
		mod(&r.Schema, len(c.Schemas))
		mod(&r.Owner, len(c.Roles))
		if (len(r.Idx) > 0 || len(r.Trigs) > 0) && !simple(string(r.Name)) {
			r.Name = "t"
		}
		r.Name = fix(r.Name, names[r.Schema], "t")
	}
	for i := range c.Rels {
		r := &c.Rels[i]
		cols := map[S]bool{}
		for j := range r.Cols {
			col := &r.Cols[j]
			mod(&col.Type, len(types))
			col.Name = fix(col.Name, cols, "c")
		}
		if r.Kind == "S" {
			if r.Seq == nil {
				r.Seq = &Seq{Start: 1, Min: 1, Max: 10, Inc: 1, Cache: 1, OwnerRel: -1}
			}
			mod(&r.Seq.Type, len(seqTypes))
			r.Cols, r.Checks, r.FKs, r.Idx, r.Trigs, r.Options = nil, nil, nil, nil, nil, nil
			if o := r.Seq.OwnerRel; o >= 0 {
				r.Seq.OwnerRel = o % len(c.Rels)
			}
		} else {
			r.Seq = nil
		}
		if r.Kind != "r" && r.Kind != "p" {
			r.Checks, r.FKs, r.Trigs = nil, nil, nil
			if r.Kind != "m" {
				r.Idx = nil
			}
		}
		if len(r.Cols) == 0 {
			r.FKs, r.Idx = nil, nil
		}
		cons := map[S]bool{}
		for j := range r.Checks {
			r.Checks[j].Name = fix(r.Checks[j].Name, cons, "c")
			mod(&r.Checks[j].Defer, len(deferrals))
		}
		primary := false
		for j := range r.Idx {
			x := &r.Idx[j]
			if !simple(string(x.Name)) {
				x.Name = "i"
			}
			x.Name = fix(x.Name, names[r.Schema], "i")
			if primary {
				x.Primary = false
			}
			primary = primary || x.Primary
			if x.Primary {
				x.Unique = true
			}
			for k := range x.Keys {
				x.Keys[k].Col = simpleCol(r, x.Keys[k].Col)
				if k > 0 {
					x.Keys[k].Expr = false
				}
			}
		}
		trg := map[S]bool{}
		for j := range r.Trigs {
			g := &r.Trigs[j]
			if !simple(string(g.Name)) {
				g.Name = "g"
			}
			g.Name = fix(g.Name, trg, "g")
			if len(r.Cols) == 0 || g.Events&4 == 0 {
				g.Cols = nil
			}
			for k := range g.Cols {
				g.Cols[k] = simpleCol(r, g.Cols[k])
			}
			if g.Events&15 == 0 {
				g.Events |= 1
			}
		}
	}
	for i := range c.Rels {
		r := &c.Rels[i]
		var fks []FK
		cons := map[S]bool{}
		for _, k := range r.Checks {
			cons[k.Name] = true
		}
		for _, f := range r.FKs {
			// only references the parsers take: to a visible table with a plain name
			ok := false
			for d := 0; d < len(c.Rels) && !ok; d++ {
				to := (f.To + d) % len(c.Rels)
				t := &c.Rels[to]
				if (t.Kind == "r" || t.Kind == "p") && len(t.Cols) > 0 && simple(string(t.Name)) && c.visible(to) {
					f.To, ok = to, true
				}
			}
			if !ok {
				continue
			}
			f.Name = fix(f.Name, cons, "fk")
			mod(&f.Defer, len(deferrals))
			for k := range f.Cols {
				f.Cols[k] = simpleCol(r, f.Cols[k])
			}
			for k := range f.Refs {
				f.Refs[k] = simpleCol(&c.Rels[f.To], f.Refs[k])
			}
			fks = append(fks, f)
		}
		r.FKs = fks
		if r.Seq != nil && r.Seq.OwnerRel >= 0 {
			o := &c.Rels[r.Seq.OwnerRel]
			if o.Kind != "r" && o.Kind != "p" && o.Kind != "f" || len(o.Cols) == 0 {
				r.Seq.OwnerRel = -1
			} else {
				mod(&r.Seq.OwnerCol, len(o.Cols))
			}
		}
	}
}

// simpleCol picks a column with a plain name, renaming the first if need be.
func simpleCol(r *Rel, i int) int {
	if i < 0 {
		i = -i
	}
	for d := range r.Cols {
		if j := (i + d) % len(r.Cols); simple(string(r.Cols[j].Name)) {
			return j
		}
	}
	name := S("c0")
	for n := 0; ; n++ {
		taken := false
		for _, col := range r.Cols {
			taken = taken || col.Name == name
		}
		if !taken {
			break
		}
		name = S(fmt.Sprintf("c%d", n+1))
	}
	r.Cols[0].Name = name
	return 0
}

// ---------------------------------------------------------------- generator

// normalNames restricts names to those that HCL does not normalize.
var normalNames bool

func genName(t *rapid.T, what string) S {
	switch Int(t, what+"k", 0, 9) {
	case 0, 1, 2:
		if normalNames {
			return S(Normal(Text(t, what+"x", 4)))
		}
		return S(Text(t, what+"x", 4))
	case 3:
		return S(Pick(t, what+"w", "select", "Table", "a.b", `"`, `a"b`, "'; DROP TABLE x; --", "$1", "user", "A", "a b", "é", " ", "x'y", `\`, "%", "_", "a%", "1a", "pg", "information_schema2", "public", "app_pg_x", "my_pg_toast", "not_pg_catalog", "a_information_schema", "x$y", "pgx_", "Pg_x", strings.Repeat("long", 12)))
	}
	return S(Pick(t, what+"s", "a", "b", "c", "d", "id", "name", "t1", "t2", "users", "orders", "a_b", "zz", "x10", "x9", "ab", "m"))
}

// genSchemaName draws names that are only similar to those of the system's schemas, too.
func genSchemaName(t *rapid.T) S {
	if Chance(t, "like system", 12) {
		return S(Pick(t, "system", "app_pg_x", "x_pg_", "my_pg_toast", "my_pg_catalog", "pgtoast", "pgcatalog", "pg", "pgq", "PG_TOAST", "Pg_catalog", "information_schema_2", "information", "my_information_schema", "INFORMATION_SCHEMA", "x\npg_y", " pg_x"))
	}
	return genName(t, "schema")
}

func genComment(t *rapid.T, what string) *S {
	switch Int(t, what+"k", 0, 4) {
	case 0:
		s := Lengthen(t, what, S(Text(t, what, 4)), 1, 50000)
		if s == "" {
			return nil // the server removes an empty comment
		}
		return &s
	case 1:
		s := S(Pick(t, what+"w", "c", "text", "a comment", "x\ny", "%s", "'"))
		return &s
	}
	return nil
}

func genCat(t *rapid.T) *Cat {
	c := &Cat{Old: Chance(t, "old", 40), Shuffle: Int(t, "shuffle", 0, 9), Ver: Even(t, "version", 50)}
	var path []string
	for n := Int(t, "pathn", 1, 3); n > 0; n-- {
		path = append(path, Pick(t, "path", `"$user"`, "public", "app", `"A b"`, "x", "information_schema"))
	}
	c.SearchPath = S(strings.Join(path, ", "))
	c.Timezone = S(Pick(t, "tz", "UTC", "Europe/Berlin", "<+03>-03", "America/Argentina/Buenos_Aires", "GMT", " UTC", "UTC ", "<-04>4", "posix/UTC", "utc"))
	for n := Int(t, "roles", 1, 3); n > 0; n-- {
		c.Roles = append(c.Roles, genName(t, "role"))
	}
	for n := Int(t, "schemas", 1, 4); n > 0; n-- {
		c.Schemas = append(c.Schemas, Schem{Name: genSchemaName(t), Owner: Int(t, "o", 0, 9), Comment: genComment(t, "sc")})
	}
	for n := Int(t, "searched", 1, 3); n > 0; n-- {
		c.Path = append(c.Path, Int(t, "searchedi", 0, 3))
	}
	for n := Int(t, "funcs", 0, 5); n > 0; n-- {
		c.Funcs = append(c.Funcs, Func{
			Schema: Int(t, "fs", 0, 3), Owner: Int(t, "o", 0, 9), Lang: Int(t, "lang", 0, 3),
			Name: genName(t, "fn"), Args: Pick[S](t, "args", "", "integer", "text, text"),
			Returns: Pick[S](t, "ret", "void", "integer", "trigger", "SETOF text", "TABLE(a integer, b text)", "\"My Type\"", "pg_catalog.\"char\"", "pg_catalog.int4", "public.t", "character varying", "double precision[]", "SETOF pg_catalog.text", "any", "Void"),
			Comment: genComment(t, "fc"), Body: Lengthen(t, "body", S(Text(t, "body", 6)), 1, 100000, "line\n", "x", " é"),
		})
	}
	small := Chance(t, "small", 30)
	max := 7
	if small {
		max = 2
	}
	for n := Int(t, "rels", 0, max); n > 0; n-- {
		c.Rels = append(c.Rels, genRel(t))
	}
	for i := range c.Bases {
		c.Bases[i] = Int(t, "base", 0, 12)
	}
	c.Noise = Int(t, "noise", 0, noiseAll)
	if Chance(t, "noisy", 50) {
		c.Noise = noiseAll
	}
	if Chance(t, "many", 6) {
		c.many([]int{33, 65, 101, 129}[Even(t, "manyn", 4)], Even(t, "manykind", 10), Even(t, "manyi", 4))
	}
	c.Bare = Chance(t, "bare", 2)
	c.normalise()
	if Chance(t, "attrs", 60) {
		c.Attrs = 1 + Even(t, "attrseed", 1000)
	}
	if !normalNames && Chance(t, "christened", 30) {
		c.christen(t)
	}
	return c
}

// many adds n objects of a kind.
func (c *Cat) many(n, kind, at int) {
	rel := func(kinds string) *Rel {
		for d := range c.Rels {
			if r := &c.Rels[(at+d)%len(c.Rels)]; strings.Contains(kinds, r.Kind) && len(r.Cols) > 0 {
				return r
			}
		}
		c.Rels = append(c.Rels, Rel{Kind: "r", Name: "big", Schema: c.Path[0], Cols: []Col{{Name: "id"}}})
		return &c.Rels[len(c.Rels)-1]
	}
	schema := func(i int) int {
		if at > 0 { // mostly where they can be seen
			return c.Path[0]
		}
		return i
	}
	for i := 0; i < n; i++ {
		name := S(fmt.Sprintf("m%d", i))
		comment := &name
		if i%3 > 0 {
			comment = nil
		}
		switch kind {
		case 0:
			c.Funcs = append(c.Funcs, Func{Schema: schema(i), Owner: i, Lang: i, Name: name, Args: Pick3[S](i, "", "integer", "text, text"), Returns: "integer", Comment: comment, Body: "SELECT 1"})
		case 1:
			c.Schemas = append(c.Schemas, Schem{Name: name, Owner: i, Comment: comment})
		case 2:
			c.Rels = append(c.Rels, Rel{Kind: Pick3(i, "r", "r", "v"), Name: name, Schema: schema(i), Owner: i, Comment: comment, Cols: []Col{{Name: "id", Type: i}, {Name: "b", NotNull: i%2 == 0, Comment: comment}}})
		case 3:
			c.Rels = append(c.Rels, Rel{Kind: "S", Name: name, Schema: schema(i), Owner: i, Comment: comment, Seq: &Seq{Type: i, Start: 1, Min: 1, Max: int64(i) + 9, Inc: 1, Cache: 1, OwnerRel: i, OwnerCol: i}})
		case 4:
			r := rel("rpvmfc")
			r.Cols = append(r.Cols, Col{Name: name, Type: i, NotNull: i%2 == 0, Comment: comment, Gap: i%7 == 0})
		case 5:
			r := rel("rp")
			r.Checks = append(r.Checks, Chk{Name: name, Expr: S(fmt.Sprintf("a > %d", i)), Defer: i % 3})
		case 6:
			r := rel("rp")
			r.FKs = append(r.FKs, FK{Name: name, To: i * at, Cols: []int{i}, Refs: []int{i + 1}, OnDelete: Pick3(i, "", "CASCADE", "SET NULL"), Defer: i % 3})
		case 7:
			r := rel("rpm")
			r.Idx = append(r.Idx, Idx{Name: name, Unique: i%2 == 0, Using: "btree", Keys: []IdxKey{{Col: i, Desc: i%3 == 0}}, Comment: comment})
		case 8:
			r := rel("rp")
			r.Trigs = append(r.Trigs, Trig{Name: name, When: Pick3(i, "BEFORE", "AFTER", "AFTER"), Events: 1 + i%7, Row: i%2 == 0, Fn: "audit"})
		case 9:
			c.Roles = append(c.Roles, name)
		}
	}
}

// Pick3 picks by the remainder.
func Pick3[V any](i int, vs ...V) V { return vs[i%len(vs)] }

func genRel(t *rapid.T) Rel {
	r := Rel{
		Schema: Int(t, "rs", 0, 3), Owner: Int(t, "o", 0, 9), Name: genName(t, "rel"),
		Kind:    Pick(t, "kind", "r", "r", "r", "p", "S", "S", "v", "m", "f", "c"),
		Comment: genComment(t, "rc"),
	}
	if Chance(t, "catalogname", 4) {
		r.Name = Pick[S](t, "cname", "pg_sequence", "pg_sequence", "pg_class", "columns", "sql_features")
	}
	if r.Kind == "S" {
		r.Seq = genSeq(t)
		return r
	}
	for n := Int(t, "cols", 0, 5); n > 0; n-- {
		col := Col{Name: genName(t, "col"), Type: Int(t, "type", 0, len(types)-1), NotNull: Bool(t, "nn"), Comment: genComment(t, "cc"), Gap: Chance(t, "gap", 20)}
		if Chance(t, "hasdef", 35) {
			d := Pick[S](t, "def", "0", "'x'::text", "now()", "nextval('s'::regclass)", "''::text", "'a''b'::text", "NULL::integer")
			col.Default = &d
		}
		r.Cols = append(r.Cols, col)
	}
	if Chance(t, "opts", 30) {
		r.Options = genOptions(t)
	}
	for n := Int(t, "checks", -2, 3); n > 0; n-- {
		r.Checks = append(r.Checks, Chk{Name: genName(t, "chk"), Expr: Pick[S](t, "expr", "a > 0", "z < 1", "b IS NOT NULL", "lower(a) = a", "a > 0 AND b < 5", "(a + b) > 0", "a = ANY (ARRAY[1, 2])", "true", "m > 1"), Defer: Pick(t, "cd", 0, 0, 0, 1, 2)})
	}
	for n := Int(t, "fks", -2, 3); n > 0; n-- {
		f := FK{Name: genName(t, "fk"), To: Int(t, "to", 0, 6),
			OnDelete: Pick(t, "od", "", "", "CASCADE", "SET NULL", "RESTRICT", "SET DEFAULT"), Defer: Pick(t, "fd", 0, 0, 1, 2)}
		// the order the server prints, ON UPDATE first, is a listed finding
		if f.OnDelete == "" {
			f.OnUpdate = Pick(t, "ou", "", "", "CASCADE", "SET NULL", "RESTRICT", "SET DEFAULT")
		}
		f.Match = Chance(t, "mf", 15)
		for k := Int(t, "fkc", 1, 3); k > 0; k-- {
			f.Cols = append(f.Cols, Int(t, "fkcc", 0, 5))
			f.Refs = append(f.Refs, Int(t, "fkcr", 0, 5))
		}
		r.FKs = append(r.FKs, f)
	}
	for n := Int(t, "idx", -2, 4); n > 0; n-- {
		x := Idx{Name: genSimple(t, "idxn"), Primary: Chance(t, "pk", 30), Unique: Bool(t, "uq"), Using: Pick(t, "am", "btree", "btree", "hash", "gin"), Comment: genComment(t, "ic")}
		for k := Int(t, "keys", 1, 3); k > 0; k-- {
			x.Keys = append(x.Keys, IdxKey{Col: Int(t, "kc", 0, 5), Expr: Chance(t, "kx", 15), Desc: Chance(t, "kd", 25)})
			if y := &x.Keys[len(x.Keys)-1]; !y.Desc && !y.Expr && Chance(t, "op", 20) {
				y.Op = Pick(t, "opc", "text_ops", "int4_ops", "text_pattern_ops")
			}
		}
		if Chance(t, "where", 25) {
			x.Where = Pick[S](t, "wh", "a > 0", "b IS NULL", "deleted = false")
		}
		if Chance(t, "iopts", 10) {
			x.Options = []S{} // printed as WITH (...), a listed finding; none
		}
		r.Idx = append(r.Idx, x)
	}
	for n := Int(t, "trigs", -2, 3); n > 0; n-- {
		g := Trig{Name: genSimple(t, "trn"), When: Pick(t, "when", "BEFORE", "AFTER"), Events: Int(t, "ev", 1, 15), Row: Bool(t, "row"), Fn: string(genSimple(t, "tf"))}
		if g.Events&8 != 0 {
			g.Row = false
		}
		for k := Int(t, "trc", -1, 2); k > 0; k-- {
			g.Cols = append(g.Cols, Int(t, "trcc", 0, 5))
		}
		if Chance(t, "ct", 20) {
			// other constraint triggers are printed in ways that are listed findings
			g.Constraint, g.Deferred, g.Row, g.When = true, true, true, "AFTER"
			g.Events &= 7
		}
		g.Cloned = Chance(t, "cloned", 8)
		r.Trigs = append(r.Trigs, g)
	}
	return r
}

func genSimple(t *rapid.T, what string) S {
	return S(Pick(t, what, "a", "b", "c", "k1", "k2", "k10", "pkey", "users_pkey", "zed", "m_idx", "tr_1", "audit"))
}

func genSeq(t *rapid.T) *Seq {
	wide := rapid.OneOf(rapid.Int64Range(-10, 10), rapid.Int64(), rapid.SampledFrom([]int64{1 << 31, 1<<31 - 1, -1 << 31, 1<<63 - 1, -1 << 63, 1 << 53}))
	return &Seq{Type: Int(t, "st", 0, 2), Start: wide.Draw(t, "ss"), Min: wide.Draw(t, "sn"), Max: wide.Draw(t, "sx"), Inc: wide.Draw(t, "si"),
		Cache: wide.Draw(t, "sc"), Cycle: Bool(t, "cy"), OwnerRel: Int(t, "sor", -1, 6), OwnerCol: Int(t, "soc", 0, 5), Identity: Bool(t, "ident")}
}

var optInt = []string{"fillfactor", "parallel_workers", "autovacuum_vacuum_threshold", "autovacuum_analyze_threshold", "autovacuum_vacuum_cost_limit",
	"autovacuum_freeze_min_age", "autovacuum_freeze_max_age", "autovacuum_freeze_table_age", "autovacuum_multixact_freeze_min_age",
	"autovacuum_multixact_freeze_max_age", "autovacuum_multixact_freeze_table_age", "log_autovacuum_min_duration"}

func genOptions(t *rapid.T) []S {
	var out []S
	used := map[string]bool{}
	for n := Int(t, "opt#", 1, 5); n > 0; n-- {
		var k, v string
		switch Int(t, "optk", 0, 5) {
		case 0:
			k, v = Pick(t, "optb", "autovacuum_enabled", "user_catalog_table"), Pick(t, "optbv", "true", "false")
		case 1:
			k, v = Pick(t, "optf", "autovacuum_vacuum_scale_factor", "autovacuum_analyze_scale_factor"), Pick(t, "optfv", "0.25", "0", "1.5", "100")
		default:
			k, v = Pick(t, "opti", optInt...), fmt.Sprint(Int(t, "optiv", 0, 200))
		}
		if !used[k] {
			used[k] = true
			out = append(out, S(k+"="+v))
		}
	}
	return out
}

// ---------------------------------------------------------------- definitions

func names(r *Rel, cols []int) string {
	var l []string
	for _, i := range cols {
		l = append(l, string(r.Cols[i].Name))
	}
	return strings.Join(l, ", ")
}

func list(r *Rel, cols []int) []string {
	var l []string
	for _, i := range cols {
		l = append(l, string(r.Cols[i].Name))
	}
	return l
}

func (c *Cat) checkDef(k *Chk, pretty bool) string {
	e := string(k.Expr)
	if !pretty {
		e = "(" + e + ")"
	}
	return "CHECK (" + e + ")" + deferrals[k.Defer]
}

func (c *Cat) fkDef(r *Rel, f *FK) string {
	s := "FOREIGN KEY (" + names(r, f.Cols) + ") REFERENCES " + string(c.Rels[f.To].Name) + "(" + names(&c.Rels[f.To], f.Refs) + ")"
	if f.Match {
		s += " MATCH FULL"
	}
	if f.OnUpdate != "" {
		s += " ON UPDATE " + f.OnUpdate
	}
	if f.OnDelete != "" {
		s += " ON DELETE " + f.OnDelete
	}
	return s + deferrals[f.Defer]
}

func (c *Cat) relName(i int, qualify bool) string {
	n := minisql.QuoteIdent(string(c.Rels[i].Name))
	if qualify || !c.visible(i) {
		n = minisql.QuoteIdent(string(c.Schemas[c.Rels[i].Schema].Name)) + "." + n
	}
	return n
}

func (c *Cat) idxDef(rel int, x *Idx, pretty bool) string {
	s := "CREATE "
	if x.Unique {
		s += "UNIQUE "
	}
	s += "INDEX " + string(x.Name) + " ON " + c.relName(rel, !pretty) + " USING " + x.Using + " ("
	for i, k := range x.Keys {
		if i > 0 {
			s += ", "
		}
		n := string(c.Rels[rel].Cols[k.Col].Name)
		if k.Expr {
			n = "lower(" + n + ")"
		}
		s += n
		if k.Op != "" {
			s += " " + k.Op
		}
		if k.Desc {
			s += " DESC"
		}
	}
	s += ")"
	if x.Where != "" {
		if pretty {
			s += " WHERE " + string(x.Where)
		} else {
			s += " WHERE (" + string(x.Where) + ")"
		}
	}
	return s
}

func (c *Cat) trigDef(rel int, g *Trig, pretty bool) string {
	s := "CREATE "
	if g.Constraint {
		s += "CONSTRAINT "
	}
	s += "TRIGGER " + string(g.Name) + " " + g.When + " "
	var ev []string
	for i, e := range []string{"INSERT", "DELETE", "UPDATE", "TRUNCATE"} {
		if g.Events>>uint(i)&1 == 1 {
			if e == "UPDATE" && len(g.Cols) > 0 {
				e += " OF " + names(&c.Rels[rel], g.Cols)
			}
			ev = append(ev, e)
		}
	}
	s += strings.Join(ev, " OR ") + " ON " + c.relName(rel, !pretty)
	if g.Constraint {
		s += " DEFERRABLE INITIALLY DEFERRED"
	}
	if g.Row {
		s += " FOR EACH ROW"
	} else {
		s += " FOR EACH STATEMENT"
	}
	if c.Old {
		return s + " EXECUTE PROCEDURE " + g.Fn + "()"
	}
	return s + " EXECUTE FUNCTION " + g.Fn + "()"
}

// ---------------------------------------------------------------- expectation

func opt(s *S) string {
	if s == nil {
		return ""
	}
	return string(*s)
}

func (c *Cat) wantSchemas() []*ddl.Schema {
	var out []*ddl.Schema
	for _, s := range c.Schemas {
		out = append(out, &ddl.Schema{Name: string(s.Name), Owner: string(c.Roles[s.Owner]), Comment: opt(s.Comment)})
	}
	sort.Slice(out, func(i, j int) bool { return out[i].Name < out[j].Name })
	return out
}

func (c *Cat) function(f *Func) *ddl.Function {
	return &ddl.Function{Schema: string(c.Schemas[f.Schema].Name), Name: string(f.Name), Owner: string(c.Roles[f.Owner]), Comment: opt(f.Comment),
		Returns: string(f.Returns), Language: langs[f.Lang], Definition: string(f.Body)}
}

func (c *Cat) wantFunctions() []*ddl.Function {
	var out []*ddl.Function
	for i := range c.Funcs {
		if c.funcVisible(i) {
			out = append(out, c.function(&c.Funcs[i]))
		}
	}
	sort.SliceStable(out, func(i, j int) bool {
		a, b := out[i], out[j]
		if a.Schema != b.Schema {
			return a.Schema < b.Schema
		}
		return a.Name < b.Name
	})
	return out
}

func (c *Cat) wantSequences() []*ddl.Sequence {
	var out []*ddl.Sequence
	for i := range c.Rels {
		r := &c.Rels[i]
		if r.Kind != "S" || !c.visible(i) {
			continue
		}
		s := r.Seq
		q := &ddl.Sequence{Schema: string(c.Schemas[r.Schema].Name), Name: string(r.Name), Owner: string(c.Roles[r.Owner]), Comment: opt(r.Comment),
			DataType: seqTypes[s.Type].name, Start: s.Start, Minimum: s.Min, Maximum: s.Max, Increment: s.Inc, Cache: s.Cache, Cycle: s.Cycle}
		if s.OwnerRel >= 0 {
			o := &c.Rels[s.OwnerRel]
			q.OwnedBy = &ddl.SequenceOwner{Schema: string(c.Schemas[o.Schema].Name), Table: string(o.Name), Column: string(o.Cols[s.OwnerCol].Name)}
		}
		if c.Old {
			q.DataType = "bigint"
		}
		out = append(out, q)
	}
	sort.Slice(out, func(i, j int) bool {
		a, b := out[i], out[j]
		if a.Schema != b.Schema {
			return a.Schema < b.Schema
		}
		return a.Name < b.Name
	})
	return out
}

func (c *Cat) wantColumns(r *Rel) []*ddl.Column {
	var out []*ddl.Column
	for _, col := range r.Cols {
		out = append(out, &ddl.Column{Name: string(col.Name), Type: types[col.Type].text, NotNull: col.NotNull, Default: opt(col.Default), Comment: opt(col.Comment)})
	}
	return out
}

func (c *Cat) wantChecks(r *Rel) []*ddl.Check {
	var out []*ddl.Check
	for _, k := range r.Checks {
		out = append(out, &ddl.Check{Name: string(k.Name), Expression: string(k.Expr), Deferrable: k.Defer > 0, InitiallyDeferred: k.Defer == 2})
	}
	sort.Slice(out, func(i, j int) bool { return out[i].Name < out[j].Name })
	return out
}

// attnum of a column.
func attnum(r *Rel, i int) int {
	n := 0
	for k := 0; k <= i; k++ {
		n++
		if r.Cols[k].Gap {
			n++
		}
	}
	return n
}

func (c *Cat) wantForeignKeys(r *Rel) []*ddl.ForeignKey {
	fks := append([]FK(nil), r.FKs...)
	sort.SliceStable(fks, func(i, j int) bool {
		a, b := fks[i], fks[j]
		if x, y := c.Rels[a.To].Name, c.Rels[b.To].Name; x != y {
			return x < y
		}
		for k := range a.Cols {
			if k >= len(b.Cols) {
				return false
			}
			if x, y := attnum(r, a.Cols[k]), attnum(r, b.Cols[k]); x != y {
				return x < y
			}
		}
		return len(a.Cols) < len(b.Cols)
	})
	var out []*ddl.ForeignKey
	for _, f := range fks {
		k := &ddl.ForeignKey{Name: string(f.Name), Table: string(c.Rels[f.To].Name), Columns: list(r, f.Cols), Referenced: list(&c.Rels[f.To], f.Refs),
			OnDelete: f.OnDelete, OnUpdate: f.OnUpdate, Deferrable: f.Defer > 0, InitiallyDeferred: f.Defer == 2}
		if f.Match {
			k.Match = "FULL"
		}
		out = append(out, k)
	}
	return out
}

func (c *Cat) wantOptions(r *Rel) map[string]string {
	out := map[string]string{}
	for _, o := range r.Options {
		kv := strings.SplitN(string(o), "=", 2)
		out[kv[0]] = kv[1]
	}
	return out
}

func (c *Cat) wantIndexes(i int) []*ddl.Index {
	r := &c.Rels[i]
	xs := append([]Idx(nil), r.Idx...)
	sort.Slice(xs, func(i, j int) bool {
		a, b := xs[i], xs[j]
		if a.Primary != b.Primary {
			return a.Primary
		}
		if a.Unique != b.Unique {
			return a.Unique
		}
		return a.Name < b.Name
	})
	var out []*ddl.Index
	for _, x := range xs {
		d := &ddl.Index{Schema: string(c.Schemas[r.Schema].Name), Table: string(r.Name), Name: string(x.Name), Primary: x.Primary, Unique: x.Unique, Using: x.Using, Where: string(x.Where)}
		for _, k := range x.Keys {
			y := &ddl.IndexKey{Descending: k.Desc, OpClass: k.Op}
			if n := string(r.Cols[k.Col].Name); k.Expr {
				y.Expression = "lower(" + n + ")"
			} else {
				y.Column = n
			}
			d.Keys = append(d.Keys, y)
		}
		out = append(out, d)
	}
	return out
}

func (c *Cat) trigger(r *Rel, g *Trig) *ddl.Trigger {
	return &ddl.Trigger{Schema: string(c.Schemas[r.Schema].Name), Table: string(r.Name), Name: string(g.Name), Function: g.Fn, When: g.When,
		Constraint: g.Constraint, Deferrable: g.Constraint, InitiallyDeferred: g.Deferred, ForEachRow: g.Row,
		Insert: g.Events&1 != 0, Delete: g.Events&2 != 0, Update: g.Events&4 != 0, Truncate: g.Events&8 != 0, Columns: list(r, g.Cols)}
}

func (c *Cat) wantTriggers(i int) []*ddl.Trigger {
	r := &c.Rels[i]
	var out []*ddl.Trigger
	for k := range r.Trigs {
		if !r.Trigs[k].Cloned {
			out = append(out, c.trigger(r, &r.Trigs[k]))
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].Name < out[j].Name })
	return out
}

// tables are the indexes of the tables that are described, in order.
func (c *Cat) tables() []int {
	var out []int
	for i := range c.Rels {
		if k := c.Rels[i].Kind; (k == "r" || k == "p") && c.visible(i) {
			out = append(out, i)
		}
	}
	sort.Slice(out, func(a, b int) bool {
		x, y := &c.Rels[out[a]], &c.Rels[out[b]]
		if x.Schema != y.Schema {
			return c.Schemas[x.Schema].Name < c.Schemas[y.Schema].Name
		}
		return x.Name < y.Name
	})
	return out
}
