//go:build go1.23

package minisql

import (
	"math"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"sync"
)

// Type OIDs.
const (
	Bool       = 16
	Char       = 18
	Name       = 19
	Int8       = 20
	Int2       = 21
	Int4       = 23
	Text       = 25
	Oid        = 26
	Unknown    = 705
	Int2Vector = 22
	OidVector  = 30
	CharArray  = 1002
	NameArray  = 1003
	Int2Array  = 1005
	Int4Array  = 1007
	TextArray  = 1009
	Int8Array  = 1016
	OidArray   = 1028
	Varchar    = 1043
	Regclass   = 2205
	Regproc    = 24
	Regtype    = 2206
	NodeTree   = 194
)

// Value is nil (NULL), bool, int64, string or []Value.
type Value interface{}

// Column is a column of a table.
type Column struct {
	Name string
	OID  uint32
}

// Table is a table of the database.
type Table struct {
	Cols []Column
	Rows [][]Value
}

// DB is what statements are evaluated over.
type DB struct {
	// Table finds a table; schema is "" if the name isn't qualified.  known is
	// false if it is unclear whether a server would have it.
	Table func(schema, name string) (t *Table, known bool)
	// Column tells whether a server has a column that Table leaves out.
	Column func(table, column string) bool
	// Func evaluates a function, given the types of the arguments too.
	Func func(name string, args []Value, oids []uint32) (Value, *Error)
	// FuncType gives the result type of a function; ok is false if it is unknown.
	FuncType func(name string, oids []uint32) (oid uint32, ok bool)
	// Show gives a setting.
	Show func(name string) (string, bool)
	// Regclass turns the name of a relation into its OID and back.
	Regclass    func(name string) (int64, bool)
	RegclassOut func(oid int64) string
}

// Stmt is a prepared statement.
type Stmt struct {
	Cols   []Column
	Params []uint32
	db     *DB
	q      *query
	show   string
}

// Prepare analyses a statement.
func (db *DB) Prepare(sql string) (st *Stmt, e *Error) {
	defer catch(&e)
	s := parseStatement(sql)
	st = &Stmt{db: db}
	if s.show != "" {
		if _, ok := db.Show(s.show); !ok {
			sqlError("42704", "unrecognized configuration parameter %q", s.show)
		}
		st.show = s.show
		st.Cols = []Column{{s.show, Text}}
		return st, nil
	}
	c := &compiler{db: db, params: map[int]uint32{}}
	st.q = c.query(s, nil)
	for _, col := range st.q.cols {
		if col.OID == Unknown {
			col.OID = Text
		}
		st.Cols = append(st.Cols, col)
	}
	n := 0
	for i := range c.params {
		if i > n {
			n = i
		}
	}
	for i := 1; i <= n; i++ {
		o, ok := c.params[i]
		if !ok {
			sqlError("42P18", "could not determine data type of parameter $%d", i)
		}
		if o == Unknown {
			o = Text
		}
		st.Params = append(st.Params, o)
	}
	return st, nil
}

func catch(e **Error) {
	if r := recover(); r != nil {
		if x, ok := r.(*Error); ok {
			*e = x
			return
		}
		panic(r)
	}
}

// Exec evaluates a prepared statement; parameters are in text form.
func (st *Stmt) Exec(params []*string) (rows [][]*string, e *Error) {
	defer catch(&e)
	if st.show != "" {
		v, _ := st.db.Show(st.show)
		return [][]*string{{&v}}, nil
	}
	if len(params) != len(st.Params) {
		sqlError("08P01", "bind message supplies %d parameters, but prepared statement requires %d", len(params), len(st.Params))
	}
	var vals []Value
	for i, p := range params {
		if p == nil {
			vals = append(vals, nil)
		} else {
			vals = append(vals, st.db.in(*p, st.Params[i]))
		}
	}
	for _, r := range st.q.run(&env{params: vals}) {
		var row []*string
		for i, v := range r {
			if v == nil {
				row = append(row, nil)
				continue
			}
			s := st.db.out(v, st.Cols[i].OID)
			row = append(row, &s)
		}
		rows = append(rows, row)
	}
	return rows, nil
}

// in reads the text form of a value.
func (db *DB) in(s string, oid uint32) Value {
	switch oid {
	case Bool:
		switch asciiLower(strings.TrimSpace(s)) {
		case "t", "true", "y", "yes", "on", "1":
			return true
		case "f", "false", "n", "no", "off", "0":
			return false
		}
		sqlError("22P02", "invalid input syntax for type boolean: %q", s)
	case Int2, Int4, Int8, Oid:
		n, err := strconv.ParseInt(strings.TrimSpace(s), 10, 64)
		if err != nil {
			sqlError("22P02", "invalid input syntax for integer: %q", s)
		}
		lo, hi := int64(math.MinInt64), int64(math.MaxInt64)
		switch oid {
		case Int2:
			lo, hi = math.MinInt16, math.MaxInt16
		case Int4:
			lo, hi = math.MinInt32, math.MaxInt32
		case Oid:
			lo, hi = math.MinInt32, math.MaxUint32
		}
		if n < lo || n > hi {
			sqlError("22003", "value %q is out of range", s)
		}
		return n
	case Regclass:
		if n, err := strconv.ParseInt(s, 10, 64); err == nil {
			return n
		}
		o, ok := db.Regclass(s)
		if !ok {
			sqlError("42P01", "relation %q does not exist", s)
		}
		return o
	case Char:
		if len(s) > 1 {
			return s[:1]
		}
		return s
	case Name:
		return cut63(s)
	case Text, Varchar, Unknown:
		return s
	}
	unsupported("input of type %d", oid)
	return nil
}

func elemOf(oid uint32) (uint32, bool) {
	switch oid {
	case TextArray:
		return Text, true
	case NameArray:
		return Name, true
	case CharArray:
		return Char, true
	case Int2Array, Int2Vector:
		return Int2, true
	case Int4Array:
		return Int4, true
	case Int8Array:
		return Int8, true
	case OidArray, OidVector:
		return Oid, true
	}
	return 0, false
}

func arrayOf(oid uint32) uint32 {
	switch oid {
	case Text, Unknown, Varchar:
		return TextArray
	case Name:
		return NameArray
	case Char:
		return CharArray
	case Int2:
		return Int2Array
	case Int4:
		return Int4Array
	case Int8:
		return Int8Array
	case Oid:
		return OidArray
	}
	unsupported("array of type %d", oid)
	return 0
}

// out gives the text form of a value.
func (db *DB) out(v Value, oid uint32) string {
	switch x := v.(type) {
	case bool:
		if x {
			return "t"
		}
		return "f"
	case int64:
		if oid == Regclass {
			return db.RegclassOut(x)
		}
		return strconv.FormatInt(x, 10)
	case string:
		return x
	case []Value:
		el, _ := elemOf(oid)
		sep, open, shut := ",", "{", "}"
		if oid == Int2Vector || oid == OidVector {
			sep, open, shut = " ", "", ""
		}
		var parts []string
		for _, e := range x {
			if e == nil {
				parts = append(parts, "NULL")
				continue
			}
			s := db.out(e, el)
			if _, ok := e.(string); ok && (s == "" || strings.EqualFold(s, "null") || strings.ContainsAny(s, "{}\",\\ \t\n\r\v\f")) {
				s = `"` + strings.NewReplacer(`\`, `\\`, `"`, `\"`).Replace(s) + `"`
			}
			parts = append(parts, s)
		}
		return open + strings.Join(parts, sep) + shut
	}
	unsupported("output of %T", v)
	return ""
}

// ---------------------------------------------------------------- compilation

type env struct {
	row    []Value
	group  [][]Value
	outer  *env
	params []Value
}

func (e *env) root() *env {
	for e.outer != nil {
		e = e.outer
	}
	return e
}

type scol struct {
	table, name string
	oid         uint32
	hidden      bool // merged by USING
}

type scope struct {
	cols    []scol
	systems map[string]string // alias: table name, for unmodelled columns
	outer   *scope
	touched int // 1 + greatest position used since reset
	ctes    map[string]*query
	agg     bool // aggregates are allowed here
	sawAgg  bool
}

type ex struct {
	oid  uint32
	name string
	f    func(*env) Value
	srf  func(*env) []Value
	lit  bool // untyped literal
	par  int  // parameter number, if it is just that
}

type compiler struct {
	db     *DB
	params map[int]uint32
}

type query struct {
	cols []Column
	run  func(*env) [][]Value
}

func textual(o uint32) bool {
	return o == Text || o == Name || o == Varchar || o == Unknown || o == Char
}
func integral(o uint32) bool {
	return o == Int2 || o == Int4 || o == Int8 || o == Oid || o == Regclass || o == Regproc || o == Regtype
}

// coerce turns an untyped literal or parameter into the given type.
func (c *compiler) coerce(e *ex, oid uint32) *ex {
	if oid == Unknown {
		return e
	}
	if e.par > 0 {
		if have := c.params[e.par]; have == Unknown {
			c.params[e.par] = oid
			return &ex{oid: oid, name: e.name, f: e.f, par: e.par}
		} else if have != oid && !(textual(have) && textual(oid)) && !(integral(have) && integral(oid)) {
			sqlError("42883", "operator does not exist for parameter $%d", e.par)
		}
		return &ex{oid: c.params[e.par], name: e.name, f: e.f, par: e.par}
	}
	if e.lit {
		v := e.f(nil)
		if v != nil {
			if _, arr := elemOf(oid); arr {
				v = parseArray(c.db, v.(string), oid)
			} else {
				v = c.db.in(v.(string), oid)
			}
		}
		return &ex{oid: oid, name: e.name, f: func(*env) Value { return v }}
	}
	return e
}

func parseArray(db *DB, s string, oid uint32) Value {
	el, _ := elemOf(oid)
	s = strings.TrimSpace(s)
	if !strings.HasPrefix(s, "{") || !strings.HasSuffix(s, "}") {
		sqlError("22P02", "malformed array literal: %q", s)
	}
	in := s[1 : len(s)-1]
	if strings.ContainsAny(in, "{}\"\\") {
		unsupported("array literal %s", s)
	}
	out := []Value{}
	if strings.TrimSpace(in) == "" {
		return out
	}
	for _, p := range strings.Split(in, ",") {
		out = append(out, db.in(strings.TrimSpace(p), el))
	}
	return out
}

// unify brings two operands to comparable types.
func (c *compiler) unify(a, b *ex, what string) (*ex, *ex) {
	ua, ub := a.lit || a.par > 0 && c.params[a.par] == Unknown, b.lit || b.par > 0 && c.params[b.par] == Unknown
	switch {
	case ua && ub:
		return c.coerce(a, Text), c.coerce(b, Text)
	case ua:
		a = c.coerce(a, b.oid)
	case ub:
		b = c.coerce(b, a.oid)
	}
	if a.oid == b.oid || textual(a.oid) && textual(b.oid) || integral(a.oid) && integral(b.oid) {
		return a, b
	}
	ea, oka := elemOf(a.oid)
	eb, okb := elemOf(b.oid)
	if oka && okb && (ea == eb || textual(ea) && textual(eb)) {
		return a, b
	}
	sqlError("42883", "operator does not exist: %d %s %d", a.oid, what, b.oid)
	return nil, nil
}

func compare(a, b Value) int {
	switch x := a.(type) {
	case int64:
		y := b.(int64)
		switch {
		case x < y:
			return -1
		case x > y:
			return 1
		}
		return 0
	case string:
		return strings.Compare(x, b.(string))
	case bool:
		y := b.(bool)
		switch {
		case x == y:
			return 0
		case y:
			return -1
		}
		return 1
	case []Value:
		y := b.([]Value)
		for i := range x {
			if i >= len(y) {
				return 1
			}
			if (x[i] == nil) != (y[i] == nil) {
				if x[i] == nil {
					return 1
				}
				return -1
			}
			if x[i] == nil {
				continue
			}
			if r := compare(x[i], y[i]); r != 0 {
				return r
			}
		}
		if len(x) < len(y) {
			return -1
		}
		return 0
	}
	unsupported("comparison of %T", a)
	return 0
}

func key(row []Value) string {
	var b strings.Builder
	for _, v := range row {
		switch x := v.(type) {
		case nil:
			b.WriteString("n;")
		case bool:
			b.WriteString(strconv.FormatBool(x) + ";")
		case int64:
			b.WriteString(strconv.FormatInt(x, 10) + ";")
		case string:
			b.WriteString(strconv.Quote(x) + ";")
		case []Value:
			b.WriteString("[" + key(x) + "];")
		}
	}
	return b.String()
}

func sortRows(rows [][]Value, keys [][]Value, order []orderItem) {
	idx := make([]int, len(rows))
	for i := range idx {
		idx[i] = i
	}
	sort.SliceStable(idx, func(i, j int) bool {
		a, b := keys[idx[i]], keys[idx[j]]
		for k, o := range order {
			x, y := a[k], b[k]
			if x == nil && y == nil {
				continue
			}
			if x == nil || y == nil {
				return (x == nil) == o.nullsFirst
			}
			r := compare(x, y)
			if r != 0 {
				return (r < 0) != o.desc
			}
		}
		return false
	})
	r2 := make([][]Value, len(rows))
	for i, k := range idx {
		r2[i] = rows[k]
	}
	copy(rows, r2)
}

func (c *compiler) query(s *sel, outer *scope) *query {
	if len(s.with) > 0 {
		sc := &scope{outer: outer, ctes: map[string]*query{}}
		for _, w := range s.with {
			q := c.query(w.q, sc)
			if len(w.cols) > 0 {
				q = &query{cols: append([]Column(nil), q.cols...), run: q.run}
				for i, n := range w.cols {
					if i >= len(q.cols) {
						sqlError("42P10", "too many column names")
					}
					q.cols[i].Name = n
				}
			}
			sc.ctes[w.name] = q
		}
		s2 := *s
		s2.with = nil
		q := c.query(&s2, sc)
		return &query{cols: q.cols, run: func(e *env) [][]Value { return q.run(&env{outer: e}) }}
	}
	var q *query
	switch {
	case s.setop != "":
		q = c.setop(s, outer)
	case s.values != nil:
		q = c.valuesList(s, outer)
	default:
		return c.simple(s, outer)
	}
	if len(s.order) > 0 {
		var pos []int
		for _, o := range s.order {
			pos = append(pos, c.outputPos(o.e, q.cols, true))
		}
		inner := q.run
		order := s.order
		q = &query{cols: q.cols, run: func(e *env) [][]Value {
			rows := inner(e)
			var keys [][]Value
			for _, r := range rows {
				var k []Value
				for _, p := range pos {
					k = append(k, r[p])
				}
				keys = append(keys, k)
			}
			sortRows(rows, keys, order)
			return rows
		}}
	}
	return c.limited(s, q, outer)
}

func (c *compiler) limited(s *sel, q *query, outer *scope) *query {
	if s.limit == nil && s.offset == nil {
		return q
	}
	var l, o *ex
	sc := &scope{outer: outer}
	if s.limit != nil {
		l = c.coerce(c.expr(s.limit, sc), Int8)
	}
	if s.offset != nil {
		o = c.coerce(c.expr(s.offset, sc), Int8)
	}
	inner := q.run
	return &query{cols: q.cols, run: func(e *env) [][]Value {
		rows := inner(e)
		sub := &env{outer: e}
		if o != nil {
			if v := o.f(sub); v != nil {
				n := v.(int64)
				if n > int64(len(rows)) {
					n = int64(len(rows))
				}
				rows = rows[n:]
			}
		}
		if l != nil {
			if v := l.f(sub); v != nil && v.(int64) < int64(len(rows)) {
				rows = rows[:v.(int64)]
			}
		}
		return rows
	}}
}

// outputPos finds the output column an ORDER BY item names; -1 if none.
func (c *compiler) outputPos(e *node, cols []Column, must bool) int {
	if e.op == "num" {
		n, _ := strconv.Atoi(e.val)
		if n < 1 || n > len(cols) {
			sqlError("42P10", "ORDER BY position %s is not in select list", e.val)
		}
		return n - 1
	}
	if e.op == "col" && len(e.name) == 1 {
		found := -1
		for i, col := range cols {
			if col.Name == e.name[0] {
				if found >= 0 {
					// ambiguous unless the same expression; not modelled
					unsupported("ambiguous ORDER BY %q", e.name[0])
				}
				found = i
			}
		}
		if found >= 0 {
			return found
		}
	}
	if must {
		unsupported("ORDER BY expression on a set operation")
	}
	return -1
}

func (c *compiler) setop(s *sel, outer *scope) *query {
	l := c.query(s.left, outer)
	if s.setop == "wrap" {
		return l
	}
	r := c.query(s.right, outer)
	if len(l.cols) != len(r.cols) {
		sqlError("42601", "each %s query must have the same number of columns", s.setop)
	}
	cols := append([]Column(nil), l.cols...)
	for i := range cols {
		a, b := l.cols[i].OID, r.cols[i].OID
		if a == Unknown {
			cols[i].OID = b
		} else if b != Unknown && a != b {
			if textual(a) && textual(b) {
				cols[i].OID = Text
			} else if integral(a) && integral(b) {
				cols[i].OID = Int8
			} else {
				sqlError("42804", "types cannot be matched")
			}
		}
	}
	op := s.setop
	return &query{cols: cols, run: func(e *env) [][]Value {
		a, b := l.run(e), r.run(e)
		count := map[string]int{}
		var out [][]Value
		switch op {
		case "union all":
			return append(append(out, a...), b...)
		case "union":
			for _, row := range append(append([][]Value(nil), a...), b...) {
				if count[key(row)]++; count[key(row)] == 1 {
					out = append(out, row)
				}
			}
		case "intersect", "except":
			for _, row := range b {
				count[key(row)] = 1
			}
			seen := map[string]bool{}
			for _, row := range a {
				k := key(row)
				if !seen[k] && (count[k] > 0) == (op == "intersect") {
					seen[k] = true
					out = append(out, row)
				}
			}
		default:
			unsupported("%s", op)
		}
		return out
	}}
}

func (c *compiler) valuesList(s *sel, outer *scope) *query {
	sc := &scope{outer: outer}
	var rows [][]*ex
	for _, r := range s.values {
		var row []*ex
		for _, n := range r {
			row = append(row, c.expr(n, sc))
		}
		if len(rows) > 0 && len(rows[0]) != len(row) {
			sqlError("42601", "VALUES lists must all be the same length")
		}
		rows = append(rows, row)
	}
	var cols []Column
	for i, e := range rows[0] {
		o := e.oid
		for _, r := range rows {
			if o == Unknown {
				o = r[i].oid
			}
		}
		if o == Unknown {
			o = Text
		}
		for _, r := range rows {
			r[i] = c.coerce(r[i], o)
		}
		cols = append(cols, Column{"column" + strconv.Itoa(i+1), o})
	}
	return &query{cols: cols, run: func(e *env) [][]Value {
		var out [][]Value
		for _, r := range rows {
			var row []Value
			for _, x := range r {
				row = append(row, x.f(&env{outer: e}))
			}
			out = append(out, row)
		}
		return out
	}}
}

type step struct {
	scan    func(e *env, left []Value) [][]Value
	lateral bool
	join    string
	on      *ex
	width   int
	after   []*ex // conditions of WHERE that can be applied after this step
}

func (c *compiler) simple(s *sel, outer *scope) *query {
	sc := &scope{outer: outer, systems: map[string]string{}}
	steps := c.from(s.from, sc)

	conds := []*ex{}
	var split func(n *node)
	split = func(n *node) {
		if n.op == "and" {
			split(n.kids[0])
			split(n.kids[1])
			return
		}
		sc.touched = 0
		x := c.boolean(n, sc)
		at := 0
		w := 0
		for i, st := range steps {
			w += st.width
			if w >= sc.touched {
				at = i
				break
			}
		}
		if len(steps) == 0 {
			conds = append(conds, x)
		} else {
			steps[at].after = append(steps[at].after, x)
		}
	}
	if s.where != nil {
		split(s.where)
	}

	sc.agg = true
	type outEx struct{ e *ex }
	var outs []*ex
	var cols []Column
	for _, o := range s.out {
		if o.star {
			n := 0
			for i, col := range sc.cols {
				if col.hidden || o.table != "" && col.table != o.table {
					continue
				}
				i, col := i, col
				if sys := sc.systems[col.table]; sys != "" {
					unsupported("* over the catalog %s", sys)
				}
				outs = append(outs, &ex{oid: col.oid, f: func(e *env) Value { return e.row[i] }})
				cols = append(cols, Column{col.name, col.oid})
				n++
			}
			if n == 0 {
				sqlError("42P01", "missing FROM-clause entry")
			}
			continue
		}
		x := c.expr(o.e, sc)
		if x.par > 0 {
			x = c.coerce(x, Text)
		}
		name := o.alias
		if name == "" {
			name = x.name
		}
		if name == "" {
			name = "?column?"
		}
		outs = append(outs, x)
		cols = append(cols, Column{cut63(name), x.oid})
	}
	hasSRF := false
	for _, o := range outs {
		if o.srf != nil {
			hasSRF = true
		}
	}
	var having *ex
	if s.having != nil {
		having = c.boolean(s.having, sc)
	}
	type okey struct {
		pos int
		e   *ex
	}
	var keys []okey
	for _, o := range s.order {
		pos := c.outputPos(o.e, cols, false)
		if pos >= 0 {
			keys = append(keys, okey{pos: pos})
			continue
		}
		x := c.expr(o.e, sc)
		if x.lit {
			sqlError("42601", "non-integer constant in ORDER BY")
		}
		if x.srf != nil {
			unsupported("set-returning function in ORDER BY")
		}
		if s.distinct && len(s.distOn) == 0 {
			// must be one of the selected expressions; not modelled
			unsupported("ORDER BY expression with DISTINCT")
		}
		keys = append(keys, okey{pos: -1, e: x})
	}
	var dist []okey
	for _, d := range s.distOn {
		pos := c.outputPos(d, cols, false)
		if pos >= 0 {
			dist = append(dist, okey{pos: pos})
		} else {
			dist = append(dist, okey{pos: -1, e: c.expr(d, sc)})
		}
	}
	grouped := len(s.group) > 0 || sc.sawAgg || having != nil
	sc.agg = false
	var groups []*ex
	for _, g := range s.group {
		if g.op == "num" {
			n, _ := strconv.Atoi(g.val)
			if n < 1 || n > len(outs) {
				sqlError("42P10", "GROUP BY position %s is not in select list", g.val)
			}
			groups = append(groups, outs[n-1])
			continue
		}
		if g.op == "col" && len(g.name) == 1 && !sc.has(g.name[0]) {
			if pos := c.outputPos(g, cols, false); pos >= 0 {
				groups = append(groups, outs[pos])
				continue
			}
		}
		groups = append(groups, c.expr(g, sc))
	}
	if grouped && hasSRF {
		unsupported("set-returning function with grouping")
	}
	width := len(sc.cols)

	run := func(outerEnv *env) [][]Value {
		rows := [][]Value{{}}
		if len(steps) > 0 {
			rows = runSteps(steps, outerEnv)
		}
		if len(conds) > 0 {
			var kept [][]Value
			for _, r := range rows {
				ok := true
				for _, x := range conds {
					if v := x.f(&env{row: r, outer: outerEnv}); v != true {
						ok = false
						break
					}
				}
				if ok {
					kept = append(kept, r)
				}
			}
			rows = kept
		}
		var envs []*env
		if grouped {
			if len(groups) == 0 {
				rep := make([]Value, width)
				if len(rows) > 0 {
					rep = rows[0]
				}
				envs = []*env{{row: rep, group: rows, outer: outerEnv}}
				if rows == nil {
					envs[0].group = [][]Value{}
				}
			} else {
				at := map[string]int{}
				for _, r := range rows {
					var k []Value
					for _, g := range groups {
						k = append(k, g.f(&env{row: r, outer: outerEnv}))
					}
					ks := key(k)
					i, ok := at[ks]
					if !ok {
						i = len(envs)
						at[ks] = i
						envs = append(envs, &env{row: r, outer: outerEnv})
					}
					envs[i].group = append(envs[i].group, r)
				}
			}
			if having != nil {
				var kept []*env
				for _, e := range envs {
					if having.f(e) == true {
						kept = append(kept, e)
					}
				}
				envs = kept
			}
		} else {
			for _, r := range rows {
				envs = append(envs, &env{row: r, outer: outerEnv})
			}
		}
		var out [][]Value
		var okeys, dkeys [][]Value
		emit := func(e *env, row []Value) {
			var k, d []Value
			for _, x := range keys {
				if x.pos >= 0 {
					k = append(k, row[x.pos])
				} else {
					k = append(k, x.e.f(e))
				}
			}
			for _, x := range dist {
				if x.pos >= 0 {
					d = append(d, row[x.pos])
				} else {
					d = append(d, x.e.f(e))
				}
			}
			out = append(out, row)
			okeys = append(okeys, k)
			dkeys = append(dkeys, d)
		}
		for _, e := range envs {
			if !hasSRF {
				row := make([]Value, len(outs))
				for i, o := range outs {
					row[i] = o.f(e)
				}
				emit(e, row)
				continue
			}
			sets := make([][]Value, len(outs))
			n := 0
			for i, o := range outs {
				if o.srf != nil {
					sets[i] = o.srf(e)
					if len(sets[i]) > n {
						n = len(sets[i])
					}
				}
			}
			for k := 0; k < n; k++ {
				row := make([]Value, len(outs))
				for i, o := range outs {
					if o.srf == nil {
						row[i] = o.f(e)
					} else if k < len(sets[i]) {
						row[i] = sets[i][k]
					}
				}
				emit(e, row)
			}
		}
		if len(keys) > 0 {
			all := make([][]Value, len(out))
			for i := range out {
				all[i] = append(append(append([]Value(nil), out[i]...), dkeys[i]...), okeys[i]...)
			}
			sortRows(all, okeys, s.order)
			for i := range out {
				out[i] = all[i][:len(outs):len(outs)]
				dkeys[i] = all[i][len(outs) : len(outs)+len(dist)]
			}
		}
		if s.distinct {
			seen := map[string]bool{}
			var kept [][]Value
			for i, r := range out {
				k := key(r)
				if len(dist) > 0 {
					k = key(dkeys[i])
				}
				if !seen[k] {
					seen[k] = true
					kept = append(kept, r)
				}
			}
			out = kept
		}
		return out
	}
	q := &query{cols: cols, run: run}
	return c.limited(s, q, outer)
}

func runSteps(steps []*step, outer *env) [][]Value {
	cur := [][]Value{{}}
	width := 0
	for _, st := range steps {
		var next [][]Value
		var fixed [][]Value
		if !st.lateral {
			fixed = st.scan(outer, nil)
		}
		matchedRight := make([]bool, len(fixed))
		for _, l := range cur {
			rs := fixed
			if st.lateral {
				rs = st.scan(outer, l)
			}
			matched := false
			for ri, r := range rs {
				row := append(append(make([]Value, 0, len(l)+len(r)), l...), r...)
				if st.on != nil && st.on.f(&env{row: row, outer: outer}) != true {
					continue
				}
				matched = true
				if !st.lateral {
					matchedRight[ri] = true
				}
				if st.keep(row, outer) {
					next = append(next, row)
				}
			}
			if !matched && (st.join == "left" || st.join == "full") {
				row := append(append(make([]Value, 0, len(l)+st.width), l...), make([]Value, st.width)...)
				if st.keep(row, outer) {
					next = append(next, row)
				}
			}
		}
		if st.join == "right" || st.join == "full" {
			for ri, r := range fixed {
				if !matchedRight[ri] {
					row := append(make([]Value, width), r...)
					if st.keep(row, outer) {
						next = append(next, row)
					}
				}
			}
		}
		cur = next
		width += st.width
	}
	return cur
}

func (st *step) keep(row []Value, outer *env) bool {
	for _, x := range st.after {
		if x.f(&env{row: row, outer: outer}) != true {
			return false
		}
	}
	return true
}

func (c *compiler) from(items []*fromItem, sc *scope) []*step {
	var steps []*step
	full := false
	for _, it := range items {
		if full && it.join == "" || (it.join == "right" || it.join == "full") && hasComma(items) {
			unsupported("right or full join in a list")
		}
		if it.join == "right" || it.join == "full" {
			full = true
		}
		var cols []scol
		st := &step{join: it.join}
		alias := it.alias
		switch {
		case it.sub != nil:
			inner := sc.outer
			if it.lateral {
				inner = sc
			}
			q := c.query(it.sub, inner)
			lateral := it.lateral
			st.lateral = lateral
			st.scan = func(e *env, left []Value) [][]Value {
				if lateral {
					return q.run(&env{row: left, outer: e})
				}
				return q.run(e)
			}
			if alias == "" {
				alias = "?subquery?"
			}
			for _, col := range q.cols {
				o := col.OID
				if o == Unknown {
					o = Text
				}
				cols = append(cols, scol{table: alias, name: col.Name, oid: o})
			}
		case it.fn != nil:
			if it.fn.op != "call" {
				unsupported("expression in FROM")
			}
			x := c.expr(it.fn, sc)
			name := it.fn.name[0]
			if alias == "" {
				alias = name
			}
			st.lateral = true
			st.scan = func(e *env, left []Value) [][]Value {
				sub := &env{row: left, outer: e}
				if x.srf == nil {
					return [][]Value{{x.f(sub)}}
				}
				var out [][]Value
				for _, v := range x.srf(sub) {
					out = append(out, []Value{v})
				}
				return out
			}
			cols = append(cols, scol{table: alias, name: alias, oid: x.oid})
		case it.group != nil:
			gs := &scope{outer: sc.outer, systems: sc.systems}
			inner := c.from(it.group, gs)
			st.scan = func(e *env, left []Value) [][]Value { return runSteps(inner, e) }
			if alias != "" {
				unsupported("alias on a join")
			}
			cols = gs.cols
		default:
			schema, name := "", it.name[len(it.name)-1]
			if len(it.name) == 2 {
				schema = it.name[0]
			} else if len(it.name) > 2 {
				unsupported("three-part name")
			}
			if alias == "" {
				alias = name
			}
			var cq *query
			if schema == "" {
				for s := sc.outer; s != nil && cq == nil; s = s.outer {
					cq = s.ctes[name]
				}
			}
			if cq != nil {
				depth := 0
				for s := sc.outer; s != nil && s.ctes[name] != cq; s = s.outer {
					depth++
				}
				st.scan = func(e *env, left []Value) [][]Value {
					for i := 0; i < depth; i++ {
						e = e.outer
					}
					return cq.run(e)
				}
				for _, col := range cq.cols {
					o := col.OID
					if o == Unknown {
						o = Text
					}
					cols = append(cols, scol{table: alias, name: col.Name, oid: o})
				}
				break
			}
			t, known := c.db.Table(schema, name)
			if t == nil {
				if known {
					sqlError("42P01", "relation %q does not exist", strings.Join(it.name, "."))
				}
				unsupported("relation %s", strings.Join(it.name, "."))
			}
			st.scan = func(*env, []Value) [][]Value { return t.Rows }
			for _, col := range t.Cols {
				cols = append(cols, scol{table: alias, name: col.Name, oid: col.OID})
			}
			sc.systems[alias] = name
		}
		for i, n := range it.colAs {
			if i >= len(cols) {
				sqlError("42P10", "too many column aliases")
			}
			cols[i].name = n
		}
		if it.group == nil {
			for _, col := range sc.cols {
				if col.table == alias {
					sqlError("42712", "table name %q specified more than once", alias)
				}
			}
		}
		st.width = len(cols)
		base := len(sc.cols)
		sc.cols = append(sc.cols, cols...)
		if it.on != nil {
			st.on = c.boolean(it.on, sc)
		}
		for _, u := range it.using {
			l, r := -1, -1
			for i, col := range sc.cols {
				if col.name == u && !col.hidden {
					if i < base {
						l = i
					} else {
						r = i
					}
				}
			}
			if l < 0 || r < 0 {
				sqlError("42703", "column %q specified in USING clause does not exist", u)
			}
			prev := st.on
			st.on = &ex{oid: Bool, f: func(e *env) Value {
				if prev != nil && prev.f(e) != true {
					return false
				}
				a, b := e.row[l], e.row[r]
				return a != nil && b != nil && compare(a, b) == 0
			}}
			sc.cols[r].hidden = true
		}
		steps = append(steps, st)
	}
	return steps
}

func hasComma(items []*fromItem) bool {
	for _, it := range items {
		if it.comma {
			return true
		}
	}
	return false
}

func (sc *scope) has(name string) bool {
	for _, c := range sc.cols {
		if c.name == name && !c.hidden {
			return true
		}
	}
	return false
}

// column resolves a column reference.
func (c *compiler) column(name []string, sc *scope) *ex {
	if len(name) == 3 {
		name = name[1:]
	}
	depth := 0
	for s := sc; s != nil; s = s.outer {
		found := -1
		sysMiss := ""
		for i, col := range s.cols {
			if len(name) == 2 {
				if col.table != name[0] || col.name != name[1] {
					continue
				}
			} else if col.name != name[0] || col.hidden {
				continue
			}
			if found >= 0 {
				sqlError("42702", "column reference %q is ambiguous", strings.Join(name, "."))
			}
			found = i
		}
		if found < 0 {
			for alias, t := range s.systems {
				if len(name) == 2 && alias != name[0] {
					continue
				}
				if c.db.Column(t, name[len(name)-1]) {
					sysMiss = t
				}
			}
			if sysMiss != "" {
				unsupported("column %s of %s", name[len(name)-1], sysMiss)
			}
			if len(name) == 1 {
				for _, col := range s.cols {
					if col.table == name[0] {
						unsupported("whole-row reference %s", name[0])
					}
				}
			}
			if len(name) == 2 {
				for _, col := range s.cols {
					if col.table == name[0] {
						sqlError("42703", "column %s does not exist", strings.Join(name, "."))
					}
				}
			}
			depth++
			continue
		}
		if found+1 > s.touched {
			s.touched = found + 1
		}
		d, i := depth, found
		return &ex{oid: s.cols[i].oid, name: name[len(name)-1], f: func(e *env) Value {
			for k := 0; k < d; k++ {
				e = e.outer
			}
			return e.row[i]
		}}
	}
	if len(name) == 2 {
		sqlError("42P01", "missing FROM-clause entry for table %q", name[0])
	}
	sqlError("42703", "column %q does not exist", name[0])
	return nil
}

func (c *compiler) boolean(n *node, sc *scope) *ex {
	x := c.coerce(c.expr(n, sc), Bool)
	if x.oid != Bool {
		sqlError("42804", "argument must be type boolean")
	}
	if x.srf != nil {
		sqlError("0A000", "set-returning functions are not allowed here")
	}
	return x
}

var regexps sync.Map

func compileRegexp(p string) *regexp.Regexp {
	if r, ok := regexps.Load(p); ok {
		return r.(*regexp.Regexp)
	}
	if strings.Contains(p, `\m`) || strings.Contains(p, `\M`) || strings.Contains(p, `\y`) || strings.Contains(p, "(?") || strings.HasPrefix(p, "***") {
		unsupported("regular expression %s", p)
	}
	r, err := regexp.Compile("(?s)" + p)
	if err != nil {
		unsupported("regular expression %s", p)
	}
	regexps.Store(p, r)
	return r
}

func like(s, pat string, fold bool) bool {
	if fold {
		s, pat = strings.ToLower(s), strings.ToLower(pat)
	}
	sr, pr := []rune(s), []rune(pat)
	var m func(i, j int) bool
	m = func(i, j int) bool {
		for j < len(pr) {
			switch pr[j] {
			case '%':
				for k := i; k <= len(sr); k++ {
					if m(k, j+1) {
						return true
					}
				}
				return false
			case '_':
				if i >= len(sr) {
					return false
				}
			default:
				ch := pr[j]
				if ch == '\\' && j+1 < len(pr) {
					j++
					ch = pr[j]
				}
				if i >= len(sr) || sr[i] != ch {
					return false
				}
			}
			i++
			j++
		}
		return i == len(sr)
	}
	return m(0, 0)
}

func (c *compiler) text(x *ex) *ex {
	x = c.coerce(x, Text)
	if !textual(x.oid) {
		sqlError("42883", "operator does not exist for type %d", x.oid)
	}
	return x
}

// binary applies a scalar operator.
func (c *compiler) binary(op string, a, b *ex) *ex {
	switch op {
	case "=", "<>", "<", ">", "<=", ">=":
		a, b = c.unify(a, b, op)
		return &ex{oid: Bool, f: func(e *env) Value {
			x, y := a.f(e), b.f(e)
			if x == nil || y == nil {
				return nil
			}
			r := compare(x, y)
			switch op {
			case "=":
				return r == 0
			case "<>":
				return r != 0
			case "<":
				return r < 0
			case ">":
				return r > 0
			case "<=":
				return r <= 0
			}
			return r >= 0
		}}
	case "||":
		if _, arr := elemOf(a.oid); arr {
			unsupported("array concatenation")
		}
		if _, arr := elemOf(b.oid); arr {
			unsupported("array concatenation")
		}
		if a.par > 0 {
			a = c.coerce(a, Text)
		}
		if b.par > 0 {
			b = c.coerce(b, Text)
		}
		if !textual(a.oid) && !textual(b.oid) {
			sqlError("42883", "operator does not exist")
		}
		return &ex{oid: Text, f: func(e *env) Value {
			x, y := a.f(e), b.f(e)
			if x == nil || y == nil {
				return nil
			}
			return c.toText(x, a.oid) + c.toText(y, b.oid)
		}}
	case "~", "!~", "~*", "!~*":
		a, b = c.text(a), c.text(b)
		return &ex{oid: Bool, f: func(e *env) Value {
			x, y := a.f(e), b.f(e)
			if x == nil || y == nil {
				return nil
			}
			p := y.(string)
			if strings.HasSuffix(op, "*") {
				p = "(?i:" + compileRegexp(p).String()[4:] + ")"
				return regexp.MustCompile("(?s)"+p).MatchString(x.(string)) != strings.HasPrefix(op, "!")
			}
			return compileRegexp(p).MatchString(x.(string)) != strings.HasPrefix(op, "!")
		}}
	case "~~", "!~~":
		a, b = c.text(a), c.text(b)
		return &ex{oid: Bool, f: func(e *env) Value {
			x, y := a.f(e), b.f(e)
			if x == nil || y == nil {
				return nil
			}
			return like(x.(string), y.(string), false) == (op == "~~")
		}}
	case "+", "-", "*", "/", "%", "&", "|", "<<", ">>":
		if a.lit || a.par > 0 {
			a = c.coerce(a, Int8)
		}
		if b.lit || b.par > 0 {
			b = c.coerce(b, Int8)
		}
		if !integral(a.oid) || !integral(b.oid) {
			sqlError("42883", "operator does not exist")
		}
		o := a.oid
		if b.oid == Int8 {
			o = Int8
		} else if o == Int2 {
			o = b.oid
		}
		return &ex{oid: o, f: func(e *env) Value {
			x, y := a.f(e), b.f(e)
			if x == nil || y == nil {
				return nil
			}
			m, n := x.(int64), y.(int64)
			switch op {
			case "+":
				return m + n
			case "-":
				return m - n
			case "*":
				return m * n
			case "&":
				return m & n
			case "|":
				return m | n
			case "<<":
				return m << uint(n&63)
			case ">>":
				return m >> uint(n&63)
			}
			if n == 0 {
				sqlError("22012", "division by zero")
			}
			if op == "/" {
				return m / n
			}
			return m % n
		}}
	case "@>", "<@", "&&":
		a, b = c.unify(a, b, op)
		return &ex{oid: Bool, f: func(e *env) Value {
			x, y := a.f(e), b.f(e)
			if x == nil || y == nil {
				return nil
			}
			in := func(v Value, l []Value) bool {
				for _, w := range l {
					if v != nil && w != nil && compare(v, w) == 0 {
						return true
					}
				}
				return false
			}
			l, r := x.([]Value), y.([]Value)
			if op == "<@" {
				l, r = r, l
			}
			if op == "&&" {
				for _, v := range l {
					if in(v, r) {
						return true
					}
				}
				return false
			}
			for _, v := range r {
				if !in(v, l) {
					return false
				}
			}
			return true
		}}
	}
	unsupported("operator %s", op)
	return nil
}

func (c *compiler) toText(v Value, oid uint32) string {
	if b, ok := v.(bool); ok {
		return strconv.FormatBool(b)
	}
	return c.db.out(v, oid)
}

func (c *compiler) castType(typ string, arr bool) uint32 {
	var o uint32
	switch typ {
	case "text":
		o = Text
	case "name":
		o = Name
	case "varchar":
		o = Varchar
	case "bool", "boolean":
		o = Bool
	case "int", "integer", "int4":
		o = Int4
	case "bigint", "int8":
		o = Int8
	case "smallint", "int2":
		o = Int2
	case "oid":
		o = Oid
	case "\"char\"":
		o = Char
	case "regclass":
		o = Regclass
	default:
		unsupported("type %s", typ)
	}
	if arr {
		o = arrayOf(o)
	}
	return o
}

func (c *compiler) expr(n *node, sc *scope) *ex {
	x := c.expr1(n, sc)
	return x
}

func (c *compiler) kids(n *node, sc *scope) []*ex {
	var out []*ex
	for _, k := range n.kids {
		x := c.expr(k, sc)
		if x.srf != nil {
			unsupported("nested set-returning function")
		}
		out = append(out, x)
	}
	return out
}

func not(v Value, neg bool) Value {
	if v == nil || !neg {
		return v
	}
	return !v.(bool)
}

func (c *compiler) expr1(n *node, sc *scope) *ex {
	switch n.op {
	case "col":
		return c.column(n.name, sc)
	case "str":
		v := n.val
		return &ex{oid: Unknown, lit: true, f: func(*env) Value { return v }}
	case "null":
		return &ex{oid: Unknown, lit: true, f: func(*env) Value { return nil }}
	case "num":
		i, err := strconv.ParseInt(n.val, 10, 64)
		if err != nil {
			unsupported("number %s", n.val)
		}
		o := uint32(Int4)
		if i > math.MaxInt32 {
			o = Int8
		}
		return &ex{oid: o, f: func(*env) Value { return i }}
	case "bool":
		b := n.val == "true"
		return &ex{oid: Bool, name: "bool", f: func(*env) Value { return b }}
	case "param":
		i, _ := strconv.Atoi(n.val)
		if i < 1 || i > 65535 {
			sqlError("42P02", "there is no parameter $%s", n.val)
		}
		if _, ok := c.params[i]; !ok {
			c.params[i] = Unknown
		}
		return &ex{oid: c.params[i], par: i, f: func(e *env) Value { return e.root().params[i-1] }}
	case "neg":
		k := c.kids(n, sc)[0]
		return &ex{oid: k.oid, f: func(e *env) Value {
			if v := k.f(e); v != nil {
				return -v.(int64)
			}
			return nil
		}}
	case "or", "and":
		a, b := c.boolean(n.kids[0], sc), c.boolean(n.kids[1], sc)
		stop := n.op == "or"
		return &ex{oid: Bool, f: func(e *env) Value {
			x := a.f(e)
			if x == stop {
				return stop
			}
			y := b.f(e)
			if y == stop {
				return stop
			}
			if x == nil || y == nil {
				return nil
			}
			return !stop
		}}
	case "not":
		a := c.boolean(n.kids[0], sc)
		return &ex{oid: Bool, f: func(e *env) Value { return not(a.f(e), true) }}
	case "isnull":
		a := c.kids(n, sc)[0]
		if a.par > 0 {
			a = c.coerce(a, Text)
		}
		return &ex{oid: Bool, f: func(e *env) Value { return (a.f(e) == nil) != n.neg }}
	case "istrue":
		a := c.boolean(n.kids[0], sc)
		want := n.val == "true"
		return &ex{oid: Bool, f: func(e *env) Value { return (a.f(e) == want) != n.neg }}
	case "distinct":
		k := c.kids(n, sc)
		a, b := c.unify(k[0], k[1], "IS DISTINCT FROM")
		return &ex{oid: Bool, f: func(e *env) Value {
			x, y := a.f(e), b.f(e)
			same := x == nil && y == nil || x != nil && y != nil && compare(x, y) == 0
			return same == n.neg
		}}
	case "bin":
		if n.kids[0].op == "row" || n.kids[1].op == "row" {
			if n.val != "=" && n.val != "<>" {
				unsupported("row comparison")
			}
			eq := c.rowEqual(n.kids[0], n.kids[1], sc)
			return &ex{oid: Bool, f: func(e *env) Value {
				v := eq(e)
				if b, ok := v.(bool); ok {
					return b == (n.val == "=")
				}
				return nil
			}}
		}
		k := c.kids(n, sc)
		return c.binary(n.val, k[0], k[1])
	case "like":
		k := c.kids(n, sc)
		a, b := c.text(k[0]), c.text(k[1])
		return &ex{oid: Bool, f: func(e *env) Value {
			x, y := a.f(e), b.f(e)
			if x == nil || y == nil {
				return nil
			}
			return like(x.(string), y.(string), n.val == "i") != n.neg
		}}
	case "between":
		k := c.kids(n, sc)
		lo, hi := c.binary(">=", k[0], k[1]), c.binary("<=", k[0], k[2])
		return &ex{oid: Bool, f: func(e *env) Value {
			x, y := lo.f(e), hi.f(e)
			if x == false || y == false {
				return n.neg
			}
			if x == nil || y == nil {
				return nil
			}
			return !n.neg
		}}
	case "in":
		if n.kids[0].op == "row" {
			return c.rowIn(n, sc)
		}
		l := c.expr(n.kids[0], sc)
		if n.sel != nil {
			q := c.query(n.sel, sc)
			return c.quant(n, "=", l, q, n.neg)
		}
		var cmp []*ex
		for _, k := range n.kids[1:] {
			cmp = append(cmp, c.binary("=", l, c.expr(k, sc)))
		}
		return &ex{oid: Bool, f: func(e *env) Value {
			null := false
			for _, x := range cmp {
				switch x.f(e) {
				case true:
					return !n.neg
				case nil:
					null = true
				}
			}
			if null {
				return nil
			}
			return n.neg
		}}
	case "any", "all":
		l := c.expr(n.kids[0], sc)
		if n.sel != nil {
			return c.quant(n, n.val, l, c.query(n.sel, sc), false)
		}
		arr := c.expr(n.kids[1], sc)
		if arr.lit || arr.par > 0 {
			o := l.oid
			if o == Unknown {
				o = Text
			}
			arr = c.coerce(arr, arrayOf(o))
		}
		el, ok := elemOf(arr.oid)
		if !ok {
			sqlError("42809", "op ANY/ALL (array) requires array on right side")
		}
		var cur Value
		cmp := c.binary(n.val, l, &ex{oid: el, f: func(*env) Value { return cur }})
		return &ex{oid: Bool, f: func(e *env) Value {
			v := arr.f(e)
			if v == nil {
				return nil
			}
			return quantify(n.op, v.([]Value), func(x Value) Value { cur = x; return cmp.f(e) })
		}}
	case "exists":
		q := c.query(n.sel, sc)
		return &ex{oid: Bool, name: "exists", f: func(e *env) Value { return len(q.run(e)) > 0 }}
	case "sub":
		q := c.query(n.sel, sc)
		if len(q.cols) != 1 {
			sqlError("42601", "subquery must return only one column")
		}
		return &ex{oid: q.cols[0].OID, name: q.cols[0].Name, f: func(e *env) Value {
			rows := q.run(e)
			switch len(rows) {
			case 0:
				return nil
			case 1:
				return rows[0][0]
			}
			sqlError("21000", "more than one row returned by a subquery used as an expression")
			return nil
		}}
	case "arraysub":
		q := c.query(n.sel, sc)
		if len(q.cols) != 1 {
			sqlError("42601", "subquery must return only one column")
		}
		return &ex{oid: arrayOf(q.cols[0].OID), name: "array", f: func(e *env) Value {
			out := []Value{}
			for _, r := range q.run(e) {
				out = append(out, r[0])
			}
			return out
		}}
	case "array":
		ks := c.kids(n, sc)
		if len(ks) == 0 {
			unsupported("empty ARRAY[]")
		}
		o := uint32(Unknown)
		for _, k := range ks {
			if k.oid != Unknown {
				o = k.oid
			}
		}
		if o == Unknown {
			o = Text
		}
		for i := range ks {
			ks[i] = c.coerce(ks[i], o)
		}
		return &ex{oid: arrayOf(o), name: "array", f: func(e *env) Value {
			out := []Value{}
			for _, k := range ks {
				out = append(out, k.f(e))
			}
			return out
		}}
	case "index":
		k := c.kids(n, sc)
		el, ok := elemOf(k[0].oid)
		if !ok {
			sqlError("42804", "cannot subscript type %d", k[0].oid)
		}
		base := int64(1)
		if k[0].oid == Int2Vector || k[0].oid == OidVector {
			base = 0
		}
		return &ex{oid: el, name: k[0].name, f: func(e *env) Value {
			a, i := k[0].f(e), k[1].f(e)
			if a == nil || i == nil {
				return nil
			}
			j := i.(int64) - base
			if j < 0 || j >= int64(len(a.([]Value))) {
				return nil
			}
			return a.([]Value)[j]
		}}
	case "cast":
		return c.cast(n, sc)
	case "case":
		return c.caseOf(n, sc)
	case "call":
		return c.call(n, sc)
	}
	unsupported("expression %s", n.op)
	return nil
}

func quantify(op string, vs []Value, f func(Value) Value) Value {
	null := false
	for _, v := range vs {
		switch f(v) {
		case true:
			if op == "any" {
				return true
			}
		case false:
			if op == "all" {
				return false
			}
		default:
			null = true
		}
	}
	if null {
		return nil
	}
	return op == "all"
}

// rowEqual compares two rows column by column.
func (c *compiler) rowEqual(a, b *node, sc *scope) func(*env) Value {
	if a.op != "row" || b.op != "row" {
		unsupported("comparison of a row and something else")
	}
	if len(a.kids) != len(b.kids) {
		sqlError("42601", "unequal number of entries in row expressions")
	}
	var cmps []*ex
	for i := range a.kids {
		cmps = append(cmps, c.binary("=", c.expr(a.kids[i], sc), c.expr(b.kids[i], sc)))
	}
	return func(e *env) Value {
		var res Value = true
		for _, x := range cmps {
			switch x.f(e) {
			case false:
				return false
			case nil:
				res = nil
			}
		}
		return res
	}
}

func (c *compiler) rowIn(n *node, sc *scope) *ex {
	if n.sel == nil {
		var eqs []func(*env) Value
		for _, k := range n.kids[1:] {
			eqs = append(eqs, c.rowEqual(n.kids[0], k, sc))
		}
		return &ex{oid: Bool, f: func(e *env) Value {
			null := false
			for _, x := range eqs {
				switch x(e) {
				case true:
					return !n.neg
				case nil:
					null = true
				}
			}
			if null {
				return nil
			}
			return n.neg
		}}
	}
	var ls []*ex
	for _, k := range n.kids[0].kids {
		ls = append(ls, c.expr(k, sc))
	}
	q := c.query(n.sel, sc)
	if len(q.cols) != len(ls) {
		sqlError("42601", "subquery has the wrong number of columns")
	}
	var cur []Value
	var cmps []*ex
	for i := range ls {
		i := i
		cmps = append(cmps, c.binary("=", ls[i], &ex{oid: q.cols[i].OID, f: func(*env) Value { return cur[i] }}))
	}
	return &ex{oid: Bool, f: func(e *env) Value {
		null := false
		for _, r := range q.run(e) {
			cur = r
			var res Value = true
			for _, x := range cmps {
				v := x.f(e)
				if v == false {
					res = false
					break
				}
				if v == nil {
					res = nil
				}
			}
			if res == true {
				return !n.neg
			}
			if res == nil {
				null = true
			}
		}
		if null {
			return nil
		}
		return n.neg
	}}
}

func (c *compiler) quant(n *node, op string, l *ex, q *query, neg bool) *ex {
	if len(q.cols) != 1 {
		sqlError("42601", "subquery has too many columns")
	}
	var cur Value
	cmp := c.binary(op, l, &ex{oid: q.cols[0].OID, f: func(*env) Value { return cur }})
	kind := n.op
	if kind == "in" {
		kind = "any"
	}
	return &ex{oid: Bool, f: func(e *env) Value {
		var vs []Value
		for _, r := range q.run(e) {
			vs = append(vs, r[0])
		}
		return not(quantify(kind, vs, func(x Value) Value { cur = x; return cmp.f(e) }), neg)
	}}
}

func (c *compiler) cast(n *node, sc *scope) *ex {
	k := c.kids(n, sc)[0]
	o := c.castType(n.typ, n.arr)
	name := k.name
	if name == "" {
		name = strings.Trim(n.typ, "\"")
	}
	if k.par > 0 && c.params[k.par] == Unknown {
		x := c.coerce(k, o)
		return &ex{oid: o, name: name, f: x.f}
	}
	if k.lit {
		x := c.coerce(k, o)
		return &ex{oid: o, name: name, f: x.f}
	}
	from := k.oid
	switch {
	case from == o:
		return &ex{oid: o, name: name, f: k.f}
	case integral(from) && integral(o):
		return &ex{oid: o, name: name, f: k.f}
	case textual(o):
		return &ex{oid: o, name: name, f: func(e *env) Value {
			v := k.f(e)
			if v == nil {
				return nil
			}
			s := c.toText(v, from)
			if o == Name {
				return cut63(s)
			}
			if o == Char && len(s) > 1 {
				return s[:1]
			}
			return s
		}}
	case textual(from) && (integral(o) || o == Bool):
		return &ex{oid: o, name: name, f: func(e *env) Value {
			v := k.f(e)
			if v == nil {
				return nil
			}
			return c.db.in(v.(string), o)
		}}
	case from == Bool && o == Int4:
		return &ex{oid: o, name: name, f: func(e *env) Value {
			v := k.f(e)
			if v == nil {
				return nil
			}
			if v.(bool) {
				return int64(1)
			}
			return int64(0)
		}}
	case o == Bool && from == Int4:
		return &ex{oid: o, name: name, f: func(e *env) Value {
			v := k.f(e)
			if v == nil {
				return nil
			}
			return v.(int64) != 0
		}}
	}
	ef, ok1 := elemOf(from)
	eo, ok2 := elemOf(o)
	if ok1 && ok2 && (textual(eo) || integral(ef) && integral(eo)) {
		return &ex{oid: o, name: name, f: func(e *env) Value {
			v := k.f(e)
			if v == nil {
				return nil
			}
			out := []Value{}
			for _, x := range v.([]Value) {
				if x != nil && textual(eo) {
					x = c.toText(x, ef)
				}
				out = append(out, x)
			}
			return out
		}}
	}
	unsupported("cast from %d to %d", from, o)
	return nil
}

func (c *compiler) caseOf(n *node, sc *scope) *ex {
	ks := n.kids
	var operand *ex
	if n.neg {
		operand = c.expr(ks[0], sc)
		ks = ks[1:]
	}
	var els *ex
	if n.val == "else" {
		els = c.expr(ks[len(ks)-1], sc)
		ks = ks[:len(ks)-1]
	}
	var conds, vals []*ex
	for i := 0; i+1 < len(ks); i += 2 {
		if operand != nil {
			conds = append(conds, c.binary("=", operand, c.expr(ks[i], sc)))
		} else {
			conds = append(conds, c.boolean(ks[i], sc))
		}
		vals = append(vals, c.expr(ks[i+1], sc))
	}
	all := append([]*ex(nil), vals...)
	if els != nil {
		all = append(all, els)
	}
	o := c.common(all)
	for i := range vals {
		vals[i] = c.coerce(vals[i], o)
	}
	if els != nil {
		els = c.coerce(els, o)
	}
	return &ex{oid: o, name: "case", f: func(e *env) Value {
		for i, x := range conds {
			if x.f(e) == true {
				return vals[i].f(e)
			}
		}
		if els != nil {
			return els.f(e)
		}
		return nil
	}}
}

// common is the type several alternatives share.
func (c *compiler) common(xs []*ex) uint32 {
	o := uint32(Unknown)
	for _, x := range xs {
		if x.lit || x.par > 0 && c.params[x.par] == Unknown {
			continue
		}
		switch {
		case o == Unknown || o == x.oid:
			o = x.oid
		case textual(o) && textual(x.oid):
			o = Text
		case integral(o) && integral(x.oid):
			if x.oid == Int8 || o == Int2 {
				o = x.oid
			}
		default:
			sqlError("42804", "types %d and %d cannot be matched", o, x.oid)
		}
	}
	if o == Unknown {
		o = Text
	}
	return o
}

func (c *compiler) aggregate(n *node, sc *scope) *ex {
	name := n.name[0]
	if !sc.agg {
		sqlError("42803", "aggregate functions are not allowed here")
	}
	sc.sawAgg = true
	sc.agg = false
	defer func() { sc.agg = true }()
	var args []*ex
	for _, k := range n.kids {
		args = append(args, c.expr(k, sc))
	}
	var order []*ex
	for _, o := range n.order {
		order = append(order, c.expr(o.e, sc))
	}
	var filter *ex
	if n.filter != nil {
		filter = c.coerce(c.expr(n.filter, sc), Bool)
	}
	collect := func(e *env) [][]Value {
		var rows, keys [][]Value
		seen := map[string]bool{}
		for _, r := range e.group {
			sub := &env{row: r, outer: e.outer}
			if filter != nil && filter.f(sub) != true {
				continue
			}
			var row, k []Value
			for _, a := range args {
				row = append(row, a.f(sub))
			}
			if n.dist {
				ks := key(row[:1])
				if seen[ks] {
					continue
				}
				seen[ks] = true
			}
			for _, o := range order {
				k = append(k, o.f(sub))
			}
			rows = append(rows, row)
			keys = append(keys, k)
		}
		if len(order) > 0 {
			sortRows(rows, keys, n.order)
		}
		return rows
	}
	if name != "count" && len(args) == 0 {
		sqlError("42883", "function %s() does not exist", name)
	}
	switch name {
	case "count":
		return &ex{oid: Int8, name: name, f: func(e *env) Value {
			if n.val == "*" {
				return int64(len(collect(e)))
			}
			k := int64(0)
			for _, r := range collect(e) {
				if r[0] != nil {
					k++
				}
			}
			return k
		}}
	case "min", "max":
		args[0] = c.coerce(args[0], Text)
		return &ex{oid: args[0].oid, name: name, f: func(e *env) Value {
			var best Value
			for _, r := range collect(e) {
				if r[0] != nil && (best == nil || (compare(r[0], best) < 0) == (name == "min")) {
					best = r[0]
				}
			}
			return best
		}}
	case "bool_or", "bool_and", "every":
		return &ex{oid: Bool, name: name, f: func(e *env) Value {
			var acc Value
			for _, r := range collect(e) {
				if r[0] == nil {
					continue
				}
				if acc == nil {
					acc = r[0]
				} else if name == "bool_or" {
					acc = acc.(bool) || r[0].(bool)
				} else {
					acc = acc.(bool) && r[0].(bool)
				}
			}
			return acc
		}}
	case "array_agg":
		args[0] = c.coerce(args[0], Text)
		return &ex{oid: arrayOf(args[0].oid), name: name, f: func(e *env) Value {
			rows := collect(e)
			if len(rows) == 0 {
				return nil
			}
			out := []Value{}
			for _, r := range rows {
				out = append(out, r[0])
			}
			return out
		}}
	case "string_agg":
		if len(args) != 2 {
			sqlError("42883", "function string_agg does not exist")
		}
		args[0], args[1] = c.coerce(args[0], Text), c.coerce(args[1], Text)
		return &ex{oid: Text, name: name, f: func(e *env) Value {
			var b strings.Builder
			any := false
			for _, r := range collect(e) {
				if r[0] == nil {
					continue
				}
				if any && r[1] != nil {
					b.WriteString(r[1].(string))
				}
				any = true
				b.WriteString(r[0].(string))
			}
			if !any {
				return nil
			}
			return b.String()
		}}
	}
	unsupported("aggregate %s", name)
	return nil
}

func (c *compiler) call(n *node, sc *scope) *ex {
	name := n.name[0]
	switch name {
	case "count", "min", "max", "array_agg", "string_agg", "bool_or", "bool_and", "every":
		return c.aggregate(n, sc)
	case "sum", "avg", "json_agg", "jsonb_agg", "json_object_agg", "row_number", "rank":
		unsupported("function %s", name)
	}
	if n.dist || n.order != nil || n.val == "*" || n.filter != nil {
		sqlError("42809", "%s is not an aggregate function", name)
	}
	args := c.kids(n, sc)
	null := func(f func(e *env, v []Value) Value) func(*env) Value {
		return func(e *env) Value {
			var vs []Value
			for _, a := range args {
				v := a.f(e)
				if v == nil {
					return nil
				}
				vs = append(vs, v)
			}
			return f(e, vs)
		}
	}
	want := func(lo, hi int) {
		if len(args) < lo || len(args) > hi {
			sqlError("42883", "function %s with %d arguments does not exist", name, len(args))
		}
	}
	texts := func() {
		for i := range args {
			args[i] = c.text(args[i])
		}
	}
	switch name {
	case "unnest":
		want(1, 1)
		el, ok := elemOf(args[0].oid)
		if !ok {
			sqlError("42883", "function unnest does not exist for type %d", args[0].oid)
		}
		return &ex{oid: el, name: name, srf: func(e *env) []Value {
			v := args[0].f(e)
			if v == nil {
				return nil
			}
			return v.([]Value)
		}}
	case "coalesce":
		o := c.common(args)
		for i := range args {
			args[i] = c.coerce(args[i], o)
		}
		return &ex{oid: o, name: name, f: func(e *env) Value {
			for _, a := range args {
				if v := a.f(e); v != nil {
					return v
				}
			}
			return nil
		}}
	case "nullif":
		want(2, 2)
		a, b := c.unify(args[0], args[1], "=")
		return &ex{oid: a.oid, name: name, f: func(e *env) Value {
			x, y := a.f(e), b.f(e)
			if x != nil && y != nil && compare(x, y) == 0 {
				return nil
			}
			return x
		}}
	case "greatest", "least":
		o := c.common(args)
		for i := range args {
			args[i] = c.coerce(args[i], o)
		}
		return &ex{oid: o, name: name, f: func(e *env) Value {
			var best Value
			for _, a := range args {
				if v := a.f(e); v != nil && (best == nil || (compare(v, best) > 0) == (name == "greatest")) {
					best = v
				}
			}
			return best
		}}
	case "lower", "upper", "length", "char_length", "quote_ident", "quote_literal", "btrim", "ltrim", "rtrim":
		want(1, 1+btoi(strings.HasSuffix(name, "trim")))
		texts()
		o := uint32(Text)
		if name == "length" || name == "char_length" {
			o = Int4
		}
		return &ex{oid: o, name: name, f: null(func(_ *env, v []Value) Value {
			s := v[0].(string)
			switch name {
			case "lower":
				return strings.ToLower(s)
			case "upper":
				return strings.ToUpper(s)
			case "length", "char_length":
				return int64(len([]rune(s)))
			case "quote_ident":
				return QuoteIdent(s)
			case "quote_literal":
				if strings.Contains(s, `\`) {
					return " E'" + strings.NewReplacer(`\`, `\\`, "'", "''").Replace(s) + "'"
				}
				return "'" + strings.Replace(s, "'", "''", -1) + "'"
			}
			set := " "
			if len(v) > 1 {
				set = v[1].(string)
			}
			switch name {
			case "btrim":
				return strings.Trim(s, set)
			case "ltrim":
				return strings.TrimLeft(s, set)
			}
			return strings.TrimRight(s, set)
		})}
	case "starts_with":
		want(2, 2)
		texts()
		return &ex{oid: Bool, name: name, f: null(func(_ *env, v []Value) Value {
			return strings.HasPrefix(v[0].(string), v[1].(string))
		})}
	case "strpos", "position":
		want(2, 2)
		texts()
		return &ex{oid: Int4, name: name, f: null(func(_ *env, v []Value) Value {
			s, sub := v[0].(string), v[1].(string)
			if name == "position" {
				s, sub = sub, s
			}
			i := strings.Index(s, sub)
			if i < 0 {
				return int64(0)
			}
			return int64(len([]rune(s[:i])) + 1)
		})}
	case "left", "substr", "substring":
		want(2, 3)
		args[0] = c.text(args[0])
		for i := range args[1:] {
			args[i+1] = c.coerce(args[i+1], Int4)
			if args[i+1].oid != Int4 {
				unsupported("substring pattern")
			}
		}
		return &ex{oid: Text, name: name, f: null(func(_ *env, v []Value) Value {
			r := []rune(v[0].(string))
			lo, hi := v[1].(int64)-1, int64(len(r))
			if name == "left" {
				lo, hi = 0, v[1].(int64)
				if hi < 0 {
					hi += int64(len(r))
				}
			} else if len(v) == 3 {
				hi = lo + v[2].(int64)
			}
			if lo < 0 {
				lo = 0
			}
			if hi > int64(len(r)) {
				hi = int64(len(r))
			}
			if lo >= hi {
				return ""
			}
			return string(r[lo:hi])
		})}
	case "replace":
		want(3, 3)
		texts()
		return &ex{oid: Text, name: name, f: null(func(_ *env, v []Value) Value {
			if v[1].(string) == "" {
				return v[0]
			}
			return strings.Replace(v[0].(string), v[1].(string), v[2].(string), -1)
		})}
	case "regexp_replace":
		want(3, 4)
		texts()
		return &ex{oid: Text, name: name, f: null(func(_ *env, v []Value) Value {
			s, pat, rep, all := v[0].(string), v[1].(string), v[2].(string), false
			if len(v) > 3 {
				for _, ch := range v[3].(string) {
					switch ch {
					case 'g':
						all = true
					case 'i':
						pat = "(?i)" + pat
					default:
						unsupported("flags %s", v[3])
					}
				}
			}
			re := compileRegexp(strings.TrimPrefix(pat, "(?i)"))
			if strings.HasPrefix(pat, "(?i)") {
				re = regexp.MustCompile("(?is)" + strings.TrimPrefix(pat, "(?i)"))
			}
			rep = strings.Replace(rep, "$", "$$", -1)
			rep = strings.Replace(rep, `\\`, "\x00", -1)
			rep = regexp.MustCompile(`\\([0-9])`).ReplaceAllString(rep, "$${$1}")
			rep = strings.Replace(strings.Replace(rep, `\&`, "${0}", -1), "\x00", `\`, -1)
			if all {
				return re.ReplaceAllString(s, rep)
			}
			at := re.FindStringSubmatchIndex(s)
			if at == nil {
				return s
			}
			return s[:at[0]] + string(re.ExpandString(nil, rep, s, at)) + s[at[1]:]
		})}
	case "array_position":
		want(2, 2)
		el, ok := elemOf(args[0].oid)
		if !ok {
			sqlError("42883", "function array_position does not exist for type %d", args[0].oid)
		}
		args[1] = c.coerce(args[1], el)
		return &ex{oid: Int4, name: name, f: func(e *env) Value {
			a := args[0].f(e)
			if a == nil {
				return nil
			}
			x := args[1].f(e)
			for i, y := range a.([]Value) {
				if x == nil && y == nil || x != nil && y != nil && compare(x, y) == 0 {
					return int64(i + 1)
				}
			}
			return nil
		}}
	case "split_part":
		want(3, 3)
		args[0], args[1] = c.text(args[0]), c.text(args[1])
		args[2] = c.coerce(args[2], Int4)
		return &ex{oid: Text, name: name, f: null(func(_ *env, v []Value) Value {
			parts := strings.Split(v[0].(string), v[1].(string))
			i := v[2].(int64)
			if i < 1 || i > int64(len(parts)) {
				return ""
			}
			return parts[i-1]
		})}
	case "concat":
		return &ex{oid: Text, name: name, f: func(e *env) Value {
			s := ""
			for _, a := range args {
				if v := a.f(e); v != nil {
					s += c.toText(v, a.oid)
				}
			}
			return s
		}}
	case "array_to_string":
		want(2, 3)
		if _, ok := elemOf(args[0].oid); !ok {
			sqlError("42883", "function array_to_string does not exist")
		}
		for i := range args[1:] {
			args[i+1] = c.text(args[i+1])
		}
		el, _ := elemOf(args[0].oid)
		return &ex{oid: Text, name: name, f: func(e *env) Value {
			a, sep := args[0].f(e), args[1].f(e)
			if a == nil || sep == nil {
				return nil
			}
			var parts []string
			for _, v := range a.([]Value) {
				if v != nil {
					parts = append(parts, c.toText(v, el))
				} else if len(args) == 3 {
					if d := args[2].f(e); d != nil {
						parts = append(parts, d.(string))
					}
				}
			}
			return strings.Join(parts, sep.(string))
		}}
	case "array_length", "cardinality", "array_upper":
		return &ex{oid: Int4, name: name, f: null(func(_ *env, v []Value) Value {
			n := int64(len(v[0].([]Value)))
			if n == 0 && name != "cardinality" {
				return nil
			}
			return n
		})}
	}
	var oids []uint32
	for _, a := range args {
		oids = append(oids, a.oid)
	}
	o, ok := c.db.FuncType(name, oids)
	if !ok {
		unsupported("function %s of %v", name, oids)
	}
	return &ex{oid: o, name: name, f: func(e *env) Value {
		var vs []Value
		for _, a := range args {
			vs = append(vs, a.f(e))
		}
		v, err := c.db.Func(name, vs, oids)
		if err != nil {
			panic(err)
		}
		return v
	}}
}

func btoi(b bool) int {
	if b {
		return 1
	}
	return 0
}

// QuoteIdent quotes a name if the server would.
func QuoteIdent(s string) string {
	plain := s != "" && !(s[0] >= '0' && s[0] <= '9')
	for i := 0; i < len(s); i++ {
		ch := s[i]
		if !(ch == '_' || ch >= 'a' && ch <= 'z' || ch >= '0' && ch <= '9') {
			plain = false
		}
	}
	if plain && !reserved[s] {
		return s
	}
	return `"` + strings.Replace(s, `"`, `""`, -1) + `"`
}
