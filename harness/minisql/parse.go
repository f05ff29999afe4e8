//go:build go1.23

// Package minisql evaluates the part of PostgreSQL's SELECT that programs use
// to read the system catalogs, over tables held in memory.  Statements outside
// that part make it panic with Unsupported, never answer wrongly.
package minisql

import (
	"fmt"
	"strings"
	"unicode/utf8"
)

// Unsupported is the panic value for statements this package can't judge.
type Unsupported struct{ Msg string }

func unsupported(format string, args ...interface{}) {
	panic(&Unsupported{fmt.Sprintf(format, args...)})
}

// Error is an error the server would report.
type Error struct{ Code, Msg string }

func sqlError(code, format string, args ...interface{}) {
	panic(&Error{code, fmt.Sprintf(format, args...)})
}

type tok struct {
	k byte // i identifier, q quoted identifier, s string, n number, p parameter, o operator or punctuation, 0 end
	v string
}

func lex(s string) []tok {
	var out []tok
	i := 0
	for i < len(s) {
		ch := s[i]
		switch {
		case ch == ' ' || ch == '\n' || ch == '\t' || ch == '\r' || ch == '\f' || ch == '\v':
			i++
		case strings.HasPrefix(s[i:], "--"):
			for i < len(s) && s[i] != '\n' {
				i++
			}
		case strings.HasPrefix(s[i:], "/*"):
			depth := 0
			for i < len(s) {
				if strings.HasPrefix(s[i:], "/*") {
					depth++
					i += 2
				} else if strings.HasPrefix(s[i:], "*/") {
					depth--
					i += 2
					if depth == 0 {
						break
					}
				} else {
					i++
				}
			}
			if depth != 0 {
				sqlError("42601", "unterminated comment")
			}
		case ch == '"':
			var b strings.Builder
			i++
			for {
				if i >= len(s) {
					sqlError("42601", "unterminated quoted identifier")
				}
				if s[i] == '"' {
					if i+1 < len(s) && s[i+1] == '"' {
						b.WriteByte('"')
						i += 2
						continue
					}
					i++
					break
				}
				b.WriteByte(s[i])
				i++
			}
			if b.Len() == 0 {
				sqlError("42601", "zero-length delimited identifier")
			}
			out = append(out, tok{'q', cut63(b.String())})
		case ch == '\'' || ((ch == 'e' || ch == 'E') && i+1 < len(s) && s[i+1] == '\''):
			esc := ch != '\''
			if esc {
				i++
			}
			i++
			var b strings.Builder
			for {
				if i >= len(s) {
					sqlError("42601", "unterminated quoted string")
				}
				if s[i] == '\'' {
					if i+1 < len(s) && s[i+1] == '\'' {
						b.WriteByte('\'')
						i += 2
						continue
					}
					i++
					break
				}
				if esc && s[i] == '\\' {
					if i+1 >= len(s) {
						sqlError("42601", "unterminated quoted string")
					}
					switch s[i+1] {
					case 'n':
						b.WriteByte('\n')
					case 't':
						b.WriteByte('\t')
					case '\\', '\'':
						b.WriteByte(s[i+1])
					default:
						unsupported("escape \\%c", s[i+1])
					}
					i += 2
					continue
				}
				b.WriteByte(s[i])
				i++
			}
			out = append(out, tok{'s', b.String()})
		case ch == '$' && i+1 < len(s) && s[i+1] >= '0' && s[i+1] <= '9':
			j := i + 1
			for j < len(s) && s[j] >= '0' && s[j] <= '9' {
				j++
			}
			out = append(out, tok{'p', s[i+1 : j]})
			i = j
		case ch == '$':
			j := i + 1
			for j < len(s) && identPart(s[j]) && s[j] != '$' {
				j++
			}
			if j >= len(s) || s[j] != '$' {
				sqlError("42601", "syntax error at $")
			}
			tag := s[i : j+1]
			e := strings.Index(s[j+1:], tag)
			if e < 0 {
				sqlError("42601", "unterminated dollar-quoted string")
			}
			out = append(out, tok{'s', s[j+1 : j+1+e]})
			i = j + 1 + e + len(tag)
		case ch >= '0' && ch <= '9':
			j := i
			for j < len(s) && s[j] >= '0' && s[j] <= '9' {
				j++
			}
			if j < len(s) && (s[j] == '.' || s[j] == 'e' || s[j] == 'E') {
				unsupported("non-integer number")
			}
			out = append(out, tok{'n', s[i:j]})
			i = j
		case ch == '_' || ch >= 0x80 || ch >= 'a' && ch <= 'z' || ch >= 'A' && ch <= 'Z':
			j := i
			for j < len(s) && identPart(s[j]) {
				j++
			}
			out = append(out, tok{'i', cut63(asciiLower(s[i:j]))})
			i = j
		case strings.HasPrefix(s[i:], "::"):
			out = append(out, tok{'o', "::"})
			i += 2
		case strings.IndexByte("(),.;[]:", ch) >= 0:
			out = append(out, tok{'o', s[i : i+1]})
			i++
		case strings.IndexByte("+-*/<>=~!@#%^&|`?", ch) >= 0:
			j := i
			for j < len(s) && strings.IndexByte("+-*/<>=~!@#%^&|`?", s[j]) >= 0 {
				if j > i && (strings.HasPrefix(s[j:], "--") || strings.HasPrefix(s[j:], "/*")) {
					break
				}
				j++
			}
			op := s[i:j]
			for len(op) > 1 && (op[len(op)-1] == '+' || op[len(op)-1] == '-') && strings.IndexAny(op, "~!@#%^&|`?") < 0 {
				op = op[:len(op)-1]
			}
			if op == "!=" {
				out = append(out, tok{'o', "<>"})
			} else {
				out = append(out, tok{'o', op})
			}
			i += len(op)
		default:
			sqlError("42601", "syntax error at or near %q", ch)
		}
	}
	return append(out, tok{})
}

func identPart(c byte) bool {
	return c == '_' || c == '$' || c >= 0x80 || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9'
}

func asciiLower(s string) string {
	b := []byte(s)
	for i, c := range b {
		if c >= 'A' && c <= 'Z' {
			b[i] = c + 32
		}
	}
	return string(b)
}

// cut63 truncates a name the way the server does.
func cut63(s string) string {
	if len(s) <= 63 {
		return s
	}
	n := 63
	for n > 0 && !utf8.RuneStart(s[n]) {
		n--
	}
	return s[:n]
}

// ---------------------------------------------------------------- syntax tree

type node struct {
	op     string // col, str, num, null, bool, param, call, cast, bin, un, and, or, not, isnull, istrue, in, insub, exists, sub, case, any, array, arraysub, star, index, between, row
	name   []string
	val    string
	kids   []*node
	neg    bool
	sel    *sel
	typ    string
	arr    bool
	dist   bool
	order  []orderItem
	filter *node
}

type outItem struct {
	e     *node
	alias string
	star  bool
	table string
}

type orderItem struct {
	e          *node
	desc       bool
	nullsFirst bool
}

type fromItem struct {
	join    string // "" cross, inner, left, right, full
	comma   bool
	name    []string
	sub     *sel
	fn      *node
	group   []*fromItem
	alias   string
	colAs   []string
	lateral bool
	on      *node
	using   []string
}

type sel struct {
	with     []cte
	distinct bool
	distOn   []*node
	out      []outItem
	from     []*fromItem
	where    *node
	group    []*node
	having   *node
	order    []orderItem
	limit    *node
	offset   *node
	setop    string // union, union all, intersect, except
	left     *sel
	right    *sel
	show     string
	values   [][]*node
}

type cte struct {
	name string
	cols []string
	q    *sel
}

type parser struct {
	t []tok
	i int
}

func (p *parser) peek() tok { return p.t[p.i] }
func (p *parser) next() tok { t := p.t[p.i]; p.i++; return t }
func (p *parser) at(n int) tok {
	if p.i+n < len(p.t) {
		return p.t[p.i+n]
	}
	return tok{}
}
func (p *parser) kw(words ...string) bool {
	for n, w := range words {
		if t := p.at(n); t.k != 'i' || t.v != w {
			return false
		}
	}
	return true
}
func (p *parser) takeKw(words ...string) bool {
	if p.kw(words...) {
		p.i += len(words)
		return true
	}
	return false
}
func (p *parser) op(v string) bool { t := p.peek(); return t.k == 'o' && t.v == v }
func (p *parser) takeOp(v string) bool {
	if p.op(v) {
		p.i++
		return true
	}
	return false
}
func (p *parser) wantOp(v string) {
	if !p.takeOp(v) {
		p.syntax()
	}
}
func (p *parser) wantKw(w string) {
	if !p.takeKw(w) {
		p.syntax()
	}
}
func (p *parser) syntax() {
	t := p.peek()
	if t.k == 0 {
		sqlError("42601", "syntax error at end of input")
	}
	sqlError("42601", "syntax error at or near %q", t.v)
}

// reserved words that can't be a column name or bare alias here
var reserved = map[string]bool{
	"all": true, "and": true, "any": true, "array": true, "as": true, "asc": true, "both": true, "case": true, "cast": true,
	"check": true, "column": true, "constraint": true, "create": true, "default": true, "desc": true, "distinct": true, "do": true,
	"else": true, "end": true, "except": true, "false": true, "fetch": true, "for": true, "foreign": true, "from": true, "grant": true,
	"group": true, "having": true, "in": true, "initially": true, "intersect": true, "into": true, "lateral": true, "leading": true,
	"limit": true, "not": true, "null": true, "offset": true, "on": true, "only": true, "or": true, "order": true, "primary": true,
	"references": true, "returning": true, "select": true, "some": true, "symmetric": true, "table": true, "then": true, "to": true,
	"trailing": true, "true": true, "union": true, "unique": true, "user": true, "using": true, "when": true, "where": true, "window": true, "with": true,
	// reserved as function or type names only, but not usable as aliases or columns
	"join": true, "left": true, "right": true, "full": true, "inner": true, "outer": true, "cross": true, "natural": true,
	"is": true, "isnull": true, "notnull": true, "like": true, "ilike": true, "similar": true, "collate": true, "overlaps": true, "verbose": true, "tablesample": true, "freeze": true, "binary": true,
}

func (p *parser) ident() string {
	t := p.next()
	if t.k == 'q' || t.k == 'i' && !reserved[t.v] {
		return t.v
	}
	p.i--
	p.syntax()
	return ""
}

func parseStatement(sql string) *sel {
	p := &parser{t: lex(sql)}
	if p.peek().k == 0 || p.op(";") && p.at(1).k == 0 {
		unsupported("empty statement")
	}
	var s *sel
	if p.takeKw("show") {
		var name string
		if p.takeKw("time", "zone") {
			name = "timezone"
		} else {
			name = asciiLower(p.next().v)
			if p.takeOp(".") {
				name += "." + asciiLower(p.next().v)
			}
		}
		s = &sel{show: name}
	} else if p.kw("select") || p.kw("with") || p.op("(") || p.kw("values") {
		s = p.query()
	} else {
		t := p.peek()
		switch t.v {
		case "insert", "update", "delete", "create", "drop", "alter", "truncate", "do", "set", "begin", "commit", "rollback", "table", "explain", "grant", "revoke", "comment", "start", "lock", "copy", "prepare", "execute", "declare", "fetch", "reset", "discard", "analyze", "vacuum":
			unsupported("statement %s", t.v)
		}
		p.syntax()
	}
	for p.takeOp(";") {
	}
	if p.peek().k != 0 {
		if p.t[p.i-1].v == ";" {
			sqlError("42601", "cannot insert multiple commands into a prepared statement")
		}
		p.syntax()
	}
	return s
}

func (p *parser) query() *sel {
	var with []cte
	if p.takeKw("with") {
		if p.takeKw("recursive") {
			unsupported("recursive query")
		}
		for {
			c := cte{name: p.ident()}
			if p.takeOp("(") {
				for {
					c.cols = append(c.cols, p.ident())
					if !p.takeOp(",") {
						break
					}
				}
				p.wantOp(")")
			}
			p.wantKw("as")
			if p.takeKw("materialized") || p.takeKw("not", "materialized") {
			}
			p.wantOp("(")
			c.q = p.query()
			p.wantOp(")")
			with = append(with, c)
			if !p.takeOp(",") {
				break
			}
		}
	}
	s := p.setExpr()
	if p.takeKw("order") {
		p.wantKw("by")
		if s.order != nil || s.limit != nil {
			s = &sel{setop: "wrap", left: s}
		}
		s.order = p.orderBy()
	}
	for {
		if p.takeKw("limit") {
			if p.takeKw("all") {
				continue
			}
			s.limit = p.expr()
		} else if p.takeKw("offset") {
			s.offset = p.expr()
			if !p.takeKw("rows") {
				p.takeKw("row")
			}
		} else if p.takeKw("fetch") {
			if !p.takeKw("first") {
				p.wantKw("next")
			}
			if p.kw("row") || p.kw("rows") {
				s.limit = &node{op: "num", val: "1"}
			} else {
				s.limit = p.expr()
			}
			if !p.takeKw("rows") {
				p.wantKw("row")
			}
			p.wantKw("only")
		} else {
			break
		}
	}
	if p.kw("for") {
		unsupported("locking clause")
	}
	s.with = append(with, s.with...)
	return s
}

func (p *parser) orderBy() []orderItem {
	var out []orderItem
	for {
		it := orderItem{e: p.expr()}
		if p.takeKw("desc") {
			it.desc = true
		} else {
			p.takeKw("asc")
		}
		it.nullsFirst = it.desc
		if p.takeKw("nulls", "first") {
			it.nullsFirst = true
		} else if p.takeKw("nulls", "last") {
			it.nullsFirst = false
		}
		if p.kw("using") {
			unsupported("ORDER BY USING")
		}
		out = append(out, it)
		if !p.takeOp(",") {
			return out
		}
	}
}

func (p *parser) setExpr() *sel {
	l := p.setTerm()
	for {
		op := ""
		if p.takeKw("union") {
			op = "union"
		} else if p.takeKw("except") {
			op = "except"
		} else {
			return l
		}
		if p.takeKw("all") {
			op += " all"
		} else {
			p.takeKw("distinct")
		}
		l = &sel{setop: op, left: l, right: p.setTerm()}
	}
}

func (p *parser) setTerm() *sel {
	l := p.setPrimary()
	for p.takeKw("intersect") {
		op := "intersect"
		if p.takeKw("all") {
			op += " all"
		} else {
			p.takeKw("distinct")
		}
		l = &sel{setop: op, left: l, right: p.setPrimary()}
	}
	return l
}

func (p *parser) setPrimary() *sel {
	if p.takeOp("(") {
		s := p.query()
		p.wantOp(")")
		return &sel{setop: "wrap", left: s}
	}
	if p.takeKw("values") {
		s := &sel{}
		for {
			p.wantOp("(")
			var row []*node
			for {
				row = append(row, p.expr())
				if !p.takeOp(",") {
					break
				}
			}
			p.wantOp(")")
			s.values = append(s.values, row)
			if !p.takeOp(",") {
				return s
			}
		}
	}
	p.wantKw("select")
	s := &sel{}
	if p.takeKw("distinct") {
		s.distinct = true
		if p.takeKw("on") {
			p.wantOp("(")
			for {
				s.distOn = append(s.distOn, p.expr())
				if !p.takeOp(",") {
					break
				}
			}
			p.wantOp(")")
		}
	} else {
		p.takeKw("all")
	}
	if !p.kw("from") && p.peek().k != 0 && !p.op(")") {
		for {
			s.out = append(s.out, p.outItem())
			if !p.takeOp(",") {
				break
			}
		}
	}
	if p.takeKw("from") {
		s.from = p.fromList()
	}
	if p.takeKw("where") {
		s.where = p.expr()
	}
	if p.takeKw("group") {
		p.wantKw("by")
		for {
			s.group = append(s.group, p.expr())
			if !p.takeOp(",") {
				break
			}
		}
	}
	if p.takeKw("having") {
		s.having = p.expr()
	}
	if p.kw("window") {
		unsupported("window")
	}
	return s
}

func (p *parser) outItem() outItem {
	if p.takeOp("*") {
		return outItem{star: true}
	}
	if t := p.peek(); (t.k == 'q' || t.k == 'i' && !reserved[t.v]) && p.at(1).v == "." && p.at(1).k == 'o' && p.at(2).k == 'o' && p.at(2).v == "*" {
		p.i += 3
		return outItem{star: true, table: t.v}
	}
	it := outItem{e: p.expr()}
	if p.takeKw("as") {
		t := p.next() // any word is allowed here
		if t.k != 'i' && t.k != 'q' {
			p.i--
			p.syntax()
		}
		it.alias = t.v
	} else if t := p.peek(); t.k == 'q' || t.k == 'i' && !reserved[t.v] {
		it.alias = p.next().v
	}
	return it
}

func (p *parser) fromList() []*fromItem {
	var out []*fromItem
	for {
		first := p.fromPrimary()
		first.comma = len(out) > 0
		out = append(out, first)
		out = append(out, p.joins()...)
		if !p.takeOp(",") {
			return out
		}
	}
}

func (p *parser) joins() []*fromItem {
	var out []*fromItem
	for {
		j := ""
		switch {
		case p.takeKw("cross", "join"):
			it := p.fromPrimary()
			out = append(out, it)
			continue
		case p.takeKw("join"), p.takeKw("inner", "join"):
			j = "inner"
		case p.takeKw("left", "join"), p.takeKw("left", "outer", "join"):
			j = "left"
		case p.takeKw("right", "join"), p.takeKw("right", "outer", "join"):
			j = "right"
		case p.takeKw("full", "join"), p.takeKw("full", "outer", "join"):
			j = "full"
		case p.kw("natural"):
			unsupported("natural join")
		default:
			return out
		}
		it := p.fromPrimary()
		it.join = j
		if nested := p.nestedJoin(); nested != nil {
			it = &fromItem{join: j, group: append([]*fromItem{{name: it.name, sub: it.sub, fn: it.fn, group: it.group, alias: it.alias, colAs: it.colAs, lateral: it.lateral}}, nested...)}
		}
		if p.takeKw("on") {
			it.on = p.expr()
		} else if p.takeKw("using") {
			p.wantOp("(")
			for {
				it.using = append(it.using, p.ident())
				if !p.takeOp(",") {
					break
				}
			}
			p.wantOp(")")
		} else {
			p.syntax()
		}
		out = append(out, it)
	}
}

// nestedJoin handles "a JOIN b JOIN c ON .. ON ..".
func (p *parser) nestedJoin() []*fromItem {
	if p.kw("on") || p.kw("using") {
		return nil
	}
	if p.kw("join") || p.kw("inner") || p.kw("left") || p.kw("right") || p.kw("full") || p.kw("cross") {
		unsupported("nested join without parentheses")
	}
	return nil
}

func (p *parser) fromPrimary() *fromItem {
	it := &fromItem{}
	if p.takeKw("lateral") {
		it.lateral = true
	}
	if p.takeKw("only") {
	}
	if p.op("(") {
		if t := p.at(1); t.k == 'i' && (t.v == "select" || t.v == "with" || t.v == "values") {
			p.next()
			it.sub = p.query()
			p.wantOp(")")
		} else {
			p.next()
			if p.op("(") {
				unsupported("doubly nested parentheses in FROM")
			}
			it.group = p.fromList()
			p.wantOp(")")
		}
	} else if t := p.at(1); p.peek().k == 'i' && t.k == 'o' && t.v == "(" ||
		t.k == 'o' && t.v == "." && p.at(3).k == 'o' && p.at(3).v == "(" {
		it.fn = p.primary()
		it.lateral = true
		if p.kw("with", "ordinality") {
			unsupported("with ordinality")
		}
	} else {
		it.name = []string{p.ident()}
		for p.takeOp(".") {
			it.name = append(it.name, p.ident())
		}
		p.takeOp("*")
	}
	if p.takeKw("as") {
		it.alias = p.ident()
	} else if t := p.peek(); t.k == 'q' || t.k == 'i' && !reserved[t.v] {
		it.alias = p.ident()
	}
	if it.alias != "" && p.takeOp("(") {
		for {
			it.colAs = append(it.colAs, p.ident())
			if !p.takeOp(",") {
				break
			}
		}
		p.wantOp(")")
	}
	return it
}

func (p *parser) expr() *node { return p.or() }

func (p *parser) or() *node {
	l := p.and()
	for p.takeKw("or") {
		l = &node{op: "or", kids: []*node{l, p.and()}}
	}
	return l
}

func (p *parser) and() *node {
	l := p.not()
	for p.takeKw("and") {
		l = &node{op: "and", kids: []*node{l, p.not()}}
	}
	return l
}

func (p *parser) not() *node {
	if p.takeKw("not") {
		return &node{op: "not", kids: []*node{p.not()}}
	}
	return p.is()
}

func (p *parser) is() *node {
	l := p.compare()
	for {
		if p.takeKw("isnull") {
			l = &node{op: "isnull", kids: []*node{l}}
			continue
		}
		if p.takeKw("notnull") {
			l = &node{op: "isnull", kids: []*node{l}, neg: true}
			continue
		}
		if !p.takeKw("is") {
			return l
		}
		neg := p.takeKw("not")
		switch {
		case p.takeKw("null"):
			l = &node{op: "isnull", kids: []*node{l}, neg: neg}
		case p.takeKw("true"):
			l = &node{op: "istrue", val: "true", kids: []*node{l}, neg: neg}
		case p.takeKw("false"):
			l = &node{op: "istrue", val: "false", kids: []*node{l}, neg: neg}
		case p.takeKw("unknown"):
			l = &node{op: "isnull", kids: []*node{l}, neg: neg}
		case p.takeKw("distinct"):
			p.wantKw("from")
			l = &node{op: "distinct", kids: []*node{l, p.compare()}, neg: neg}
		default:
			p.syntax()
		}
	}
}

var compareOps = map[string]bool{"=": true, "<": true, ">": true, "<=": true, ">=": true, "<>": true}

func (p *parser) compare() *node {
	l := p.like()
	for p.peek().k == 'o' && compareOps[p.peek().v] {
		op := p.next().v
		if n := p.quantified(op, l); n != nil {
			l = n
			continue
		}
		l = &node{op: "bin", val: op, kids: []*node{l, p.like()}}
	}
	return l
}

// quantified parses ANY/ALL after an operator.
func (p *parser) quantified(op string, l *node) *node {
	if !(p.kw("any") || p.kw("all") || p.kw("some")) || !(p.at(1).k == 'o' && p.at(1).v == "(") {
		return nil
	}
	q := p.next().v
	if q == "some" {
		q = "any"
	}
	p.wantOp("(")
	n := &node{op: q, val: op, kids: []*node{l}}
	if p.kw("select") || p.kw("with") {
		n.sel = p.query()
	} else {
		n.kids = append(n.kids, p.expr())
	}
	p.wantOp(")")
	return n
}

func (p *parser) like() *node {
	l := p.other()
	for {
		save := p.i
		neg := p.takeKw("not")
		switch {
		case p.takeKw("like"):
			l = &node{op: "like", kids: []*node{l, p.other()}, neg: neg}
		case p.takeKw("ilike"):
			l = &node{op: "like", val: "i", kids: []*node{l, p.other()}, neg: neg}
		case p.takeKw("in"):
			p.wantOp("(")
			n := &node{op: "in", kids: []*node{l}, neg: neg}
			if p.kw("select") || p.kw("with") {
				n.sel = p.query()
			} else {
				for {
					n.kids = append(n.kids, p.expr())
					if !p.takeOp(",") {
						break
					}
				}
			}
			p.wantOp(")")
			l = n
		case p.takeKw("between"):
			if p.takeKw("symmetric") {
				unsupported("between symmetric")
			}
			a := p.other()
			p.wantKw("and")
			l = &node{op: "between", kids: []*node{l, a, p.other()}, neg: neg}
		case p.kw("similar"):
			unsupported("similar to")
		default:
			p.i = save
			return l
		}
	}
}

func (p *parser) other() *node {
	l := p.additive()
	for p.peek().k == 'o' {
		switch op := p.peek().v; op {
		case "||", "~", "!~", "~*", "!~*", "~~", "!~~", "@>", "<@", "&&", "&", "|", "<<", ">>":
			p.next()
			if n := p.quantified(op, l); n != nil {
				l = n
				continue
			}
			l = &node{op: "bin", val: op, kids: []*node{l, p.additive()}}
		default:
			if strings.IndexAny(op, "~!@#&|`?") >= 0 {
				unsupported("operator %s", op)
			}
			if op == "operator" {
				unsupported("operator()")
			}
			return l
		}
	}
	if p.kw("operator") && p.at(1).v == "(" {
		p.i += 2
		if p.takeKw("pg_catalog") {
			p.wantOp(".")
		}
		op := p.next().v
		p.wantOp(")")
		return &node{op: "bin", val: op, kids: []*node{l, p.additive()}}
	}
	return l
}

func (p *parser) additive() *node {
	l := p.multiplicative()
	for p.op("+") || p.op("-") {
		op := p.next().v
		l = &node{op: "bin", val: op, kids: []*node{l, p.multiplicative()}}
	}
	return l
}

func (p *parser) multiplicative() *node {
	l := p.unary()
	for p.op("*") || p.op("/") || p.op("%") {
		op := p.next().v
		l = &node{op: "bin", val: op, kids: []*node{l, p.unary()}}
	}
	return l
}

func (p *parser) unary() *node {
	if p.takeOp("-") {
		return &node{op: "neg", kids: []*node{p.unary()}}
	}
	if p.takeOp("+") {
		return p.unary()
	}
	return p.postfix()
}

func (p *parser) postfix() *node {
	n := p.primary()
	for {
		switch {
		case p.takeOp("::"):
			n = p.castTo(n)
		case p.takeOp("["):
			if p.op(":") {
				unsupported("array slice")
			}
			i := p.expr()
			if p.op(":") {
				unsupported("array slice")
			}
			p.wantOp("]")
			n = &node{op: "index", kids: []*node{n, i}}
		case p.takeKw("collate"):
			c := p.ident()
			if p.takeOp(".") {
				c = p.ident()
			}
			if c != "C" && c != "default" && c != "POSIX" {
				unsupported("collation %s", c)
			}
		default:
			return n
		}
	}
}

func (p *parser) castTo(n *node) *node {
	t := p.next()
	if t.k != 'i' && t.k != 'q' {
		p.i--
		p.syntax()
	}
	name := t.v
	if name == "pg_catalog" && p.takeOp(".") {
		t = p.next()
		name = t.v
	}
	if t.k == 'q' && name == "char" {
		name = "\"char\""
	}
	switch name {
	case "character":
		if p.takeKw("varying") {
			name = "varchar"
		} else {
			unsupported("type character")
		}
	case "double", "timestamp", "time", "interval", "bit":
		unsupported("type %s", name)
	}
	if p.op("(") {
		unsupported("type with modifier")
	}
	c := &node{op: "cast", typ: name, kids: []*node{n}}
	for p.takeOp("[") {
		p.wantOp("]")
		c.arr = true
	}
	return c
}

func (p *parser) primary() *node {
	t := p.next()
	switch t.k {
	case 's':
		v := t.v
		return &node{op: "str", val: v}
	case 'n':
		return &node{op: "num", val: t.v}
	case 'p':
		return &node{op: "param", val: t.v}
	case 'o':
		if t.v == "(" {
			if p.kw("select") || p.kw("with") || p.kw("values") {
				n := &node{op: "sub", sel: p.query()}
				p.wantOp(")")
				return n
			}
			n := p.expr()
			if p.takeOp(",") {
				n = &node{op: "row", kids: []*node{n, p.expr()}}
				for p.takeOp(",") {
					n.kids = append(n.kids, p.expr())
				}
			}
			p.wantOp(")")
			return n
		}
	case 'i':
		switch t.v {
		case "null":
			return &node{op: "null"}
		case "true", "false":
			return &node{op: "bool", val: t.v}
		case "exists":
			if p.op("(") {
				p.next()
				n := &node{op: "exists", sel: p.query()}
				p.wantOp(")")
				return n
			}
		case "array":
			if p.takeOp("(") {
				n := &node{op: "arraysub", sel: p.query()}
				p.wantOp(")")
				return n
			}
			p.wantOp("[")
			n := &node{op: "array"}
			if !p.op("]") {
				for {
					n.kids = append(n.kids, p.expr())
					if !p.takeOp(",") {
						break
					}
				}
			}
			p.wantOp("]")
			return n
		case "cast":
			p.wantOp("(")
			n := p.expr()
			p.wantKw("as")
			n = p.castTo(n)
			p.wantOp(")")
			return n
		case "case":
			n := &node{op: "case"}
			if !p.kw("when") {
				n.neg = true // has an operand
				n.kids = append(n.kids, p.expr())
			}
			for p.takeKw("when") {
				n.kids = append(n.kids, p.expr())
				p.wantKw("then")
				n.kids = append(n.kids, p.expr())
			}
			if p.takeKw("else") {
				n.val = "else"
				n.kids = append(n.kids, p.expr())
			}
			p.wantKw("end")
			return n
		case "current_schema", "current_user", "session_user", "user", "current_catalog", "current_role":
			if !p.op("(") {
				return &node{op: "call", name: []string{t.v}}
			}
		case "left", "right":
			if p.op("(") {
				return p.call([]string{t.v})
			}
		case "position", "substring", "trim", "extract", "overlay":
			if p.op("(") {
				return p.special(t.v)
			}
		case "row":
			if p.op("(") {
				p.takeOp("(")
				n := &node{op: "row", kids: []*node{p.expr()}}
				for p.takeOp(",") {
					n.kids = append(n.kids, p.expr())
				}
				p.wantOp(")")
				return n
			}
		}
		if reserved[t.v] {
			p.i--
			p.syntax()
		}
		fallthrough
	case 'q':
		name := []string{t.v}
		for p.op(".") {
			p.next()
			if p.op("*") {
				unsupported("whole-row reference")
			}
			n := p.next()
			if n.k != 'i' && n.k != 'q' {
				p.i--
				p.syntax()
			}
			name = append(name, n.v)
		}
		if p.op("(") {
			return p.call(name)
		}
		if t.k == 'i' && len(name) == 1 && p.peek().k == 's' {
			return &node{op: "cast", typ: t.v, kids: []*node{{op: "str", val: p.next().v}}}
		}
		return &node{op: "col", name: name}
	}
	p.i--
	p.syntax()
	return nil
}

func (p *parser) call(name []string) *node {
	if len(name) == 2 && name[0] == "pg_catalog" {
		name = name[1:]
	}
	if len(name) != 1 {
		unsupported("function %s", strings.Join(name, "."))
	}
	p.wantOp("(")
	n := &node{op: "call", name: name}
	if p.takeOp("*") {
		n.val = "*"
	} else if !p.op(")") {
		if p.takeKw("distinct") {
			n.dist = true
		} else {
			p.takeKw("all")
		}
		if p.kw("variadic") {
			unsupported("variadic")
		}
		for {
			n.kids = append(n.kids, p.expr())
			if p.op(":") || p.op("=>") {
				unsupported("named argument")
			}
			if !p.takeOp(",") {
				break
			}
		}
		if p.takeKw("order") {
			p.wantKw("by")
			n.order = p.orderBy()
		}
	}
	p.wantOp(")")
	if p.takeKw("filter") {
		p.wantOp("(")
		p.wantKw("where")
		n.filter = p.expr()
		p.wantOp(")")
	}
	if p.kw("over") || p.kw("within") {
		unsupported("%s after a function", p.peek().v)
	}
	return n
}

func (p *parser) special(name string) *node {
	p.wantOp("(")
	n := &node{op: "call", name: []string{name}}
	switch name {
	case "position":
		n.kids = append(n.kids, p.additive())
		p.wantKw("in")
		n.kids = append(n.kids, p.expr())
	case "substring":
		n.kids = append(n.kids, p.expr())
		if p.takeKw("from") {
			n.kids = append(n.kids, p.expr())
			if p.takeKw("for") {
				n.kids = append(n.kids, p.expr())
			}
		} else {
			for p.takeOp(",") {
				n.kids = append(n.kids, p.expr())
			}
		}
	case "trim":
		n.name = []string{"btrim"}
		switch {
		case p.takeKw("leading"):
			n.name = []string{"ltrim"}
		case p.takeKw("trailing"):
			n.name = []string{"rtrim"}
		default:
			p.takeKw("both")
		}
		if p.takeKw("from") {
			n.kids = append(n.kids, p.expr())
			break
		}
		first := p.expr()
		switch {
		case p.takeKw("from"):
			n.kids = append(n.kids, p.expr(), first)
		case p.takeOp(","):
			n.kids = append(n.kids, first, p.expr())
		default:
			n.kids = append(n.kids, first)
		}
	default:
		unsupported("%s", name)
	}
	p.wantOp(")")
	return n
}
