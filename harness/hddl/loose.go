//go:build go1.23

package main

import (
	"fmt"
	"strings"

	. "github.com/sjansen/pgutil/internal/zzverif/engine"
	"github.com/sjansen/pgutil/internal/zzverif/rapid"
)

// The loose reader understands what PostgreSQL understands (and a little more).
// What it does not understand has to be refused; what it understands but is
// outside the sure domain may be refused or accepted, but if accepted it has to
// mean the same.

type tok struct {
	kind       byte // w word, q quoted identifier, s string, n number, other: the character
	text       string
	start, end int
}

func isSpace(c byte) bool { return strings.IndexByte("\t\n\v\f\r ", c) >= 0 }

func wordByte(c byte, first bool) bool {
	return c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c == '_' || c >= 0x80 || !first && (c >= '0' && c <= '9' || c == '$')
}

// lex splits a text; ok is false if a quote is not closed.
func lex(s string) (toks []tok, ok bool) {
	ok = true
	for i := 0; i < len(s); {
		c := s[i]
		j := i + 1
		kind := c
		if c == 0 {
			kind = '?'
		}
		switch {
		case isSpace(c):
			i++
			continue
		case wordByte(c, true):
			for j < len(s) && wordByte(s[j], false) {
				j++
			}
			kind = 'w'
		case c >= '0' && c <= '9':
			for j < len(s) && (s[j] >= '0' && s[j] <= '9' || s[j] == '.') {
				j++
			}
			kind = 'n'
		case c == '\'' || c == '"':
			for {
				if j >= len(s) {
					ok = false
					break
				}
				if s[j] == c {
					if j+1 < len(s) && s[j+1] == c {
						j += 2
						continue
					}
					j++
					break
				}
				j++
			}
			kind = 's'
			if c == '"' {
				kind = 'q'
			}
		}
		toks = append(toks, tok{kind, s[i:j], i, j})
		i = j
	}
	return
}

type looseReader struct {
	src   string
	toks  []tok
	i     int
	plain bool // no quoted or qualified names so far
}

type looseFail struct{}

func (r *looseReader) fail() { panic(looseFail{}) }

func (r *looseReader) peek(n int) tok {
	if r.i+n < len(r.toks) {
		return r.toks[r.i+n]
	}
	return tok{}
}

func (r *looseReader) isKw(n int, w string) bool {
	t := r.peek(n)
	return t.kind == 'w' && asciiUpper(t.text) == w
}

func asciiUpper(s string) string {
	b := []byte(s)
	for i, c := range b {
		if c >= 'a' && c <= 'z' {
			b[i] = c - 32
		}
	}
	return string(b)
}

// kws consumes keywords if all of them follow.
func (r *looseReader) kws(words string) bool {
	ws := strings.Fields(words)
	for i, w := range ws {
		if !r.isKw(i, w) {
			return false
		}
	}
	r.i += len(ws)
	return true
}

func (r *looseReader) need(words string) {
	if !r.kws(words) {
		r.fail()
	}
}

func (r *looseReader) punct(c byte) bool {
	if r.peek(0).kind == c {
		r.i++
		return true
	}
	return false
}

func (r *looseReader) needPunct(c byte) {
	if !r.punct(c) {
		r.fail()
	}
}

func (r *looseReader) ident() string {
	t := r.peek(0)
	if t.kind != 'w' && t.kind != 'q' {
		r.fail()
	}
	if t.kind == 'q' {
		r.plain = false
	}
	r.i++
	return t.text
}

func (r *looseReader) qname() string {
	s := r.ident()
	for r.punct('.') {
		r.plain = false
		s += "." + r.ident()
	}
	return s
}

func (r *looseReader) identList() (l []string) {
	l = append(l, r.ident())
	for r.punct(',') {
		l = append(l, r.ident())
	}
	return
}

// group consumes a balanced group in parentheses and returns its raw text.
func (r *looseReader) group() string {
	start := r.peek(0).start
	r.needPunct('(')
	for depth := 1; depth > 0; {
		switch r.peek(0).kind {
		case 0:
			r.fail()
		case '(':
			depth++
		case ')':
			depth--
		}
		r.i++
	}
	return r.src[start:r.toks[r.i-1].end]
}

func (r *looseReader) deferral(d *Def) bool {
	switch {
	case r.kws("NOT DEFERRABLE"):
		d.Defer = 1
		if r.kws("INITIALLY IMMEDIATE") {
		}
	case r.kws("DEFERRABLE INITIALLY IMMEDIATE"):
		d.Defer = 3
	case r.kws("DEFERRABLE INITIALLY DEFERRED"):
		d.Defer = 4
	case r.kws("DEFERRABLE"):
		d.Defer = 2
	case r.kws("INITIALLY IMMEDIATE"):
		d.Defer = 5
		if r.kws("DEFERRABLE") {
			d.Defer = 3
		}
	case r.kws("INITIALLY DEFERRED"):
		d.Defer = 6
		if r.kws("DEFERRABLE") {
			d.Defer = 4
		}
	default:
		return false
	}
	return true
}

// loose reads a definition.
func loose(kind, text string) (d *Def, plain, ok bool) {
	r := &looseReader{src: text, plain: true}
	defer func() {
		if x := recover(); x != nil {
			if _, is := x.(looseFail); !is {
				panic(x)
			}
			d, ok = nil, false
		}
	}()
	d = &Def{Kind: kind}
	if kind == "check" {
		i := strings.IndexByte(text, '(')
		j := strings.LastIndexByte(text, ')')
		if i < 0 || j < i {
			r.fail()
		}
		head := strings.Trim(text[:i], "\t\n\v\f\r ")
		if asciiUpper(head) != "CHECK" {
			r.fail()
		}
		d.Expr = S(strings.TrimSpace(text[i+1 : j]))
		r.toks, _ = lex(text[j+1:])
	} else {
		r.toks, _ = lex(text)
	}
	switch kind {
	case "check":
		for r.i < len(r.toks) {
			if !(r.deferral(d) || r.kws("NO INHERIT") || r.kws("NOT VALID") || r.kws("NOT ENFORCED") || r.kws("ENFORCED") || r.punct(';')) {
				r.fail()
			}
		}
	case "fk":
		r.need("FOREIGN KEY")
		r.needPunct('(')
		d.Cols = r.identList()
		r.needPunct(')')
		r.need("REFERENCES")
		r.kws("ONLY")
		d.Table = r.qname()
		if r.punct('(') {
			d.Refs = r.identList()
			r.needPunct(')')
		}
		action := func() string {
			for _, a := range []string{"NO ACTION", "RESTRICT", "CASCADE", "SET NULL", "SET DEFAULT"} {
				if r.kws(a) {
					if r.peek(0).kind == '(' {
						r.group()
					}
					return a
				}
			}
			r.fail()
			return ""
		}
		for r.i < len(r.toks) {
			switch {
			case r.kws("MATCH"):
				for _, m := range []string{"FULL", "PARTIAL", "SIMPLE"} {
					if r.isKw(0, m) {
						d.Match = m
					}
				}
				r.i++
				if d.Match == "" {
					r.fail()
				}
			case r.kws("ON DELETE"):
				d.OnDelete = action()
			case r.kws("ON UPDATE"):
				d.OnUpdate = action()
			case r.deferral(d), r.kws("NOT VALID"), r.kws("NOT ENFORCED"), r.kws("ENFORCED"), r.punct(';'):
			default:
				r.fail()
			}
		}
	case "index":
		r.need("CREATE")
		d.Unique = r.kws("UNIQUE")
		r.need("INDEX")
		named := r.isKw(1, "ON") || r.isKw(1, "") // CREATE INDEX x ON
		if !named {
			r.kws("CONCURRENTLY")
			r.kws("IF NOT EXISTS")
		}
		if !(r.isKw(0, "ON") && !r.isKw(1, "ON")) {
			d.Name = r.qname()
		}
		r.need("ON")
		if k := r.peek(1).kind; r.isKw(0, "ONLY") && (k == 'w' || k == 'q') && !r.isKw(1, "USING") {
			r.i++
		}
		d.Table = r.qname()
		if r.kws("USING") {
			d.Using = r.ident()
		}
		r.needPunct('(')
		for {
			k := Key{}
			switch {
			case r.peek(0).kind == '(':
				k.Expr = S(r.group())
			case r.peek(1).kind == '(' || r.peek(1).kind == '.':
				start := r.peek(0).start
				p := r.plain
				r.qname()
				r.plain = p
				r.group()
				k.Expr = S(text[start:r.toks[r.i-1].end])
			default:
				k.Column = r.ident()
			}
			if r.isKw(0, "COLLATE") && (r.peek(1).kind == 'w' || r.peek(1).kind == 'q') {
				r.i++
				r.qname()
			}
			if n := r.peek(0).kind; (n == 'w' || n == 'q') && !r.isKw(0, "ASC") && !r.isKw(0, "DESC") && !(r.isKw(0, "NULLS") && r.peek(1).kind == 'w') {
				k.Class = r.qname()
				if r.peek(0).kind == '(' {
					r.group()
				}
			}
			if r.kws("DESC") {
				k.Order = "DESC"
			} else {
				r.kws("ASC")
			}
			if !r.kws("NULLS FIRST") {
				r.kws("NULLS LAST")
			}
			d.Keys = append(d.Keys, k)
			if r.punct(',') {
				continue
			}
			r.needPunct(')')
			break
		}
		for r.i < len(r.toks) {
			switch {
			case r.kws("INCLUDE"), r.kws("WITH"):
				r.group()
			case r.kws("NULLS NOT DISTINCT"), r.kws("NULLS DISTINCT"), r.punct(';'):
			case r.kws("TABLESPACE"):
				r.ident()
			case r.kws("WHERE"):
				d.Where = S(strings.TrimSpace(text[r.toks[r.i-1].end:]))
				r.i = len(r.toks)
			default:
				r.fail()
			}
		}
	case "trigger":
		r.need("CREATE")
		if !r.kws("OR REPLACE") {
		}
		d.Constraint = r.kws("CONSTRAINT")
		r.need("TRIGGER")
		d.Name = r.ident()
		for _, w := range []string{"BEFORE", "AFTER", "INSTEAD OF"} {
			if r.kws(w) {
				d.When = w
				break
			}
		}
		if d.When == "" {
			r.fail()
		}
		for {
			var ev string
			for _, e := range []string{"INSERT", "DELETE", "TRUNCATE", "UPDATE"} {
				if r.kws(e) {
					ev = e
					break
				}
			}
			if ev == "" {
				r.fail()
			}
			d.Events = append(d.Events, ev)
			if ev == "UPDATE" && r.kws("OF") {
				d.Cols = append(d.Cols, r.identList()...)
			}
			if !r.kws("OR") {
				break
			}
		}
		r.need("ON")
		d.Table = r.qname()
		for {
			if r.kws("FROM") {
				r.qname()
				continue
			}
			if r.kws("REFERENCING") {
				for r.isKw(0, "OLD") || r.isKw(0, "NEW") {
					r.i++
					if !r.kws("TABLE") {
						r.kws("ROW")
					}
					r.kws("AS")
					r.ident()
				}
				continue
			}
			if !r.deferral(d) {
				break
			}
		}
		for _, l := range []string{"EACH ROW", "ROW", "EACH STATEMENT", "STATEMENT"} {
			if r.kws("FOR " + l) {
				d.Level = l
				break
			}
		}
		if r.kws("WHEN") {
			r.group()
		}
		r.need("EXECUTE")
		if !r.kws("FUNCTION") && !r.kws("PROCEDURE") {
			r.fail()
		}
		d.Function = r.qname()
		r.group()
		for r.punct(';') {
		}
		if r.i < len(r.toks) {
			r.fail()
		}
	}
	return d, r.plain, true
}

// readable says whether the loose reader can tell what is wrong: quotes are
// absent and parentheses balanced.  The parser takes the first closing
// parenthesis as the end of an expression in an index key.
func readable(kind, text string) bool {
	if kind == "check" {
		return true
	}
	depth := 0
	for i := 0; i < len(text); i++ {
		switch text[i] {
		case '(':
			depth++
		case ')':
			depth--
		case '\'', '"':
			return false
		}
		if depth < 0 || kind == "index" && depth > 2 {
			return false
		}
		if kind == "index" && depth == 0 && text[i] == ')' {
			return true
		}
	}
	return depth == 0
}

// ---------------------------------------------------------------- edited definitions

// Edit changes a rendered definition.
type Edit struct {
	Op   string
	At   int
	With S `json:",omitempty"`
}

// Edited is a definition with some edits.
type Edited struct {
	Spell
	Edits []Edit
}

var inserts = []string{" ", "(", ")", ",", ";", "'", "\"", ".", "a", "_", "1", "$", "é", "\x00", "\n", "x ", " ON ", " NOT ", "DEFERRABLE", " INITIALLY DEFERRED", " DEFERRABLE ", " WHERE ", "UNIQUE ", "OR ", " OF a", " USING x", "()", "MATCH FULL", "ON DELETE CASCADE", " DESC", "COLLATE", " NULLS FIRST", "EACH ", "CONSTRAINT ", "CREATE ", "K", "ſ", "\u0130"}

func genEdited(kind string) func(t *rapid.T) Edited {
	return func(t *rapid.T) Edited {
		e := Edited{Spell: genSpell(kind)(t)}
		if e.D.Where != "" && Bool(t, "nowhere") {
			e.D.Where = ""
		}
		for n := Int(t, "edits", 1, 3); n > 0; n-- {
			e.Edits = append(e.Edits, Edit{Pick(t, "op", "drop", "twice", "swap", "insert", "delete", "cut", "replace", "join"), Int(t, "at", 0, 999), S(Pick(t, "with", inserts...))})
		}
		return e
	}
}

func (e *Edited) text() string {
	_, ps := e.render()
	var list []string
	for _, p := range ps {
		list = append(list, p.Text)
	}
	for _, x := range e.Edits {
		if len(list) == 0 {
			break
		}
		i := x.At % len(list)
		s := list[i]
		switch x.Op {
		case "drop":
			list = append(list[:i:i], list[i+1:]...)
		case "twice":
			list = append(list[:i+1:i+1], list[i:]...)
		case "swap":
			if i+2 < len(list) {
				l := append([]string(nil), list...)
				l[i], l[i+2] = l[i+2], l[i]
				list = l
			}
		case "insert":
			j := x.At / len(list) % (len(s) + 1)
			list[i] = s[:j] + string(x.With) + s[j:]
		case "delete":
			if s != "" {
				j := x.At / len(list) % len(s)
				list[i] = s[:j] + s[j+1:]
			}
		case "replace":
			if s != "" {
				j := x.At / len(list) % len(s)
				list[i] = s[:j] + string(x.With) + s[j+1:]
			}
		case "cut":
			j := x.At / len(list) % (len(s) + 1)
			list = append(list[:i:i], s[:j])
		case "join":
			list[i] = strings.TrimSpace(s)
		}
	}
	return strings.Join(list, "")
}

func runEdited(c *Ctx, e Edited) {
	kind, text := e.D.Kind, e.text()
	judge(c, kind, text)
}

// judge compares the parser with the reference on any text.
func judge(c *Ctx, kind, text string) {
	d, plain, ok := loose(kind, text)
	sure := strict[kind].MatchString(text)
	if sure && !ok && readable(kind, text) {
		Harnessf("the strict reference knows %q but the loose one does not", text)
	}
	facts, err := parse(c, kind, text)
	switch {
	case err != nil:
		c.Check(!sure, "refused: %v\n%s", err, text)
		if !ok {
			c.Class("refused, not a definition")
			c.NonTrivial()
		} else {
			c.Class("refused, outside the sure domain")
		}
	case !ok:
		c.Class("accepted, unreadable")
		c.Check(!readable(kind, text), "accepted as %s although it is no definition\n%s", facts, text)
	default:
		c.Class("accepted")
		c.NonTrivial()
		_, closed := lex(string(d.Where))
		if plain && closed && (kind == "check" || readable(kind, text)) {
			want := d.facts()
			c.Check(facts == want, "parsed wrongly\nwant %s\ngot  %s\ntext %s", want, facts, text)
		}
	}
}

func init() {
	rule := "definitions are rendered as in faithful and then changed by up to three drawn edits (pieces dropped, repeated, swapped, joined; bytes inserted, deleted, replaced; text cut off); the reference recognisers decide what must be accepted, what must be refused and what it means; non-trivial: refused because it is no definition, or accepted"
	for i, k := range []string{"check", "fk", "index", "trigger"} {
		Add(fmt.Sprintf("D%02d", i+3), "edited", Opt{Quick: 25000, Rule: rule}, genEdited(k), runEdited)
	}
}
