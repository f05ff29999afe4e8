//go:build go1.23

package main

import (
	"fmt"
	"regexp"
	"strings"

	"github.com/sjansen/pgutil/internal/ddl"
	. "github.com/sjansen/pgutil/internal/zzverif/engine"
	"github.com/sjansen/pgutil/internal/zzverif/rapid"
)

// ---------------------------------------------------------------- models

// Def is a definition as it was meant.
type Def struct {
	Kind string // check, fk, index, trigger

	Expr S `json:",omitempty"`

	Name  string   `json:",omitempty"`
	Table string   `json:",omitempty"`
	Cols  []string `json:",omitempty"`
	Refs  []string `json:",omitempty"`

	Match    string `json:",omitempty"`
	OnDelete string `json:",omitempty"`
	OnUpdate string `json:",omitempty"`

	Defer int `json:",omitempty"` // index into deferrals

	Unique bool   `json:",omitempty"`
	Using  string `json:",omitempty"`
	Keys   []Key  `json:",omitempty"`
	Where  S      `json:",omitempty"`

	Constraint bool     `json:",omitempty"`
	When       string   `json:",omitempty"`
	Events     []string `json:",omitempty"` // INSERT, UPDATE, DELETE, TRUNCATE
	Level      string   `json:",omitempty"` // "", EACH ROW, ROW, EACH STATEMENT, STATEMENT
	Function   string   `json:",omitempty"`
	Procedure  bool     `json:",omitempty"`
}

// Key is an index key.
type Key struct {
	Column string `json:",omitempty"`
	Expr   S      `json:",omitempty"`
	Class  string `json:",omitempty"`
	Order  string `json:",omitempty"` // ASC or DESC
}

var deferrals = []string{"", "NOT DEFERRABLE", "DEFERRABLE", "DEFERRABLE INITIALLY IMMEDIATE", "DEFERRABLE INITIALLY DEFERRED", "INITIALLY IMMEDIATE", "INITIALLY DEFERRED"}

func (d *Def) deferrable() bool { return d.Defer >= 2 && d.Defer <= 4 }
func (d *Def) deferred() bool   { return d.Defer == 4 || d.Defer == 6 }

// Spell is how a definition is spelled.
type Spell struct {
	D    *Def
	Tape []int
	Wide *Wide `json:",omitempty"`
}

// Wide is a very long piece of white space.
type Wide struct {
	At, N int
	Of    string
}

// Piece is a part of a rendered definition.
type Piece struct {
	Kind byte // k keyword, i identifier, p punctuation, w white space, o optional white space, e opaque text
	Text string
	Pos  int
}

type pieces struct {
	list []Piece
	tape []int
	text strings.Builder
	wide *Wide
}

func (p *pieces) next(n int) int {
	if len(p.tape) == 0 || n < 2 {
		return 0
	}
	v := p.tape[0]
	p.tape = p.tape[1:]
	if v < 0 {
		v = -v
	}
	return v % n
}

func (p *pieces) add(kind byte, text string) {
	p.list = append(p.list, Piece{kind, text, p.text.Len()})
	p.text.WriteString(text)
}

var spaces = []string{" ", "  ", "\n", "\t", "\n\t\t", "\r\n", " \f", "\v ", "\n\n  ", "   "}

func (p *pieces) ws() {
	s := spaces[p.next(len(spaces))]
	if w := p.wide; w != nil {
		if w.At == 0 {
			s += strings.Repeat(w.Of, w.N)
		}
		p.wide = &Wide{w.At - 1, w.N, w.Of}
	}
	p.add('w', s)
}
func (p *pieces) ows() {
	if i := p.next(len(spaces) * 2); i < len(spaces) {
		p.add('o', "")
	} else {
		p.add('o', spaces[i-len(spaces)])
	}
}

// kw writes keywords separated by white space.
func (p *pieces) kw(words string) {
	for i, w := range strings.Fields(words) {
		if i > 0 {
			p.ws()
		}
		switch p.next(5) {
		case 1:
			w = strings.ToLower(w)
		case 2:
			w = w[:1] + strings.ToLower(w[1:])
		case 3:
			b := []byte(w)
			for i := range b {
				if p.next(2) == 1 {
					b[i] |= 0x20
				}
			}
			w = string(b)
		}
		p.add('k', w)
	}
}

func (p *pieces) idents(l []string) {
	p.add('p', "(")
	p.ows()
	p.commas(l)
	p.ows()
	p.add('p', ")")
}

func (p *pieces) commas(l []string) {
	for i, s := range l {
		if i > 0 {
			p.ows()
			p.add('p', ",")
			p.ows()
		}
		p.add('i', s)
	}
}

func (p *pieces) deferral(d *Def, trigger bool) {
	if d.Defer == 0 {
		return
	}
	p.ws()
	p.kw(deferrals[d.Defer])
	if trigger && d.Defer == 2 {
		// finding deferrable: more than one blank is needed
		p.add('w', " ")
	}
}

func (s *Spell) render() (string, []Piece) {
	d := s.D
	p := &pieces{tape: s.Tape, wide: s.Wide}
	p.ows()
	switch d.Kind {
	case "check":
		p.kw("CHECK")
		p.ows()
		p.add('p', "(")
		p.add('e', []string{"", " ", "\n", "  \t"}[p.next(4)]+string(d.Expr)+[]string{"", " ", "\n", "\t  "}[p.next(4)])
		p.add('e', ")")
		p.deferral(d, false)
	case "fk":
		p.kw("FOREIGN KEY")
		p.ws()
		p.idents(d.Cols)
		p.ws()
		p.kw("REFERENCES")
		p.ws()
		p.add('i', d.Table)
		p.idents(d.Refs)
		if d.Match != "" {
			p.ws()
			p.kw("MATCH " + d.Match)
		}
		if d.OnDelete != "" {
			p.ws()
			p.kw("ON DELETE " + d.OnDelete)
		}
		if d.OnUpdate != "" {
			p.ws()
			p.kw("ON UPDATE " + d.OnUpdate)
		}
		p.deferral(d, false)
	case "index":
		p.kw("CREATE")
		p.ws()
		if d.Unique {
			p.kw("UNIQUE")
			p.ws()
		}
		p.kw("INDEX")
		p.ws()
		p.add('i', d.Name)
		p.ws()
		p.kw("ON")
		p.ws()
		p.add('i', d.Table)
		p.ws()
		if d.Using != "" {
			p.kw("USING")
			p.ws()
			p.add('i', d.Using)
			p.ws()
		}
		p.add('p', "(")
		p.ows()
		for i, k := range d.Keys {
			if i > 0 {
				p.ows()
				p.add('p', ",")
				p.ows()
			}
			if k.Column != "" {
				p.add('i', k.Column)
			} else {
				p.add('e', string(k.Expr))
			}
			if k.Class != "" {
				p.ws()
				p.add('i', k.Class)
			}
			if k.Order != "" {
				p.ws()
				p.kw(k.Order)
			}
		}
		p.ows()
		p.add('p', ")")
		if d.Where != "" {
			p.ws()
			p.kw("WHERE")
			p.ws()
			p.add('e', string(d.Where))
		}
	case "trigger":
		p.kw("CREATE")
		p.ws()
		if d.Constraint {
			p.kw("CONSTRAINT")
			p.ws()
		}
		p.kw("TRIGGER")
		p.ws()
		p.add('i', d.Name)
		p.ws()
		p.kw(d.When)
		for i, e := range d.Events {
			p.ws()
			if i > 0 {
				p.kw("OR")
				p.ws()
			}
			p.kw(e)
			if e == "UPDATE" && d.Cols != nil {
				p.ws()
				p.kw("OF")
				p.ws()
				p.commas(d.Cols)
			}
		}
		p.ws()
		p.kw("ON")
		p.ws()
		p.add('i', d.Table)
		p.deferral(d, true)
		if d.Level != "" {
			p.ws()
			p.kw("FOR " + d.Level)
		}
		p.ws()
		p.kw("EXECUTE")
		p.ws()
		if d.Procedure {
			p.kw("PROCEDURE")
		} else {
			p.kw("FUNCTION")
		}
		p.ws()
		p.add('i', d.Function)
		p.add('p', "()")
	}
	if d.Kind != "index" || d.Where == "" {
		p.ows()
	}
	return p.text.String(), p.list
}

// ---------------------------------------------------------------- generators

func genIdents(t *rapid.T, name string, lo, hi int) []string {
	var l []string
	for n := Int(t, name+"#", lo, hi); n > 0; n-- {
		l = append(l, Ident(t, name))
	}
	if Chance(t, name+"many", 1) {
		for i, n := 0, []int{9, 17, 33, 101}[Even(t, name+"more", 4)]; i < n; i++ {
			l = append(l, fmt.Sprintf("%s%d", name, i))
		}
	}
	return l
}

// parens removes what would have to be balanced.
func noParens(s string) string { return strings.NewReplacer("(", "<", ")", ">").Replace(s) }

// sqlText draws text in which quotes are balanced, with blanks of all kinds.
func sqlText(t *rapid.T, name string, max int) string {
	var sb strings.Builder
	for n := Int(t, name+"#", 1, max); n > 0; n-- {
		switch Int(t, name+"k", 0, 9) {
		case 0, 1:
			sb.WriteString("'" + strings.ReplaceAll(Text(t, name+"s", 5), "'", "''") + "'")
		case 2:
			sb.WriteString(`"` + strings.ReplaceAll(Text(t, name+"q", 4), `"`, `""`) + `"`)
		case 3, 4:
			sb.WriteString(Pick(t, name+"w", spaces...))
		case 5:
			sb.WriteString(Pick(t, name+"b", ") DEFERRABLE INITIALLY DEFERRED", "(", ")", " WHERE ", " NOT ", "DEFERRABLE ", ";", "--", " IS NULL", ")) INITIALLY DEFERRED ",
				") not)", ") n", ") de)", ") deferr)", ") initially)", ") initially de)", ") d)", ") i (", ")\tDEFERRABLE)", ") NOT DEFERRABLE)", "))"))
		default:
			sb.WriteString(Pick(t, name+"a", "a", "value", "x_1", " = ", "<", "0", "::text", "%", ",", "é", "漢", "\u00a0x", "$1", "AND", "[1]", "||", ".", "_", "DESC"))
		}
	}
	return strings.Trim(sb.String(), "\t\n\v\f\r \u00a0\u2028\u2029\u0085")
}

// formula draws a condition as servers print them: parentheses are balanced,
// around all of it, around its parts, or around each.
func formula(t *rapid.T, depth int) string {
	k := Int(t, "formula", 0, 8)
	if depth < 1 && k > 3 {
		k -= 4
	}
	in := func(s string) string {
		if Bool(t, "in") {
			return "(" + s + ")"
		}
		return s
	}
	switch k {
	case 0:
		return Pick(t, "atom", "a", "\"B c\"", "x_1", "1", "'two'", "'it''s'", "NULL", "value", "t.a", "'('", "')'", "\")\"", "'))'::text", "a", "b", "c")
	case 1:
		return in(Pick(t, "left", "a", "b", "(a)", "(a + 1)", "lower(a)", "\"B\"")) + Pick(t, "op", " = ", " > ", " <> ", "=", " ~ ", " IS DISTINCT FROM ") + in(Pick(t, "right", "b", "0", "(b)", "(b - 1)", "upper(b)", "'x'::text"))
	case 2:
		return in(Pick(t, "what", "a", "lower(a)", "(a)")) + Pick(t, "is", " IS NULL", " IS NOT NULL", " IS NOT TRUE", "::text")
	case 3:
		return Pick(t, "fn", "f", "coalesce", "length", "ANY ", "NOT ", "EXISTS ") + "(" + Pick(t, "args", "a", "a, b", "(a)", "((a))", "", "'('::text", "ARRAY['a'::text, 'b'::text]") + ")"
	case 4:
		return "NOT " + in(formula(t, depth-1))
	case 5:
		return "(" + formula(t, depth-1) + ")"
	}
	l, r := formula(t, depth-1), formula(t, depth-1)
	return in(l) + Pick(t, "junctor", " AND ", " OR ", " AND\n    ", " = ", " + ") + in(r)
}

func genDef(t *rapid.T, kind string) *Def {
	d := &Def{Kind: kind}
	switch kind {
	case "check":
		d.Expr = S(sqlText(t, "expr", 8))
		if Chance(t, "raw", 30) {
			d.Expr = S(strings.TrimSpace(Text(t, "expr", 8)))
		} else if Chance(t, "formula?", 40) {
			d.Expr = S(formula(t, 4))
		}
		if d.Expr == "" {
			d.Expr = "x"
		}
		d.Defer = Int(t, "defer", 0, 6)
	case "fk":
		d.Cols = genIdents(t, "col", 1, 4)
		d.Refs = genIdents(t, "ref", 1, 4)
		d.Table = Ident(t, "table")
		d.Match = Pick(t, "match", "", "", "FULL", "PARTIAL", "SIMPLE")
		actions := []string{"", "NO ACTION", "RESTRICT", "CASCADE", "SET NULL", "SET DEFAULT"}
		d.OnDelete = Pick(t, "delete", actions...)
		d.OnUpdate = Pick(t, "update", actions...)
		d.Defer = Int(t, "defer", 0, 6)
	case "index":
		d.Name = Ident(t, "name")
		d.Table = Ident(t, "table")
		d.Unique = Bool(t, "unique")
		if Bool(t, "using?") {
			d.Using = Ident(t, "using")
			if Bool(t, "method?") {
				d.Using = Pick(t, "method", "btree", "btree", "hash", "gist", "gin", "brin", "spgist", "BTREE", "bloom")
			}
		}
		for i, n := 0, Int(t, "keys", 1, 4); i < n; i++ {
			k := Key{}
			switch {
			case i == 0 && Chance(t, "expr?", 50):
				e := noParens(sqlText(t, "expr", 5))
				if strings.Count(e, "'")%2 == 0 && e != "" && Bool(t, "parens") {
					k.Expr = S("(" + Pick(t, "in", "", " ") + e + ")")
				} else {
					k.Expr = S(Ident(t, "fn") + "(" + e + ")")
				}
			default:
				k.Column = Ident(t, "col")
			}
			switch Int(t, "class", 0, 5) {
			case 0:
				k.Class = Ident(t, "class")
				if u := strings.ToUpper(k.Class); u == "ASC" || u == "DESC" {
					k.Class = "text_ops"
				}
			case 1:
				k.Order = "DESC"
			case 2:
				k.Order = "ASC"
			}
			d.Keys = append(d.Keys, k)
		}
		if Chance(t, "many", 1) {
			for i, n := 0, []int{9, 17, 33, 101}[Even(t, "more", 4)]; i < n; i++ {
				d.Keys = append(d.Keys, Key{Column: fmt.Sprintf("key%d", i), Order: []string{"", "DESC", "ASC"}[i%3]})
			}
		}
		if Bool(t, "where?") {
			d.Where = S(sqlText(t, "where", 8))
			if Chance(t, "formula?", 40) {
				d.Where = S(formula(t, 4))
			}
		}
	case "trigger":
		d.Name = Ident(t, "name")
		d.Table = Ident(t, "table")
		d.Function = Ident(t, "function")
		d.Constraint = Bool(t, "constraint")
		d.Procedure = Bool(t, "procedure")
		d.When = Pick(t, "when", "BEFORE", "AFTER", "INSTEAD OF")
		all := []string{"INSERT", "UPDATE", "DELETE", "TRUNCATE"}
		for _, i := range Perm(t, "events", 4)[:Int(t, "#events", 1, 4)] {
			d.Events = append(d.Events, all[i])
			if all[i] == "UPDATE" {
				d.Cols = genIdents(t, "col", 0, 3)
			}
		}
		d.Defer = Int(t, "defer", 0, 6)
		d.Level = Pick(t, "level", "", "EACH ROW", "ROW", "EACH STATEMENT", "STATEMENT")
	}
	return d
}

func genTape(t *rapid.T) []int {
	return rapid.SliceOfN(rapid.IntRange(0, 999), 0, 60).Draw(t, "tape")
}

func genSpell(kind string) func(t *rapid.T) Spell {
	return func(t *rapid.T) Spell {
		s := Spell{D: genDef(t, kind)}
		if Chance(t, "spell", 70) {
			s.Tape = genTape(t)
		}
		if Chance(t, "wide", 1) {
			s.Wide = &Wide{Int(t, "wideat", 0, 2), []int{100, 300, 1100, 5000}[Even(t, "widen", 4)], Pick(t, "wideof", " ", "\n", "\t", "\n  ")}
		}
		return s
	}
}

// ---------------------------------------------------------------- parse results

// squeeze makes white space outside quotes comparable.
func squeeze(s string) string {
	var sb strings.Builder
	var quote byte
	blank := false
	for i := 0; i < len(s); i++ {
		c := s[i]
		if quote == 0 && strings.IndexByte("\t\n\v\f\r ", c) >= 0 {
			blank = true
			continue
		}
		if blank && sb.Len() > 0 {
			sb.WriteByte(' ')
		}
		blank = false
		switch {
		case quote == c:
			quote = 0
		case quote == 0 && (c == '\'' || c == '"'):
			quote = c
		}
		sb.WriteByte(c)
	}
	return sb.String()
}

// facts describes what a definition says, in a canonical form.
func (d *Def) facts() string {
	switch d.Kind {
	case "check":
		return fmt.Sprintf("check %q deferrable=%v deferred=%v", string(d.Expr), d.deferrable(), d.deferred())
	case "fk":
		return fmt.Sprintf("fk %q references %q %q match %q delete %q update %q deferrable=%v deferred=%v", d.Cols, d.Table, d.Refs, d.Match, d.OnDelete, d.OnUpdate, d.deferrable(), d.deferred())
	case "index":
		s := fmt.Sprintf("index %q on %q unique=%v using %q where %q", d.Name, d.Table, d.Unique, d.Using, squeeze(string(d.Where)))
		for _, k := range d.Keys {
			s += fmt.Sprintf(" [%q %q class %q descending=%v]", k.Column, string(k.Expr), k.Class, k.Order == "DESC")
		}
		return s
	}
	ev := map[string]bool{}
	for _, e := range d.Events {
		ev[e] = true
	}
	var cols []string
	if len(d.Cols) > 0 {
		cols = d.Cols
	}
	return fmt.Sprintf("trigger %q on %q when %q insert=%v update=%v delete=%v truncate=%v columns %q constraint=%v deferrable=%v deferred=%v row=%v function %q",
		d.Name, d.Table, d.When, ev["INSERT"], ev["UPDATE"], ev["DELETE"], ev["TRUNCATE"], cols, d.Constraint, d.deferrable(), d.deferred(), strings.HasSuffix(d.Level, "ROW"), d.Function)
}

// parse runs the parser and describes its result in the same form.
func parse(c *Ctx, kind, text string) (facts string, err error) {
	c.Protect("the parser of "+kind, func() {
		ok := false
		switch kind {
		case "check":
			var x *ddl.Check
			x, err = ddl.ParseCheck(text)
			if ok = x != nil; ok && err == nil {
				facts = fmt.Sprintf("check %q deferrable=%v deferred=%v", x.Expression, x.Deferrable, x.InitiallyDeferred)
				c.Check(x.Name == "", "a name that is not there: %q", x.Name)
			}
		case "fk":
			var x *ddl.ForeignKey
			x, err = ddl.ParseForeignKey(text)
			if ok = x != nil; ok && err == nil {
				facts = fmt.Sprintf("fk %q references %q %q match %q delete %q update %q deferrable=%v deferred=%v", x.Columns, x.Table, x.Referenced, x.Match, x.OnDelete, x.OnUpdate, x.Deferrable, x.InitiallyDeferred)
				c.Check(x.Name == "", "a name that is not there: %q", x.Name)
			}
		case "index":
			var x *ddl.Index
			x, err = ddl.ParseIndex(text)
			if ok = x != nil; ok && err == nil {
				facts = fmt.Sprintf("index %q on %q unique=%v using %q where %q", x.Name, x.Table, x.Unique, x.Using, squeeze(x.Where))
				for _, k := range x.Keys {
					facts += fmt.Sprintf(" [%q %q class %q descending=%v]", k.Column, k.Expression, k.OpClass, k.Descending)
				}
				c.Check(!x.Primary, "primary without being told so")
				c.Check(x.Schema == "", "a schema that is not there: %q", x.Schema)
			}
		case "trigger":
			var x *ddl.Trigger
			x, err = ddl.ParseTrigger(text)
			if ok = x != nil; ok && err == nil {
				var cols []string
				if len(x.Columns) > 0 {
					cols = x.Columns
				}
				facts = fmt.Sprintf("trigger %q on %q when %q insert=%v update=%v delete=%v truncate=%v columns %q constraint=%v deferrable=%v deferred=%v row=%v function %q",
					x.Name, x.Table, x.When, x.Insert, x.Update, x.Delete, x.Truncate, cols, x.Constraint, x.Deferrable, x.InitiallyDeferred, x.ForEachRow, x.Function)
				c.Check(x.Schema == "", "a schema that is not there: %q", x.Schema)
			}
		}
		c.Check(ok == (err == nil), "a result: %v, an error: %v\n%s", ok, err, text)
	})
	if err != nil {
		msg := ""
		c.Protect("the error of "+kind, func() { msg = err.Error() })
		c.Check(msg != "", "an error without text")
	}
	return
}

func runSpell(c *Ctx, s Spell) {
	text, ps := s.render()
	kinds := 0
	for _, p := range ps {
		if p.Kind == 'i' || p.Kind == 'e' {
			kinds++
		}
	}
	c.NonTrivialIf(len(s.Tape) > 0 && (len(ps) > 14 || len(s.D.Expr) > 6))
	if s.D.Defer > 0 {
		c.Class("%s", deferrals[s.D.Defer])
	}
	if !strict[s.D.Kind].MatchString(text) {
		Harnessf("the reference does not know %q", text)
	}
	facts, err := parse(c, s.D.Kind, text)
	c.Check(err == nil, "refused: %v\n%s", err, text)
	want := s.D.facts()
	c.Check(facts == want, "parsed wrongly\nwant %s\ngot  %s\ntext %s", want, facts, text)
}

// ---------------------------------------------------------------- the sure domain

// strict recognises the definitions that have to be accepted.
var strict = map[string]*regexp.Regexp{}

func pat(s string) *regexp.Regexp {
	const sp = `[\t\n\v\f\r ]`
	id := `[A-Za-z][A-Za-z0-9_]*`
	s = strings.NewReplacer("<defer>", `(?:NOT _ DEFERRABLE|DEFERRABLE(?: _ INITIALLY _ (?:IMMEDIATE|DEFERRED))?|INITIALLY _ (?:IMMEDIATE|DEFERRED))`,
		"<act>", `(?:NO _ ACTION|RESTRICT|CASCADE|SET _ NULL|SET _ DEFAULT)`, "<ids>", "<id>(?:~,~<id>)*").Replace(s)
	s = strings.NewReplacer("<id>", "<>", "<pred>", "<1>", "<expr>", "<2>", "<fn>", "<3>", "<any>", "<4>").Replace(s)
	var sb strings.Builder
	for i := 0; i < len(s); i++ {
		ch := s[i]
		switch {
		case ch == ' ':
		case ch == '_':
			sb.WriteString(sp + "+")
		case ch == '~':
			sb.WriteString(sp + "*")
		case ch >= 'A' && ch <= 'Z':
			fmt.Fprintf(&sb, "[%c%c]", ch, ch|0x20)
		case strings.HasPrefix(s[i:], "<>"):
			sb.WriteString(id)
			i++
		case strings.HasPrefix(s[i:], "<1>"):
			sb.WriteString(`[^\t\n\v\f\r ](?s:.*)`)
			i += 2
		case strings.HasPrefix(s[i:], "<2>"):
			sb.WriteString(`\([^()]+\)`)
			i += 2
		case strings.HasPrefix(s[i:], "<3>"):
			sb.WriteString(id + `\([^()]*\)`)
			i += 2
		case strings.HasPrefix(s[i:], "<4>"):
			sb.WriteString(`(?s:.*[^\t\n\v\f\r ].*)`)
			i += 2
		default:
			sb.WriteByte(ch)
		}
	}
	return regexp.MustCompile("^" + sb.String() + "$")
}

func init() {
	strict["check"] = pat(`~CHECK~\(<any>\)(?:_<defer>)?~`)
	strict["fk"] = pat(`~FOREIGN _ KEY _ \(~<ids>~\) _ REFERENCES _ <id>\(~<ids>~\)(?: _ MATCH _ (?:FULL|PARTIAL|SIMPLE))?(?: _ ON _ DELETE _ <act>)?(?: _ ON _ UPDATE _ <act>)?(?:_<defer>)?~`)
	strict["index"] = pat(`~CREATE _ (?:UNIQUE _ )?INDEX _ <id> _ ON _ <id>(?: _ USING _ <id>)? _ \(~(?:<expr>|<fn>|<id>)(?:_<id>)?(?:~,~<id>(?:_<id>)?)*~\)(?: _ WHERE _ <pred>)?~`)
	ev := `(?:INSERT|DELETE|TRUNCATE|UPDATE(?: _ OF _ <ids>)?)`
	dt := `(?: _ NOT _ DEFERRABLE| _ DEFERRABLE[\t\n\v\f\r\x20]| _ (?:DEFERRABLE _ )?INITIALLY _ (?:IMMEDIATE|DEFERRED))`
	strict["trigger"] = pat(`~CREATE _ (?:CONSTRAINT _ )?TRIGGER _ <id> _ (?:BEFORE|AFTER|INSTEAD _ OF) _ ` + ev + `(?: _ OR _ ` + ev + `)* _ ON _ <id>` + dt + `?(?: _ FOR _ (?:EACH _ )?(?:ROW|STATEMENT))? _ EXECUTE _ (?:FUNCTION|PROCEDURE) _ <id>\(\)~`)
}

func init() {
	rule := "definitions are generated as models and rendered with drawn keyword case and white space; non-trivial: spelled by a non-empty tape and more than fourteen pieces (or an expression of more than six bytes)"
	for i, k := range []string{"check", "fk", "index", "trigger"} {
		Add(fmt.Sprintf("D%02d", i+3), "faithful", Opt{Quick: 25000, Rule: rule}, genSpell(k), runSpell)
	}
}
