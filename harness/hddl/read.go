//go:build go1.23

package main

import (
	"fmt"
	"os"
	"reflect"
	"sort"
	"strconv"
	"strings"

	"github.com/sjansen/pgutil/internal/ddl"
	. "github.com/sjansen/pgutil/internal/zzverif/engine"
	"github.com/sjansen/pgutil/internal/zzverif/rapid"
)

// ---------------------------------------------------------------- the format

// format is the file format: per block its labels, its mandatory attributes (!),
// its optional ones and its nested blocks (#: at most one), each with the field
// it is about.
var format = map[string][]string{
	"Database":      {"parameters#Parameters", "schema*Schemas", "function*Functions", "sequence*Sequences", "table*Tables", "index*Indexes", "trigger*Triggers"},
	"Parameters":    {"search_path?SearchPath", "timezone?Timezone"},
	"Schema":        {"@Name", "owner?Owner", "comment?Comment"},
	"Function":      {"@Schema", "@Name", "owner?Owner", "comment?Comment", "returns!Returns", "language!Language", "definition!Definition"},
	"Sequence":      {"@Schema", "@Name", "owner?Owner", "comment?Comment", "data_type?DataType", "start?Start", "minimum?Minimum", "maximum?Maximum", "increment?Increment", "cache?Cache", "cycle?Cycle", "owned_by#OwnedBy"},
	"SequenceOwner": {"schema!Schema", "table!Table", "column!Column"},
	"Table":         {"@Schema", "@Name", "owner?Owner", "comment?Comment", "column*Columns", "check*Checks", "foreign_key*ForeignKeys", "storage_parameters#StorageParameters"},
	"Column":        {"@Name", "type!Type", "not_null?NotNull", "default?Default", "comment?Comment"},
	"Check":         {"name?Name", "expression!Expression", "deferrable?Deferrable", "initially_deferred?InitiallyDeferred"},
	"ForeignKey":    {"@Table", "name?Name", "columns!Columns", "referenced!Referenced", "match?Match", "on_delete?OnDelete", "on_update?OnUpdate", "deferrable?Deferrable", "initially_deferred?InitiallyDeferred"},
	"Index":         {"@Schema", "@Table", "@Name", "primary?Primary", "unique?Unique", "using?Using", "where?Where", "key*Keys"},
	"IndexKey":      {"column?Column", "expression?Expression", "opclass?OpClass", "descending?Descending"},
	"Trigger": {"@Schema", "@Table", "@Name", "function!Function", "when!When", "constraint?Constraint", "deferrable?Deferrable", "initially_deferred?InitiallyDeferred",
		"for_each_row?ForEachRow", "delete?Delete", "insert?Insert", "truncate?Truncate", "update?Update", "columns?Columns"},
	"TableStorageParameters": {"fillfactor?Fillfactor", "parallel_workers?ParallelWorkers", "autovacuum_enabled?AutovacuumEnabled", "autovacuum_vacuum_threshold?AutovacuumVacuumThreshold",
		"autovacuum_vacuum_scale_factor?AutovacuumVacuumScaleFactor", "autovacuum_analyze_threshold?AutovacuumAnalyzeThreshold", "autovacuum_analyze_scale_factor?AutovacuumAnalyzeScaleFactor",
		"autovacuum_vacuum_cost_limit?AutovacuumVacuumCostDelay", "autovacuum_freeze_min_age?AutovacuumFreezeMinAge", "autovacuum_freeze_max_age?AutovacuumFreezeMaxAge",
		"autovacuum_freeze_table_age?AutovacuumFreezeTableAge", "autovacuum_multixact_freeze_min_age?AutovacuumMultixactFreezeMinAge", "autovacuum_multixact_freeze_max_age?AutovacuumMultixactFreezeMaxAge",
		"autovacuum_multixact_freeze_table_age?AutovacuumMultixactFreezeTableAge", "log_autovacuum_min_duration?LogAutovacuumMinDuration", "user_catalog_table?UserCatalogTable"},
}

// part splits an entry of the format.
func part(s string) (name string, kind byte, field string) {
	i := strings.IndexAny(s, "@!?#*")
	return s[:i], s[i], s[i+1:]
}

// mandatory are the attributes that have to be there.
var mandatory = map[string]bool{}

// known are the attribute and block names by block type.
var formatOf = map[string]string{"": "Database", "parameters": "Parameters", "schema": "Schema", "function": "Function", "sequence": "Sequence", "owned_by": "SequenceOwner",
	"table": "Table", "column": "Column", "check": "Check", "foreign_key": "ForeignKey", "index": "Index", "key": "IndexKey", "trigger": "Trigger", "storage_parameters": "TableStorageParameters"}

// hcl writes the model as a document.
func (m *M) hcl(typ reflect.Type, block string, labels bool) *HBlock {
	b := &HBlock{Type: block}
	for _, e := range format[typ.Name()] {
		name, kind, field := part(e)
		f, ok := typ.FieldByName(field)
		if !ok {
			Harnessf("no field %s in %v", field, typ)
		}
		ft := f.Type
		if kind == '#' || kind == '*' {
			for ft.Kind() != reflect.Struct {
				ft = ft.Elem()
			}
			for _, s := range m.Subs[field] {
				b.Items = append(b.Items, HItem{Block: s.hcl(ft, name, labels)})
			}
			continue
		}
		if kind == '@' {
			b.Labels = append(b.Labels, m.Text[field])
			continue
		}
		if ft.Kind() == reflect.Ptr {
			ft = ft.Elem()
		}
		switch ft.Kind() {
		case reflect.String:
			if s, ok := m.Text[field]; ok || kind == '!' {
				b.Attr(name, HS(s))
			}
		case reflect.Bool:
			if s, ok := m.Bool[field]; ok || kind == '!' {
				b.Attr(name, HB(s))
			}
		case reflect.Int, reflect.Int64:
			if s, ok := m.Int[field]; ok || kind == '!' {
				b.Attr(name, HN(s))
			}
		case reflect.Float64:
			if s, ok := m.Flt[field]; ok || kind == '!' {
				b.Attr(name, &HVal{Kind: "n", Text: S(strconv.FormatFloat(s, 'f', -1, 64))})
			}
		case reflect.Slice:
			if l, ok := m.List[field]; ok || kind == '!' {
				b.Attr(name, HL(l))
			}
		}
	}
	return b
}

func (m *M) doc() *HBlock { return m.hcl(reflect.TypeOf(ddl.Database{}), "", true) }

// ReadCase is a description and how it is spelled.
type ReadCase struct {
	M       *M
	Tape    []int
	Mix     []int  // how the items of every block are reordered
	Mistake string `json:",omitempty"`
	Where   int    `json:",omitempty"`
	Text    S      `json:",omitempty"`
}

func genRead(t *rapid.T) ReadCase {
	k := ReadCase{M: genDB(t)}
	if Bool(t, "spell") {
		k.Tape = rapid.SliceOfN(rapid.IntRange(0, 1000), 0, 120).Draw(t, "tape")
	}
	if Bool(t, "mixed") {
		k.Mix = rapid.SliceOfN(rapid.IntRange(0, 1000), 0, 40).Draw(t, "mix")
	}
	return k
}

// mix moves items around without changing the order of blocks of one type.
func mix(b *HBlock, tape *[]int) {
	next := func(n int) int {
		if len(*tape) == 0 || n < 2 {
			return 0
		}
		v := (*tape)[0]
		*tape = (*tape)[1:]
		return v % n
	}
	groups := map[string][]HItem{}
	var names []string
	for _, it := range b.Items {
		g := "a " + it.Name
		if it.Block != nil {
			g = "b " + it.Block.Type
			mix(it.Block, tape)
		}
		if groups[g] == nil {
			names = append(names, g)
		}
		groups[g] = append(groups[g], it)
	}
	var out []HItem
	for len(names) > 0 {
		i := next(len(names))
		g := names[i]
		out = append(out, groups[g][0])
		groups[g] = groups[g][1:]
		if len(groups[g]) == 0 {
			names = append(names[:i:i], names[i+1:]...)
		}
	}
	b.Items = out
}

// read reads a text from memory and from a file; the outcomes have to agree.
func read(c *Ctx, text string) (*ddl.Database, error) {
	var db, db2 *ddl.Database
	var err, err2 error
	name := tempFile(text)
	defer os.Remove(name)
	c.Protect("ParseBytes", func() { db, err = ddl.ParseBytes([]byte(text), name) })
	c.Protect("ParseFile", func() { db2, err2 = ddl.ParseFile(name) })
	c.Check((db == nil) == (err != nil), "ParseBytes returns a description: %v, an error: %v", db != nil, err)
	c.Check((db2 == nil) == (err2 != nil), "ParseFile returns a description: %v, an error: %v", db2 != nil, err2)
	c.Check((err == nil) == (err2 == nil), "from memory: %v, from a file: %v\n%s", err, err2, text)
	if err != nil {
		c.Check(err.Error() != "" && err2.Error() != "", "an error without text\n%s", text)
	} else {
		a, b := dump(db), dump(db2)
		c.Check(a == b, "a file is read differently: %s\n%s", firstDiff(a, b), text)
	}
	return db, err
}

func runRead(c *Ctx, k ReadCase) {
	d := k.M.doc()
	if k.Mix != nil {
		tape := append([]int(nil), k.Mix...)
		mix(d, &tape)
	}
	text := (&HRender{Tape: k.Tape}).Doc(d)
	db, err := read(c, text)
	c.NonTrivialIf(len(k.M.Subs) > 1)
	c.Check(err == nil, "refused: %v\n%s", err, text)
	want, got := dump(k.M.database()), dump(db)
	c.Check(got == want, "what is read differs: %s\n%s", firstDiff(want, got), text)
}

// ---------------------------------------------------------------- mistakes

var mistakes = []string{"attribute", "block", "missing", "missing", "type", "type", "fraction", "range", "label", "labels", "twice", "repeated", "brace", "open brace", "variable", "function", "no value", "misplaced"}

func genMistake(t *rapid.T) ReadCase {
	k := genRead(t)
	k.Mistake = rapid.SampledFrom(mistakes).Draw(t, "mistake")
	k.Where = Int(t, "where", 0, 1000)
	return k
}

func (k *ReadCase) spoil(d *HBlock) (string, bool) {
	all := append([]*HBlock{d}, d.Blocks()...)
	w := k.Where
	choose := func(n int) int {
		v := w % n
		w /= n
		return v
	}
	pick := func(f func(*HBlock) bool) *HBlock {
		var fit []*HBlock
		for _, b := range all {
			if f(b) {
				fit = append(fit, b)
			}
		}
		if len(fit) == 0 {
			return nil
		}
		return fit[choose(len(fit))]
	}
	render := func() string { return (&HRender{Tape: k.Tape}).Doc(d) }
	// attrs lists (block, item) pairs with a given value kind
	type spot struct {
		b *HBlock
		i int
	}
	attr := func(kind string) *HItem {
		var fit []spot
		for _, b := range all {
			for i := range b.Items {
				if v := b.Items[i].Val; v != nil && strings.Contains(kind, v.Kind) {
					fit = append(fit, spot{b, i})
				}
			}
		}
		if len(fit) == 0 {
			return nil
		}
		s := fit[choose(len(fit))]
		return &s.b.Items[s.i]
	}
	switch k.Mistake {
	case "attribute":
		b := pick(func(*HBlock) bool { return true })
		b.Items = append(b.Items, HItem{Name: []string{"nosuch", "Name", "Comment", "schemas", "x-y"}[choose(5)], Val: HS("x")})
	case "misplaced":
		// an attribute of another block
		b := pick(func(*HBlock) bool { return true })
		own := map[string]bool{}
		for _, e := range format[formatOf[b.Type]] {
			n, _, _ := part(e)
			own[n] = true
		}
		set := map[string]bool{}
		for _, f := range format {
			for _, e := range f {
				if n, kind, _ := part(e); kind == '!' || kind == '?' {
					set[n] = !own[n]
				}
			}
		}
		var names []string
		for n, ok := range set {
			if ok {
				names = append(names, n)
			}
		}
		sort.Strings(names)
		b.Items = append(b.Items, HItem{Name: names[choose(len(names))], Val: HS("x")})
	case "block":
		b := pick(func(*HBlock) bool { return true })
		name := []string{"nosuch", "Table", "columns", "primary_key"}[choose(4)]
		b.Items = append(b.Items, HItem{Block: &HBlock{Type: name, Labels: [][]S{nil, {"a"}, {"a", "b"}}[choose(3)]}})
	case "missing":
		var fit []spot
		for _, b := range all {
			for _, e := range format[formatOf[b.Type]] {
				n, kind, _ := part(e)
				for i := range b.Items {
					if kind == '!' && b.Items[i].Block == nil && b.Items[i].Name == n {
						fit = append(fit, spot{b, i})
					}
				}
			}
		}
		if len(fit) == 0 {
			return "", false
		}
		s := fit[choose(len(fit))]
		s.b.Items = append(s.b.Items[:s.i:s.i], s.b.Items[s.i+1:]...)
	case "type":
		it := attr("snbl")
		if it == nil {
			return "", false
		}
		list := &HVal{Kind: "l", Kids: []*HVal{HS("x"), HS("y")}}
		o := &HVal{Kind: "o", Keys: []S{"a"}, Kids: []*HVal{HS("x")}}
		var bad []*HVal
		switch it.Val.Kind {
		case "s":
			bad = []*HVal{list, o}
		case "n":
			bad = []*HVal{list, o, HS("x"), HS(""), HB(true), HS("1 "), HS("1a")}
		case "b":
			bad = []*HVal{list, o, HS("x"), HS(""), HS("yes"), HN(1), HN(0)}
		case "l":
			bad = []*HVal{o, HS("x"), HN(1), HB(true), {Kind: "l", Kids: []*HVal{list}}}
		}
		it.Val = bad[choose(len(bad))]
	case "fraction", "range":
		var fit []spot
		for _, b := range all {
			for i := range b.Items {
				if v := b.Items[i].Val; v != nil && v.Kind == "n" && !strings.HasSuffix(b.Items[i].Name, "_factor") {
					fit = append(fit, spot{b, i})
				}
			}
		}
		if len(fit) == 0 {
			return "", false
		}
		s := fit[choose(len(fit))]
		if k.Mistake == "fraction" {
			s.b.Items[s.i].Val = &HVal{Kind: "raw", Text: []S{"1.5", "-0.1", "1e-3", "3.0000001"}[choose(4)]}
		} else {
			s.b.Items[s.i].Val = &HVal{Kind: "raw", Text: []S{"9223372036854775808", "-9223372036854775809", "1e40", "18446744073709551616", "-1e19"}[choose(5)]}
		}
	case "label":
		b := pick(func(b *HBlock) bool { return len(b.Labels) > 0 })
		if b == nil {
			return "", false
		}
		b.Labels = b.Labels[:choose(len(b.Labels))]
	case "labels":
		b := pick(func(b *HBlock) bool { return b != d })
		if b == nil {
			return "", false
		}
		b.Labels = append(b.Labels[:len(b.Labels):len(b.Labels)], "x")
	case "twice":
		b := pick(func(b *HBlock) bool {
			for _, it := range b.Items {
				if it.Block != nil && (it.Block.Type == "parameters" || it.Block.Type == "storage_parameters" || it.Block.Type == "owned_by") {
					return true
				}
			}
			return false
		})
		if b == nil {
			return "", false
		}
		for _, it := range b.Items {
			if it.Block != nil && (it.Block.Type == "parameters" || it.Block.Type == "storage_parameters" || it.Block.Type == "owned_by") {
				b.Items = append(b.Items, it)
				break
			}
		}
	case "repeated":
		b := pick(func(b *HBlock) bool {
			for _, it := range b.Items {
				if it.Block == nil {
					return true
				}
			}
			return false
		})
		if b == nil {
			return "", false
		}
		for _, it := range b.Items {
			if it.Block == nil {
				b.Items = append(b.Items, it)
				break
			}
		}
	case "brace":
		s := render()
		i := strings.LastIndex(s, "}")
		if i < 0 || strings.Contains(s[i:], "#") {
			return "", false
		}
		s = s[:i] + s[i+1:]
		return s, true
	case "open brace":
		return render() + "\n}\n", true
	case "variable", "function", "no value":
		it := attr("snbl")
		if it == nil {
			return "", false
		}
		texts := map[string][]S{
			"variable": {"nosuch", "var.x", "local.name", "env.HOME", "self", "self.name", "path.module", "each.key", "public", "t", "on", "yes", "off", "no", "none", "schema", "name", "table.x.name", "\"${nosuch}\"", "\"${env.HOME}\"", "\"${name}\"", "nil", "True", "TRUE", "NULL"},
			"function": {"upper(\"a\")", "lower(\"A\")", "env(\"HOME\")", "file(\"/etc/hostname\")", "\"${upper(\"a\")}\"", "min(1, 2)", "concat([\"a\"], [\"b\"])", "jsonencode(1)", "trimspace(\"a\")", "format(\"%s\", \"a\")", "join(\",\", [\"a\"])", "length(\"a\")", "int(1)", "tostring(1)"},
			"no value": {""},
		}[k.Mistake]
		it.Val = &HVal{Kind: "raw", Text: texts[choose(len(texts))]}
	}
	return render(), true
}

func runMistake(c *Ctx, k ReadCase) {
	text, ok := k.spoil(k.M.doc())
	if !ok {
		return
	}
	c.NonTrivial()
	c.Class("%s", k.Mistake)
	_, err := read(c, text)
	c.Check(err != nil, "accepted although it is wrong (%s)\n%s", k.Mistake, text)
}

// ---------------------------------------------------------------- any text

var hclAtoms = []string{
	"schema", "function", "table", "index", "trigger", "parameters", "sequence", "column", "check", "foreign_key", "key", "storage_parameters", "owned_by", " ", "\n", "\"", "{", "}", "=", "\"a\"", "\"b\"",
	"[", "]", ",", "owner", "comment", "type", "start", "cycle", "columns", "${", "%{", "$${", "}", "~}",
	"if true", "else", "endif", "for x in [1]", "(", ")", "<<EOT\n", "EOT\n", "<<-EOT\n", "null", "true", "false", "1", "-", "1e999999", "0x1", "1.", ".", "..", "?", ":", "+", "/", "%", "*", "!", "&&", "||", "==", "=>", "...",
	"#", "//", "/*", "*/", "\\", "\\u12", "\\U0001F600", "\\n", "\r\n", "\t", "\x00", "\xff", "\xef\xbb\xbf", "é", "foo.bar", "foo[0]", "foo.*", "foo[*]", "f(x)", "'", "`", ";", "@", "1/0", "{a=1}", "[for x in y: x]", "-5", "1-",
	"schema \"a\" {\n", "table \"a\" \"b\" {\n", "column \"c\" {\n", "type = \"x\"\n", "}\n", "}", "index \"a\" \"b\" \"c\" {\n", "sequence \"a\" \"b\" {\nstart = ", "parameters {\n",
}

func genAny(t *rapid.T) ReadCase {
	var k ReadCase
	var s string
	switch Int(t, "how", 0, 3) {
	case 0:
		for n := Int(t, "n", 0, 25); n > 0; n-- {
			s += rapid.SampledFrom(hclAtoms).Draw(t, "atom")
		}
	case 1:
		s = string(rapid.SliceOfN(rapid.Byte(), 0, 40).Draw(t, "bytes"))
	default:
		x := genRead(t)
		s = (&HRender{Tape: x.Tape}).Doc(x.M.doc())
		for n := Int(t, "edits", 0, 3); n > 0; n-- {
			i := Int(t, "at", 0, len(s))
			j := min(i+Int(t, "del", 0, 6), len(s))
			ins := ""
			if Bool(t, "ins") {
				ins = rapid.SampledFrom(hclAtoms).Draw(t, "atom")
			}
			s = s[:i] + ins + s[j:]
		}
	}
	k.Text = S(s)
	return k
}

func runAny(c *Ctx, k ReadCase) {
	db, err := read(c, string(k.Text))
	if err != nil {
		return
	}
	c.Class("accepted")
	c.NonTrivialIf(len(k.Text) > 10)
	// what was accepted can be written and read back
	text := writeDB(c, db)
	back, err := read(c, text)
	c.Check(err == nil, "what was written is refused: %v\n%s\nread from\n%s", err, text, k.Text)
	a, b := dump(db), dump(back)
	c.Check(a == b, "what is read back differs: %s\n%s\nread from\n%s", firstDiff(a, b), text, k.Text)
}

func runNoFile(c *Ctx, k int) {
	for _, name := range []string{os.TempDir() + "/no such file.hcl", os.TempDir(), "", "/dev/null/x"} {
		db, err := ddl.ParseFile(name)
		c.Check(db == nil && err != nil, "ParseFile(%q) returns %v and %v", name, db, err)
	}
	c.NonTrivial()
	_ = fmt.Sprint(k)
}

func init() {
	Add("D02", "read", Opt{Quick: 1500, Thorough: 60000,
		Rule: "random description written by an independent renderer from a table of the file format, in equivalent spellings, with optional parts left out and parts reordered; non-trivial: two or more kinds of objects"},
		genRead, runRead)
	Add("D02", "mistake", Opt{Quick: 2000, Thorough: 80000,
		Rule: "a description with exactly one mistake; non-trivial: the mistake fits the description"},
		genMistake, runMistake)
	Add("D02", "any", Opt{Quick: 3000, Thorough: 120000,
		Rule: "random HCL-like text, random bytes and damaged descriptions; what is accepted is also written and read back; non-trivial: accepted and not empty"},
		genAny, runAny)
	Add("D02", "nofile", Opt{Quick: 1, Thorough: 1, Rule: "files that can't be read"},
		func(t *rapid.T) int { return Int(t, "x", 0, 1) }, runNoFile)
}
