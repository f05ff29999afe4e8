//go:build go1.23

package main

import (
	"bytes"
	"fmt"
	"hash/fnv"
	"math"
	"os"
	"reflect"
	"strings"

	"github.com/sjansen/pgutil/internal/ddl"
	. "github.com/sjansen/pgutil/internal/zzverif/engine"
	"github.com/sjansen/pgutil/internal/zzverif/rapid"
)

// ---------------------------------------------------------------- models

// M is a description: field name -> value, for one struct of package ddl.  It is
// built by reflection, so it follows the structs.
type M struct {
	Text map[string]S       `json:",omitempty"`
	Int  map[string]int64   `json:",omitempty"`
	Flt  map[string]float64 `json:",omitempty"`
	Bool map[string]bool    `json:",omitempty"`
	List map[string][]S     `json:",omitempty"`
	Subs map[string][]*M    `json:",omitempty"`
}

type genOpt struct {
	text func(t *rapid.T, name string) S
	subs func(t *rapid.T, name string) int
}

var hardInts = []int64{0, 0, 1, 1, 2, 32, -1, 100, 1<<31 - 1, -1 << 31, 1 << 32, 1 << 52, 1<<53 - 1, 1 << 53, 1<<53 + 1, 1<<62 + 1, 1<<63 - 1, -1 << 63, -1<<63 + 1, 1e15, 1e16, 1e18, 123456789012345678}
var hardFloats = []float64{0, 0.1, 0.2, 1, 100, 0.05, 1e-5, 1.0 / 3, 1e10, 1e21, 5e-324, 1.7976931348623157e308, 0.30000000000000004, 123456.789, -1}

func hclTag(f reflect.StructField) (name, kind string) {
	tag := f.Tag.Get("hcl")
	if i := strings.Index(tag, ","); i >= 0 {
		return tag[:i], tag[i+1:]
	}
	return tag, "attr"
}

func genM(t *rapid.T, typ reflect.Type, o genOpt) *M {
	m := &M{}
	for i := 0; i < typ.NumField(); i++ {
		f := typ.Field(i)
		ft := f.Type
		n := f.Name
		_, kind := hclTag(f)
		if ft.Kind() == reflect.Ptr && ft.Elem().Kind() != reflect.Struct {
			if !Chance(t, n+"?", 40) {
				continue
			}
			ft = ft.Elem()
		} else if kind == "optional" && !Chance(t, n+"?", 60) {
			continue
		}
		switch ft.Kind() {
		case reflect.String:
			if m.Text == nil {
				m.Text = map[string]S{}
			}
			m.Text[n] = o.text(t, n)
		case reflect.Int, reflect.Int64:
			if m.Int == nil {
				m.Int = map[string]int64{}
			}
			if Bool(t, n+"h") {
				m.Int[n] = Pick(t, n, hardInts...)
			} else {
				m.Int[n] = rapid.Int64().Draw(t, n)
			}
		case reflect.Float64:
			if m.Flt == nil {
				m.Flt = map[string]float64{}
			}
			if Bool(t, n+"h") {
				m.Flt[n] = Pick(t, n, hardFloats...)
			} else {
				m.Flt[n] = rapid.Float64().Draw(t, n)
				if x := m.Flt[n]; x != x || x-x != 0 || lossy(x) {
					m.Flt[n] = 1
				}
			}
		case reflect.Bool:
			if m.Bool == nil {
				m.Bool = map[string]bool{}
			}
			m.Bool[n] = Bool(t, n)
		case reflect.Slice:
			if ft.Elem().Kind() == reflect.String {
				if m.List == nil {
					m.List = map[string][]S{}
				}
				l := []S{}
				for k := Int(t, n+"#", 0, 3); k > 0; k-- {
					l = append(l, o.text(t, n))
				}
				m.List[n] = l
				continue
			}
			for k := o.subs(t, n); k > 0; k-- {
				if m.Subs == nil {
					m.Subs = map[string][]*M{}
				}
				m.Subs[n] = append(m.Subs[n], genM(t, ft.Elem().Elem(), o))
			}
			if k := len(m.Subs[n]); k > 0 && Chance(t, n+"many", 1) {
				for i := []int{17, 33, 65, 101}[Even(t, n+"more", 4)]; i > 0; i-- {
					m.Subs[n] = append(m.Subs[n], m.Subs[n][k-1].renamed(fmt.Sprintf("m%d", i)))
				}
			}
		case reflect.Ptr:
			if Bool(t, n+"??") {
				if m.Subs == nil {
					m.Subs = map[string][]*M{}
				}
				m.Subs[n] = []*M{genM(t, ft.Elem(), o)}
			}
		default:
			Harnessf("unexpected field type %v of %v.%v", ft, typ, n)
		}
	}
	return m
}

// renamed is a copy with other short texts.
func (m *M) renamed(name string) *M {
	x := *m
	x.Text = map[string]S{}
	for k, s := range m.Text {
		if k == "Name" || k == "Column" || k == "Comment" || k == "Expression" {
			s = S(name)
		}
		x.Text[k] = s
	}
	return &x
}

// lossy says whether x is a power of two outside the usual range: see finding
// power-of-two.
func lossy(x float64) bool {
	frac, exp := math.Frexp(math.Abs(x))
	return frac == 0.5 && (exp < -20 || exp > 60)
}

// build makes the struct.
func (m *M) build(v reflect.Value) {
	typ := v.Type()
	for i := 0; i < typ.NumField(); i++ {
		n := typ.Field(i).Name
		f := v.Field(i)
		ft := f.Type()
		if ft.Kind() == reflect.Ptr && ft.Elem().Kind() != reflect.Struct {
			set := reflect.New(ft.Elem())
			e := set.Elem()
			ok := false
			switch e.Kind() {
			case reflect.Int, reflect.Int64:
				var x int64
				x, ok = m.Int[n]
				e.SetInt(x)
			case reflect.Float64:
				var x float64
				x, ok = m.Flt[n]
				e.SetFloat(x)
			case reflect.Bool:
				var x bool
				x, ok = m.Bool[n]
				e.SetBool(x)
			}
			if ok {
				f.Set(set)
			}
			continue
		}
		switch ft.Kind() {
		case reflect.String:
			f.SetString(string(m.Text[n]))
		case reflect.Int, reflect.Int64:
			f.SetInt(m.Int[n])
		case reflect.Float64:
			f.SetFloat(m.Flt[n])
		case reflect.Bool:
			f.SetBool(m.Bool[n])
		case reflect.Slice:
			if ft.Elem().Kind() == reflect.String {
				if l, ok := m.List[n]; ok {
					out := reflect.MakeSlice(ft, 0, len(l))
					for _, s := range l {
						out = reflect.Append(out, reflect.ValueOf(string(s)))
					}
					f.Set(out)
				}
				continue
			}
			for _, s := range m.Subs[n] {
				e := reflect.New(ft.Elem().Elem())
				s.build(e.Elem())
				f.Set(reflect.Append(f, e))
			}
		case reflect.Ptr:
			if ss := m.Subs[n]; len(ss) > 0 {
				e := reflect.New(ft.Elem())
				ss[0].build(e.Elem())
				f.Set(e)
			}
		}
	}
}

func (m *M) database() *ddl.Database {
	db := &ddl.Database{}
	m.build(reflect.ValueOf(db).Elem())
	return db
}

// dump shows a description completely; nil and empty lists look alike.
func dump(x interface{}) string {
	var sb strings.Builder
	dumpValue(&sb, reflect.ValueOf(x), "")
	return sb.String()
}

func dumpValue(sb *strings.Builder, v reflect.Value, ind string) {
	switch v.Kind() {
	case reflect.Ptr:
		if v.IsNil() {
			sb.WriteString("nil\n")
			return
		}
		dumpValue(sb, v.Elem(), ind)
	case reflect.Struct:
		sb.WriteString(v.Type().Name() + "\n")
		for i := 0; i < v.NumField(); i++ {
			sb.WriteString(ind + "  " + v.Type().Field(i).Name + ": ")
			dumpValue(sb, v.Field(i), ind+"  ")
		}
	case reflect.Slice:
		fmt.Fprintf(sb, "%d\n", v.Len())
		for i := 0; i < v.Len(); i++ {
			sb.WriteString(ind + "  - ")
			dumpValue(sb, v.Index(i), ind+"  ")
		}
	case reflect.String:
		fmt.Fprintf(sb, "%q\n", v.String())
	default:
		fmt.Fprintf(sb, "%v\n", v.Interface())
	}
}

// firstDiff shows where two dumps differ.
func firstDiff(a, b string) string {
	x, y := strings.Split(a, "\n"), strings.Split(b, "\n")
	for i := 0; i < len(x) && i < len(y); i++ {
		if x[i] != y[i] {
			return fmt.Sprintf("line %d: %s\ninstead of: %s", i, y[i], x[i])
		}
	}
	return fmt.Sprintf("%d lines instead of %d", len(y), len(x))
}

// ---------------------------------------------------------------- D01

func anyText(t *rapid.T, name string) S {
	switch Int(t, name+"k", 0, 7) {
	case 0, 1:
		return S(Pick(t, name, "", "a", "public", "id", "nextval('t_id_seq'::regclass)", "now() + '1 day'::interval", "x > 0 AND y <> 'a'", "\nBEGIN\n  RETURN NEW;\nEND;\n"))
	case 2:
		return S(Ident(t, name))
	}
	return S(Normal(Text(t, name, 8)))
}

func genDB(t *rapid.T) *M {
	deep := Pick(t, "size", 1, 2, 2, 3)
	return genM(t, reflect.TypeOf(ddl.Database{}), genOpt{
		text: anyText,
		subs: func(t *rapid.T, n string) int { return Int(t, n+"#", 0, deep) },
	})
}

func writeDB(c *Ctx, db *ddl.Database) string {
	var w bytes.Buffer
	var err error
	c.Protect("Write", func() { err = db.Write(&w) })
	c.Check(err == nil, "Write: %v", err)
	return w.String()
}

func runRoundTrip(c *Ctx, m *M) {
	db := m.database()
	before := dump(db)
	text := writeDB(c, db)
	c.Check(dump(db) == before, "writing changed the description")
	var back *ddl.Database
	var err error
	c.Protect("ParseBytes", func() { back, err = ddl.ParseBytes([]byte(text), "x.hcl") })
	c.Check(err == nil && back != nil, "what was written is refused: %v\n%s", err, text)
	after := dump(back)
	c.NonTrivialIf(len(m.Subs) > 1)
	c.Check(after == before, "what is read back differs: %s\n%s", firstDiff(before, after), text)
	again := writeDB(c, back)
	c.Check(again == text, "writing it again gives different text\n%s\n---\n%s", text, again)
}

func tempFile(text string) string {
	// how a file is called says nothing about what is in it
	h := fnv.New32()
	h.Write([]byte(text))
	endings := []string{".hcl", ".hcl", ".json", ".tf", "", ".HCL", ".hcl.json", ".txt", " x.hcl", ".hcl~"}
	f, err := os.CreateTemp("", "db*"+endings[h.Sum32()%uint32(len(endings))])
	if err != nil {
		Harnessf("%v", err)
	}
	if _, err := f.WriteString(text); err != nil {
		Harnessf("%v", err)
	}
	f.Close()
	return f.Name()
}

func demoLoss(text S, f float64) func(c *Ctx) {
	return func(c *Ctx) {
		m := &M{Subs: map[string][]*M{
			"Schemas": {{Text: map[string]S{"Name": "public", "Comment": text}}},
			"Tables":  {{Subs: map[string][]*M{"StorageParameters": {{Flt: map[string]float64{"AutovacuumVacuumScaleFactor": f}}}}}},
		}}
		runRoundTrip(c, m)
	}
}

func init() {
	Known("D01", "nfc", demoLoss("e\u0301", 1))
	Known("D01", "power-of-two", demoLoss("", math.Ldexp(1, -24)))
	Add("D01", "roundtrip", Opt{Quick: 1500, Thorough: 60000,
		Rule: "random description built by reflection over all fields; non-trivial: two or more kinds of objects"},
		genDB, runRoundTrip)
}
