//go:build go1.23

package engine

import (
	"fmt"
	"strconv"
	"strings"
	"unicode/utf8"
)

// HBlock is an HCL block; the document itself is a block without a type.
type HBlock struct {
	Type   string `json:",omitempty"`
	Labels []S    `json:",omitempty"`
	Items  []HItem
}

// HItem is an attribute or a nested block.
type HItem struct {
	Name  string  `json:",omitempty"`
	Val   *HVal   `json:",omitempty"`
	Block *HBlock `json:",omitempty"`
}

// HVal is a value: "s" text, "n" number, "b" bool, "0" null, "l" list,
// "o" object or "raw", an expression put as it is.
type HVal struct {
	Kind string
	Text S       `json:",omitempty"`
	Keys []S     `json:",omitempty"`
	Kids []*HVal `json:",omitempty"`
}

// HS, HN, HB and HL make values.
func HS(s S) *HVal     { return &HVal{Kind: "s", Text: s} }
func HN(n int64) *HVal { return &HVal{Kind: "n", Text: S(strconv.FormatInt(n, 10))} }
func HB(b bool) *HVal  { return &HVal{Kind: "b", Text: S(strconv.FormatBool(b))} }
func HL(ss []S) *HVal {
	l := &HVal{Kind: "l"}
	for _, s := range ss {
		l.Kids = append(l.Kids, HS(s))
	}
	return l
}

// Attr sets an attribute.
func (b *HBlock) Attr(name string, v *HVal) *HBlock {
	for i := range b.Items {
		if b.Items[i].Block == nil && b.Items[i].Name == name {
			b.Items[i].Val = v
			return b
		}
	}
	b.Items = append(b.Items, HItem{Name: name, Val: v})
	return b
}

// Del removes an attribute.
func (b *HBlock) Del(name string) bool {
	for i := range b.Items {
		if b.Items[i].Block == nil && b.Items[i].Name == name {
			b.Items = append(b.Items[:i:i], b.Items[i+1:]...)
			return true
		}
	}
	return false
}

// Get returns an attribute or nil.
func (b *HBlock) Get(name string) *HVal {
	for i := range b.Items {
		if b.Items[i].Block == nil && b.Items[i].Name == name {
			return b.Items[i].Val
		}
	}
	return nil
}

// Add adds a nested block and returns it.
func (b *HBlock) Add(typ string, labels ...S) *HBlock {
	n := &HBlock{Type: typ, Labels: labels}
	b.Items = append(b.Items, HItem{Block: n})
	return n
}

// Blocks returns all blocks below, in order.
func (b *HBlock) Blocks() []*HBlock {
	var out []*HBlock
	for _, it := range b.Items {
		if it.Block != nil {
			out = append(out, it.Block)
			out = append(out, it.Block.Blocks()...)
		}
	}
	return out
}

// HRender writes a document; Tape picks among equivalent spellings and is all
// zeros when used up.
type HRender struct {
	Tape []int
	sb   strings.Builder
}

func (r *HRender) pick(n int) int {
	if len(r.Tape) == 0 {
		return 0
	}
	v := r.Tape[0]
	r.Tape = r.Tape[1:]
	return v % n
}

// Doc renders the document.
func (r *HRender) Doc(b *HBlock) string {
	r.body(b, 0)
	return r.sb.String()
}

func (r *HRender) comment() {
	switch r.pick(12) {
	case 9:
		r.sb.WriteString("# comment \" { ${\n")
	case 10:
		r.sb.WriteString("// comment '\n")
	case 11:
		r.sb.WriteString("/* comment\n } */\n")
	case 8:
		r.sb.WriteString("\n")
	}
}

func (r *HRender) body(b *HBlock, depth int) {
	ind := strings.Repeat([]string{"  ", "", "\t"}[r.pick(3)], depth)
	for _, it := range b.Items {
		r.comment()
		r.sb.WriteString(ind)
		if it.Block == nil {
			r.sb.WriteString(it.Name + []string{" = ", "=", "   =  "}[r.pick(3)] + r.val(it.Val, false))
			if r.pick(8) == 7 {
				r.sb.WriteString(" # trailing")
			}
			r.sb.WriteString("\n")
			continue
		}
		n := it.Block
		r.sb.WriteString(n.Type)
		for _, l := range n.Labels {
			r.sb.WriteString(" " + r.label(l))
		}
		if len(n.Items) == 0 && r.pick(2) == 0 {
			r.sb.WriteString(" {}\n")
			continue
		}
		r.sb.WriteString(" {\n")
		r.body(n, depth+1)
		r.sb.WriteString(ind + "}\n")
	}
}

// PlainIdent says whether s can be written without quotes.
func PlainIdent(s string) bool {
	for i, c := range s {
		if !(c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || i > 0 && (c >= '0' && c <= '9' || c == '_' || c == '-')) {
			return false
		}
	}
	return s != ""
}

func (r *HRender) label(s S) string {
	if PlainIdent(string(s)) && r.pick(3) == 1 {
		return string(s)
	}
	return `"` + r.escape(string(s)) + `"`
}

func (r *HRender) escape(s string) string {
	more := r.pick(6) == 5
	var sb strings.Builder
	for i, c := range s {
		switch {
		case c == utf8.RuneError:
			Harnessf("invalid text %q", s)
		case c == '"' || c == '\\':
			sb.WriteByte('\\')
			sb.WriteRune(c)
		case c == '\n':
			sb.WriteString(`\n`)
		case c == '\r':
			sb.WriteString(`\r`)
		case c == '\t':
			sb.WriteString(`\t`)
		case c < 0x20 || c == 0x7f || c == '$' || c == '%' || more && c < 0x10000 && (c > 0x7e || i%3 == 0):
			fmt.Fprintf(&sb, `\u%04x`, c)
		default:
			sb.WriteRune(c)
		}
	}
	return sb.String()
}

func (r *HRender) val(v *HVal, in bool) string {
	switch r.pick(10) {
	case 8:
		return "(" + r.val(v, true) + ")"
	case 9:
		if v.Kind != "0" && v.Kind != "l" && v.Kind != "o" {
			c := []string{"true", "1 < 2", "!false"}[r.pick(3)]
			return "(" + c + " ? " + r.val(v, true) + " : " + r.val(v, true) + ")"
		}
	}
	switch v.Kind {
	case "s":
		return r.str(string(v.Text), in)
	case "n":
		if n, err := strconv.ParseInt(string(v.Text), 10, 32); err == nil {
			switch r.pick(6) {
			case 3:
				return fmt.Sprintf("%d.0", n)
			case 4:
				return fmt.Sprintf("%d + 7", n-7)
			case 5:
				return fmt.Sprintf("%d / 2", n*2)
			}
		}
	case "b":
		switch r.pick(4) {
		case 2:
			if v.Text == "true" {
				return "!false"
			}
			return "!true"
		case 3:
			if v.Text == "true" {
				return "1 < 2"
			}
			return "2 < 1"
		}
	case "0":
		return "null"
	case "l":
		nl := []string{"", " ", "\n"}[r.pick(3)]
		s := "[" + nl
		for i, k := range v.Kids {
			if i > 0 {
				s += "," + []string{" ", "", "\n"}[r.pick(3)]
			}
			s += r.val(k, true)
		}
		if len(v.Kids) > 0 && r.pick(3) == 1 {
			s += ","
		}
		return s + nl + "]"
	case "o":
		s := "{\n"
		for i, k := range v.Kids {
			s += `"` + r.escape(string(v.Keys[i])) + `" = ` + r.val(k, true) + "\n"
		}
		return s + "}"
	}
	return string(v.Text)
}

func (r *HRender) str(s string, in bool) string {
	switch r.pick(8) {
	case 5:
		if !in && strings.HasSuffix(s, "\n") && !strings.ContainsAny(s, "$%\r") && !strings.Contains(s, "EOT") {
			return "<<EOT\n" + s + "EOT"
		}
	case 6:
		rs := []rune(s)
		m := len(rs) / 2
		return `"` + r.escape(string(rs[:m])) + `${"` + r.escape(string(rs[m:])) + `"}"`
	case 7:
		rs := []rune(s)
		m := len(rs) / 2
		return `"${"` + r.escape(string(rs[:m])) + `"}` + r.escape(string(rs[m:])) + `"`
	}
	return `"` + r.escape(s) + `"`
}
