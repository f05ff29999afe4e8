//go:build go1.23

package engine

import (
	"encoding/base64"
	"encoding/json"
	"fmt"
	"strings"
	"unicode/utf8"

	"github.com/sjansen/pgutil/internal/zzverif/rapid"
)

// S is a string that survives JSON even when it is not valid UTF-8.
type S string

// MarshalJSON implements json.Marshaler.
func (s S) MarshalJSON() ([]byte, error) {
	if utf8.ValidString(string(s)) && !strings.ContainsRune(string(s), utf8.RuneError) {
		return json.Marshal(string(s))
	}
	return json.Marshal(map[string]string{"b64": base64.StdEncoding.EncodeToString([]byte(s))})
}

// UnmarshalJSON implements json.Unmarshaler.
func (s *S) UnmarshalJSON(data []byte) error {
	if len(data) > 0 && data[0] == '{' {
		m := map[string]string{}
		if err := json.Unmarshal(data, &m); err != nil {
			return err
		}
		b, err := base64.StdEncoding.DecodeString(m["b64"])
		*s = S(b)
		return err
	}
	var x string
	err := json.Unmarshal(data, &x)
	*s = S(x)
	return err
}

// ---------------------------------------------------------------- shared generators

// Int draws an int in [lo, hi].
func Int(t *rapid.T, name string, lo, hi int) int { return rapid.IntRange(lo, hi).Draw(t, name) }

// Bool draws a bool.
func Bool(t *rapid.T, name string) bool { return rapid.Bool().Draw(t, name) }

// Chance is true about pct percent of the time, shrinking to false.
func Chance(t *rapid.T, name string, pct int) bool {
	return rapid.IntRange(0, 99).Draw(t, name) >= 100-pct
}

// Even draws from 0..n-1, each about equally often.
func Even(t *rapid.T, name string, n int) int { return rapid.IntRange(0, 1<<40).Draw(t, name) % n }

// Pick draws one of the values.
func Pick[V any](t *rapid.T, name string, vs ...V) V { return rapid.SampledFrom(vs).Draw(t, name) }

// Perm draws a permutation of 0..n-1.
func Perm(t *rapid.T, name string, n int) []int {
	p := make([]int, n)
	for i := range p {
		p[i] = i
	}
	if n < 2 {
		return p
	}
	return rapid.Permutation(p).Draw(t, name)
}

var nastyAtoms = []string{
	"a", "b", "Z", "_", "0", "9", " ", "  ", "\t", "\n", "\r\n", "\"", "\\", "'", "''", "$", "${", "%{", "$${", "%%{", "}",
	"$$", "{", "[", "]", "(", ")", "<", ">", "/", ";", ":", ",", ".", "-", "--", "->", "*", "=", "#", "%", "@", "&", "|", "~", "?", "!", "`", "^",
	"é", "ß", "漢", "🙂", "\u00a0", "\u200b", "\ufeff", "\u2028", "e\u0301", "\x01", "\x7f", "\\n", "\\u0041", "\\u003c", "\\\"", "\\\\", "%s", "%d", "&lt;", "&#34;", "\x1b[31m", "null", "true",
	"/*", "*/", "//", "<<EOT", "\u0130", "ǅ", "ſ",
}

// Text draws text rich in characters that need quoting somewhere.
// It is valid UTF-8 without NUL.
func Text(t *rapid.T, name string, maxAtoms int) string {
	n := rapid.IntRange(0, maxAtoms).Draw(t, name+"#")
	var sb strings.Builder
	for i := 0; i < n; i++ {
		if rapid.IntRange(0, 9).Draw(t, name+"k") == 9 {
			r := rapid.Rune().Draw(t, name+"r")
			if r == 0 || r == utf8.RuneError {
				r = 'x'
			}
			sb.WriteRune(r)
		} else {
			sb.WriteString(rapid.SampledFrom(nastyAtoms).Draw(t, name+"a"))
		}
	}
	if maxAtoms > 1 && rapid.IntRange(0, 39).Draw(t, name+"long") == 39 {
		atom := rapid.SampledFrom([]string{"x", "é", "漢", "long name ", "\"", "'", "\\", "🙂", "a.b", "${", "%"}).Draw(t, name+"la")
		sb.WriteString(strings.Repeat(atom, rapid.IntRange(1, 300).Draw(t, name+"l#")/len(atom)))
	}
	return sb.String()
}

// Ident draws a plain ASCII identifier: a letter, then letters, digits and underscores.
func Ident(t *rapid.T, name string) string {
	if Chance(t, name+"wide", 6) {
		n := Even(t, name+"width", 66)
		return rapid.StringMatching(fmt.Sprintf(`[a-zA-Z][_a-zA-Z0-9]{%d}`, n)).Draw(t, name)
	}
	switch rapid.IntRange(0, 9).Draw(t, name+"k") {
	case 9:
		return rapid.SampledFrom(wordIdents).Draw(t, name+"w")
	case 8:
		return rapid.StringMatching(`[a-zA-Z][_a-zA-Z0-9]{0,40}`).Draw(t, name) + strings.Repeat("x", rapid.SampledFrom([]int{0, 0, 0, 0, 30, 70, 260}).Draw(t, name+"l"))
	}
	return rapid.StringMatching(`[a-zA-Z][_a-zA-Z0-9]{0,6}`).Draw(t, name)
}

// identifiers that are prefixes of, equal to or contain keywords
var wordIdents = []string{
	"on", "ON", "of", "OR", "or", "using", "Where", "index", "unique", "create", "check", "key", "foreign", "references",
	"match", "full", "simple", "set", "null", "no", "action", "not", "deferrable", "initially", "deferred", "immediate",
	"update", "delete", "insert", "truncate", "trigger", "execute", "procedure", "function", "for", "each", "row",
	"statement", "before", "after", "instead", "o", "on_", "ofx", "nota", "deferrabl", "desc", "DESC", "asc", "nulls", "table", "select",
	"constraint", "u", "us", "usin", "w", "wher", "x1", "i", "d", "n", "e", "f", "m",
}

// Normal replaces the characters that Unicode normalisation (NFC), which HCL
// applies to text, could change.
func Normal(s string) string {
	return strings.Map(func(r rune) rune {
		switch {
		case r < 0x180, r >= 0x400 && r < 0x460, r >= 0x4e00 && r < 0x9fa6, r >= 0x1f300 && r < 0x1f650,
			r == 0x200b, r == 0xfeff, r == 0x2028, r == 0x2029, r == 0x1c5, r == 0x10ffff, r == 0xe000, r == 0xfffe:
			return r
		}
		return 'x'
	}, s)
}

// Size draws a size evenly from a logarithmic scale: any small number, and now
// and then one beyond whatever limit somebody might have thought sufficient.
func Size(t *rapid.T, name string, max int) int {
	bits := 0
	for 1<<bits < max {
		bits++
	}
	n := 1 << Even(t, name+"bits", bits+1)
	n += Even(t, name, n)
	if n > max {
		n = max
	}
	return n
}

// Lengthen makes pct percent of strings longer than 60 and up to max bytes, by
// repeating a piece of text in the middle; the ends stay as they are.
func Lengthen(t *rapid.T, name string, s S, pct, max int, pieces ...string) S {
	if !Chance(t, name+"long", pct) {
		return s
	}
	if len(pieces) == 0 {
		pieces = []string{"x", "ab ", "é", "0123456789"}
	}
	piece := Pick(t, name+"piece", pieces...)
	n := 60 + Size(t, name+"len", max)
	mid := len(s) / 2
	for mid > 0 && mid < len(s) && !utf8.RuneStart(s[mid]) {
		mid--
	}
	return s[:mid] + S(strings.Repeat(piece, n/len(piece)+1)) + s[mid:]
}
