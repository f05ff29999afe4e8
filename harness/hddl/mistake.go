//go:build go1.23

package main

import (
	"strings"
	"unicode/utf8"

	. "github.com/sjansen/pgutil/internal/zzverif/engine"
	"github.com/sjansen/pgutil/internal/zzverif/rapid"
)

// parseErr runs a parser and returns its error's text ("" if it accepts).
func parseErr(c *Ctx, kind, text string) string {
	_, err := parse(c, kind, text)
	if err == nil {
		return ""
	}
	return err.Error()
}

// where returns the line of a position and its column.
func lineOf(text string, pos int) (line string, col int) {
	start := strings.LastIndexByte(text[:pos], '\n') + 1
	end := strings.IndexByte(text[pos:], '\n')
	if end < 0 {
		end = len(text)
	} else {
		end += pos
	}
	return text[start:end], pos - start
}

// ended says whether a message speaks of the end of the text.
func ended(msg string) bool { return !strings.Contains(msg, "\n") }

// shows says whether a message shows a position; columns of text that is not
// plain ASCII may be counted in characters or bytes.
func shows(msg, text string, pos int) bool {
	line, col := lineOf(text, pos)
	for _, n := range []int{col, utf8.RuneCountInString(line[:col])} {
		if strings.HasSuffix("\n"+msg, "\n"+line+"\n"+strings.Repeat(" ", n)+"^") {
			return true
		}
	}
	return false
}

// ---------------------------------------------------------------- injected mistakes

// Mistaken is a definition with a mistake at a known place.
type Mistaken struct {
	Spell
	At   int
	With string
	Cut  bool `json:",omitempty"`
}

var wrong = []string{"@", "#", "!", "?", "%", "&", "=", "+", "\\", "`", "^", "\x01"}

func genMistaken(t *rapid.T) Mistaken {
	kind := Pick(t, "kind", "check", "fk", "index", "trigger")
	m := Mistaken{Spell: genSpell(kind)(t), At: Int(t, "at", 0, 9999)}
	if w := m.Wide; w != nil && Bool(t, "wider") {
		w.N *= 14
		m.At = Even(t, "atwide", 200000)
	}
	if Chance(t, "cut", 25) {
		m.Cut = true
	} else {
		m.With = Pick(t, "with", wrong...) + Pick(t, "then", "", "", " ", "\n", "x", "\nfoo\nbar", "é\n")
	}
	return m
}

func runMistaken(c *Ctx, m Mistaken) {
	text, ps := m.render()
	kind := m.D.Kind
	// every place before the first character of a piece outside opaque text, or inside a keyword or
	// white space; identifiers only at their beginning and end
	var places []int
	for _, p := range ps {
		if p.Kind == 'e' {
			if kind == "check" || kind == "index" && p.Pos > 0 {
				// from here on characters may be part of the text
				if kind == "check" {
					break
				}
				if strings.HasPrefix(string(m.D.Where), p.Text) && p.Pos+len(p.Text) == len(text) {
					break
				}
				continue
			}
		}
		for i := 0; i <= len(p.Text); i++ {
			if i == 0 || p.Kind != 'p' && i < len(p.Text) {
				places = append(places, p.Pos+i)
			}
		}
	}
	if kind == "check" {
		// the text inside the parentheses is open ended
		i := strings.IndexByte(text, '(')
		n := 0
		for _, p := range places {
			if p <= i {
				places[n] = p
				n++
			}
		}
		places = places[:n]
	}
	if kind == "index" && m.D.Where != "" {
		// nor is the white space before the predicate, but for its beginning
		i := ps[len(ps)-2].Pos
		n := 0
		for _, p := range places {
			if p <= i {
				places[n] = p
				n++
			}
		}
		places = places[:n]
	}
	pos := places[m.At%len(places)]
	if m.Cut {
		cut := text[:pos]
		if strict[kind].MatchString(cut) {
			return
		}
		msg := parseErr(c, kind, cut)
		c.Check(msg != "", "accepted although it is cut off\n%s", cut)
		c.Check(ended(msg), "the text ended too early, but the error is\n%s\nof\n%s", msg, cut)
		c.NonTrivial()
		return
	}
	bad := text[:pos] + m.With + text[pos:]
	msg := parseErr(c, kind, bad)
	c.Check(msg != "", "accepted with a mistake at %d\n%s", pos, bad)
	c.Check(shows(msg, bad, pos), "the mistake is at byte %d of\n%s\nbut the error is\n%s", pos, bad, msg)
	c.NonTrivialIf(strings.Contains(text[:pos], "\n") || pos > 3)
	c.Class("%s", kind)
}

// ---------------------------------------------------------------- any text

func genAnyDef(t *rapid.T) Edited {
	e := genEdited(Pick(t, "kind", "check", "fk", "index", "trigger"))(t)
	if e.Wide != nil {
		e.Wide.N = 30
	}
	return e
}

// runPrefixes: a definition is read from left to right, so the position
// reported for a text is the one reported for all beginnings that include it,
// and shorter beginnings are complete or end too early.
func runPrefixes(c *Ctx, e Edited) {
	kind, text := e.D.Kind, e.text()
	msg := parseErr(c, kind, text)
	if msg == "" || ended(msg) {
		c.Class("accepted or ended")
		for i := range text {
			if m := parseErr(c, kind, text[:i]); m != "" {
				c.Check(ended(m), "the whole text can be continued or is complete, but its first %d bytes are refused with\n%s\ntext %q", i, m, text)
			}
		}
		return
	}
	c.NonTrivial()
	// the first beginning that cannot be continued
	pos := -1
	for i := 0; i < len(text); i++ {
		m := parseErr(c, kind, text[:i+1])
		if m != "" && !ended(m) {
			pos = i
			break
		}
	}
	c.Check(pos >= 0, "no beginning of the text is wrong, but the whole is\n%s\ntext %q", msg, text)
	for i := pos + 1; i <= len(text); i++ {
		m := parseErr(c, kind, text[:i])
		c.Check(shows(m, text[:i], pos), "the first character that is wrong is at %d, but the error is\n%s\ntext %q", pos, m, text[:i])
	}
}

func init() {
	Add("D07", "mistake", Opt{Quick: 15000, Rule: "a wrong character is put into a rendered definition at a place where nothing else may stand, or the definition is cut off; the error has to show that line and place, or say that the text ended; non-trivial: the place is not among the first characters"}, genMistaken, runMistaken)
	Add("D07", "prefixes", Opt{Quick: 1200, Rule: "for edited definitions, the errors of all beginnings of the text have to agree on the first wrong character; non-trivial: some character is wrong"}, genAnyDef, runPrefixes)
}
