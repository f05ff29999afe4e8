//go:build go1.23

package main

import (
	"bytes"
	"fmt"
	"io"
	"os"
	"path/filepath"
	"regexp"
	"strconv"
	"strings"

	"go.uber.org/zap"

	"github.com/sjansen/pgutil/internal/logger"
	. "github.com/sjansen/pgutil/internal/zzverif/engine"
	"github.com/sjansen/pgutil/internal/zzverif/rapid"
)

// ---------------------------------------------------------------- C02

// Logs is a sequence of messages to a logger.
type Logs struct {
	Verbosity int
	Debug     string // "", "buffer" or "file"
	File      bool   // the default log is a file
	Msgs      []Msg
	Same      int `json:",omitempty"` // if positive, so many different numbers are given to the messages
}

// Msg is a message.
type Msg struct {
	Level int    // 0 error, 1 warning, 2 info, 3 debug
	Kind  string // print, format, fields
	Text  S
	Via   string // "", "named", "with", "desugared"
}

func genLogs(t *rapid.T) *Logs {
	l := &Logs{Verbosity: Pick(t, "verbosity", 0, 1, 2, 3, 0, 1, 2, 3, -1, -5, 4, 5, 100, -128, 127, 128, 256, 259), Debug: Pick(t, "debug", "", "buffer", "file"), File: Chance(t, "file", 30)}
	for n := Int(t, "n", 0, 12); n > 0; n-- {
		l.Msgs = append(l.Msgs, Msg{Level: Int(t, "level", 0, 3), Kind: Pick(t, "kind", "print", "format", "fields"), Text: S(Pick(t, "text", "x", "", "50%", "%s %d", "a\nb", "a\tb", "é", "\x00", "ERROR", "tail\n", "long")), Via: Pick(t, "via", "", "", "named", "with", "desugared")})
	}
	for i, m := range l.Msgs {
		if m.Text == "long" {
			l.Msgs[i].Text = Lengthen(t, "text", m.Text, 40, 100000, "x", "y z", "a\nb", "é")
		}
	}
	if Chance(t, "many", 1) && len(l.Msgs) > 0 {
		for n := Size(t, "more", 2000); n > 0; n-- {
			m := l.Msgs[n%len(l.Msgs)]
			m.Level = n * 7 / 3 % 4
			if len(m.Text) < 100 {
				l.Msgs = append(l.Msgs, m)
			}
		}
	}
	if Chance(t, "same", 5) {
		l.Same = Pick(t, "numbers", 1, 1, 2, 3)
	}
	return l
}

// number is what message i is known by.
func (l *Logs) number(i int) int {
	if l.Same > 0 {
		return i % l.Same
	}
	return i
}

var levelNames = []string{"ERROR", "WARN", "INFO", "DEBUG"}

var mark = regexp.MustCompile(`<<(\d+)>>`)

func logOnce(log *zap.SugaredLogger, i int, m Msg) {
	text := fmt.Sprintf("<<%d>>%s", i, m.Text)
	switch m.Via {
	case "named":
		log = log.Named("name")
	case "with":
		log = log.With("key", "value")
	case "desugared":
		x := log.Desugar()
		switch m.Level {
		case 0:
			x.Error(text)
		case 1:
			x.Warn(text)
		case 2:
			x.Info(text)
		default:
			x.Debug(text)
		}
		return
	}
	type methods struct {
		print  func(...interface{})
		format func(string, ...interface{})
		fields func(string, ...interface{})
	}
	f := []methods{
		{log.Error, log.Errorf, log.Errorw},
		{log.Warn, log.Warnf, log.Warnw},
		{log.Info, log.Infof, log.Infow},
		{log.Debug, log.Debugf, log.Debugw},
	}[m.Level]
	switch m.Kind {
	case "print":
		f.print(text)
	case "format":
		f.format("<<%d>>%s", i, m.Text)
	default:
		f.fields(text, "n", i)
	}
}

// checkLog compares a log with the messages that belong in it.
func (l *Logs) checkLog(c *Ctx, what, text string, upTo int) {
	var want, got []string
	for i, m := range l.Msgs {
		if m.Level <= upTo {
			want = append(want, strconv.Itoa(l.number(i)))
		}
	}
	for _, m := range mark.FindAllStringSubmatch(text, -1) {
		got = append(got, m[1])
	}
	c.Check(strings.Join(got, " ") == strings.Join(want, " "), "verbosity %d: %s has messages %v instead of %v:\n%s", l.Verbosity, what, got, want, text)
	for i, m := range l.Msgs {
		if m.Level > upTo || l.Same > 0 {
			continue
		}
		at := strings.Index(text, fmt.Sprintf("<<%d>>", i))
		line := text[strings.LastIndexByte(text[:at], '\n')+1:]
		c.Check(strings.Contains(line[:strings.Index(line, "<<")], levelNames[m.Level]), "%s: message %d (%s) isn't labelled so: %q", what, i, levelNames[m.Level], line)
		if s := string(m.Text); s != "" && s != "\x00" && s != "tail\n" {
			rest := text[at+len(fmt.Sprintf("<<%d>>", i)):]
			c.Check(strings.HasPrefix(rest, s), "%s: message %d has text %q instead of %q", what, i, rest, s)
		}
	}
}

func runLogs(c *Ctx, l *Logs) {
	var out, dbg bytes.Buffer
	var def io.Writer = &out
	var debug io.Writer
	var files []*os.File
	temp := func() *os.File {
		f, err := os.CreateTemp(socketDir(), "log")
		if err != nil {
			Harnessf("%v", err)
		}
		files = append(files, f)
		return f
	}
	defer func() {
		for _, f := range files {
			f.Close()
			os.Remove(f.Name())
		}
	}()
	if l.File {
		def = temp()
	}
	switch l.Debug {
	case "buffer":
		debug = &dbg
	case "file":
		debug = temp()
	}
	log := logger.New(l.Verbosity, def, debug)
	shown, hidden := 0, 0
	upTo := max(0, min(3, l.Verbosity))
	for i, m := range l.Msgs {
		logOnce(log, l.number(i), m)
		if m.Level <= upTo {
			shown++
		} else {
			hidden++
		}
	}
	c.NonTrivialIf(shown > 0 && hidden > 0 || len(l.Msgs) > 1 && l.Debug != "")
	c.Class("verbosity %d", upTo)
	read := func(w io.Writer) string {
		switch x := w.(type) {
		case *bytes.Buffer:
			return x.String()
		case *os.File:
			data, err := os.ReadFile(x.Name())
			if err != nil {
				Harnessf("%v", err)
			}
			return string(data)
		}
		return ""
	}
	l.checkLog(c, "the log", read(def), upTo)
	if l.Debug != "" {
		c.Class("debug log: %s", l.Debug)
		l.checkLog(c, "the debug log", read(debug), 3)
	}
	if len(l.Msgs) == 0 && upTo < 2 {
		c.Check(read(def) == "", "nothing was logged but the log has %q", read(def))
	}
}

// Verbose is the program run with flags that change its verbosity.
type Verbose struct {
	Words []string // -v, -q, --verbose, --quiet, -vv, -qv ...
	After int      // of them, how many come after the command
	Debug bool
	Old   bool
	Runs  int
}

func genVerbose(t *rapid.T) *Verbose {
	v := &Verbose{Debug: Chance(t, "debug", 50), Old: Chance(t, "old", 50), Runs: Pick(t, "runs", 1, 1, 2)}
	for n := Int(t, "n", 0, 5); n > 0; n-- {
		v.Words = append(v.Words, Pick(t, "word", "-v", "-q", "--verbose", "--quiet", "-vv", "-qv", "-vq", "-qq", "-vvv"))
	}
	v.After = Int(t, "after", 0, len(v.Words))
	return v
}

func runVerbose(c *Ctx, v *Verbose) {
	dir := caseDir()
	defer dropCase(dir)
	book := `{"targets":{"a":{"class":"demo","config":{"string":"some text"}}},"tasks":{"b":{"target":"a/echo"}}}`
	if err := os.WriteFile(filepath.Join(dir, "book"), []byte(book), 0o600); err != nil {
		Harnessf("%v", err)
	}
	n := len(v.Words) - v.After
	args := append([]string{}, v.Words[:n]...)
	if v.Debug {
		args = append(args, "--debug=log")
	}
	args = append(args, "runbook", "run", "book")
	args = append(args, v.Words[n:]...)
	verbosity := 1
	for _, w := range v.Words {
		switch w {
		case "--verbose":
			verbosity++
		case "--quiet":
			verbosity--
		default:
			verbosity += strings.Count(w, "v") - strings.Count(w, "q")
		}
	}
	if v.Old {
		if err := os.WriteFile(filepath.Join(dir, "log"), []byte("earlier\n"), 0o600); err != nil {
			Harnessf("%v", err)
		}
	}
	c.NonTrivialIf(len(v.Words) > 0)
	c.Class("verbosity %d", max(0, min(3, verbosity)))
	what := fmt.Sprintf("pgutil %q", args)
	for i := 0; i < v.Runs; i++ {
		e := pgutil(c, dir, nil, "", args...)
		rest, logs := unlog(e.stdout)
		c.Check(e.code == 0 && rest == "some text\n", "%s: exit status %d, output %q", what, e.code, e.stdout)
		info, debug := len(logs["INFO"]) > 0, len(logs["DEBUG"]) > 0
		c.Check(info == (verbosity >= 2) && debug == (verbosity >= 3), "%s: verbosity %d, informational messages: %v, debug messages: %v:\n%s", what, verbosity, info, debug, e.stdout)
	}
	if v.Debug {
		data, err := os.ReadFile(filepath.Join(dir, "log"))
		text := string(data)
		c.Check(err == nil, "%s: no debug log: %v", what, err)
		if v.Old {
			c.Check(strings.HasPrefix(text, "earlier\n"), "%s: what was in the debug log is gone", what)
		}
		c.Check(strings.Count(text, "pgutil version=") == v.Runs, "%s: after %d runs the version is %d times in the debug log:\n%s", what, v.Runs, strings.Count(text, "pgutil version="), text)
		c.Check(strings.Contains(text, "DEBUG"), "%s: no debug messages in the debug log:\n%s", what, text)
	}
}

func init() {
	Add("C02", "messages", Opt{Quick: 20000, Thorough: 1000000,
		Rule: "Messages of all levels, in all the logger's ways, to loggers of any verbosity with or without a debug log. Non-trivial: some messages are shown and some hidden, or there is a debug log and more than one message."},
		genLogs, runLogs)
	Add("C02", "flags", Opt{Quick: 400, Thorough: 10000,
		Rule: "The program run with -v and -q in all spellings and positions, with or without a debug log. Non-trivial: at least one of them."},
		genVerbose, runVerbose)
}
