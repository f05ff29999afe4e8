//go:build go1.23

package main

import (
	"bytes"
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"sync/atomic"
	"syscall"
	"time"
	"unsafe"

	"go.uber.org/zap"

	"github.com/sjansen/pgutil/internal/commands"
	"github.com/sjansen/pgutil/internal/logger"
	"github.com/sjansen/pgutil/internal/pg"
	"github.com/sjansen/pgutil/internal/runbook"
	"github.com/sjansen/pgutil/internal/sys"
	. "github.com/sjansen/pgutil/internal/zzverif/engine"
	"github.com/sjansen/pgutil/internal/zzverif/fakepg"
	"github.com/sjansen/pgutil/internal/zzverif/rapid"
)

// The program itself, built from the working tree, is run on generated command
// lines.

// ---------------------------------------------------------------- running the program

// program is the pgutil binary.
func program() string {
	p := os.Getenv("VERIF_PGUTIL")
	if p == "" {
		Harnessf("VERIF_PGUTIL is not set")
	}
	return p
}

var caseDirs uint32

// caseDir is a new directory.
func caseDir() string {
	d := filepath.Join(socketDir(), fmt.Sprintf("c%d", atomic.AddUint32(&caseDirs, 1)))
	if err := os.Mkdir(d, 0o700); err != nil {
		Harnessf("%v", err)
	}
	return d
}

// dropCase removes what caseDir made.
func dropCase(d string) {
	if strings.HasPrefix(d, socketDir()+"/c") {
		os.RemoveAll(d)
	}
}

// ended is how the program ended.
type ended struct {
	code   int
	stdout string
	stderr string
}

func ioctl(fd uintptr, req, arg uintptr) error {
	if _, _, e := syscall.Syscall(syscall.SYS_IOCTL, fd, req, arg); e != 0 {
		return e
	}
	return nil
}

// openPTY opens a pseudo terminal that leaves its output alone.
func openPTY() (master, slave *os.File, err error) {
	master, err = os.OpenFile("/dev/ptmx", os.O_RDWR|syscall.O_NOCTTY, 0)
	if err != nil {
		return nil, nil, err
	}
	var n, unlock int32
	if err = ioctl(master.Fd(), syscall.TIOCSPTLCK, uintptr(unsafe.Pointer(&unlock))); err == nil {
		err = ioctl(master.Fd(), syscall.TIOCGPTN, uintptr(unsafe.Pointer(&n)))
	}
	if err == nil {
		slave, err = os.OpenFile(fmt.Sprintf("/dev/pts/%d", n), os.O_RDWR|syscall.O_NOCTTY, 0)
	}
	if err == nil {
		var tio syscall.Termios
		if err = ioctl(slave.Fd(), syscall.TCGETS, uintptr(unsafe.Pointer(&tio))); err == nil {
			tio.Oflag &^= syscall.OPOST
			tio.Lflag &^= syscall.ECHO
			err = ioctl(slave.Fd(), syscall.TCSETS, uintptr(unsafe.Pointer(&tio)))
		}
	}
	if err != nil {
		master.Close()
		return nil, nil, err
	}
	return master, slave, nil
}

// pgutil runs the program.  Its standard output is a pipe, a terminal ("tty")
// or a device without room ("full").
func pgutil(c *Ctx, dir string, env map[string]string, stdout string, args ...string) ended {
	ctx, cancel := context.WithTimeout(context.Background(), patience)
	defer cancel()
	cmd := exec.CommandContext(ctx, program(), args...)
	cmd.Dir = dir
	cmd.Env = []string{"PATH=/usr/bin:/bin", "HOME=" + dir, "PGPASSFILE=" + dir + "/no-pgpass"}
	for k, v := range env {
		cmd.Env = append(cmd.Env, k+"="+v)
	}
	var out, errs bytes.Buffer
	cmd.Stderr = &errs
	finish := func() {}
	switch stdout {
	case "full":
		f, err := os.OpenFile("/dev/full", os.O_WRONLY, 0)
		if err != nil {
			Harnessf("%v", err)
		}
		defer f.Close()
		cmd.Stdout = f
	case "tty":
		master, slave, err := openPTY()
		if err != nil {
			Harnessf("pseudo terminal: %v", err)
		}
		cmd.Stdout = slave
		done := make(chan struct{})
		go func() {
			io.Copy(&out, master) // ends with EIO
			close(done)
		}()
		finish = func() {
			slave.Close()
			<-done
			master.Close()
		}
	default:
		cmd.Stdout = &out
	}
	err := cmd.Run()
	finish()
	c.Check(ctx.Err() == nil, "pgutil %q did not end within %v", args, patience)
	e := ended{stdout: out.String(), stderr: errs.String()}
	if err != nil {
		var x *exec.ExitError
		if !errors.As(err, &x) {
			Harnessf("running pgutil: %v", err)
		}
		e.code = x.ExitCode()
	}
	c.Check(e.code >= 0 && !strings.Contains(e.stderr, "goroutine "), "pgutil %q crashed (%d): %s", args, e.code, e.stderr)
	return e
}

// snapshot is what is in a directory.
func snapshot(dir string) map[string]string {
	m := map[string]string{}
	filepath.Walk(dir, func(path string, fi os.FileInfo, err error) error {
		if err != nil {
			Harnessf("%v", err)
		}
		rel, _ := filepath.Rel(dir, path)
		switch {
		case fi.Mode()&os.ModeSocket != 0:
		case fi.IsDir():
			m[rel] = "directory"
		case fi.Mode()&os.ModeSymlink != 0:
			to, _ := os.Readlink(path)
			m[rel] = "link to " + to
		default:
			data, _ := os.ReadFile(path)
			m[rel] = "file " + string(data)
		}
		return nil
	})
	return m
}

// changes is how two snapshots differ.
func changes(before, after map[string]string) map[string]string {
	d := map[string]string{}
	for k, v := range after {
		if before[k] != v {
			d[k] = v
		}
	}
	for k := range before {
		if _, ok := after[k]; !ok {
			d[k] = "gone"
		}
	}
	return d
}

var logLine = regexp.MustCompile(`^(?:\x1b\[\d+m)?(DEBUG|INFO|WARN|ERROR)(?:\x1b\[0m)?\t(.*)$`)

// unlog separates log messages from the rest of the output.
func unlog(s string) (rest string, levels map[string][]string) {
	levels = map[string][]string{}
	var b strings.Builder
	for _, l := range strings.SplitAfter(s, "\n") {
		if m := logLine.FindStringSubmatch(strings.TrimSuffix(l, "\n")); m != nil {
			levels[m[1]] = append(levels[m[1]], m[2])
		} else {
			b.WriteString(l)
		}
	}
	return b.String(), levels
}

// ---------------------------------------------------------------- run books

// Book is a run book whose tasks run one after the other.
type Book struct {
	Targets []S
	Tasks   []BookTask
	Init    S
}

// BookTask is a task of a Book.
type BookTask struct {
	Name   S
	Target int
	Task   string
}

func genBook(t *rapid.T) *Book {
	b := &Book{Init: S(Pick(t, "init", "hello", "Uryyb", "a b c", "x&y <z>", "é", "0"))}
	pool := []S{"one", "two", "three", "A", "b c", "zeta", "é", "x-y", "t.1", "a&b", "é2"}
	p := Perm(t, "names", len(pool))
	n := Int(t, "tasks", 1, 4)
	for i := 0; i < n; i++ {
		b.Tasks = append(b.Tasks, BookTask{Name: pool[p[i]], Target: Int(t, "target", 0, 1), Task: Pick(t, "task", "echo", "echo", "rev", "rot13")})
	}
	b.Targets = []S{pool[p[n]], pool[p[n+1]]}
	if Chance(t, "long", 2) {
		b.Init = Lengthen(t, "init", b.Init, 60, 150000)
		for m := Size(t, "more", 400); m > 0; m-- {
			x := b.Tasks[m%n]
			x.Name = S(fmt.Sprintf("task %d", m))
			b.Tasks = append(b.Tasks, x)
		}
	}
	return b
}

func (b *Book) json() []byte {
	targets := map[string]interface{}{}
	for _, x := range b.Targets {
		targets[string(x)] = map[string]interface{}{"class": "demo", "config": map[string]interface{}{"string": string(b.Init)}}
	}
	tasks := map[string]interface{}{}
	for i, x := range b.Tasks {
		m := map[string]interface{}{"target": string(b.Targets[x.Target]) + "/" + x.Task}
		if i > 0 {
			m["after"] = []string{string(b.Tasks[i-1].Name)}
		}
		tasks[string(x.Name)] = m
	}
	data, err := json.MarshalIndent(map[string]interface{}{"targets": targets, "tasks": tasks}, "", "  ")
	if err != nil {
		Harnessf("%v", err)
	}
	return data
}

// reference is what a command on a run book writes, according to the code
// below the command line.
func reference(cmd, file, splines string, color bool) string {
	var out, errs bytes.Buffer
	io := sys.IO{Log: logger.Discard(), Stdout: &out, Stderr: &errs}
	var err error
	switch cmd {
	case "list":
		err = (&commands.RunBookListCmd{File: file}).Run(&commands.Base{IO: io})
	case "run":
		err = runbook.Run(&io, file)
	case "dot":
		err = runbook.Dot(&io, file, &out, splines)
	case "eval":
		err = runbook.Eval(&io, file, &out, color)
	}
	if err != nil {
		return "error: " + err.Error()
	}
	return out.String()
}

// equal tells whether two outputs are the same.  The edges of a graph come in
// no particular order.
func equal(cmd, got, want string) bool {
	if cmd != "dot" || got == want {
		return got == want
	}
	a, b := strings.Split(got, "\n"), strings.Split(want, "\n")
	sort.Strings(a)
	sort.Strings(b)
	return strings.Join(a, "\n") == strings.Join(b, "\n")
}

// ---------------------------------------------------------------- command lines

// Flag is a flag on a command line.
type Flag struct {
	Name  string
	Value S
	Form  int // 0 --x=v, 1 --x v, 2 -xv, 3 -x v
}

// Line is a command line.
type Line struct {
	Cmd     string // ping, inspect, list, dot, eval, run, version
	Alias   bool   // ls; runbook without run
	Flags   []Flag
	Globals []Flag
	Slots   []int // of the globals: -1 before the command, 0 between its words, else after
	Order   []int // of the flags, the file and the globals after the command
	Dashes  bool  // -- before the file, if it's last
	Cluster bool  // short flags are joined
	File    S
	Book    *Book
	Cat     *Cat         // what there is to inspect
	Server  string       // plain, both, tls only
	EnvConn bool         // connection settings of the environment are decoys
	DebugX  bool         // the debug log exists
	Noise   map[string]S `json:",omitempty"` // environment variables nobody reads
	Old     S            // content of the output file
	TTY     bool
	Fault   string // what is wrong with the line
	FaultV  S
	At      int
}

var shorts = map[string]string{
	"host": "h", "port": "p", "dbname": "d", "username": "U", "output": "o", "color": "c", "O": "O", "long": "l",
	"quiet": "q", "verbose": "v",
}
var boolFlags = map[string]bool{"O": true, "long": true, "quiet": true, "verbose": true, "sort-columns": true, "sort-check-constraints": true, "sort-indexes": true}

var flagsOf = map[string][]string{
	"ping":    {"host", "port", "dbname", "username", "sslmode"},
	"inspect": {"host", "port", "dbname", "username", "sslmode", "output", "sort-columns", "sort-check-constraints", "sort-indexes"},
	"list":    nil,
	"dot":     {"output", "O", "splines"},
	"eval":    {"color", "output"},
	"run":     nil,
	"version": {"long"},
}

var lineFaults = []string{"unknown flag", "unknown command", "no command", "bad port", "bad sslmode", "bad splines", "bad color", "missing file", "directory", "no file", "extra argument", "no value", "repeated", "foreign flag", "debug nowhere"}

func hasFile(cmd string) bool { return cmd == "list" || cmd == "dot" || cmd == "eval" || cmd == "run" }
func connects(cmd string) bool {
	return cmd == "ping" || cmd == "inspect"
}

// dbValue is a name that isn't mistaken for a flag or a file of arguments.
func dbValue(t *rapid.T, what string) S {
	v := genValue(t, what)
	if strings.HasPrefix(string(v), "@") || strings.HasPrefix(string(v), "-") {
		v = "x" + v
	}
	return v
}

func genLine(t *rapid.T) *Line { return genLineFor(t, "") }

func genLineFor(t *rapid.T, cmd string) *Line {
	if cmd == "" {
		cmd = Pick(t, "cmd", "ping", "ping", "inspect", "list", "dot", "dot", "eval", "run", "version")
	}
	l := &Line{Cmd: cmd, Alias: Chance(t, "alias", 40), Dashes: Chance(t, "dashes", 15), Cluster: Chance(t, "cluster", 50), EnvConn: Chance(t, "env", 50), DebugX: Chance(t, "debugx", 50)}
	l.TTY = Chance(t, "tty", 12)
	l.Server = Pick(t, "server", "plain", "both", "tls only")
	if Chance(t, "old", 50) {
		l.Old = S(strings.Repeat(Pick(t, "olds", "old text\n", "x", "{}\n"), Pick(t, "oldn", 1, 50, 2000)))
	}
	for _, name := range flagsOf[cmd] {
		need := false
		if connects(cmd) && (name == "host" || name == "port") {
			need = true // unless the environment says it
		}
		if !need && !Chance(t, name, map[bool]int{true: 80, false: 55}[name == "sslmode"]) || need && !l.EnvConn && Chance(t, "no "+name, 30) {
			continue
		}
		f := Flag{Name: name, Form: Int(t, "form", 0, 3)}
		switch name {
		case "dbname", "username":
			f.Value = dbValue(t, name)
		case "sslmode":
			f.Value = S(Pick(t, "sslmode", modes...))
		case "output":
			f.Value = S(Pick(t, "output", "out", "out.dot", "o ut.json", "sub/out", "é", "-"))
		case "splines":
			f.Value = S(Pick(t, "splines", "curved", "line", "ortho"))
		case "color":
			f.Value = S(Pick(t, "color", "auto", "true", "false"))
		}
		l.Flags = append(l.Flags, f)
	}
	for n := Pick(t, "globals", 0, 0, 0, 1, 1, 2, 3, 4, 6); n > 0; n-- {
		l.Globals = append(l.Globals, Flag{Name: Pick(t, "global", "quiet", "verbose", "verbose"), Form: Int(t, "gform", 0, 3)})
		l.Slots = append(l.Slots, Int(t, "slot", -1, 1))
	}
	if Chance(t, "debug", 20) {
		l.Globals = append(l.Globals, Flag{Name: "debug", Value: S(Pick(t, "debugf", "debug.log", "de bug")), Form: Int(t, "dform", 0, 1)})
		l.Slots = append(l.Slots, Int(t, "slot", -1, 1))
	}
	if hasFile(cmd) {
		l.Book = genBook(t)
		l.File = S(Pick(t, "file", "book.json", "book.jsonnet", "book", "a.b.c", "dir.d/book", "sp ace.jsonnet", "./book.x", ".hidden", "é.jsonnet", "list2", "sub/b.json", "/abs.json"))
	}
	if cmd == "inspect" {
		l.Cat = genCat(t)
	}
	l.Order = Perm(t, "order", len(l.Flags)+len(l.Globals)+1)
	if Chance(t, "noise", 35) {
		l.Noise = map[string]S{}
		for _, p := range noises {
			for _, q := range []string{"", "PGUTIL_", "PGUTIL_" + strings.ToUpper(cmd) + "_", "PGUTIL_RUNBOOK_", "PGUTIL_RUNBOOK_" + strings.ToUpper(cmd) + "_"} {
				l.Noise[q+p[0]] = S(p[1])
			}
		}
	}
	return l
}

// noises are names of options: they are written on the command line only.
var noises = [][2]string{
	{"HOST", "/nowhere"}, {"PORT", "1"}, {"DBNAME", "noise"}, {"DATABASE", "noise"}, {"USERNAME", "noise"}, {"USER", "noise"}, {"SSLMODE", "disable"}, {"OUTPUT", "noise.out"}, {"SORT_COLUMNS", "true"},
	{"SORT_CHECK_CONSTRAINTS", "true"}, {"SORT_INDEXES", "true"}, {"SPLINES", "ortho"}, {"COLOR", "true"}, {"LONG", "true"}, {"QUIET", "true"}, {"VERBOSE", "true"}, {"DEBUG", "noise.log"}, {"FILE", "noise"},
	{"VERBOSITY", "3"}, {"LOG_LEVEL", "debug"}, {"LOGFILE", "noise.log"}, {"COLUMNS", "20"}, {"LINES", "2"}, {"CI", "true"},
	{"JSONNET_PATH", "/nowhere"}, {"RUNBOOK", "noise.json"}, {"O", "true"}, {"FORMAT", "json"}, {"CONFIG", "noise"}, {"LANG", "tr_TR.UTF-8"}, {"LC_ALL", "C"}, {"TZ", "Asia/Tokyo"},
}

func genBadLine(t *rapid.T) *Line {
	fault := Pick(t, "fault", lineFaults...)
	cmd := Pick(t, "cmd", "ping", "ping", "list", "dot", "dot", "eval", "run", "version", "inspect")
	switch fault {
	case "bad port", "bad sslmode":
		cmd = Pick(t, "cmdp", "ping", "inspect")
	case "bad splines":
		cmd = "dot"
	case "bad color":
		cmd = "eval"
	case "missing file", "directory", "no file":
		cmd = Pick(t, "cmdf", "list", "dot", "eval", "run")
	case "no value", "repeated":
		cmd = Pick(t, "cmdv", "ping", "dot", "eval", "inspect")
	}
	l := genLineFor(t, cmd)
	l.Fault, l.TTY = fault, false
	l.At = Int(t, "at", 0, 9)
	switch fault {
	case "unknown flag":
		l.FaultV = S(Pick(t, "uf", "--bogus", "-Z", "--hos", "--bogus=1", "--Verbose", "--quie", "--outpu=x", "-H", "--pass", "--password=x", "-W", "--dry-run", "-n", "--task=x"))
	case "unknown command":
		l.FaultV = S(Pick(t, "uc", "pings", "Ping", "", "runbooks", "pin", "inspec", "run", "list", "dot", "eval", "ls"))
	case "bad port":
		l.FaultV = S(Pick(t, "bp", "65536", "-1", "x", "1.5", "", "99999999999", "5432x", " 5432", "5 432", "0x", "70000", "131072", "4294967297",
			"PORT+65536", "PORT+65536", "PORT+131072", "PORT-65536", "PORT+4294967296", "PORT-131072", "PORTx", "PORT.0", "PORT,1", " PORT", "PORT "))
	case "bad sslmode":
		l.FaultV = S(Pick(t, "bm", "verify-ca", "DISABLE", "", "true", "disable ", "requir", "verify", "prefer,allow", "none"))
	case "bad splines":
		l.FaultV = S(Pick(t, "bs", "curvy", "", "LINE", "true", "spline", "polyline", "none"))
	case "bad color":
		l.FaultV = S(Pick(t, "bc", "yes", "AUTO", "", "always", "no", "1", "never"))
	case "foreign flag":
		l.FaultV = S(map[string]string{"ping": "--output=x", "inspect": "--splines=line", "list": "--output=x", "run": "--splines=line", "dot": "--color=true", "eval": "-O", "version": "--port=5432"}[cmd])
	}
	return l
}

func (f Flag) words() []string {
	s, short := shorts[f.Name]
	v := string(f.Value)
	if f.Name == "O" {
		return []string{"-O"}
	}
	if boolFlags[f.Name] {
		if short && f.Form%2 == 1 {
			return []string{"-" + s}
		}
		return []string{"--" + f.Name}
	}
	form := f.Form
	if !short {
		form %= 2
	}
	if v == "" || strings.HasPrefix(v, "-") {
		form &= 2 // a value like a flag is only taken when attached
		if v == "" {
			form = 0
		}
	}
	switch form {
	case 0:
		return []string{"--" + f.Name + "=" + v}
	case 1:
		return []string{"--" + f.Name, v}
	case 2:
		return []string{"-" + s + v}
	}
	return []string{"-" + s, v}
}

var shortWord = regexp.MustCompile(`^-[A-Za-z]$`)
var boolShort = regexp.MustCompile(`^-[OlqvL]+$`)

// cluster joins adjacent short flags.
func cluster(words []string) []string {
	var out []string
	for _, w := range words {
		if n := len(out); n > 0 && boolShort.MatchString(out[n-1]) && strings.HasPrefix(w, "-") && !strings.HasPrefix(w, "--") && len(w) > 1 {
			out[n-1] += w[1:]
			continue
		}
		out = append(out, w)
	}
	return out
}

// args is the command line.
func (l *Line) args(file string) []string {
	var before, between, after []string
	cmd := strings.Fields(l.Cmd)
	group := hasFile(l.Cmd)
	switch {
	case l.Cmd == "run" && l.Alias:
		cmd = nil
	case l.Cmd == "list" && l.Alias:
		cmd = []string{"ls"}
	}
	if group {
		cmd = append([]string{"runbook"}, cmd...)
	}
	switch l.Fault {
	case "unknown command":
		cmd[0] = string(l.FaultV)
	case "no command":
		cmd = cmd[:0]
	}
	fileWord := -1
	for _, i := range l.Order {
		switch {
		case i < len(l.Flags):
			w := l.Flags[i].words()
			after = append(after, w...)
			if l.Fault == "repeated" && !boolFlags[l.Flags[i].Name] {
				after = append(after, w...)
			}
		case i < len(l.Flags)+len(l.Globals):
			j := i - len(l.Flags)
			w := l.Globals[j].words()
			switch {
			case l.Slots[j] < 0:
				before = append(before, w...)
			case l.Slots[j] == 0 && group:
				between = append(between, w...)
			default:
				after = append(after, w...)
			}
		default:
			if group && l.Fault != "no file" {
				fileWord = len(after)
				after = append(after, file)
			}
			if l.Fault == "extra argument" {
				after = append(after, "extra")
			}
		}
	}
	if l.Dashes && fileWord >= 0 && fileWord == len(after)-1 {
		after = append(after[:fileWord], "--", file)
	} else {
		fileWord = -1
	}
	switch l.Fault {
	case "unknown flag", "foreign flag":
		after = append([]string{string(l.FaultV)}, after...)
	case "no value":
		name := map[string]string{"ping": "--dbname", "inspect": "--username", "dot": "--splines", "eval": "--color"}[l.Cmd]
		after = append(after, name)
	case "bad port":
		after = append([]string{"--port=" + string(l.FaultV)}, after...)
	case "bad sslmode", "bad splines", "bad color":
		after = append([]string{"--" + l.Fault[4:] + "=" + string(l.FaultV)}, after...)
	}
	if l.Cluster {
		before, between = cluster(before), cluster(between)
		if fileWord < 0 {
			after = cluster(after)
		}
	}
	var out []string
	out = append(out, before...)
	for i, w := range cmd {
		out = append(out, w)
		if i == 0 {
			out = append(out, between...)
		}
	}
	if len(cmd) == 0 {
		return append(out, between...) // flags alone
	}
	return append(out, after...)
}

// flag is the value of a flag.
func (l *Line) flag(name string) (S, bool) {
	for _, f := range l.Flags {
		if f.Name == name {
			return f.Value, true
		}
	}
	return "", false
}

func (l *Line) verbosity() int {
	v := 1
	for _, g := range l.Globals {
		switch g.Name {
		case "quiet":
			v--
		case "verbose":
			v++
		}
	}
	return v
}

func (l *Line) debug() string {
	for _, g := range l.Globals {
		if g.Name == "debug" {
			return string(g.Value)
		}
	}
	return ""
}

const decoyPort = 1 // nothing listens there

// world prepares what the command line refers to and returns the environment.
type lineWorld struct {
	dir    string
	env    map[string]string
	file   string
	output string // where the result goes: "" standard output
	server *fakepg.Server
	back   *backend
	port   uint16
}

func (w *lineWorld) close() {
	if w.server != nil {
		w.server.Close()
	}
	dropCase(w.dir)
}

func (l *Line) prepare(c *Ctx) *lineWorld {
	w := &lineWorld{dir: caseDir(), env: map[string]string{}}
	for k, v := range l.Noise {
		w.env[k] = string(v)
	}
	must := func(err error) {
		if err != nil {
			Harnessf("%v", err)
		}
	}
	must(os.MkdirAll(filepath.Join(w.dir, "sub"), 0o700))
	must(os.MkdirAll(filepath.Join(w.dir, "dir.d"), 0o700))
	if hasFile(l.Cmd) {
		w.file = string(l.File)
		if strings.HasPrefix(w.file, "/") {
			w.file = w.dir + w.file
		}
		switch l.Fault {
		case "missing file":
		case "directory":
			w.file = "sub"
		default:
			must(os.WriteFile(w.path(w.file), l.Book.json(), 0o600))
		}
	}
	if d := l.debug(); d != "" && l.DebugX {
		must(os.WriteFile(filepath.Join(w.dir, d), []byte("earlier messages\n"), 0o600))
	}
	out, given := l.flag("output")
	if given && out != "-" {
		w.output = string(out)
	}
	if _, auto := l.flag("O"); auto && !given {
		base := w.file
		if i := strings.LastIndexByte(base, '.'); i > strings.LastIndexByte(base, '/') {
			base = base[:i]
		}
		w.output = base + ".dot"
	}
	if w.output != "" && l.Old != "" && w.path(w.output) != w.path(w.file) {
		must(os.WriteFile(w.path(w.output), []byte(l.Old), 0o600))
	}
	if connects(l.Cmd) {
		if l.Cmd == "inspect" {
			w.back = serve(l.Cat, nil)
			w.server, w.port = w.back.server, w.back.port
		} else {
			x := fakepg.Script{}
			if l.Server != "plain" {
				x.TLS = certs{}.get(cert{trusted: false, valid: true, names: "localhost", ips: "127.0.0.1"})
			}
			if l.Server == "tls only" {
				x.PlainReject = &fakepg.Err{Severity: "FATAL", Code: "28000", Message: "no pg_hba.conf entry"}
			}
			b := &backend{}
			s, err := fakepg.Listen(&fakepg.Server{Answer: answers, Script: func(int) fakepg.Script { return x }}, b.socket())
			must(err)
			w.server, w.port = s, b.port
		}
		if l.Fault == "bad port" && strings.Contains(string(l.FaultV), "PORT") {
			// a number that the right port may be made of
			v := strings.TrimPrefix(string(l.FaultV), "PORT")
			if n, err := strconv.Atoi(v); err == nil {
				l.FaultV = S(strconv.Itoa(int(w.port) + n))
			} else {
				l.FaultV = S(strings.Replace(string(l.FaultV), "PORT", strconv.Itoa(int(w.port)), 1))
			}
		}
		for i := range l.Flags {
			switch l.Flags[i].Name {
			case "host":
				l.Flags[i].Value = S(socketDir())
			case "port":
				l.Flags[i].Value = S(strconv.Itoa(int(w.port)))
			}
		}
		w.env["PGUSER"] = "envuser"
		if l.EnvConn {
			w.env["PGHOST"], w.env["PGPORT"], w.env["PGDATABASE"] = w.dir, strconv.Itoa(decoyPort), "envdb"
		}
		if _, ok := l.flag("host"); !ok {
			w.env["PGHOST"] = socketDir()
		}
		if _, ok := l.flag("port"); !ok {
			w.env["PGPORT"] = strconv.Itoa(int(w.port))
		}
	}
	return w
}

func (w *lineWorld) path(name string) string {
	if filepath.IsAbs(name) {
		return name
	}
	return filepath.Join(w.dir, name)
}

// attempts is what is tried with a mode and whether it works out.
func sslAttempts(mode, server string) (asks []bool, ok bool) {
	plain := server != "tls only"
	tls := server != "plain"
	switch mode {
	case "disable":
		return []bool{false}, plain
	case "allow":
		if plain {
			return []bool{false}, true
		}
		return []bool{false, true}, tls
	case "require":
		return []bool{true}, tls
	case "verify-full":
		return []bool{true}, false // nobody trusts this server
	}
	if tls {
		return []bool{true}, true
	}
	return []bool{true, false}, plain
}

func runLine(c *Ctx, l *Line) {
	w := l.prepare(c)
	defer w.close()
	args := l.args(w.file)
	before := snapshot(w.dir)
	stdout := ""
	if l.TTY {
		stdout = "tty"
	}
	e := pgutil(c, w.dir, w.env, stdout, args...)
	if w.back != nil {
		w.back.settle()
	}
	diff := changes(before, snapshot(w.dir))
	what := fmt.Sprintf("pgutil %q", args)
	c.Class("%s", l.Cmd)
	c.NonTrivialIf(len(l.Flags)+len(l.Globals) > 0 || l.Alias)
	if len(l.Flags) > 2 {
		c.Class("more than two flags")
	}
	if l.TTY {
		c.Class("terminal")
	}

	// which log messages are shown
	rest, logs := unlog(e.stdout)
	v := l.verbosity()
	banner := 0
	for _, m := range logs["INFO"] {
		if strings.Contains(m, "pgutil version=") {
			banner++
		}
	}
	if v >= 2 {
		c.Class("verbosity %d", min(v, 3))
		c.Check(banner == 1, "%d -v more than -q: the version is logged %d times: %s:\n%s", v-1, banner, what, e.stdout)
	} else {
		c.Check(len(logs["INFO"])+len(logs["DEBUG"]) == 0, "verbosity %d: messages are shown: %s:\n%s", v, what, e.stdout)
	}
	if v < 3 {
		c.Check(len(logs["DEBUG"]) == 0, "verbosity %d: debug messages are shown: %s:\n%s", v, what, e.stdout)
	} else if l.Cmd == "run" {
		c.Check(len(logs["DEBUG"]) > 0, "verbosity %d: no debug message is shown: %s:\n%s", v, what, e.stdout)
	}
	if d := l.debug(); d != "" {
		c.Class("debug log")
		data, err := os.ReadFile(filepath.Join(w.dir, d))
		c.Check(err == nil, "no debug log: %v: %s", err, what)
		text := string(data)
		if l.DebugX {
			c.Check(strings.HasPrefix(text, "earlier messages\n"), "the earlier content of the debug log is gone: %s: %q", what, text)
		}
		c.Check(strings.Contains(text, "INFO") && strings.Contains(text, "pgutil version="), "the debug log doesn't have the version: %s: %q", what, text)
		if l.Cmd == "run" {
			c.Check(strings.Contains(text, "DEBUG"), "the debug log doesn't have debug messages: %s: %q", what, text)
		}
		delete(diff, d)
	}

	// what was done
	want, ok := "", true
	switch l.Cmd {
	case "version":
		lines := strings.SplitN(rest, "\n", 2)
		c.Check(e.code == 0 && regexp.MustCompile(`^pgutil \S+$`).MatchString(lines[0]), "%s: exit status %d, output %q", what, e.code, e.stdout)
		_, long := l.flag("long")
		c.Check(long == strings.Contains(rest, "github.com/jackc/pgx"), "%s: build details are shown although they weren't asked for, or the other way round:\n%s", what, rest)
		c.Check(len(diff) == 0, "%s: changed %q", what, diff)
		return
	case "ping":
		mode, _ := l.flag("sslmode")
		var asks []bool
		asks, ok = sslAttempts(string(mode), l.Server)
		got := l.connections(c, w, what)
		c.Check(fmt.Sprint(got) == fmt.Sprint(asks), "%s: mode %q, server %q: encryption was asked for in %v, expected %v; output %q", what, mode, l.Server, got, asks, e.stdout)
		want = versionText + "\n"
		c.Class("mode %s", mode)
	case "inspect":
		mode, _ := l.flag("sslmode")
		ok = mode != "require" && mode != "verify-full"
		asks, _ := sslAttempts(string(mode), "plain")
		got := l.connections(c, w, what)
		c.Check(fmt.Sprint(got) == fmt.Sprint(asks), "%s: mode %q: encryption was asked for in %v, expected %v; output %q", what, mode, got, asks, e.stdout)
		_, chk := l.flag("sort-check-constraints")
		_, col := l.flag("sort-columns")
		_, idx := l.flag("sort-indexes")
		if ok {
			want = l.describe(c, w, &pg.InspectOptions{SortChecks: chk, SortColumns: col, SortIndexes: idx})
			if (chk || col) && want != l.describe(c, w, &pg.InspectOptions{}) {
				c.Class("sorting matters")
			}
			if strings.HasPrefix(want, "error: ") {
				ok = false
			}
		}
	default:
		splines, _ := l.flag("splines")
		color := false
		if x, _ := l.flag("color"); x == "true" || (x == "" || x == "auto") && l.TTY && w.output == "" {
			color = true
		}
		want = reference(l.Cmd, w.path(w.file), string(splines), color)
		if l.Cmd == "eval" {
			c.Check(color == strings.Contains(want, "\x1b["), "%s: colors: %v expected, the result is\n%s", what, color, want)
		}
		if strings.HasPrefix(want, "error: ") {
			Harnessf("the run book doesn't work: %s", want)
		}
	}
	if !ok {
		c.Class("fails")
		c.Check(e.code != 0, "%s: exit status 0 instead of a failure; output %q", what, e.stdout)
		c.Check(rest+e.stderr != "", "%s: failed without a message", what)
		return
	}
	c.Check(e.code == 0, "%s: exit status %d: %s%s", what, e.code, e.stdout, e.stderr)
	if w.output != "" {
		c.Class("output to a file")
		c.Check(rest == "", "%s: the result is to be written to %q but standard output has %q", what, w.output, rest)
		data, err := os.ReadFile(w.path(w.output))
		c.Check(err == nil && equal(l.Cmd, string(data), want), "%s: %q has\n%s\ninstead of\n%s\n(%v)", what, w.output, data, want, err)
		rel, _ := filepath.Rel(w.dir, w.path(w.output))
		delete(diff, rel)
	} else {
		c.Check(equal(l.Cmd, rest, want), "%s: standard output has\n%s\ninstead of\n%s", what, rest, want)
	}
	c.Check(e.stderr == "", "%s: standard error has %q", what, e.stderr)
	c.Check(len(diff) == 0, "%s: changed %q", what, diff)
}

// connections judges who connected to which database, and tells for each
// attempt whether encryption was asked for.
func (l *Line) connections(c *Ctx, w *lineWorld, what string) []bool {
	w.server.WaitClosed(10 * time.Second)
	user, db := "envuser", ""
	if l.EnvConn {
		db = "envdb"
	}
	if x, given := l.flag("username"); given && x != "" {
		user = string(x)
	}
	if x, given := l.flag("dbname"); given && x != "" {
		db = string(x)
	}
	var got []bool
	for _, k := range w.server.Conns() {
		got = append(got, k.AskedTLS)
		if k.Startup != nil {
			c.Check(k.Startup["user"] == user, "%s: connected as %q instead of %q", what, k.Startup["user"], user)
			c.Check(k.Startup["database"] == db, "%s: connected to database %q instead of %q", what, k.Startup["database"], db)
		}
	}
	return got
}

// describe is the description of the database with some options, made by the
// code below the command line.
func (l *Line) describe(c *Ctx, w *lineWorld, o *pg.InspectOptions) string {
	var out bytes.Buffer
	conn, err := pg.New(&pg.Options{Log: zap.NewNop().Sugar(), Host: socketDir(), Port: w.port, SSLMode: "disable", Username: "u", Database: "db"})
	if err != nil {
		Harnessf("%v", err)
	}
	defer conn.Close()
	db, err := conn.InspectDatabase(o)
	if err == nil {
		err = db.Write(&out)
	}
	w.back.settle()
	if err != nil {
		return "error: " + err.Error()
	}
	return out.String()
}

func runBadLine(c *Ctx, l *Line) {
	w := l.prepare(c)
	defer w.close()
	valued := 0
	for _, f := range l.Flags {
		if !boolFlags[f.Name] {
			valued++
		}
	}
	if l.Fault == "repeated" && valued == 0 {
		l.Flags = append(l.Flags, Flag{Name: map[string]string{"ping": "dbname", "inspect": "output", "dot": "output", "eval": "output"}[l.Cmd], Value: "x"})
		for i, n := range l.Order {
			if n >= len(l.Flags)-1 {
				l.Order[i]++
			}
		}
		l.Order = append(l.Order, len(l.Flags)-1)
	}
	if strings.HasPrefix(l.Fault, "bad ") {
		// the flag must not be there a second time
		for i := range l.Flags {
			if l.Flags[i].Name == l.Fault[4:] {
				for j, n := range l.Order {
					if n == i {
						l.Order = append(append([]int(nil), l.Order[:j]...), l.Order[j+1:]...)
						break
					}
				}
			}
		}
	}
	args := l.args(w.file)
	if l.Fault == "debug nowhere" {
		args = append([]string{"--debug", "nowhere/debug.log"}, args...)
		if l.debug() != "" {
			return // given twice
		}
	}
	before := snapshot(w.dir)
	e := pgutil(c, w.dir, w.env, "", args...)
	diff := changes(before, snapshot(w.dir))
	if d := l.debug(); d != "" {
		delete(diff, d) // it may have been opened before the mistake is found
	}
	c.Class("%s", l.Fault)
	c.NonTrivial()
	what := fmt.Sprintf("pgutil %q (%s)", args, l.Fault)
	if l.Fault == "no command" {
		// the usage is shown instead
		c.Check(e.stdout+e.stderr != "", "%s: nothing is shown", what)
	} else {
		c.Check(e.code != 0, "%s was accepted: %q", what, e.stdout)
		c.Check(e.stdout+e.stderr != "", "%s was refused without a message", what)
	}
	c.Check(len(diff) == 0, "%s: refused but changed %q", what, diff)
	if w.server != nil {
		c.Check(len(w.server.Conns()) == 0, "%s: refused but connected to the server", what)
	}
	if l.Fault != "no command" && hasFile(l.Cmd) {
		_, logs := unlog(e.stdout)
		c.Check(len(logs["DEBUG"])+len(logs["INFO"]) == 0, "%s: refused but run: %q", what, e.stdout)
	}
}

// ---------------------------------------------------------------- exit status

// Status is a run of the program that fails or not.
type Status struct {
	Cmd    string
	How    string
	Book   *Book
	Script string
	Seed   int
}

var statusHows = map[string][]string{
	"ping":    {"ok", "no server", "reject", "query error", "query break", "full"},
	"inspect": {"ok", "no server", "reject", "query error", "query break", "full", "output directory", "output nowhere", "output full"},
	"list":    {"ok", "syntax", "schema", "cycle", "full"},
	"dot":     {"ok", "syntax", "schema", "full", "output directory", "output nowhere", "output full"},
	"eval":    {"ok", "syntax", "full", "output directory", "output nowhere", "output full"},
	"run":     {"ok", "syntax", "schema", "cycle", "task fails", "full", "last task fails"},
	"version": {"ok", "full"},
}

func genStatus(t *rapid.T) *Status {
	s := &Status{Cmd: Pick(t, "cmd", "ping", "inspect", "list", "dot", "eval", "run", "run", "version"), Book: genBook(t), Seed: Int(t, "n", 0, 1000)}
	s.How = Pick(t, "how", statusHows[s.Cmd]...)
	return s
}

func runStatus(c *Ctx, s *Status) {
	dir := caseDir()
	defer dropCase(dir)
	put := func(name, text string) {
		if err := os.WriteFile(filepath.Join(dir, name), []byte(text), 0o600); err != nil {
			Harnessf("%v", err)
		}
	}
	env := map[string]string{"PGUSER": "u", "PGDATABASE": "db"}
	var args []string
	fails := s.How != "ok"
	stdout := ""
	switch s.How {
	case "full":
		stdout = "full"
	case "output directory":
		os.Mkdir(filepath.Join(dir, "out"), 0o700)
		args = append(args, "--output=out")
	case "output nowhere":
		args = append(args, "--output=nowhere/out")
	case "output full":
		args = append(args, "--output=/dev/full")
	}
	switch s.Cmd {
	case "version":
		args = append([]string{"version"}, args...)
		if s.Seed%2 == 1 {
			args = append(args, "-l")
		}
	case "ping", "inspect":
		b := &backend{}
		path := b.socket()
		env["PGHOST"], env["PGPORT"] = socketDir(), strconv.Itoa(int(b.port))
		args = append([]string{s.Cmd, "--sslmode=disable"}, args...)
		if s.How == "no server" {
			break
		}
		srv := &fakepg.Server{Answer: answers}
		if s.Cmd == "inspect" {
			b = serve(&Cat{}, nil)
			env["PGPORT"] = strconv.Itoa(int(b.port))
			defer b.server.Close()
		}
		switch s.How {
		case "reject":
			srv.Script = func(int) fakepg.Script {
				return fakepg.Script{Reject: &fakepg.Err{Severity: "FATAL", Code: "28000", Message: "no"}}
			}
		case "query error":
			srv.Answer = func(*fakepg.Query) *fakepg.Result {
				return &fakepg.Result{Err: &fakepg.Err{Code: "42501", Message: "no"}}
			}
		case "query break":
			srv.Answer = func(*fakepg.Query) *fakepg.Result { return &fakepg.Result{Break: true} }
		default:
			if s.Cmd == "inspect" {
				srv = nil
			}
		}
		if srv != nil {
			x, err := fakepg.Listen(srv, path)
			if err != nil {
				Harnessf("%v", err)
			}
			defer x.Close()
			env["PGPORT"] = path[strings.LastIndexByte(path, '.')+1:]
		}
	default:
		args = append([]string{"runbook", s.Cmd, "book.jsonnet"}, args...)
		text := string(s.Book.json())
		switch s.How {
		case "syntax":
			text = text[:len(text)-1-s.Seed%(len(text)-1)]
		case "schema":
			text = Pick2nd([]string{`{}`, `[]`, `{"targets":{},"tasks":{"a":{"target":"x/y"}}}`, `{"targets":{"a":{"class":"nosuch"}},"tasks":{}}`, `{"targets":{"a":{"class":"demo","config":{"string":"x"}}},"tasks":{"b":{"target":"a/nosuch"}}}`}, s.Seed)
			if text == "{}" {
				text = `{"targets": 5}`
			}
		case "cycle":
			text = `{"targets":{"a":{"class":"demo","config":{"string":"x"}}},"tasks":{"b":{"target":"a/echo","after":["c"]},"c":{"target":"a/echo","after":["b"]}}}`
			fails = s.Cmd == "run" // the others may well show it
			if !fails {
				c.Class("%s: %s", s.Cmd, s.How)
				pgutil(c, dir, env, stdout, args...)
				return
			}
		case "task fails", "last task fails":
			code := 1 + s.Seed%255
			first, second := fmt.Sprintf("exit %d", code), "true"
			if s.How == "last task fails" {
				first, second = second, first
			}
			text = fmt.Sprintf(`{"targets":{"a":{"class":"sh"}},"tasks":{"b":{"target":"a/run","args":["/bin/sh","-c",%q]},"c":{"target":"a/run","after":["b"],"args":["/bin/sh","-c",%q]}}}`, first, second)
		case "full":
			s.Book.Tasks[len(s.Book.Tasks)-1].Task = "echo" // something is written
			text = string(s.Book.json())
		}
		put("book.jsonnet", text)
	}
	e := pgutil(c, dir, env, stdout, args...)
	c.Class("%s: %s", s.Cmd, s.How)
	c.NonTrivialIf(fails)
	what := fmt.Sprintf("pgutil %q (%s)", args, s.How)
	if fails {
		c.Check(e.code != 0, "%s: exit status 0 although it can't have succeeded: %s%s", what, e.stdout, e.stderr)
		c.Check(stdout == "full" || e.stdout+e.stderr != "", "%s: exit status %d without a message", what, e.code)
	} else {
		c.Check(e.code == 0, "%s: exit status %d: %s%s", what, e.code, e.stdout, e.stderr)
	}
}

// Pick2nd picks by number.
func Pick2nd(l []string, n int) string { return l[n%len(l)] }

// ---------------------------------------------------------------- destinations

// Dest is a command whose output goes somewhere.
type Dest struct {
	Cmd   string
	Out   string // "", "-", "file", "auto", "both"
	Base  S      // of the run book's name
	Old   S
	Link  bool // the file is a link to the real one
	Book  *Book
	Color string
	Long  bool
	Seq   bool // the command is run twice
	Cat   *Cat
}

func genDest(t *rapid.T) *Dest {
	d := &Dest{Cmd: Pick(t, "cmd", "dot", "dot", "eval", "inspect", "list", "run", "version"), Book: genBook(t), Long: Chance(t, "long", 70), Seq: Chance(t, "seq", 30), Link: Chance(t, "link", 20)}
	d.Out = Pick(t, "out", "", "-", "file", "file")
	if d.Cmd == "dot" {
		d.Out = Pick(t, "outd", "", "-", "file", "auto", "auto", "both")
	}
	d.Color = Pick(t, "color", "auto", "true", "false")
	d.Base = S(Pick(t, "base", "book.jsonnet", "book", "a.b.json", ".hidden", "x.dot.json", "dir.d/book", "dir.d/book.json", "trailing.", "..json", "sp ace.x y", "é.é"))
	if Chance(t, "old", 70) {
		d.Old = S(strings.Repeat(Pick(t, "olds", "old text\n", "x"), Pick(t, "oldn", 1, 50, 2000)))
	}
	if d.Cmd == "inspect" {
		d.Cat = genCat(t)
	}
	return d
}

func runDest(c *Ctx, d *Dest) {
	dir := caseDir()
	defer dropCase(dir)
	os.Mkdir(filepath.Join(dir, "dir.d"), 0o700)
	file := filepath.Join(dir, string(d.Base))
	if err := os.WriteFile(file, d.Book.json(), 0o600); err != nil {
		Harnessf("%v", err)
	}
	out := filepath.Join(dir, "dest")
	auto := file
	if i := strings.LastIndexByte(auto, '.'); i > strings.LastIndexByte(auto, '/') {
		auto = auto[:i]
	}
	auto += ".dot"
	output, dest := "", ""
	switch d.Out {
	case "-":
		output = "-"
	case "file", "both":
		output, dest = out, out
	case "auto":
		dest = auto
	}
	if dest != "" && d.Old != "" {
		real := dest
		if d.Link {
			real = dest + "-real"
			if err := os.Symlink(real, dest); err != nil {
				Harnessf("%v", err)
			}
		}
		if err := os.WriteFile(real, []byte(d.Old), 0o600); err != nil {
			Harnessf("%v", err)
		}
	}
	before := snapshot(dir)
	var stdout, stderr bytes.Buffer
	base := &commands.Base{IO: sys.IO{Log: logger.Discard(), Stdout: &stdout, Stderr: &stderr}}
	var want string
	var cmd interface{ Run(*commands.Base) error }
	switch d.Cmd {
	case "dot":
		cmd = &commands.RunBookDotCmd{File: file, Output: output, AutoOut: d.Out == "auto" || d.Out == "both", Splines: "line"}
		want = reference("dot", file, "line", false)
	case "eval":
		cmd = &commands.RunBookEvalCmd{File: file, Output: output, Color: d.Color}
		want = reference("eval", file, "", d.Color == "true")
		c.Check(strings.Contains(want, "\x1b[") == (d.Color == "true"), "color %s: the result is\n%s", d.Color, want)
	case "list":
		cmd, dest = &commands.RunBookListCmd{File: file}, ""
		want = reference("list", file, "", false)
	case "run":
		cmd, dest = &commands.RunBookRunCmd{File: file}, ""
		want = reference("run", file, "", false)
	case "version":
		cmd, dest = versionCmd(d.Long), ""
	case "inspect":
		b := serve(d.Cat, nil)
		defer b.server.Close()
		l := &Line{}
		want = l.describe(c, &lineWorld{back: b, port: b.port}, &pg.InspectOptions{SortColumns: true})
		cmd = &commands.InspectCmd{Host: socketDir(), Port: b.port, SSLMode: "disable", Username: "u", DBName: "db", SortColumns: true, Output: output}
		defer b.settle()
	}
	if strings.HasPrefix(want, "error: ") {
		c.Class("fails")
		return
	}
	c.Class("%s %s", d.Cmd, d.Out)
	c.NonTrivialIf(dest != "" || d.Cmd == "version" && d.Long)
	what := fmt.Sprintf("%s with output %q", d.Cmd, d.Out)
	times := 1
	if d.Seq {
		times = 2
	}
	own, ownErr := capture(func() {
		for ; times > 0; times-- {
			stdout.Reset()
			if err := cmd.Run(base); err != nil {
				c.Failf("%s failed: %v", what, err)
			}
		}
	})
	c.Check(own+ownErr == "", "%s: %q was written to the process's own streams instead of the given writers", what, own+ownErr)
	c.Check(stderr.Len() == 0, "%s: standard error has %q", what, stderr.String())
	diff := changes(before, snapshot(dir))
	if d.Cmd == "version" {
		text := stdout.String()
		c.Check(strings.HasPrefix(text, "app build\n") || strings.HasPrefix(text, "app build "), "%s: %q", what, text)
		c.Check(d.Long == strings.Contains(text, "example.com/dep"), "%s: %q", what, text)
		c.Check(d.Long == strings.Contains(text, "v1.2.3"), "%s: %q", what, text)
	} else if dest == "" {
		c.Check(equal(d.Cmd, stdout.String(), want), "%s: the writer got\n%s\ninstead of\n%s", what, stdout.String(), want)
	} else {
		c.Check(stdout.Len() == 0, "%s: the writer got %q", what, stdout.String())
		data, err := os.ReadFile(dest)
		c.Check(err == nil && equal(d.Cmd, string(data), want), "%s: %s has\n%s\ninstead of\n%s\n(%v)", what, filepath.Base(dest), data, want, err)
		rel, _ := filepath.Rel(dir, dest)
		delete(diff, rel)
		delete(diff, rel+"-real")
	}
	var names []string
	for n := range diff {
		names = append(names, n)
	}
	sort.Strings(names)
	c.Check(len(names) == 0, "%s: also changed %q", what, names)
}

// capture runs f and returns what it wrote to os.Stdout and os.Stderr.
func capture(f func()) (string, string) {
	o, err1 := os.CreateTemp(socketDir(), "own")
	e, err2 := os.CreateTemp(socketDir(), "own")
	if err1 != nil || err2 != nil {
		Harnessf("%v %v", err1, err2)
	}
	so, se := os.Stdout, os.Stderr
	os.Stdout, os.Stderr = o, e
	defer func() {
		os.Stdout, os.Stderr = so, se
		for _, x := range []*os.File{o, e} {
			x.Close()
			os.Remove(x.Name())
		}
	}()
	f()
	do, _ := os.ReadFile(o.Name())
	de, _ := os.ReadFile(e.Name())
	return string(do), string(de)
}

func init() {
	Add("C01", "lines", Opt{Quick: 700, Thorough: 30000,
		Rule: "A random command with random flags in random forms and order, verbosity, debug log, previous file contents, terminal or not; the pgutil binary is run and judged by what reaches the fake server, the files and its output. Non-trivial: at least one flag or an alias."},
		genLine, runLine)
	Add("C01", "refused", Opt{Quick: 700, Thorough: 30000,
		Rule: "A valid command line with one mistake; the binary must refuse it with a message and a non-zero exit status, without connecting or changing files. Non-trivial: all."},
		genBadLine, runBadLine)
	Add("C04", "status", Opt{Quick: 700, Thorough: 20000,
		Rule: "A command whose success or failure is arranged (server, run book, task, output). Non-trivial: one that fails."},
		genStatus, runStatus)
	Add("C03", "destination", Opt{Quick: 700, Thorough: 40000,
		Rule: "A command run in-process with writers, output options and previous file contents; the process's own streams are captured. Non-trivial: output to a file, or the long version."},
		genDest, runDest)
}
