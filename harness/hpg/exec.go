//go:build go1.23

package main

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"strconv"
	"strings"
	"time"

	"go.uber.org/zap"

	"github.com/sjansen/pgutil/internal/logger"
	"github.com/sjansen/pgutil/internal/pg"
	rpg "github.com/sjansen/pgutil/internal/runbook/pg"
	. "github.com/sjansen/pgutil/internal/zzverif/engine"
	"github.com/sjansen/pgutil/internal/zzverif/fakepg"
	"github.com/sjansen/pgutil/internal/zzverif/rapid"
)

// ---------------------------------------------------------------- P10

// Execs is a history of executions on one connection.
type Execs struct {
	Via string // "conn" or "target"
	Ops []ExecOp
}

// ExecOp is an execution.
type ExecOp struct {
	SQL     S
	Parts   []ExecPart // the server's answer
	Version bool       // ask for the server's version instead
}

// ExecPart is the answer to one of the statements.
type ExecPart struct {
	Tag     string
	Rows    int
	Notices int
	Fault   string // "", error, error at row, break, break at row, break in row, error in sync
	Code    string
	At      int
	Empty   bool
}

var execFaults = []string{"error", "error at row", "break", "break at row", "break in row", "error in sync"}

func genExecs(t *rapid.T) *Execs {
	x := &Execs{Via: Pick(t, "via", "conn", "target")}
	for n := Int(t, "ops", 1, 5); n > 0; n-- {
		o := ExecOp{Version: x.Via == "conn" && Chance(t, "version", 20)}
		if Chance(t, "odd", 40) {
			o.SQL = S(strings.ReplaceAll(Text(t, "sql", 12), "\x00", ""))
		}
		if o.SQL == "" {
			o.SQL = S(Pick(t, "stmt", "SELECT 1", "UPDATE t SET x = 1", "CREATE TABLE t (x int); DROP TABLE t;", "select 'a''b', \"C\"", "BEGIN; DELETE FROM t WHERE x = $1; COMMIT", "-- nothing", "select %d", "VACUUM", "select $$a;b$$", "DO $x$ begin end $x$", " \n select 1 ;\n\n", "select 1; select 2; select 3", "é", strings.Repeat("x", 70000)))
		}
		o.SQL = Lengthen(t, "sql", o.SQL, 1, 300000)
		k := Pick(t, "parts", 1, 1, 1, 2, 3)
		if Chance(t, "manyparts", 1) {
			k = Size(t, "moreparts", 60)
		}
		for ; k > 0; k-- {
			p := ExecPart{Tag: Pick(t, "tag", "SELECT 1", "UPDATE 12", "CREATE TABLE", "BEGIN", "INSERT 0 5", "VACUUM"), Rows: Pick(t, "rows", 0, 0, 1, 3, 40, 40, 40, 3000), Notices: Pick(t, "notices", 0, 0, 0, 1, 2, 3, 5), Empty: Chance(t, "empty", 8)}
			if Chance(t, "fault", 14) {
				p.Fault = Pick(t, "faultk", execFaults...)
				p.Code = Pick(t, "code", "42601", "57014", "40001", "23505", "00000", "P0001", "57P01", "XX000", "25P02", "40P01", "57P03", "02000", "0A000", "26000")
				p.At = Int(t, "at", 0, p.Rows)
			}
			o.Parts = append(o.Parts, p)
		}
		if o.Version {
			o.Parts = o.Parts[:1]
			o.Parts[0].Empty = false
		}
		x.Ops = append(x.Ops, o)
	}
	return x
}

func (o *ExecOp) result(n int) *fakepg.Result {
	var all []*fakepg.Result
	for i, p := range o.Parts {
		r := &fakepg.Result{Tag: p.Tag, Notices: p.Notices, EmptyAnswer: p.Empty}
		v := "v"
		if o.Version {
			v = versionText + fmt.Sprint(n)
			r.Tag = "SELECT 1"
		}
		if p.Rows > 0 || o.Version {
			r.EmptyAnswer = false
			r.Cols = []fakepg.Col{{Name: "version", OID: 25}}
			rows := p.Rows
			if o.Version {
				rows = 1
			}
			for ; rows > 0; rows-- {
				r.Rows = append(r.Rows, []*string{&v})
			}
		}
		e := &fakepg.Err{Severity: "ERROR", Code: p.Code, Message: fmt.Sprintf("failure %d.%d", n, i)}
		r.AtRow = min(p.At, len(r.Rows))
		switch p.Fault {
		case "error":
			r.Err = e
		case "error at row":
			r.ErrAtRow = e
		case "break":
			r.Break = true
		case "break at row":
			r.BreakAtRow = true
		case "break in row":
			r.BreakAtRow, r.BreakInRow = true, true
		case "error in sync":
			r.ErrInSync = e
			r.EmptyAnswer = false
		}
		all = append(all, r)
	}
	all[0].More = all[1:]
	return all[0]
}

func runExecs(c *Ctx, x *Execs) {
	next := 0
	var unexpected []string
	server := &fakepg.Server{Answer: func(q *fakepg.Query) *fakepg.Result {
		if next >= len(x.Ops) {
			unexpected = append(unexpected, q.SQL)
			return &fakepg.Result{}
		}
		return x.Ops[next].result(next)
	}, Describe: func(sql string) ([]uint32, []fakepg.Col, *fakepg.Err) {
		return nil, []fakepg.Col{{Name: "version", OID: 25}}, nil
	}}
	var b backend
	server, err := fakepg.Listen(server, b.socket())
	if err != nil {
		Harnessf("%v", err)
	}
	defer server.Close()
	setenv(nil)

	var exec func(string) error
	var version func() (string, error)
	var stop func() error
	timely(c, "connecting", func() {
		if x.Via == "target" {
			t := (&rpg.TargetFactory{Log: zap.NewNop().Sugar()}).NewTarget().(*rpg.Target)
			t.Host, t.Port, t.SSLMode, t.Username, t.Database = socketDir(), b.port, "disable", "u", "db"
			if err := t.Start(); err != nil {
				Harnessf("%v", err)
			}
			stop = t.Stop
			exec = func(sql string) error {
				cfg, err := t.NewTaskConfig("exec")
				if err != nil {
					return err
				}
				cfg.(*rpg.Exec).SQL = sql
				return t.Handle(context.Background(), cfg)
			}
			return
		}
		conn, err := pg.New(&pg.Options{Log: zap.NewNop().Sugar(), Host: socketDir(), Port: b.port, SSLMode: "disable", Username: "u", Database: "db"})
		if err != nil {
			Harnessf("%v", err)
		}
		exec, version, stop = conn.Exec, conn.ServerVersion, conn.Close
	})
	broken := false
	faults := 0
	var sent []string
	for i := range x.Ops {
		o := &x.Ops[i]
		next = i
		fault, part := "", 0
		for j, p := range o.Parts {
			if p.Fault != "" {
				fault, part = p.Fault, j
				break
			}
		}
		var err error
		var got string
		what := fmt.Sprintf("statement %d (%q), the server's answer %+v", i, clip(string(o.SQL)), o.Parts)
		timely(c, what, func() {
			if o.Version {
				got, err = version()
			} else {
				err = exec(string(o.SQL))
			}
		})
		if broken {
			c.Check(err != nil, "%s: succeeded on a connection that is gone", what)
			continue
		}
		if o.Version {
			if fault == "" {
				c.Check(err == nil && got == versionText+fmt.Sprint(i), "%s: the version is %q, %v", what, got, err)
			} else if strings.HasPrefix(fault, "break") || fault == "error" || fault == "error at row" && o.Parts[0].At == 0 {
				c.Check(err != nil || got == versionText+fmt.Sprint(i), "%s: no error, and the version is %q", what, got)
			}
		} else {
			sent = append(sent, string(o.SQL))
			if fault == "" {
				c.Check(err == nil, "%s: failed: %v", what, err)
			} else {
				c.Check(err != nil, "%s: the failure isn't reported", what)
				if strings.HasPrefix(fault, "error") {
					msg := fmt.Sprintf("failure %d.%d", i, part)
					c.Check(strings.Contains(err.Error(), msg), "%s: the error is %q, without the server's message %q", what, err, msg)
				}
			}
		}
		if fault != "" {
			faults++
			c.Class("%s", fault)
		}
		if strings.HasPrefix(fault, "break") {
			broken = true
		}
		if fault != "" && o.Parts[part].Code == "57P01" {
			broken = true // whether the connection survives this is left open
			return
		}
	}
	c.NonTrivialIf(len(x.Ops) > 1 && faults > 0 || len(x.Ops) > 2)
	timely(c, "closing", func() { stop() })
	c.Check(server.WaitClosed(10*time.Second), "the connection stays open")
	c.Check(len(unexpected) == 0, "also executed %q", unexpected)
	var seen []string
	for _, k := range server.Conns() {
		for _, q := range k.Queries {
			if !strings.EqualFold(strings.TrimSpace(q), "SELECT VERSION()") {
				seen = append(seen, q)
			}
		}
	}
	c.Check(fmt.Sprintf("%q", seen) == fmt.Sprintf("%q", sent), "the server got %q instead of %q", seen, sent)
}

func clip(s string) string {
	if len(s) > 200 {
		return s[:200] + "..."
	}
	return s
}

// ---------------------------------------------------------------- P11

// Secret is a connection with a password.
type Secret struct {
	Pass    string // printable, unlike anything else
	From    string // option, environment, run book
	Auth    string
	Server  string // ok, wrong, reject, early, break, close, nobody, init error, query error, tls
	Mode    string
	Retries int
	Use     string // ping, inspect, exec
}

func genSecret(t *rapid.T) *Secret {
	s := &Secret{Auth: Pick(t, "auth", "", "cleartext", "cleartext", "md5"), From: Pick(t, "from", "option", "environment", "run book", "run book"), Server: Pick(t, "server", "ok", "ok", "wrong", "reject", "early", "break", "close", "nobody", "init error", "query error"),
		Mode: Pick(t, "mode", "disable", "disable", "allow", "prefer", "require", "verify-full", "", "bogus"), Retries: Pick(t, "retries", 0, 0, 0, 0, 0, 0, 0, 0, 0, 1), Use: Pick(t, "use", "ping", "inspect", "exec")}
	if Chance(t, "patient", 1) { // 100, 200 and 400 ms
		s.Retries = Pick(t, "times", 2, 3)
		s.Server = Pick(t, "lasting", "wrong", "reject", "break", "close", "nobody", "init error")
	}
	s.Pass = "Zq" + strconv.Itoa(Int(t, "n", 1000, 9999)) + Pick(t, "odd", "", "'", "\\", "\"", " ", "%", "@", "é", "=", "&") + "xW" + strconv.Itoa(Int(t, "m", 1000, 9999))
	return s
}

func runSecret(c *Ctx, s *Secret) {
	var b backend
	path := b.socket()
	script := fakepg.Script{Auth: s.Auth, Password: s.Pass}
	answer := answers
	switch s.Server {
	case "wrong":
		script.Password = "another"
	case "reject", "early":
		script.Reject = &fakepg.Err{Severity: "FATAL", Code: "28P01", Message: "password authentication failed"}
		script.RejectEarly = s.Server == "early"
	case "break":
		script.BreakStartup = true
	case "close":
		script.CloseOnAccept = true
	case "init error":
		script.InitErr = &fakepg.Err{Severity: "ERROR", Code: "57014", Message: "no"}
	case "query error":
		answer = func(*fakepg.Query) *fakepg.Result {
			return &fakepg.Result{Err: &fakepg.Err{Code: "42501", Message: "no"}}
		}
	}
	if s.Server != "nobody" {
		x, err := fakepg.Listen(&fakepg.Server{Answer: answer, Script: func(int) fakepg.Script { return script }}, path)
		if err != nil {
			Harnessf("%v", err)
		}
		defer x.Close()
	}
	var texts []string
	if s.From == "run book" {
		dir := caseDir()
		defer dropCase(dir)
		cfg := map[string]interface{}{"host": socketDir(), "port": b.port, "username": "u", "password": s.Pass, "database": "db", "connect_retries": s.Retries}
		if s.Mode != "" {
			cfg["sslmode"] = s.Mode
		}
		data, _ := json.Marshal(map[string]interface{}{
			"targets": map[string]interface{}{"a": map[string]interface{}{"class": "pg", "config": cfg}},
			"tasks":   map[string]interface{}{"b": map[string]interface{}{"target": "a", "config": map[string]string{"sql": "SELECT 1"}}},
		})
		if err := os.WriteFile(filepath.Join(dir, "book"), data, 0o600); err != nil {
			Harnessf("%v", err)
		}
		for _, cmd := range []string{"run", "list", "dot"} {
			e := pgutil(c, dir, map[string]string{}, "", "-vvv", "--debug=log", "runbook", cmd, "book")
			texts = append(texts, e.stdout, e.stderr)
			c.Class("exit status %d", e.code)
		}
		log, _ := os.ReadFile(filepath.Join(dir, "log"))
		texts = append(texts, string(log))
	} else {
		var log, debug bytes.Buffer
		o := &pg.Options{Log: logger.New(3, &log, &debug), Host: socketDir(), Port: b.port, SSLMode: s.Mode, Username: "u", Database: "db", ConnectRetries: s.Retries}
		setenv(nil)
		if s.From == "option" {
			o.Password = s.Pass
		} else {
			setenv(map[string]string{"PGPASSWORD": s.Pass})
			defer setenv(nil)
		}
		timely(c, "using the connection", func() {
			conn, err := pg.New(o)
			if err == nil {
				switch s.Use {
				case "ping":
					_, err = conn.ServerVersion()
				case "inspect":
					_, err = conn.InspectDatabase(&pg.InspectOptions{})
				default:
					err = conn.Exec("SELECT 1")
				}
				conn.Close()
			}
			if err != nil {
				texts = append(texts, err.Error(), fmt.Sprintf("%v %+v", err, err))
			}
		})
		texts = append(texts, log.String(), debug.String())
	}
	c.NonTrivial()
	c.Class("%s: %s", s.From, s.Server)
	forms := []string{s.Pass}
	if q := strings.Trim(strconv.Quote(s.Pass), `"`); q != s.Pass {
		forms = append(forms, q)
	}
	for _, x := range texts {
		for _, f := range forms {
			c.Check(!strings.Contains(x, f), "the password %q is shown: %s", s.Pass, x)
		}
	}
}

func init() {
	Add("P10", "exec", Opt{Quick: 4000, Thorough: 200000,
		Rule: "Several statements on one connection; the server's answers have rows, notices, several results and failures at any point. Non-trivial: more than one statement with a failure, or more than two."},
		genExecs, runExecs)
	Add("P11", "secret", Opt{Quick: 500, Thorough: 20000,
		Rule: "A connection with a distinctive password from an option, the environment or a run book, to a server that behaves in some way; everything is logged. Non-trivial: all."},
		genSecret, runSecret)
}
