//go:build go1.23

package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"net"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"go.uber.org/zap"

	"github.com/sjansen/pgutil/internal/commands"
	"github.com/sjansen/pgutil/internal/logger"
	"github.com/sjansen/pgutil/internal/pg"
	"github.com/sjansen/pgutil/internal/sys"
	. "github.com/sjansen/pgutil/internal/zzverif/engine"
	"github.com/sjansen/pgutil/internal/zzverif/fakepg"
	"github.com/sjansen/pgutil/internal/zzverif/minisql"
	"github.com/sjansen/pgutil/internal/zzverif/rapid"
)

// ---------------------------------------------------------------- C08

// sqlWords are the words and operators of SQL text in upper case, statement by
// statement; literals, quoted names and comments are left out.
func sqlWords(sql string) [][]string {
	var out [][]string
	var cur []string
	end := func() {
		if len(cur) > 0 {
			out = append(out, cur)
		}
		cur = nil
	}
	word := func(c byte) bool {
		return c == '_' || c == '$' || c >= '0' && c <= '9' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= 0x80
	}
	for i := 0; i < len(sql); {
		rest := sql[i:]
		switch c := sql[i]; {
		case strings.HasPrefix(rest, "--"):
			n := strings.IndexByte(rest, '\n')
			if n < 0 {
				n = len(rest)
			}
			i += n
		case strings.HasPrefix(rest, "/*"):
			depth := 0
			for i < len(sql) {
				if strings.HasPrefix(sql[i:], "/*") {
					depth++
					i += 2
				} else if strings.HasPrefix(sql[i:], "*/") {
					depth--
					i += 2
					if depth == 0 {
						break
					}
				} else {
					i++
				}
			}
		case c == '\'' || c == '"':
			escapes := c == '\'' && i > 0 && (sql[i-1] == 'E' || sql[i-1] == 'e')
			for i++; i < len(sql); i++ {
				if sql[i] == '\\' && escapes {
					i++
				} else if sql[i] == c {
					if i+1 < len(sql) && sql[i+1] == c {
						i++
						continue
					}
					break
				}
			}
			i++
			cur = append(cur, string(c))
		case c == '$' && strings.IndexByte(rest[1:], '$') >= 0 && !(len(rest) > 1 && rest[1] >= '0' && rest[1] <= '9'):
			tag := rest[:strings.IndexByte(rest[1:], '$')+2]
			n := strings.Index(rest[len(tag):], tag)
			if n < 0 {
				i = len(sql)
			} else {
				i += len(tag) + n + len(tag)
			}
			cur = append(cur, "'")
		case word(c):
			j := i
			for j < len(sql) && word(sql[j]) {
				j++
			}
			cur = append(cur, strings.ToUpper(sql[i:j]))
			i = j
		case c == ';':
			end()
			i++
		default:
			if c > ' ' {
				cur = append(cur, string(c))
			}
			i++
		}
	}
	end()
	return out
}

var withEffect = map[string]bool{"NEXTVAL": true, "SETVAL": true, "TXID_CURRENT": true, "PG_CURRENT_XACT_ID": true, "PG_TERMINATE_BACKEND": true, "PG_CANCEL_BACKEND": true, "PG_RELOAD_CONF": true, "PG_ROTATE_LOGFILE": true, "PG_SWITCH_WAL": true, "PG_SWITCH_XLOG": true, "PG_CREATE_RESTORE_POINT": true, "PG_NOTIFY": true, "PG_SLEEP": true, "PG_PROMOTE": true}

// effect tells what a statement does other than reading, or "".
func effect(w []string) string {
	for len(w) > 0 && w[0] == "(" {
		w = w[1:]
	}
	if len(w) == 0 {
		return ""
	}
	switch w[0] {
	case "EXPLAIN":
		for _, x := range w {
			if x == "ANALYZE" {
				return "EXPLAIN ANALYZE"
			}
		}
		return ""
	case "SHOW", "VALUES", "TABLE", "BEGIN", "START", "COMMIT", "END", "ROLLBACK", "ABORT", "SAVEPOINT", "RELEASE", "SET", "RESET", "DEALLOCATE", "CLOSE", "FETCH", "MOVE":
		return ""
	case "SELECT", "WITH", "DECLARE", "PREPARE":
	default:
		return w[0]
	}
	at := func(i int) string {
		if i < 0 || i >= len(w) {
			return ""
		}
		return w[i]
	}
	for i, x := range w {
		switch {
		case x == "INTO":
			return "INTO"
		case x == "DELETE" && at(i+1) == "FROM" && at(i-1) != "." && at(i-1) != "AS":
			return "DELETE"
		case x == "UPDATE" && at(i-1) == "(" && at(i-2) == "AS":
			return "UPDATE"
		case x == "FOR" && (at(i+1) == "UPDATE" || at(i+1) == "SHARE" || at(i+1) == "NO" && at(i+2) == "KEY" || at(i+1) == "KEY" && at(i+2) == "SHARE"):
			return "a row lock"
		case at(i+1) == "(" && (withEffect[x] || strings.HasPrefix(x, "LO_") || strings.HasPrefix(x, "DBLINK") || strings.Contains(x, "ADVISORY_") || strings.HasPrefix(x, "PG_STAT_RESET")):
			return x
		}
	}
	return ""
}

// Glance is a series of questions to a server.
type Glance struct {
	Cat   *Cat
	Ops   []string
	Rel   int
	Sort  bool
	Fault *Fault `json:",omitempty"`
}

func genGlance(t *rapid.T) *Glance {
	k := &Glance{Cat: genCat(t), Rel: Int(t, "rel", 0, 6), Sort: Bool(t, "sort")}
	if Chance(t, "sequences", 30) {
		k.Cat = genSeqCat(t)
	}
	for n := Int(t, "ops", 1, 3); n > 0; n-- {
		k.Ops = append(k.Ops, Pick(t, "op", append([]string{"ping command", "inspect command", "inspect command"}, ops...)...))
	}
	if Chance(t, "fault", 25) {
		k.Fault = &Fault{Kind: Pick(t, "kind", "row", "execute", "prepare", "definition", "execute-break"), Code: Pick(t, "code", "57014", "42501", "42P01", "42703", "40001", "0A000"), At: Int(t, "at", 0, 12), Row: Int(t, "row", 0, 3)}
	}
	return k
}

func runGlance(c *Ctx, k *Glance) {
	var f *Fault
	if k.Fault != nil {
		x := *k.Fault
		f = &x
	}
	b := &backend{w: build(k.Cat), stmts: map[string]*minisql.Stmt{}, fault: f}
	var mu sync.Mutex
	var seen []string
	found := ""
	note := func(sql string) bool {
		mu.Lock()
		defer mu.Unlock()
		seen = append(seen, sql)
		for _, w := range sqlWords(sql) {
			if e := effect(w); e != "" {
				if found == "" {
					found = e + " in\n" + sql
				}
				return true
			}
		}
		return false
	}
	version, _ := k.Cat.version()
	s, err := fakepg.Listen(&fakepg.Server{
		Describe: func(sql string) ([]uint32, []fakepg.Col, *fakepg.Err) {
			if note(sql) {
				return nil, nil, &fakepg.Err{Code: "25006", Message: "cannot execute this in a read-only transaction"}
			}
			st, fe := b.prepare(sql)
			if fe != nil {
				return nil, nil, fe
			}
			return st.Params, resultCols(st), nil
		},
		Answer: func(q *fakepg.Query) *fakepg.Result {
			if note(q.SQL) {
				return &fakepg.Result{Err: &fakepg.Err{Code: "25006", Message: "cannot execute this in a read-only transaction"}}
			}
			return b.answer(q)
		},
		PrepareFault: b.prepareFault,
		Version:      version,
	}, b.socket())
	if err != nil {
		Harnessf("%v", err)
	}
	defer s.Close()
	var conn *pg.Conn
	for _, op := range k.Ops {
		timely(c, op, func() {
			var out bytes.Buffer
			base := &commands.Base{IO: sys.IO{Log: logger.Discard(), Stdout: &out, Stderr: &out}}
			switch op {
			case "ping command":
				(&commands.PingCmd{Host: socketDir(), Port: b.port, SSLMode: "disable", Username: "u", DBName: "db"}).Run(base)
			case "inspect command":
				(&commands.InspectCmd{Host: socketDir(), Port: b.port, SSLMode: "disable", Username: "u", DBName: "db", SortColumns: k.Sort}).Run(base)
			default:
				if conn == nil {
					x, err := pg.New(&pg.Options{Log: zap.NewNop().Sugar(), Host: socketDir(), Port: b.port, SSLMode: "disable", Username: "u", Database: "db"})
					if err != nil {
						return
					}
					conn = x
				}
				perform(conn, k.Cat, op, k.Rel, k.Sort)
			}
		})
		c.Class("%s", op)
	}
	if conn != nil {
		conn.Close()
	}
	mu.Lock()
	defer mu.Unlock()
	c.NonTrivialIf(len(seen) > 4)
	if f != nil && f.Fired {
		c.Class("a statement failed")
	}
	c.Check(found == "", "%q sends a statement that doesn't just read: %s", k.Ops, found)
}

// Dry is a run book that is looked at and not run.
type Dry struct {
	Cmds  []string
	Init  S
	Tasks []DryTask
	Out   string // "", "-" or "file"
	Wrong string // what is wrong with the run book
	Color string
	Set   []string // further settings of the SQL target
}

// DryTask would have an effect.
type DryTask struct {
	Name  S
	Kind  string
	After bool
	Msg   bool
}

func genDry(t *rapid.T) *Dry {
	k := &Dry{Init: S(Pick(t, "init", "hello", "xyzzy")), Out: Pick(t, "out", "", "", "-", "file"), Color: Pick(t, "color", "auto", "true", "false")}
	for n := Int(t, "cmds", 1, 3); n > 0; n-- {
		k.Cmds = append(k.Cmds, Pick(t, "cmd", "list", "dot", "eval"))
	}
	for n := Int(t, "tasks", 1, 6); n > 0; n-- {
		k.Tasks = append(k.Tasks, DryTask{Name: S(fmt.Sprintf("%s%d", Ident(t, "name"), n)), Kind: Pick(t, "kind", "sh", "sh", "pg", "pg", "echo", "sleep", "fail"), After: Bool(t, "after"), Msg: Bool(t, "msg")})
	}
	for _, x := range []string{"password", "connect_retries", "concurrency", "sslmode", "environ", "tcp"} {
		if Chance(t, x, 35) {
			k.Set = append(k.Set, x)
		}
	}
	k.Wrong = Pick(t, "wrong", "", "", "", "", "after", "cycle", "target", "class")
	return k
}

type anyMap = map[string]interface{}

func runDry(c *Ctx, k *Dry) {
	dir := caseDir()
	defer dropCase(dir)
	b := &backend{}
	path := b.socket()
	var contacts, tcpContacts int32
	srv, err := fakepg.Listen(&fakepg.Server{Script: func(int) fakepg.Script {
		atomic.AddInt32(&contacts, 1)
		return fakepg.Script{Reject: &fakepg.Err{Severity: "FATAL", Code: "28000", Message: "no"}}
	}}, path)
	if err != nil {
		Harnessf("%v", err)
	}
	defer srv.Close()
	tcpPort := 0
	useTCP := false
	for _, x := range k.Set {
		useTCP = useTCP || x == "tcp"
	}
	if useTCP {
		ln, err := net.Listen("tcp", "127.0.0.1:0")
		if err != nil {
			Harnessf("%v", err)
		}
		tcpPort = ln.Addr().(*net.TCPAddr).Port
		defer ln.Close()
		go func() {
			for {
				conn, err := ln.Accept()
				if err != nil {
					return
				}
				atomic.AddInt32(&tcpContacts, 1)
				conn.Close()
			}
		}()
	}
	tasks := anyMap{}
	last := ""
	effects := false
	for _, x := range k.Tasks {
		m := anyMap{}
		switch x.Kind {
		case "sh":
			m["target"] = "s"
			m["config"] = anyMap{"args": []string{"/bin/touch", filepath.Join(dir, "mark-"+string(x.Name))}}
			effects = true
		case "pg":
			m["target"] = "p"
			m["config"] = anyMap{"sql": "DROP TABLE t"}
			effects = true
		default:
			m["target"] = "d/" + x.Kind
		}
		if x.After && last != "" {
			m["after"] = []string{last}
		}
		if x.Msg {
			m["message"] = "begins"
		}
		tasks[string(x.Name)] = m
		last = string(x.Name)
	}
	targets := anyMap{
		"s": anyMap{"class": "sh"},
		"p": anyMap{"class": "pg", "config": anyMap{"host": socketDir(), "port": b.port, "sslmode": "disable", "username": "u", "database": "db"}},
		"d": anyMap{"class": "demo", "config": anyMap{"string": k.Init}},
	}
	cfg := targets["p"].(anyMap)["config"].(anyMap)
	for _, x := range k.Set {
		switch x {
		case "password":
			cfg[x] = "secret"
		case "connect_retries", "concurrency":
			cfg[x] = 2
		case "sslmode":
			delete(cfg, x)
		case "environ":
			targets["s"].(anyMap)["config"] = anyMap{"env": anyMap{"VERIF_A": "b"}, "concurrency": 2}
		case "tcp":
			cfg["host"] = "127.0.0.1"
			cfg["port"] = tcpPort
		}
	}
	m := tasks[last].(anyMap)
	switch k.Wrong {
	case "after":
		m["after"] = []string{"no such task"}
	case "cycle":
		m["after"] = []string{last}
	case "target":
		m["target"] = "nosuch"
	case "class":
		targets["x"] = anyMap{"class": "nosuch"}
	}
	text, err := json.Marshal(anyMap{"targets": targets, "tasks": tasks})
	if err != nil {
		Harnessf("%v", err)
	}
	file := filepath.Join(dir, "book.jsonnet")
	if err := os.WriteFile(file, text, 0o600); err != nil {
		Harnessf("%v", err)
	}
	output := ""
	switch k.Out {
	case "-":
		output = "-"
	case "file":
		output = filepath.Join(dir, "out")
	}
	before := snapshot(dir)
	var log bytes.Buffer
	var stdout, stderr bytes.Buffer
	own, ownErr := capture(func() {
		for _, cmd := range k.Cmds {
			base := &commands.Base{IO: sys.IO{Log: logger.New(2, &log, nil), Stdout: &stdout, Stderr: &stderr}}
			timely(c, cmd, func() {
				switch cmd {
				case "list":
					(&commands.RunBookListCmd{File: file}).Run(base)
				case "dot":
					(&commands.RunBookDotCmd{File: file, Output: output}).Run(base)
				case "eval":
					(&commands.RunBookEvalCmd{File: file, Output: output, Color: k.Color}).Run(base)
				}
			})
			c.Class("%s", cmd)
		}
	})
	c.NonTrivialIf(effects)
	// connections are taken in order: once ours has been, every earlier one has
	for _, x := range []struct {
		network, address string
		n                *int32
		on               bool
	}{{"unix", path, &contacts, true}, {"tcp", fmt.Sprintf("127.0.0.1:%d", tcpPort), &tcpContacts, useTCP && tcpPort > 0}} {
		if !x.on {
			continue
		}
		if conn, err := net.Dial(x.network, x.address); err == nil {
			for i := 0; i < 50000 && atomic.LoadInt32(x.n) == 0; i++ {
				time.Sleep(100 * time.Microsecond)
			}
			atomic.AddInt32(x.n, -1)
			conn.Close()
		}
	}
	c.Check(atomic.LoadInt32(&contacts) <= 0 && atomic.LoadInt32(&tcpContacts) <= 0, "%q connects to a server\n%s", k.Cmds, text)
	diff := changes(before, snapshot(dir))
	if k.Out == "file" {
		delete(diff, "out")
	}
	var names []string
	for n := range diff {
		names = append(names, n)
	}
	sort.Strings(names)
	c.Check(len(names) == 0, "%q changes %q\n%s", k.Cmds, names, text)
	for _, line := range strings.Split(stdout.String()+own+ownErr+stderr.String(), "\n") {
		c.Check(line != string(k.Init), "%q prints the string of a demo target: an echo task was executed\n%s", k.Cmds, text)
	}
	c.Check(!strings.Contains(log.String(), "begins"), "%q announces a task: %s\n%s", k.Cmds, log.String(), text)
}

func init() {
	Add("C08", "reads", Opt{Quick: 1500, Thorough: 40000,
		Rule: "one to three questions (ping, inspect or a single list, by command or directly, some with a failing statement) to a fake server of any version and content; every statement that arrives is split into words and must do nothing but read; non-trivial: more than four statements arrive"},
		genGlance, runGlance)
	Add("C08", "dry", Opt{Quick: 2500, Thorough: 60000,
		Rule: "one to three of list, dot and eval for a run book, right or wrong, whose shell tasks would create files, whose SQL tasks would connect and whose demo tasks would print; non-trivial: there is a shell or SQL task"},
		genDry, runDry)
}
