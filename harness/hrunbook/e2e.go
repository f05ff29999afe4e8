//go:build go1.23

package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"strings"
	"sync"
	"time"

	"go.uber.org/zap"
	"go.uber.org/zap/zapcore"

	"github.com/sjansen/pgutil/internal/runbook"
	"github.com/sjansen/pgutil/internal/sys"
	. "github.com/sjansen/pgutil/internal/zzverif/engine"
	"github.com/sjansen/pgutil/internal/zzverif/fakepg"
	"github.com/sjansen/pgutil/internal/zzverif/rapid"
)

// End-to-end cases: runbook files with PostgreSQL targets, run by the exported
// entry point against fake servers that answer in the order of the schedule.

// scratchFile returns a path in the check's scratch directory.
func scratchFile(name string) string {
	dir := os.Getenv("VERIF_WORK")
	if dir == "" {
		dir = os.TempDir()
	}
	return filepath.Join(dir, name)
}

func mustWrite(path string, data []byte) {
	if err := os.WriteFile(path, data, 0o644); err != nil {
		Harnessf("%v", err)
	}
}

// PgTgt is a PostgreSQL target of an end-to-end case.
type PgTgt struct {
	Name   S
	Server int
	User   S
	DB     S
	Pass   S
	Cap    int
	Refuse bool // the server refuses this target's connection
	Mode   string
}

// PgTask is a task of an end-to-end case.
type PgTask struct {
	Target int
	SQL    S
	Msg    S
	Fail   string // "", "error" or "break"
	Rows   int
}

// E2ECase is a runbook file with PostgreSQL targets and a schedule.
type E2ECase struct {
	G        Graph
	Targets  []PgTgt
	Tasks    []PgTask
	Schedule []int
	Servers  int
	Back     [][2]int
	Dangling []Missing
}

type e2eMode struct {
	fail, refuse, msgs, values, invalid bool
}

func genE2E(t *rapid.T, m e2eMode) E2ECase {
	k := E2ECase{G: genGraph(t, 10, true), Servers: Int(t, "servers", 1, 2)}
	n := k.G.n()
	nt := Int(t, "targets", 1, 3)
	for i, name := range distinctNames(t, "target", nt, true) {
		name = S(strings.ReplaceAll(string(name), "/", "|"))
		g := PgTgt{Name: name, Server: Int(t, "server", 0, k.Servers-1), User: "u", DB: S(fmt.Sprintf("db%d", i)), Cap: Pick(t, "cap", 1, 1, 2, 3), Mode: "disable"}
		if m.values {
			g.User = S(clean(Text(t, "user", 3)) + "u")
			g.DB = S(clean(Text(t, "db", 3)) + fmt.Sprint(i))
			if Chance(t, "nouser", 15) {
				g.User = ""
			}
			if Bool(t, "pw") {
				g.Pass = S(clean(Text(t, "pass", 4)) + "p")
				g.Mode = Pick(t, "mode", "disable", "prefer")
			} else {
				g.Mode = Pick(t, "mode", "disable", "prefer", "")
			}
		}
		if m.refuse {
			g.Refuse = Chance(t, "refuse", 30)
		}
		k.Targets = append(k.Targets, g)
	}
	if m.values && nt > 1 && Chance(t, "onedb", 30) {
		// differ in the user only
		a, b := &k.Targets[0], &k.Targets[1]
		b.Server, b.DB, b.Mode, b.Pass = a.Server, a.DB, a.Mode, a.Pass
		if a.User == "" {
			a.User = "u"
		}
		b.User = S(Pick(t, "otheruser", "x", "U", " ")) + a.User
		if Bool(t, "shorter") {
			a.User, b.User = b.User, a.User
		}
	}
	// names must stay distinct after the replacement
	seen := map[S]bool{}
	for i := range k.Targets {
		for seen[k.Targets[i].Name] {
			k.Targets[i].Name += "'"
		}
		seen[k.Targets[i].Name] = true
	}
	for i := 0; i < n; i++ {
		x := PgTask{Target: Int(t, "on", 0, nt-1), SQL: S(fmt.Sprintf("SELECT %d", i))}
		if m.values {
			x.SQL = S(fmt.Sprintf("SELECT %d /* %s */", i, clean(Text(t, "sql", 6))))
			x.Rows = Int(t, "rows", 0, 3)
			if Chance(t, "same", 15) {
				x.SQL = "SELECT the same"
			}
			if Chance(t, "multi", 15) {
				x.SQL += "; SELECT 2;\n -- end "
			}
			if Chance(t, "lead", 15) {
				x.SQL = S(Pick(t, "leading", " ", "\n", "\t", "-- c\n", ";", "/**/")) + x.SQL + S(Pick(t, "trailing", "", " ", "\n", ";", ";;\n"))
			}
			if Chance(t, "blank", 5) {
				x.SQL = S(Pick(t, "blanks", " ", "\n", ";", "\t \r\n", "--"))
			}
			x.SQL = Lengthen(t, "sql", x.SQL, 1, 100000)
		}
		if m.msgs && Chance(t, "msg", 70) || Chance(t, "msg2", 10) {
			x.Msg = S(fmt.Sprintf("announce task %d %s", i, Text(t, "msg", 2)))
		}
		if m.fail && Chance(t, "fail", 18) {
			x.Fail = Pick(t, "how", "error", "error", "fatal", "break")
		}
		k.Tasks = append(k.Tasks, x)
	}
	if m.fail && n > 0 && Chance(t, "failone", 60) {
		k.Tasks[Int(t, "failidx", 0, n-1)].Fail = Pick(t, "how", "error", "break")
	}
	if m.invalid && n > 0 {
		if Chance(t, "cycle", 60) {
			k.Back = append(k.Back, [2]int{Int(t, "from", 0, n-1), Int(t, "to", 0, n-1)})
		} else {
			k.Dangling = append(k.Dangling, Missing{Int(t, "dfrom", 0, n-1), "no such task"})
		}
	}
	k.Schedule = rapid.SliceOfN(rapid.IntRange(0, 255), 0, n).Draw(t, "schedule")
	return k
}

func clean(s string) string {
	return strings.Map(func(r rune) rune {
		if r == 0 {
			return -1
		}
		return r
	}, s)
}

func (k *E2ECase) after(i int) []int {
	out := append([]int(nil), k.G.deps(i)...)
	for _, b := range k.Back {
		if b[0] == i {
			out = append(out, b[1])
		}
	}
	return out
}

type arrival struct {
	server int
	conn   int
	db     string
	user   string
	sql    string
	reply  chan *fakepg.Result
}

type e2eRun struct {
	over     bool // nothing is answered any more
	mu       sync.Mutex
	cond     *sync.Cond
	arrivals []*arrival // not yet taken by the harness
	infos    []string   // informational log entries, in order
	infoAt   []int      // number of arrivals seen when logged
	nArrived int
	done     bool
	err      error
}

type e2eCore struct{ r *e2eRun }

func (c e2eCore) Enabled(l zapcore.Level) bool      { return true }
func (c e2eCore) With([]zapcore.Field) zapcore.Core { return c }
func (c e2eCore) Sync() error                       { return nil }
func (c e2eCore) Check(e zapcore.Entry, ce *zapcore.CheckedEntry) *zapcore.CheckedEntry {
	return ce.AddCore(e, c)
}
func (c e2eCore) Write(e zapcore.Entry, _ []zapcore.Field) error {
	if e.Level == zapcore.InfoLevel {
		c.r.mu.Lock()
		c.r.infos = append(c.r.infos, e.Message)
		c.r.infoAt = append(c.r.infoAt, c.r.nArrived)
		c.r.mu.Unlock()
	}
	return nil
}

// runbookJSON renders the case as a runbook file.
func (k *E2ECase) file(ports []int) []byte {
	targets := map[string]interface{}{}
	for _, g := range k.Targets {
		cfg := map[string]interface{}{
			"host": fmt.Sprintf("127.0.0.%d", g.Server+1), "port": ports[g.Server], "database": string(g.DB),
		}
		if g.User != "" { // or it's that of the environment
			cfg["username"] = string(g.User)
		}
		if g.Mode != "" {
			cfg["sslmode"] = g.Mode
		}
		if g.Pass != "" {
			cfg["password"] = string(g.Pass)
		}
		if g.Cap != 1 {
			cfg["concurrency"] = g.Cap
		}
		targets[string(g.Name)] = map[string]interface{}{"class": "pg", "config": cfg}
	}
	nodes := k.G.nodes()
	for _, b := range k.Back {
		n := string(k.G.Names[b[0]])
		nodes[n] = append(nodes[n], string(k.G.Names[b[1]]))
	}
	for _, d := range k.Dangling {
		n := string(k.G.Names[d.From])
		nodes[n] = append(nodes[n], string(d.To))
	}
	tasks := map[string]interface{}{}
	for i, x := range k.Tasks {
		name := string(k.G.Names[i])
		tgt := string(k.Targets[x.Target].Name)
		if i%2 == 1 {
			tgt += "/exec"
		}
		m := map[string]interface{}{"target": tgt, "config": map[string]interface{}{"sql": string(x.SQL)}}
		if len(nodes[name]) > 0 {
			m["after"] = nodes[name]
		}
		if x.Msg != "" {
			m["message"] = string(x.Msg)
		}
		tasks[name] = m
	}
	data, err := json.Marshal(map[string]interface{}{"targets": targets, "tasks": tasks})
	if err != nil {
		Harnessf("%v", err)
	}
	return data
}

const patience = 25 * time.Second

// e2e runs the case and judges the aspect that belongs to prop.
func e2e(prop string) func(*Ctx, E2ECase) {
	return func(c *Ctx, k E2ECase) {
		is := func(ps ...string) bool {
			for _, p := range ps {
				if p == prop {
					return true
				}
			}
			return false
		}
		n := len(k.Tasks)
		valid := len(k.Back) == 0 && len(k.Dangling) == 0
		if !valid {
			adj := k.G.adjacency()
			for _, b := range k.Back {
				adj[string(k.G.Names[b[0]])][string(k.G.Names[b[1]])] = true
			}
			valid = len(k.Dangling) == 0 && acyclic(adj)
		}
		r := &e2eRun{}
		r.cond = sync.NewCond(&r.mu)
		var servers []*fakepg.Server
		var ports []int
		for i := 0; i < k.Servers; i++ {
			i := i
			s := &fakepg.Server{}
			s.Answer = func(q *fakepg.Query) *fakepg.Result {
				a := &arrival{server: i, conn: q.Conn.N, db: q.Conn.Startup["database"], user: q.Conn.Startup["user"], sql: q.SQL, reply: make(chan *fakepg.Result, 1)}
				r.mu.Lock()
				if r.over {
					r.mu.Unlock()
					return &fakepg.Result{Break: true}
				}
				r.arrivals = append(r.arrivals, a)
				r.nArrived++
				r.mu.Unlock()
				r.cond.Broadcast()
				return <-a.reply
			}
			// a password is asked for where the target has one; the user and
			// the right password are known only by the startup message, so the
			// server accepts what it gets and the record is judged afterwards
			s.Script = func(int) fakepg.Script { return fakepg.Script{} }
			// two servers on one port differ in their address only
			addr := ""
			if i > 0 {
				addr = fmt.Sprintf("tcp:127.0.0.%d:%d", i+1, ports[0])
			}
			srv, err := fakepg.Listen(s, addr)
			if err != nil && i > 0 {
				srv, err = fakepg.Listen(s, fmt.Sprintf("tcp:127.0.0.%d:0", i+1))
			}
			if err != nil {
				Harnessf("%v", err)
			}
			servers = append(servers, srv)
			ports = append(ports, srv.Port())
		}
		stopServers := func() {
			r.mu.Lock()
			r.over = true
			for _, a := range r.arrivals {
				select {
				case a.reply <- &fakepg.Result{Break: true}:
				default:
				}
			}
			r.mu.Unlock()
			for _, s := range servers {
				s.Close()
			}
		}
		// servers treat a target's connection by its database and, if several
		// targets use that, its user
		byDB := func(server int, db, user string) (int, bool) {
			at := -1
			for i, g := range k.Targets {
				if g.Server == server && string(g.DB) == db && (at < 0 || string(g.User) == user) {
					at = i
				}
			}
			return at, at >= 0
		}
		for si, s := range servers {
			si := si
			_ = s
			s.Welcome = func(startup map[string]string) fakepg.Script {
				i, ok := byDB(si, startup["database"], startup["user"])
				if !ok {
					return fakepg.Script{}
				}
				g := k.Targets[i]
				sc := fakepg.Script{}
				if g.Refuse {
					sc.Reject = &fakepg.Err{Severity: "FATAL", Code: "53300", Message: "sorry, too many clients already"}
				}
				if g.Pass != "" {
					sc.Auth, sc.Password = "cleartext", string(g.Pass)
				}
				return sc
			}
		}
		path := scratchFile("book.json")
		mustWrite(path, k.file(ports))
		var stdout, stderr bytes.Buffer
		log := zap.New(e2eCore{r}).Sugar()
		go func() {
			err := runbook.Run(&sys.IO{Log: log, Stdout: &stdout, Stderr: &stderr}, path)
			r.mu.Lock()
			r.done, r.err = true, err
			r.mu.Unlock()
			r.cond.Broadcast()
		}()

		begun := make([]int, n)
		ended := make([]bool, n)
		busy := make([]int, len(k.Targets))
		var waiting []*arrival
		taskOf := map[*arrival]int{}
		failing := false
		refused := false
		for _, g := range k.Targets {
			refused = refused || g.Refuse
		}
		refused = refused || !valid
		var failure string
		fail := func(ps []string, format string, args ...interface{}) {
			if failure == "" && is(ps...) {
				failure = fmt.Sprintf(format, args...)
			}
		}
		step := 0
		failedOn := make([]bool, len(k.Targets))
		accept := func(a *arrival) {
			ti, ok := byDB(a.server, a.db, a.user)
			if !ok {
				fail([]string{"R20"}, "a statement arrived at server %d on a connection to database %q, which no target uses: %q", a.server, a.db, a.sql)
				a.reply <- &fakepg.Result{Break: true}
				return
			}
			task := -1
			for i, x := range k.Tasks {
				if x.Target == ti && string(x.SQL) == a.sql && begun[i] == 0 {
					task = i
					ready := true
					for _, j := range k.after(i) {
						ready = ready && ended[j]
					}
					if ready {
						break
					}
				}
			}
			if task < 0 {
				fail([]string{"R20", "R02", "R03"}, "target %q got the statement %q, which is not that of one of its tasks that is still to be executed", k.Targets[ti].Name, a.sql)
				a.reply <- &fakepg.Result{Tag: "SELECT 0"}
				return
			}
			begun[task]++
			if !valid {
				fail([]string{"R04", "R01"}, "task %q was executed although the dependencies are not valid", k.G.Names[task])
			}
			if refused {
				fail([]string{"R07"}, "task %q was executed although the run was to be refused", k.G.Names[task])
			}
			for _, j := range k.after(task) {
				if !ended[j] {
					fail([]string{"R01"}, "task %q started before %q, on which it depends, had ended without an error", k.G.Names[task], k.G.Names[j])
					if k.Tasks[j].Fail != "" {
						fail([]string{"R03"}, "task %q was started although %q failed", k.G.Names[task], k.G.Names[j])
					}
				}
			}
			if failedOn[ti] {
				fail([]string{"R21"}, "task %q was started on target %q, which had executed a task that failed", k.G.Names[task], k.Targets[ti].Name)
			}
			busy[ti]++
			if busy[ti] > k.Targets[ti].Cap {
				fail([]string{"R05"}, "target %q works on %d tasks at once", k.Targets[ti].Name, busy[ti])
			}
			taskOf[a] = task
			waiting = append(waiting, a)
		}
		alike := func(i int) (out []int) {
			for j, x := range k.Tasks {
				if x.Target == k.Tasks[i].Target && x.SQL == k.Tasks[i].SQL {
					out = append(out, j)
				}
			}
			return
		}
		owed := func() int { // a task that has to arrive now
			if refused || failing {
				return -1
			}
			for i := range k.Tasks {
				if begun[i] > 0 || busy[k.Tasks[i].Target] > 0 {
					continue
				}
				// tasks with the same statement can't be told apart: whichever
				// it was that ended, and whichever is left, it has to be ready
				ready := true
				for _, x := range alike(i) {
					for _, d := range k.after(x) {
						for _, j := range alike(d) {
							ready = ready && ended[j]
						}
					}
				}
				if ready {
					return i
				}
			}
			return -1
		}
		deadline := time.AfterFunc(patience, r.cond.Broadcast)
		defer deadline.Stop()
		since := time.Now()
		stuck := false
		for failure == "" {
			r.mu.Lock()
			for len(r.arrivals) == 0 && !r.done && (owed() >= 0 || len(waiting) == 0) && time.Since(since) < patience {
				r.cond.Wait()
			}
			got := r.arrivals
			r.arrivals = nil
			done := r.done
			r.mu.Unlock()
			for _, a := range got {
				accept(a)
			}
			if done && len(got) == 0 {
				break
			}
			if len(got) > 0 || owed() < 0 && len(waiting) > 0 {
				since = time.Now()
				deadline.Reset(patience)
			} else {
				stuck = time.Since(since) >= patience
				if stuck {
					break
				}
				continue
			}
			if owed() >= 0 || len(waiting) == 0 {
				continue
			}
			v := 0
			if step < len(k.Schedule) {
				v = k.Schedule[step]
			}
			step++
			p := v * len(waiting) / 256
			a := waiting[p]
			waiting = append(waiting[:p:p], waiting[p+1:]...)
			task := taskOf[a]
			busy[k.Tasks[task].Target]--
			x := k.Tasks[task]
			res := &fakepg.Result{Tag: "INSERT 0 1"}
			for i := 0; i < x.Rows; i++ {
				v := fmt.Sprint(i)
				res.Tag = fmt.Sprintf("SELECT %d", x.Rows)
				res.Cols = []fakepg.Col{{Name: "x", OID: fakepg.Text}}
				res.Rows = append(res.Rows, []*string{&v})
			}
			switch x.Fail {
			case "":
				ended[task] = true
			case "error":
				res = &fakepg.Result{Err: &fakepg.Err{Code: "42601", Message: fmt.Sprintf("failure of task %d", task)}}
				if x.Rows > 0 {
					v := "1"
					res = &fakepg.Result{Cols: []fakepg.Col{{Name: "x", OID: fakepg.Text}}, Rows: [][]*string{{&v}}, AtRow: 1, ErrAtRow: res.Err}
				}
			case "fatal":
				res = &fakepg.Result{Err: &fakepg.Err{Severity: "FATAL", Code: "57P01", Message: fmt.Sprintf("failure of task %d", task)}}
			case "break":
				res = &fakepg.Result{Break: true}
			}
			if x.Fail != "" {
				failing = true
				failedOn[k.Tasks[task].Target] = true
			}
			a.reply <- res
		}
		if stuck {
			o := owed()
			if o >= 0 {
				fail([]string{"R02", "R03", "R06", "R20", "R07", "R01", "R05", "R08"}, "task %q is ready and its target %q idle, but its statement never arrived; the run does not end", k.G.Names[o], k.Targets[k.Tasks[o].Target].Name)
			} else {
				fail([]string{"R02", "R03", "R04", "R07", "R20", "R01", "R05", "R06", "R08"}, "nothing is executing, yet the run does not end")
			}
		}
		r.mu.Lock()
		done, err := r.done, r.err
		infos, infoAt := append([]string(nil), r.infos...), append([]int(nil), r.infoAt...)
		r.mu.Unlock()
		allClosed := true
		if done && failure == "" {
			for _, s := range servers {
				allClosed = s.WaitClosed(patience/3) && allClosed
			}
		}
		var snaps [][]fakepg.Snapshot
		for _, s := range servers {
			snaps = append(snaps, s.Conns())
		}
		for _, a := range waiting {
			select {
			case a.reply <- &fakepg.Result{Break: true}:
			default:
			}
		}
		stopServers()
		if failure != "" {
			c.Failf("%s", failure)
		}
		if !done {
			return
		}
		c.Class("tasks=%d", min(n, 6))
		c.NonTrivialIf(n >= 2)

		// results
		c.Check(!is("R04") || stdout.Len() == 0 && stderr.Len() == 0, "output %q and %q", stdout.String(), stderr.String())
		switch {
		case !valid:
			c.Check(!is("R04") || err != nil, "a run with invalid dependencies was not refused")
		case refused:
			c.Check(!is("R07") || err != nil && strings.Contains(err.Error(), "too many clients"), "the run's error does not tell that a target could not be started: %v", err)
		case failing:
			if is("R03", "R20") {
				c.Check(err != nil, "no error although a task failed")
				ok := false
				for i, x := range k.Tasks {
					if x.Fail == "break" || x.Fail == "fatal" && begun[i] > 0 {
						ok = true
					}
					if x.Fail == "error" && begun[i] > 0 && strings.Contains(err.Error(), fmt.Sprintf("failure of task %d", i)) {
						ok = true
					}
				}
				c.Check(ok, "the run's error %q is not that of a failed task", err)
			}
		default:
			if is("R02", "R20") {
				c.Check(err == nil, "error although nothing failed: %v", err)
				for i := range begun {
					c.Check(begun[i] == 1, "task %q was executed %d times", k.G.Names[i], begun[i])
				}
			}
		}

		// connections
		if is("R20", "R07") {
			c.Check(allClosed, "a connection is still open after the run has ended")
			perTarget := make([]int, len(k.Targets))
			for si, conns := range snaps {
				for _, s := range conns {
					if s.Startup == nil {
						continue // encryption was refused
					}
					ti, ok := byDB(si, s.Startup["database"], s.Startup["user"])
					c.Check(ok, "server %d got a connection to database %q, which no target uses", si, s.Startup["database"])
					g := k.Targets[ti]
					perTarget[ti]++
					c.Check(g.User == "" || s.Startup["user"] == string(g.User), "target %q connected as %q, not %q", g.Name, s.Startup["user"], g.User)
					c.Check(s.Password == string(g.Pass), "target %q sent the password %q, not %q", g.Name, s.Password, g.Pass)
					broken := g.Refuse
					for _, x := range k.Tasks {
						broken = broken || x.Target == ti && (x.Fail == "break" || x.Fail == "fatal")
					}
					c.Check(broken || s.Terminated, "the connection of target %q was not closed in an orderly way", g.Name)
				}
			}
			if valid {
				for i, m := range perTarget {
					g := k.Targets[i]
					c.Check(m <= 1, "target %q opened %d connections", g.Name, m)
					c.Check(refused || m == 1, "target %q opened %d connections", g.Name, m)
				}
			}
		}

		// announcements
		if is("R08") {
			for i, x := range k.Tasks {
				if x.Msg == "" {
					continue
				}
				count, at := 0, 0
				for j, m := range infos {
					if m == string(x.Msg) {
						count++
						at = infoAt[j]
					}
				}
				want := begun[i]
				c.Check(count == want, "the message %q of task %q was announced %d times, the task was executed %d times", x.Msg, k.G.Names[i], count, want)
				_ = at
			}
		}
	}
}

func init() {
	rule := "runbook file with PostgreSQL targets run by runbook.Run against fake servers that answer in the order of a generated schedule; non-trivial: two or more tasks"
	o := Opt{Quick: 250, Thorough: 6000, Rule: rule}
	gen := func(m e2eMode) func(*rapid.T) E2ECase { return func(t *rapid.T) E2ECase { return genE2E(t, m) } }
	Add("R01", "e2e", o, gen(e2eMode{}), e2e("R01"))
	Add("R02", "e2e", o, gen(e2eMode{}), e2e("R02"))
	Add("R03", "e2e", o, gen(e2eMode{fail: true}), e2e("R03"))
	Add("R21", "e2e", o, gen(e2eMode{fail: true}), e2e("R21"))
	Add("R04", "e2e", o, gen(e2eMode{invalid: true}), e2e("R04"))
	Add("R05", "e2e", Opt{Quick: 100, Thorough: 3000, Rule: rule}, gen(e2eMode{}), e2e("R05"))
	Add("R06", "e2e", Opt{Quick: 150, Thorough: 4000, Rule: rule}, gen(e2eMode{}), e2e("R06"))
	Add("R07", "e2e", o, func(t *rapid.T) E2ECase {
		return genE2E(t, e2eMode{refuse: Bool(t, "refuse"), fail: Chance(t, "f", 30)})
	}, e2e("R07"))
	Add("R08", "e2e", o, gen(e2eMode{msgs: true}), e2e("R08"))
	Add("R20", "e2e", Opt{Quick: 600, Thorough: 15000, Rule: rule},
		func(t *rapid.T) E2ECase { return genE2E(t, e2eMode{values: true, fail: Chance(t, "f", 40)}) }, e2e("R20"))
}
