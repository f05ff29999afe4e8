//go:build go1.23

package main

import (
	"bytes"
	"crypto/ecdsa"
	"crypto/elliptic"
	"crypto/rand"
	"crypto/tls"
	"crypto/x509"
	"crypto/x509/pkix"
	"encoding/pem"
	"fmt"
	"math/big"
	"net"
	"os"
	"path/filepath"
	"strconv"
	"strings"
	"sync"
	"testing"
	"testing/synctest"
	"time"

	"go.uber.org/zap"
	"go.uber.org/zap/zapcore"

	"github.com/sjansen/pgutil/internal/pg"
	rpg "github.com/sjansen/pgutil/internal/runbook/pg"
	. "github.com/sjansen/pgutil/internal/zzverif/engine"
	"github.com/sjansen/pgutil/internal/zzverif/fakepg"
	"github.com/sjansen/pgutil/internal/zzverif/rapid"
)

// answers are what a server needs to say for ServerVersion and Exec.
func answers(q *fakepg.Query) *fakepg.Result {
	if strings.Contains(strings.ToUpper(q.SQL), "VERSION") {
		s := versionText
		return &fakepg.Result{Cols: []fakepg.Col{{Name: "version", OID: 25}}, Rows: [][]*string{{&s}}, Tag: "SELECT 1"}
	}
	if strings.HasPrefix(q.SQL, "FAIL") {
		return &fakepg.Result{Err: &fakepg.Err{Severity: "ERROR", Code: "42601", Message: "no such statement"}}
	}
	return &fakepg.Result{Tag: "SELECT 0"}
}

// ---------------------------------------------------------------- P05

// Attempts is a connection to a server that treats each attempt in its own way.
type Attempts struct {
	Retries  int
	Via      string   // "direct" or "target"
	Outcomes []string // of each attempt; further attempts succeed
	Unix     bool
	Mode     string
	Conc     int    // the target's concurrency
	Stmts    []bool // which of the statements that it is handed succeed
}

var outcomes = []string{"close", "reject", "reject early", "break", "auth", "init error", "ok", "no encryption"}

func genAttempts(t *rapid.T) *Attempts {
	a := &Attempts{Retries: Pick(t, "retries", 0, 0, 1, 1, 2, 2, 3, 4, 5, 6, 8, 12, 20, 30, -1, -3), Via: Pick(t, "via", "direct", "target"), Unix: Chance(t, "unix", 60), Mode: Pick(t, "mode", "disable", "disable", "require", "")}
	good := Pick(t, "goods", 12, 12, 2)
	for n := max(a.Retries, 0) + 2 - Int(t, "n", 0, max(a.Retries, 0)+2); n > 0; n-- {
		if Chance(t, "good", good) {
			a.Outcomes = append(a.Outcomes, "ok")
			continue
		}
		a.Outcomes = append(a.Outcomes, Pick(t, "outcome", outcomes...))
	}
	if a.Via == "target" {
		a.Conc = Pick(t, "conc", 1, 1, 2, 5, 100)
		for n := Int(t, "stmts", 0, 4); n > 0; n-- {
			a.Stmts = append(a.Stmts, Chance(t, "good", 70))
		}
	}
	return a
}

func runAttempts(c *Ctx, a *Attempts) {
	outcome := func(n int) string {
		if n < len(a.Outcomes) {
			return a.Outcomes[n]
		}
		return "ok"
	}
	allowed := a.Retries + 1
	if allowed < 1 {
		allowed = 1
	}
	wantTries, wantOK := allowed, false
	for i := 0; i < allowed; i++ {
		if outcome(i) == "ok" {
			wantTries, wantOK = i+1, true
			break
		}
	}
	c.NonTrivialIf(wantTries > 1 || a.Retries > 0)
	c.Class("tries %d", wantTries)
	c.Class("success %v", wantOK)
	c.Class("via %s", a.Via)
	for i := 0; i < wantTries; i++ {
		c.Class("attempt %s", outcome(i))
	}
	s := &fakepg.Server{Answer: answers, Script: func(n int) fakepg.Script {
		x := fakepg.Script{Auth: "cleartext", Password: "right"}
		if a.Mode == "require" {
			x.TLS = (&certs{}).get(cert{trusted: true, ips: "127.0.0.1", valid: true})
		}
		switch outcome(n) {
		case "close":
			x.CloseOnAccept = true
		case "reject":
			x.Reject = &fakepg.Err{Severity: "FATAL", Code: "57P03", Message: "the database system is starting up"}
		case "reject early":
			x.Reject = &fakepg.Err{Severity: "FATAL", Code: "53300", Message: "too many clients"}
			x.RejectEarly = true
		case "break":
			x.BreakStartup = true
		case "auth":
			x.Password = "other"
		case "init error":
			x.InitErr = &fakepg.Err{Severity: "ERROR", Code: "57014", Message: "no"}
		case "no encryption":
			x.TLS, x.BreakStartup = nil, true
		}
		return x
	}}
	host, port := "127.0.0.1", uint16(0)
	path := ""
	if a.Unix {
		var b backend
		path = b.socket()
		host, port = socketDir(), b.port
	}
	server, err := fakepg.Listen(s, path)
	if err != nil {
		Harnessf("%v", err)
	}
	defer server.Close()
	if !a.Unix {
		port = uint16(server.Port())
	}

	var took time.Duration
	var dials dialTimes
	log := zap.New(&dials).Sugar()
	var version string
	var useErr, closeErr error
	var conn *pg.Conn
	var open, tries int
	// counting takes real time: it happens outside of the bubble
	ask, counts := make(chan bool), make(chan [2]int)
	defer close(ask)
	go func() {
		for range ask {
			o, n := countOpen(server)
			counts <- [2]int{o, n}
		}
	}()
	count := func() (int, int) {
		ask <- true
		x := <-counts
		return x[0], x[1]
	}
	timely(c, "connecting", func() {
		// time stands still while the connection is used and jumps while the
		// program waits
		synctest.Test(T, func(*testing.T) {
			began := time.Now()
			mode := a.Mode
			if mode == "" {
				mode = "allow"
			}
			if a.Via == "target" {
				f := &rpg.TargetFactory{Log: log}
				t := f.NewTarget().(*rpg.Target)
				t.Host, t.Port, t.SSLMode, t.Username, t.Password, t.Database, t.ConnectRetries = host, port, mode, "u", "right", "db", a.Retries
				if a.Conc > 0 {
					t.Concurrency = a.Conc
				}
				err = t.Start()
				took = time.Since(began)
				if err == nil {
					for i, good := range a.Stmts {
						x, e := t.NewTaskConfig("exec")
						if e != nil {
							useErr = e
							return
						}
						x.(*rpg.Exec).SQL = fmt.Sprintf("%s %d", map[bool]string{true: "SELECT", false: "FAIL"}[good], i)
						if e := t.Handle(nil, x); (e == nil) != good && useErr == nil {
							useErr = fmt.Errorf("a statement ended with the error %v, it was to succeed: %v", e, good)
						}
					}
					version = versionText
					open, tries = count()
					closeErr = t.Stop()
				}
				return
			}
			conn, err = pg.New(&pg.Options{Log: log, Host: host, Port: port, SSLMode: mode, Username: "u", Password: "right", Database: "db", ConnectRetries: a.Retries})
			took = time.Since(began)
			if err == nil {
				version, useErr = conn.ServerVersion()
				open, tries = count()
				closeErr = conn.Close()
			}
		})
	})
	if tries == 0 {
		_, tries = count()
	}
	describe := fmt.Sprintf("(%d retries, attempts ending with %v)", a.Retries, a.Outcomes)
	if a.Mode == "" {
		// a failed attempt is repeated with encryption: twice the connections
		n := len(server.Conns())
		c.Check(n <= 2*allowed, "%d connections for %d allowed attempts %s", n, allowed, describe)
	} else {
		c.Check((err == nil) == wantOK, "connecting ended with the error %v, although attempt %d was to end it %s", err, wantTries, describe)
		c.Check(tries == wantTries, "%d attempts instead of %d %s", tries, wantTries, describe)
		if len(dials.at) == tries { // the driver tells of each attempt
			for i := 1; i < tries; i++ {
				gap := dials.at[i].Sub(dials.at[i-1])
				c.Check(gap >= 100*time.Millisecond, "attempt %d came %v after the one before it %s", i+1, gap, describe)
			}
			c.Class("timed attempts")
		}
		if waits := wantTries - 1; waits > 0 {
			c.Check(took >= time.Duration(waits)*100*time.Millisecond, "%d attempts within %v: no wait between some %s", wantTries, took, describe)
		}
	}
	if err == nil {
		c.Check(useErr == nil, "the connection can't be used: %v %s", useErr, describe)
		c.Check(version == versionText, "the wrong server answered: %q", version)
		c.Check(open == 1, "%d connections are open after success %s", open, describe)
		c.Check(closeErr == nil, "closing failed: %v", closeErr)
		if a.Via == "target" {
			asked := 0
			for _, x := range server.Conns() {
				for _, q := range x.Queries {
					if strings.HasPrefix(q, "SELECT ") && len(q) == 8 || strings.HasPrefix(q, "FAIL ") {
						asked++
					}
				}
			}
			c.Check(asked == len(a.Stmts), "%d of %d statements arrived", asked, len(a.Stmts))
		}
	}
	c.Check(server.WaitClosed(10*time.Second), "a connection stays open after the end %s", describe)
}

// dialTimes is a log that notes when the driver tells that it's connecting.
type dialTimes struct{ at []time.Time }

func (d *dialTimes) Enabled(zapcore.Level) bool        { return true }
func (d *dialTimes) With([]zapcore.Field) zapcore.Core { return d }
func (d *dialTimes) Sync() error                       { return nil }
func (d *dialTimes) Check(e zapcore.Entry, x *zapcore.CheckedEntry) *zapcore.CheckedEntry {
	return x.AddCore(e, d)
}
func (d *dialTimes) Write(e zapcore.Entry, _ []zapcore.Field) error {
	if e.Message == "Dialing PostgreSQL server" {
		d.at = append(d.at, time.Now())
	}
	return nil
}

// countOpen counts the connections that the server welcomed and that the
// client has not closed, and all.
func countOpen(s *fakepg.Server) (open, all int) {
	for deadline := time.Now().Add(5 * time.Second); ; {
		open = 0
		conns := s.Conns()
		all = len(conns)
		for _, x := range conns {
			if x.Welcomed && !x.Closed && !x.Terminated {
				open++
			}
		}
		if open <= 1 || time.Now().After(deadline) {
			return
		}
		time.Sleep(time.Millisecond) // failed ones may be on their way out
	}
}

// ---------------------------------------------------------------- certificates

type cert struct {
	trusted, valid bool
	names, ips     string
}

type certs struct{}

var (
	certOnce  sync.Once
	caCert    *x509.Certificate
	caKey     *ecdsa.PrivateKey
	otherCA   *x509.Certificate
	otherKey  *ecdsa.PrivateKey
	certMu    sync.Mutex
	certCache = map[cert]*tls.Config{}
)

func makeCA(name string) (*x509.Certificate, *ecdsa.PrivateKey, []byte) {
	key, err := ecdsa.GenerateKey(elliptic.P256(), rand.Reader)
	if err != nil {
		Harnessf("%v", err)
	}
	t := &x509.Certificate{SerialNumber: big.NewInt(1), Subject: pkix.Name{CommonName: name}, NotBefore: time.Unix(0, 0), NotAfter: time.Now().AddDate(20, 0, 0),
		IsCA: true, BasicConstraintsValid: true, KeyUsage: x509.KeyUsageCertSign}
	der, err := x509.CreateCertificate(rand.Reader, t, t, &key.PublicKey, key)
	if err != nil {
		Harnessf("%v", err)
	}
	c, err := x509.ParseCertificate(der)
	if err != nil {
		Harnessf("%v", err)
	}
	return c, key, der
}

// trust makes an authority that the program trusts; it must happen before the
// program's first look at the system's certificates.
func trust() {
	certOnce.Do(func() {
		var der []byte
		caCert, caKey, der = makeCA("trusted")
		otherCA, otherKey, _ = makeCA("untrusted")
		file := filepath.Join(socketDir(), "ca.pem")
		if err := os.WriteFile(file, pem.EncodeToMemory(&pem.Block{Type: "CERTIFICATE", Bytes: der}), 0o600); err != nil {
			Harnessf("%v", err)
		}
		os.Setenv("SSL_CERT_FILE", file)
		os.Setenv("SSL_CERT_DIR", filepath.Join(socketDir(), "no-certs"))
	})
}

func (certs) get(k cert) *tls.Config {
	trust()
	certMu.Lock()
	defer certMu.Unlock()
	if c := certCache[k]; c != nil {
		return c
	}
	key, err := ecdsa.GenerateKey(elliptic.P256(), rand.Reader)
	if err != nil {
		Harnessf("%v", err)
	}
	t := &x509.Certificate{SerialNumber: big.NewInt(time.Now().UnixNano()), Subject: pkix.Name{CommonName: "localhost"}, NotBefore: time.Unix(0, 0), NotAfter: time.Now().AddDate(10, 0, 0),
		KeyUsage: x509.KeyUsageDigitalSignature, ExtKeyUsage: []x509.ExtKeyUsage{x509.ExtKeyUsageServerAuth}}
	if !k.valid {
		t.NotAfter = time.Now().Add(-time.Hour)
	}
	if k.names != "" {
		t.DNSNames = strings.Split(k.names, " ")
	}
	for _, ip := range strings.Fields(k.ips) {
		t.IPAddresses = append(t.IPAddresses, net.ParseIP(ip))
	}
	ca, ck := caCert, caKey
	if !k.trusted {
		ca, ck = otherCA, otherKey
	}
	der, err := x509.CreateCertificate(rand.Reader, t, ca, &key.PublicKey, ck)
	if err != nil {
		Harnessf("%v", err)
	}
	c := &tls.Config{Certificates: []tls.Certificate{{Certificate: [][]byte{der, ca.Raw}, PrivateKey: key}}}
	certCache[k] = c
	return c
}

// ---------------------------------------------------------------- P06

// Secure is a connection with a mode to a server with some abilities.
type Secure struct {
	Mode    string
	EnvMode string
	Host    string // as given
	EnvHost string
	HostEnv bool // the host comes from the environment
	Pass    S    // given
	EnvPass S
	TLS     bool // offered
	Trusted bool
	Expired bool
	Names   string // the certificate's host names and addresses
	IPs     string
	Auth    string
	Wrong   bool // the server expects another password
	NoPlain bool // the server refuses clients that do not encrypt
	NoTLS   bool // and those that do
	Code    string
	Retries int
}

var modes = []string{"disable", "allow", "prefer", "require", "verify-full"}

func genSecure(t *rapid.T) *Secure {
	s := &Secure{Mode: Pick(t, "mode", modes...), Host: Pick(t, "host", "127.0.0.1", "localhost", "127.0.0.2"), TLS: Chance(t, "tls", 75), Trusted: Chance(t, "trusted", 70), Expired: Chance(t, "expired", 10),
		Auth: Pick(t, "auth", "", "cleartext", "cleartext", "md5"), Wrong: Chance(t, "wrong", 20), NoPlain: Chance(t, "noplain", 30), NoTLS: Chance(t, "notls", 15),
		Code: Pick(t, "code", "28000", "08006", "28P01", "57P03"), HostEnv: Chance(t, "hostenv", 15)}
	switch Int(t, "modek", 0, 9) {
	case 0, 1, 2:
		s.Mode = ""
	case 3:
		s.Mode = Pick(t, "bogus", "verify-ca", "Verify-Full", "REQUIRE", "none", "disabled", "verify_full", "verify-full ", "true", "0", "ssl", "no", "prefer,require", "-")
	case 4, 5:
		s.Mode = "verify-full"
	}
	if s.Mode == "" && Chance(t, "envmode", 60) || Chance(t, "envmode2", 20) {
		s.EnvMode = Pick(t, "env", "disable", "allow", "prefer", "require", "verify-full", "verify-full", "verify-ca")
	}
	if Chance(t, "pass", 55) {
		s.Pass = "secret"
	}
	if Chance(t, "envpass", 20) {
		s.EnvPass = "envsecret"
	}
	if Chance(t, "envhost", 25) {
		s.EnvHost = Pick(t, "eh", "localhost", "127.0.0.1", "db.example", "127.0.0.3")
	}
	if Chance(t, "rightcert", 50) {
		if net.ParseIP(s.Host) != nil {
			s.IPs = s.Host
		} else {
			s.Names = s.Host
		}
	} else {
		s.Names = Pick(t, "names", "", "localhost", "db.example", "*.example localhost", "*", "127.0.0.1")
		s.IPs = Pick(t, "ips", "", "127.0.0.1", "127.0.0.2 127.0.0.3", "127.0.0.9", "::1")
	}
	if Chance(t, "retries", 10) {
		s.Retries = 1
	}
	return s
}

// setenv sets the PG* environment.
func setenv(vars map[string]string) {
	for _, kv := range os.Environ() {
		if k := strings.SplitN(kv, "=", 2)[0]; strings.HasPrefix(k, "PG") {
			os.Unsetenv(k)
		}
	}
	os.Setenv("PGPASSFILE", filepath.Join(socketDir(), "no-pgpass"))
	for k, v := range vars {
		if v != "" {
			os.Setenv(k, v)
		}
	}
}

var sslRequest = []byte{0, 0, 0, 8, 4, 210, 22, 47}

func runSecure(c *Ctx, s *Secure) {
	trust()
	addr := s.Host
	if addr == "localhost" {
		addr = "127.0.0.1"
	}
	password := string(s.Pass)
	if password == "" {
		password = string(s.EnvPass)
	}
	expect := password
	if s.Wrong {
		expect = "something else"
	}
	authOK := s.Auth == "" || expect == password
	certOK := s.Trusted && !s.Expired
	named := false
	for _, n := range strings.Fields(s.Names) {
		named = named || n == s.Host && net.ParseIP(n) == nil
	}
	for _, n := range strings.Fields(s.IPs) {
		named = named || n == s.Host
	}
	if s.Names == "*" && s.Host == "localhost" {
		c.Excluded("wildcard for a single label") // left to the library
		return
	}
	certOK = certOK && named

	x := fakepg.Script{Auth: s.Auth, Password: expect}
	if s.TLS {
		x.TLS = certs{}.get(cert{trusted: s.Trusted, valid: !s.Expired, names: s.Names, ips: s.IPs})
	}
	if s.NoPlain {
		x.PlainReject = &fakepg.Err{Severity: "FATAL", Code: s.Code, Message: "no pg_hba.conf entry"}
	}
	if s.NoTLS {
		x.TLSReject = &fakepg.Err{Severity: "FATAL", Code: s.Code, Message: "no pg_hba.conf entry"}
	}
	server, err := fakepg.Listen(&fakepg.Server{Answer: answers, Script: func(int) fakepg.Script { return x }}, "tcp:"+addr+":0")
	if err != nil {
		Harnessf("%v", err)
	}
	defer server.Close()

	env := map[string]string{"PGSSLMODE": s.EnvMode, "PGPASSWORD": string(s.EnvPass), "PGHOST": s.EnvHost}
	o := &pg.Options{Log: zap.NewNop().Sugar(), Host: s.Host, Port: uint16(server.Port()), SSLMode: s.Mode, Username: "u", Password: string(s.Pass), Database: "db", ConnectRetries: s.Retries}
	if s.HostEnv {
		o.Host = ""
		env["PGHOST"] = s.Host
	}
	setenv(env)
	defer setenv(nil)

	var conn *pg.Conn
	var version string
	var useErr error
	timely(c, "connecting", func() {
		conn, err = pg.New(o)
		if err == nil {
			version, useErr = conn.ServerVersion()
			conn.Close()
		}
	})
	c.Check(server.WaitClosed(10*time.Second), "a connection stays open")
	seen := server.Conns()

	var story []string
	for _, k := range seen {
		story = append(story, fmt.Sprintf("{encryption asked for: %v, encrypted: %v, startup message: %v, password: %q}", k.AskedTLS, k.TLS, k.Startup != nil, k.Password))
	}
	what := fmt.Sprintf("mode %q (environment %q), host %q, password %q: %s, error %v", s.Mode, s.EnvMode, s.Host, password, strings.Join(story, ", "), err)

	// the mode in effect
	mode := s.Mode
	known := false
	for _, m := range modes {
		known = known || m == mode
	}
	if mode != "" && !known {
		c.NonTrivial()
		c.Class("unknown mode")
		c.Check(err != nil, "the unknown mode was accepted: %s", what)
		c.Check(len(seen) == 0, "a server was contacted with an unknown mode: %s", what)
		return
	}
	verified := func(k fakepg.Snapshot) bool { return k.TLS && certOK }
	if mode == "" {
		c.Class("no mode")
		// a password is only ever sent over a verified connection
		for _, k := range seen {
			c.Check(password == "" || k.Password == "" || verified(k), "a password was sent over a connection that isn't verified: %s", what)
		}
		if password != "" {
			c.NonTrivial()
			c.Class("no mode, password")
			if s.TLS && certOK && authOK && !s.NoTLS {
				c.Check(err == nil, "connecting failed although the server is verified: %s", what)
			}
			return
		}
		mode = s.EnvMode
		if mode == "" {
			mode = "prefer"
		}
		if mode == "verify-ca" {
			mode = "verify-full"
		}
		c.Class("mode of the environment")
	}
	c.NonTrivial()
	c.Class("mode %s", mode)

	plainOK := !s.NoPlain && authOK
	tlsOK := s.TLS && !s.NoTLS && authOK
	for i, k := range seen {
		plainText := k.PlainBytes
		if bytes.HasPrefix(plainText, sslRequest) {
			plainText = plainText[8:]
		}
		plain := !k.TLS && k.Startup != nil
		switch mode {
		case "disable":
			c.Check(!k.AskedTLS && !k.TLS, "encryption was asked for: %s", what)
		case "allow":
			if k.AskedTLS {
				c.Check(!plainOK, "encryption was asked for although plain text is accepted: %s", what)
				c.Check(i > 0, "encryption was asked for first: %s", what)
			}
		case "prefer":
			if plain {
				c.Check(!tlsOK, "plain text was used although encryption is accepted: %s", what)
				c.Check(i > 0 && seen[i-1].AskedTLS, "plain text was used before encryption was tried: %s", what)
			}
		case "require", "verify-full":
			c.Check(!plain, "plain text was used: %s", what)
			c.Check(len(k.Queries) == 0 || k.TLS, "statements were sent in plain text: %s", what)
			// whatever wasn't encrypted is part of the handshake
			c.Check(len(plainText) == 0 || plainText[0] == 0x16 || plainText[0] == 0x15, "plain text was sent: %q\n%s", plainText, what)
			if mode == "verify-full" && !certOK {
				c.Check(k.Startup == nil, "a server without a valid certificate for %q was talked to: %s", s.Host, what)
			}
		}
	}
	var ok bool
	switch mode {
	case "disable":
		ok = plainOK
	case "allow", "prefer":
		ok = plainOK || tlsOK
	case "require":
		ok = tlsOK
	case "verify-full":
		ok = tlsOK && certOK
	}
	c.Class("success %v", ok)
	c.Check((err == nil) == ok, "connecting should have succeeded: %v; %s", ok, what)
	if ok {
		c.Check(useErr == nil && version == versionText, "the connection can't be used: %v (%s)", useErr, what)
		last := seen[len(seen)-1]
		switch mode {
		case "disable":
			c.Check(!last.TLS, "the connection is encrypted: %s", what)
		case "allow":
			c.Check(last.TLS == !plainOK, "allow: %s", what)
		case "prefer":
			c.Check(last.TLS == tlsOK, "prefer: %s", what)
		default:
			c.Check(last.TLS, "the connection isn't encrypted: %s", what)
		}
	}
}

// ---------------------------------------------------------------- P08

// Settings are the explicit settings and the environment.
type Settings struct {
	Host, Port, User, Pass, DB                bool // given
	EnvHost, EnvPort, EnvUser, EnvPass, EnvDB bool // set in the environment
	UserV, PassV, DBV                         S
	EnvUserV, EnvPassV, EnvDBV                S
	Auth                                      string
	Unix                                      bool   // the given host is a directory
	AllUnix                                   bool   // so is the one of the environment ...
	Ports                                     []int  // ... which leaves the choice of the ports
	App                                       S      // PGAPPNAME
	Bad                                       string // a variable of the environment ...
	BadV                                      S      // ... with a value that means nothing
	Target                                    bool   // the settings are those of a run book's target
}

func genValue(t *rapid.T, what string) S {
	if Chance(t, what+"odd", 40) {
		s := strings.ReplaceAll(Text(t, what+"v", 4), "\x00", "")
		if s != "" {
			return S(s)
		}
	}
	return S(Pick(t, what+"w", "alice", "bob", "postgres", "a b", "x'y", `a\b`, "é", "select", "0", "user=x", "p w", "%40"))
}

func genSettings(t *rapid.T) *Settings {
	s := &Settings{Auth: Pick(t, "auth", "cleartext", "cleartext", "md5", ""), Target: Chance(t, "target", 50)}
	for _, b := range []*bool{&s.Host, &s.Port, &s.User, &s.Pass, &s.DB, &s.EnvHost, &s.EnvPort, &s.EnvUser, &s.EnvPass, &s.EnvDB} {
		*b = Chance(t, "given", 60)
	}
	// somewhere to connect to must be known
	s.EnvHost = s.EnvHost || !s.Host
	if s.AllUnix = Chance(t, "allunix", 40); s.AllUnix {
		for len(s.Ports) < 2 {
			p := Int(t, "port", 1, 65535)
			if Chance(t, "portk", 70) {
				p = Pick(t, "portv", 1, 2, 9, 80, 443, 1023, 1024, 5431, 5432, 5433, 9999, 10000, 32767, 32768, 65534, 65535)
			}
			if len(s.Ports) == 0 || s.Ports[0] != p {
				s.Ports = append(s.Ports, p)
			}
		}
	} else {
		s.EnvPort = s.EnvPort || !s.Port
	}
	s.UserV, s.PassV, s.DBV = genValue(t, "user"), genValue(t, "pass"), genValue(t, "db")
	s.EnvUserV, s.EnvPassV, s.EnvDBV = genValue(t, "euser"), genValue(t, "epass"), genValue(t, "edb")
	s.Unix = s.AllUnix || Chance(t, "unix", 25)
	if Chance(t, "app", 20) {
		s.App = genValue(t, "appv")
	}
	if Chance(t, "bad", 20) {
		s.Bad = Pick(t, "badk", "PGPORT", "PGPORT", "PGSSLMODE", "PGCONNECT_TIMEOUT", "PGTARGETSESSIONATTRS")
		s.BadV = S(map[string]string{
			"PGPORT":               Pick(t, "bport", "x", "5432x", "65536", "-1", "5432,5433", "0x10", "1.5", "99999999999999999999"),
			"PGSSLMODE":            Pick(t, "bssl", "x", "Disable", "disabled", "verify", "on", "none"),
			"PGCONNECT_TIMEOUT":    Pick(t, "btime", "x", "1s", "ten", "1.5"),
			"PGTARGETSESSIONATTRS": Pick(t, "btarget", "x", "rw", "Any"),
		}[s.Bad])
		s.Port = s.Port && s.Bad != "PGPORT"
		if s.Bad == "PGPORT" {
			s.EnvPort = true
		}
		if s.Bad == "PGSSLMODE" {
			s.Pass, s.EnvPass = false, false // or verify-full is the default
		}
	}
	return s
}

func runSettings(c *Ctx, s *Settings) {
	// four servers: explicit or environment's host with either port
	type place struct {
		host string
		port uint16
	}
	hosts := []string{"127.0.0.11", "127.0.0.12"}
	var ports []uint16
	servers := map[place]*fakepg.Server{}
	user := func(given, env bool, v, e S) string {
		switch {
		case given:
			return string(v)
		case env:
			return string(e)
		}
		return ""
	}
	wantUser := user(s.User, s.EnvUser, s.UserV, s.EnvUserV)
	wantPass := user(s.Pass, s.EnvPass, s.PassV, s.EnvPassV)
	wantDB := user(s.DB, s.EnvDB, s.DBV, s.EnvDBV)
	script := func(int) fakepg.Script { return fakepg.Script{Auth: s.Auth, Password: wantPass} }
	defer func() {
		for _, x := range servers {
			x.Close()
		}
	}()
	open := func(h string, p int) (uint16, bool) {
		path := fmt.Sprintf("tcp:%s:%d", h, p)
		if s.Unix && h == hosts[0] {
			return 0, false
		}
		x, err := fakepg.Listen(&fakepg.Server{Answer: answers, Script: script}, path)
		if err != nil {
			return 0, false
		}
		n := uint16(x.Port())
		servers[place{h, n}] = x
		return n, true
	}
	if s.Unix {
		hosts[0] = filepath.Join(socketDir(), "given")
		os.MkdirAll(hosts[0], 0o700)
	}
	if s.AllUnix {
		hosts[1] = filepath.Join(socketDir(), "env")
		os.MkdirAll(hosts[1], 0o700)
		for _, n := range append([]int{5432}, s.Ports...) {
			p := uint16(n)
			for _, h := range hosts {
				path := fmt.Sprintf("%s/.s.PGSQL.%d", h, p)
				if servers[place{h, p}] != nil {
					continue
				}
				os.Remove(path)
				x, err := fakepg.Listen(&fakepg.Server{Answer: answers, Script: script}, path)
				if err != nil {
					Harnessf("%v", err)
				}
				servers[place{h, p}] = x
			}
		}
		ports = append(ports, uint16(s.Ports[0]), uint16(s.Ports[1]))
	}
	for len(ports) < 2 {
		p, ok := open(hosts[1], 0)
		if !ok {
			Harnessf("no port")
		}
		if s.Unix {
			path := fmt.Sprintf("%s/.s.PGSQL.%d", hosts[0], p)
			os.Remove(path)
			x, err := fakepg.Listen(&fakepg.Server{Answer: answers, Script: script}, path)
			if err != nil {
				Harnessf("%v", err)
			}
			servers[place{hosts[0], p}] = x
		} else if _, ok := open(hosts[0], int(p)); !ok {
			continue // the port is taken at the other address
		}
		ports = append(ports, p)
	}
	at := place{hosts[1], ports[1]}
	if !s.EnvPort && !s.Port {
		at.port = 5432
	}
	o := &pg.Options{Log: zap.NewNop().Sugar(), SSLMode: "disable"}
	env := map[string]string{"PGAPPNAME": string(s.App)}
	if s.EnvHost {
		env["PGHOST"] = hosts[1]
	}
	if s.EnvPort {
		env["PGPORT"] = strconv.Itoa(int(ports[1]))
	}
	if s.EnvUser {
		env["PGUSER"] = string(s.EnvUserV)
	}
	if s.EnvPass {
		env["PGPASSWORD"] = string(s.EnvPassV)
	}
	if s.EnvDB {
		env["PGDATABASE"] = string(s.EnvDBV)
	}
	if s.Bad != "" {
		env[s.Bad] = string(s.BadV)
		if s.Bad == "PGSSLMODE" {
			o.SSLMode = ""
		}
	}
	if s.Host {
		o.Host, at.host = hosts[0], hosts[0]
	}
	if s.Port {
		o.Port, at.port = ports[0], ports[0]
	}
	if s.User {
		o.Username = string(s.UserV)
	}
	if s.Pass {
		o.Password = string(s.PassV)
	}
	if s.DB {
		o.Database = string(s.DBV)
	}
	setenv(env)
	defer setenv(nil)
	given := *o

	var conn *pg.Conn
	var err error
	timely(c, "connecting", func() {
		if s.Target {
			f := &rpg.TargetFactory{Log: o.Log}
			t := f.NewTarget().(*rpg.Target)
			t.Host, t.Port, t.SSLMode, t.Username, t.Password, t.Database = o.Host, o.Port, o.SSLMode, o.Username, o.Password, o.Database
			if err = t.Analyze(); err != nil {
				return
			}
			if err = t.Start(); err == nil {
				t.Stop()
			}
			return
		}
		if conn, err = pg.New(o); err == nil {
			conn.Close()
		}
	})
	c.Class("target %v", s.Target)
	what := fmt.Sprintf("given %+v, environment %v", given, env)
	c.Check(*o == given, "the settings themselves were changed to %+v: %s", *o, what)
	if s.Bad != "" {
		c.NonTrivial()
		c.Class("invalid %s", s.Bad)
		c.Check(err != nil, "%s=%q was accepted: %s", s.Bad, s.BadV, what)
		for _, x := range servers {
			x.WaitClosed(10 * time.Second)
			c.Check(len(x.Conns()) == 0, "a connection was made although %s=%q means nothing: %s", s.Bad, s.BadV, what)
		}
		return
	}
	mixed := 0
	for _, x := range [][2]bool{{s.Host, s.EnvHost}, {s.Port, s.EnvPort}, {s.User, s.EnvUser}, {s.Pass, s.EnvPass}, {s.DB, s.EnvDB}} {
		if x[0] && x[1] {
			mixed++
		}
	}
	c.NonTrivialIf(mixed > 0)
	c.Class("given and in the environment: %d", mixed)
	c.Check(err == nil, "connecting failed: %v; %s", err, what)
	total := 0
	for p, x := range servers {
		x.WaitClosed(10 * time.Second)
		for _, k := range x.Conns() {
			total++
			c.Check(p == at, "connected to %v instead of %v: %s", p, at, what)
			if wantUser != "" {
				c.Check(k.Startup["user"] == wantUser, "user %q instead of %q: %s", k.Startup["user"], wantUser, what)
			}
			c.Check(k.Startup["database"] == wantDB, "database %q instead of %q: %s", k.Startup["database"], wantDB, what)
			if s.Auth == "cleartext" {
				c.Check(k.Password == wantPass, "password %q instead of %q: %s", k.Password, wantPass, what)
			}
		}
	}
	c.Check(total == 1, "%d connections instead of one: %s", total, what)
}

// ---------------------------------------------------------------- P07

// Names are the parts of a name.
type Names struct{ Parts []S }

// lexName reads the identifiers of a qualified name as PostgreSQL does.  An
// empty identifier is read, too: the server refuses it, which is better than
// to take the name for another one.
func lexName(sql string) (parts []string, rest string, err error) {
	for {
		if !strings.HasPrefix(sql, `"`) {
			return parts, sql, fmt.Errorf("no quoted identifier at %q", sql)
		}
		var b strings.Builder
		i := 1
		for {
			if i >= len(sql) {
				return parts, "", fmt.Errorf("unterminated identifier")
			}
			if sql[i] == '"' {
				if i+1 < len(sql) && sql[i+1] == '"' {
					b.WriteByte('"')
					i += 2
					continue
				}
				break
			}
			b.WriteByte(sql[i])
			i++
		}
		parts = append(parts, b.String())
		sql = sql[i+1:]
		if !strings.HasPrefix(sql, ".") {
			return parts, sql, nil
		}
		sql = sql[1:]
	}
}

func runNames(c *Ctx, n *Names) {
	var in []string
	odd := false
	for _, p := range n.Parts {
		in = append(in, string(p))
		odd = odd || p == "" || strings.ContainsAny(string(p), "\".\\' \n;")
	}
	c.NonTrivialIf(odd)
	c.Class("%d parts", len(in))
	before := append([]string(nil), in...)
	got := pg.Identifier(in...)
	c.Check(strings.Join(in, "\x00") == strings.Join(before, "\x00"), "the parts were changed")
	parts, rest, err := lexName(got)
	c.Check(err == nil && rest == "", "%q is quoted as %s: %v, rest %q", in, got, err, rest)
	c.Check(len(parts) == len(in), "%q is quoted as %s, which has %d parts", in, got, len(parts))
	for i := range in {
		c.Check(parts[i] == in[i], "%q is quoted as %s, whose part %d is %q", in, got, i+1, parts[i])
	}
}

func init() {
	Add("P05", "attempts", Opt{Rule: "a server that treats each of up to 14 attempts in its own way (closes, refuses early or late, breaks, wrong password, fails the first statement, works), connected to directly or by a runbook target inside a bubble of fake time; non-trivial: several attempts are allowed", Quick: 4000, Thorough: 100000}, genAttempts, runAttempts)
	Add("P06", "modes", Opt{Rule: "mode x environment x password x server offering TLS or not, with certificates that are trusted, expired or for other hosts, refusing plain or encrypted clients, with authentication; every byte outside TLS is recorded; non-trivial: something was to be decided (all)", Quick: 3000, Thorough: 60000}, genSecure, runSecure)
	Add("P07", "names", Opt{Rule: "1 to 4, rarely up to 40 name parts rich in quotes, dots and other special characters, read back by a reference lexer; non-trivial: a part has a special character", Quick: 100000, Thorough: 3000000},
		func(t *rapid.T) *Names {
			n := &Names{}
			k := Int(t, "n", 1, 4)
			if Chance(t, "many", 1) {
				k = Size(t, "parts", 40)
			}
			for ; k > 0; k-- {
				p := S(strings.ReplaceAll(Text(t, "part", 6), "\x00", ""))
				if p == "" && !Chance(t, "empty", 40) {
					p = "x"
				}
				n.Parts = append(n.Parts, p)
			}
			return n
		}, runNames)
	Add("P08", "settings", Opt{Rule: "every combination of given and environment settings against servers at two hosts, of which any may be a socket directory, and two ports, of any number for socket directories, or at the default port; connected to directly or by a runbook target; non-trivial: a setting is given and in the environment", Quick: 3000, Thorough: 60000}, genSettings, runSettings)
}
