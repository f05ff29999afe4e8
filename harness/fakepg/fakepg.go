//go:build go1.23

// Package fakepg is a PostgreSQL server for checks: it speaks protocol 3.0 far
// enough for the client library, is scripted by the check, and records what
// reached it.
package fakepg

import (
	"bufio"
	"crypto/md5"
	"crypto/tls"
	"encoding/binary"
	"encoding/hex"
	"errors"
	"fmt"
	"io"
	"math"
	"net"
	"strconv"
	"strings"
	"sync"
	"time"
)

// Type OIDs used in results and parameters.
const (
	Bool      = 16
	Bytea     = 17
	Char      = 18
	Name      = 19
	Int8      = 20
	Int2      = 21
	Int4      = 23
	Text      = 25
	Oid       = 26
	Float4    = 700
	Float8    = 701
	Unknown   = 705
	TextArray = 1009
	NameArray = 1003
	Int2Array = 1005
	Varchar   = 1043
)

// Err is an error the server reports.
type Err struct {
	Severity, Code, Message string
}

// Col describes a result column.
type Col struct {
	Name string
	OID  uint32
}

// Result is the answer to a statement.
type Result struct {
	Cols []Col
	Rows [][]*string // text form; nil is NULL
	Tag  string

	Err         *Err // reported when preparing (extended) or executing (simple)
	ErrAtRow    *Err // reported after AtRow rows have been sent
	BreakAtRow  bool // the connection breaks after AtRow rows have been sent
	AtRow       int  // -1: after the last row, in place of the completion
	Break       bool // the connection breaks instead of an answer
	BreakInRow  bool // with BreakAtRow: part of the next message is sent
	ErrInSync   *Err // reported after the completion, before ready-for-query
	EmptyAnswer bool // the statement was empty

	Notices int       // notices and other asynchronous messages before it
	More    []*Result // of further statements of the same simple query
}

// Query is a statement that reached the server.
type Query struct {
	SQL    string
	Params []*string
	Simple bool
	Conn   *Conn
}

// Script decides how one connection is treated.
type Script struct {
	CloseOnAccept bool        // closed at once
	TLS           *tls.Config // offered when asked for; nil refuses encryption
	TLSBreak      bool        // connection closed after the encryption request
	Auth          string      // "", "cleartext" or "md5"
	Password      string      // the right password, with Auth
	Reject        *Err        // reported instead of welcoming the client
	RejectEarly   bool        // before authentication
	BreakStartup  bool        // closed instead of welcoming the client
	PlainReject   *Err        // reported to clients that do not encrypt
	TLSReject     *Err        // reported to clients that encrypt
	InitErr       *Err        // reported to the client library's first catalog query
}

// Conn is what the server saw of one connection.
type Conn struct {
	N          int
	mu         sync.Mutex
	Startup    map[string]string
	Password   string // as received
	AskedTLS   bool
	TLS        bool // handshake finished
	PlainBytes []byte
	Welcomed   bool
	Queries    []string
	Terminated bool // an orderly goodbye
	Closed     bool
	nc         net.Conn
}

// Snapshot is a copy of a connection's record.
type Snapshot struct {
	N          int
	Startup    map[string]string
	Password   string
	AskedTLS   bool
	TLS        bool
	PlainBytes []byte
	Welcomed   bool
	Queries    []string
	Terminated bool
	Closed     bool
}

// Server is a fake PostgreSQL server.
type Server struct {
	ln     net.Listener
	mu     sync.Mutex
	conns  []*Conn
	wg     sync.WaitGroup
	closed bool

	// Script is called for each connection, in order.
	Script func(n int) Script
	// Welcome, if set, decides after the startup message has arrived; it takes
	// precedence over Script from then on.
	Welcome func(startup map[string]string) Script
	// Describe gives the parameter types of a statement before it is executed
	// with parameters; nil means text for each $n.
	Describe func(sql string) ([]uint32, []Col, *Err)
	// Answer answers a statement.
	Answer func(q *Query) *Result
	// Prepare is called when a statement is prepared; its result is a fault.
	PrepareFault func(q *Query) *Result
	// Version is the server_version that connections are told; it may be empty.
	Version string
}

// Listen starts a server: on a free port of 127.0.0.1 if path is empty, on a
// TCP address if path starts with "tcp:", otherwise on a unix socket.
func Listen(s *Server, path string) (*Server, error) {
	var err error
	if path == "" {
		s.ln, err = net.Listen("tcp", "127.0.0.1:0")
	} else if strings.HasPrefix(path, "tcp:") {
		s.ln, err = net.Listen("tcp", path[len("tcp:"):])
	} else {
		s.ln, err = net.Listen("unix", path)
	}
	if err != nil {
		return nil, err
	}
	s.wg.Add(1)
	go s.accept()
	return s, nil
}

// Port is the port the server listens on.
func (s *Server) Port() int { return s.ln.Addr().(*net.TCPAddr).Port }

// Close stops the server and waits for its goroutines.
func (s *Server) Close() {
	s.mu.Lock()
	s.closed = true
	cs := append([]*Conn(nil), s.conns...)
	s.mu.Unlock()
	s.ln.Close()
	for _, c := range cs {
		c.nc.Close()
	}
	s.wg.Wait()
}

// Conns returns what was seen of each connection.
func (s *Server) Conns() []Snapshot {
	s.mu.Lock()
	defer s.mu.Unlock()
	var out []Snapshot
	for _, c := range s.conns {
		c.mu.Lock()
		out = append(out, Snapshot{N: c.N, Startup: c.Startup, Password: c.Password, AskedTLS: c.AskedTLS, TLS: c.TLS,
			PlainBytes: append([]byte(nil), c.PlainBytes...), Welcomed: c.Welcomed,
			Queries: append([]string(nil), c.Queries...), Terminated: c.Terminated, Closed: c.Closed})
		c.mu.Unlock()
	}
	return out
}

// WaitClosed waits until every connection has been closed by the client.
func (s *Server) WaitClosed(d time.Duration) bool {
	deadline := time.Now().Add(d)
	for {
		open := 0
		for _, c := range s.Conns() {
			if !c.Closed {
				open++
			}
		}
		if open == 0 {
			return true
		}
		if time.Now().After(deadline) {
			return false
		}
		time.Sleep(200 * time.Microsecond)
	}
}

func (s *Server) accept() {
	defer s.wg.Done()
	for {
		nc, err := s.ln.Accept()
		if err != nil {
			return
		}
		s.mu.Lock()
		if s.closed {
			s.mu.Unlock()
			nc.Close()
			return
		}
		c := &Conn{N: len(s.conns), nc: nc}
		s.conns = append(s.conns, c)
		s.wg.Add(1)
		s.mu.Unlock()
		go func() {
			defer s.wg.Done()
			s.serve(c)
			nc.Close()
			c.mu.Lock()
			c.Closed = true
			c.mu.Unlock()
		}()
	}
}

type recorder struct {
	net.Conn
	c *Conn
}

func (r *recorder) Read(p []byte) (int, error) {
	n, err := r.Conn.Read(p)
	r.c.mu.Lock()
	if !r.c.TLS {
		r.c.PlainBytes = append(r.c.PlainBytes, p[:n]...)
	}
	r.c.mu.Unlock()
	return n, err
}

// session is the protocol state of one connection.
type session struct {
	s   *Server
	c   *Conn
	rw  io.ReadWriter
	br  *bufio.Reader
	out []byte
}

func (x *session) msg(t byte, body []byte) {
	x.out = append(x.out, t)
	x.out = binary.BigEndian.AppendUint32(x.out, uint32(len(body)+4))
	x.out = append(x.out, body...)
}

func (x *session) flush() error {
	_, err := x.rw.Write(x.out)
	x.out = x.out[:0]
	return err
}

func (x *session) err(e *Err) {
	var b []byte
	sev := e.Severity
	if sev == "" {
		sev = "ERROR"
	}
	for _, f := range []struct {
		t byte
		v string
	}{{'S', sev}, {'V', sev}, {'C', e.Code}, {'M', e.Message}} {
		b = append(b, f.t)
		b = append(b, f.v...)
		b = append(b, 0)
	}
	b = append(b, 0)
	x.msg('E', b)
}

func (x *session) ready() { x.msg('Z', []byte{'I'}) }

func (x *session) readMsg() (byte, []byte, error) {
	t, err := x.br.ReadByte()
	if err != nil {
		return 0, nil, err
	}
	var l [4]byte
	if _, err = io.ReadFull(x.br, l[:]); err != nil {
		return 0, nil, err
	}
	n := int(binary.BigEndian.Uint32(l[:])) - 4
	if n < 0 || n > 1<<26 {
		return 0, nil, errors.New("bad length")
	}
	b := make([]byte, n)
	_, err = io.ReadFull(x.br, b)
	return t, b, err
}

func (x *session) readStartup() ([]byte, error) {
	var l [4]byte
	if _, err := io.ReadFull(x.rw, l[:]); err != nil {
		return nil, err
	}
	n := int(binary.BigEndian.Uint32(l[:])) - 4
	if n < 4 || n > 1<<16 {
		return nil, errors.New("bad startup length")
	}
	b := make([]byte, n)
	_, err := io.ReadFull(x.rw, b)
	return b, err
}

func (s *Server) serve(c *Conn) {
	script := Script{}
	if s.Script != nil {
		script = s.Script(c.N)
	}
	if script.CloseOnAccept {
		return
	}
	x := &session{s: s, c: c, rw: &recorder{c.nc, c}}
	b, err := x.readStartup()
	if err != nil {
		return
	}
	if binary.BigEndian.Uint32(b) == 80877103 {
		c.mu.Lock()
		c.AskedTLS = true
		c.mu.Unlock()
		if script.TLSBreak {
			return
		}
		if script.TLS == nil {
			if _, err := c.nc.Write([]byte{'N'}); err != nil {
				return
			}
		} else {
			if _, err := c.nc.Write([]byte{'S'}); err != nil {
				return
			}
			tc := tls.Server(c.nc, script.TLS)
			if err := tc.Handshake(); err != nil {
				return
			}
			c.mu.Lock()
			c.TLS = true
			c.mu.Unlock()
			x.rw = tc
		}
		if b, err = x.readStartup(); err != nil {
			return
		}
	}
	if binary.BigEndian.Uint32(b) != 196608 {
		return
	}
	params := map[string]string{}
	f := strings.Split(string(b[4:]), "\x00")
	for i := 0; i+1 < len(f) && f[i] != ""; i += 2 {
		params[f[i]] = f[i+1]
	}
	c.mu.Lock()
	c.Startup = params
	isTLS := c.TLS
	c.mu.Unlock()
	x.br = bufio.NewReader(x.rw)
	if s.Welcome != nil {
		script = s.Welcome(params)
	}

	reject := func(e *Err) {
		x.err(e)
		x.flush()
	}
	switch {
	case script.PlainReject != nil && !isTLS:
		reject(script.PlainReject)
		return
	case script.TLSReject != nil && isTLS:
		reject(script.TLSReject)
		return
	case script.Reject != nil && script.RejectEarly:
		reject(script.Reject)
		return
	}
	switch script.Auth {
	case "cleartext", "md5":
		want := script.Password
		if script.Auth == "cleartext" {
			x.msg('R', []byte{0, 0, 0, 3})
		} else {
			salt := "salt"
			x.msg('R', append([]byte{0, 0, 0, 5}, salt...))
			h := md5.Sum([]byte(script.Password + params["user"]))
			h2 := md5.Sum([]byte(hex.EncodeToString(h[:]) + salt))
			want = "md5" + hex.EncodeToString(h2[:])
		}
		if x.flush() != nil {
			return
		}
		t, b, err := x.readMsg()
		if err != nil || t != 'p' || len(b) == 0 {
			return
		}
		got := string(b[:len(b)-1])
		c.mu.Lock()
		c.Password = got
		c.mu.Unlock()
		if got != want {
			reject(&Err{"FATAL", "28P01", "password authentication failed"})
			return
		}
	}
	if script.BreakStartup {
		return
	}
	if script.Reject != nil {
		reject(script.Reject)
		return
	}
	x.msg('R', []byte{0, 0, 0, 0})
	version := s.Version
	if version == "" {
		version = "11.5 (fake)"
	}
	for k, v := range map[string]string{"server_version": version, "client_encoding": "UTF8", "DateStyle": "ISO, MDY", "integer_datetimes": "on", "standard_conforming_strings": "on"} {
		x.msg('S', []byte(k+"\x00"+v+"\x00"))
	}
	x.msg('K', []byte{0, 0, 0, byte(c.N + 1), 0, 0, 0, 7})
	x.ready()
	if x.flush() != nil {
		return
	}
	c.mu.Lock()
	c.Welcomed = true
	c.mu.Unlock()
	x.loop(&script)
}

// typeQuery recognises the client library's own questions about types.
func typeQuery(sql string) (*Result, bool) {
	switch {
	case strings.HasPrefix(sql, "select t.oid,\n\tcase when nsp.nspname"):
		r := &Result{Cols: []Col{{"oid", Oid}, {"typname", Name}}}
		for _, t := range []struct {
			oid  int
			name string
		}{{Bool, "bool"}, {Bytea, "bytea"}, {Char, "char"}, {Name, "name"}, {Int8, "int8"}, {Int2, "int2"}, {Int4, "int4"}, {Text, "text"},
			{Oid, "oid"}, {Float4, "float4"}, {Float8, "float8"}, {Unknown, "unknown"}, {TextArray, "_text"}, {NameArray, "_name"}, {Int2Array, "_int2"}, {Varchar, "varchar"}} {
			o, n := strconv.Itoa(t.oid), t.name
			r.Rows = append(r.Rows, []*string{&o, &n})
		}
		return r, true
	case strings.HasPrefix(sql, "select t.oid, t.typname, t.typbasetype\nfrom pg_type"):
		return &Result{Cols: []Col{{"oid", Oid}, {"typname", Name}, {"typbasetype", Oid}}}, true
	case strings.HasPrefix(sql, "select t.oid, t.typname\nfrom pg_type"):
		return &Result{Cols: []Col{{"oid", Oid}, {"typname", Name}}}, true
	}
	return nil, false
}

// encode turns the text form of a value into the requested format.
func encode(oid uint32, binaryFormat bool, v string) ([]byte, error) {
	if !binaryFormat {
		return []byte(v), nil
	}
	switch oid {
	case Bool:
		if v == "t" {
			return []byte{1}, nil
		}
		return []byte{0}, nil
	case Int2:
		n, err := strconv.ParseInt(v, 10, 16)
		return binary.BigEndian.AppendUint16(nil, uint16(n)), err
	case Int4:
		n, err := strconv.ParseInt(v, 10, 32)
		return binary.BigEndian.AppendUint32(nil, uint32(n)), err
	case Int8:
		n, err := strconv.ParseInt(v, 10, 64)
		return binary.BigEndian.AppendUint64(nil, uint64(n)), err
	case Oid:
		n, err := strconv.ParseUint(v, 10, 32)
		return binary.BigEndian.AppendUint32(nil, uint32(n)), err
	case Float8:
		f, err := strconv.ParseFloat(v, 64)
		return binary.BigEndian.AppendUint64(nil, math.Float64bits(f)), err
	case Name, Text, Varchar, Unknown, Char, Bytea:
		return []byte(v), nil
	}
	return nil, fmt.Errorf("no binary form for type %d", oid)
}

func rowDescription(cols []Col, formats []int16) []byte {
	b := binary.BigEndian.AppendUint16(nil, uint16(len(cols)))
	for i, c := range cols {
		b = append(b, c.Name...)
		b = append(b, 0)
		b = binary.BigEndian.AppendUint32(b, 0)
		b = binary.BigEndian.AppendUint16(b, 0)
		b = binary.BigEndian.AppendUint32(b, c.OID)
		b = binary.BigEndian.AppendUint16(b, 0xffff)
		b = binary.BigEndian.AppendUint32(b, 0xffffffff)
		var f int16
		if formats != nil {
			f = format(formats, i)
		}
		b = binary.BigEndian.AppendUint16(b, uint16(f))
	}
	return b
}

func format(formats []int16, i int) int16 {
	switch {
	case len(formats) == 0:
		return 0
	case len(formats) == 1:
		return formats[0]
	case i < len(formats):
		return formats[i]
	}
	return 0
}

// rows sends rows and completion; false means the connection must break.
func (x *session) rows(r *Result, formats []int16) (alive bool, failed bool) {
	at := r.AtRow
	if at < 0 || at > len(r.Rows) {
		at = len(r.Rows)
	}
	for i, row := range r.Rows {
		if i == at && (r.ErrAtRow != nil || r.BreakAtRow) {
			break
		}
		b := binary.BigEndian.AppendUint16(nil, uint16(len(row)))
		for j, v := range row {
			if v == nil {
				b = binary.BigEndian.AppendUint32(b, 0xffffffff)
				continue
			}
			e, err := encode(r.Cols[j].OID, format(formats, j) == 1, *v)
			if err != nil {
				panic("fakepg: " + err.Error())
			}
			b = binary.BigEndian.AppendUint32(b, uint32(len(e)))
			b = append(b, e...)
		}
		x.msg('D', b)
	}
	if r.BreakAtRow {
		if r.BreakInRow {
			x.out = append(x.out, 'D', 0, 0, 0, 40, 0, 1)
		}
		return false, true
	}
	if r.ErrAtRow != nil {
		x.err(r.ErrAtRow)
		return true, true
	}
	if r.EmptyAnswer {
		x.msg('I', nil)
		return true, false
	}
	tag := r.Tag
	if tag == "" {
		tag = fmt.Sprintf("SELECT %d", len(r.Rows))
	}
	x.msg('C', append([]byte(tag), 0))
	if r.ErrInSync != nil {
		x.err(r.ErrInSync)
		return true, true
	}
	return true, false
}

// async sends messages that may come at any time.
func (x *session) async(n int) {
	for i := 0; i < n; i++ {
		switch i % 3 {
		case 0:
			x.msg('N', []byte("SNOTICE\x00C00000\x00Mjust so you know\x00\x00"))
		case 1:
			x.msg('S', []byte("application_name\x00other\x00"))
		default:
			x.msg('A', append([]byte{0, 0, 0, 7}, "channel\x00payload\x00"...))
		}
	}
}

func cstr(b []byte) (string, []byte) {
	for i, ch := range b {
		if ch == 0 {
			return string(b[:i]), b[i+1:]
		}
	}
	return string(b), nil
}

type statement struct {
	sql    string
	types  []uint32
	cols   []Col
	result *Result // library questions
	fault  *Result
}

type portal struct {
	st      *statement
	params  []*string
	formats []int16
}

func countParams(sql string) int {
	max := 0
	for i := 0; i+1 < len(sql); i++ {
		if sql[i] == '$' && sql[i+1] >= '1' && sql[i+1] <= '9' {
			if n := int(sql[i+1] - '0'); n > max {
				max = n
			}
		}
	}
	return max
}

func (x *session) loop(script *Script) {
	s, c := x.s, x.c
	stmts := map[string]*statement{}
	portals := map[string]*portal{}
	skip := false // until Sync
	first := true
	for {
		t, b, err := x.readMsg()
		if err != nil {
			return
		}
		if skip && t != 'S' && t != 'X' {
			continue
		}
		switch t {
		case 'X':
			c.mu.Lock()
			c.Terminated = true
			c.mu.Unlock()
			return
		case 'Q':
			sql, _ := cstr(b)
			c.mu.Lock()
			c.Queries = append(c.Queries, sql)
			c.mu.Unlock()
			r := s.Answer(&Query{SQL: sql, Simple: true, Conn: c})
			if r.Break {
				x.flush()
				return
			}
			for _, r := range append([]*Result{r}, r.More...) {
				x.async(r.Notices)
				if r.Break {
					x.flush()
					return
				}
				if r.Err != nil {
					x.err(r.Err)
					break
				}
				if len(r.Cols) > 0 {
					x.msg('T', rowDescription(r.Cols, nil))
				}
				alive, failed := x.rows(r, nil)
				if !alive {
					x.flush()
					return
				}
				if failed {
					break
				}
			}
			x.ready()
			if x.flush() != nil {
				return
			}
		case 'P':
			name, rest := cstr(b)
			sql, _ := cstr(rest)
			st := &statement{sql: sql}
			if r, ok := typeQuery(sql); ok {
				if first && script.InitErr != nil {
					first = false
					x.err(script.InitErr)
					skip = true
					continue
				}
				first = false
				st.result, st.cols = r, r.Cols
			} else {
				c.mu.Lock()
				c.Queries = append(c.Queries, sql)
				c.mu.Unlock()
				if s.PrepareFault != nil {
					st.fault = s.PrepareFault(&Query{SQL: sql, Conn: c})
				}
				if f := st.fault; f != nil {
					if f.Break {
						x.flush()
						return
					}
					if f.Err != nil {
						x.err(f.Err)
						skip = true
						continue
					}
				}
				var e *Err
				if s.Describe != nil {
					st.types, st.cols, e = s.Describe(sql)
				} else {
					for i := 0; i < countParams(sql); i++ {
						st.types = append(st.types, Text)
					}
					r := s.Answer(&Query{SQL: sql, Conn: c, Params: make([]*string, len(st.types))})
					st.cols, e = r.Cols, r.Err
				}
				if e != nil {
					x.err(e)
					skip = true
					continue
				}
			}
			stmts[name] = st
			x.msg('1', nil)
		case 'D':
			name, _ := cstr(b[1:])
			st := stmts[name]
			if b[0] == 'P' {
				if p := portals[name]; p != nil {
					st = p.st
				}
			}
			if st == nil {
				x.err(&Err{"", "26000", "no such statement"})
				skip = true
				continue
			}
			if b[0] == 'S' {
				pb := binary.BigEndian.AppendUint16(nil, uint16(len(st.types)))
				for _, o := range st.types {
					pb = binary.BigEndian.AppendUint32(pb, o)
				}
				x.msg('t', pb)
			}
			if len(st.cols) > 0 {
				x.msg('T', rowDescription(st.cols, nil))
			} else {
				x.msg('n', nil)
			}
		case 'B':
			pname, rest := cstr(b)
			sname, rest := cstr(rest)
			st := stmts[sname]
			if st == nil {
				x.err(&Err{"", "26000", "no such statement"})
				skip = true
				continue
			}
			p := &portal{st: st}
			u16 := func() int {
				n := binary.BigEndian.Uint16(rest)
				rest = rest[2:]
				return int(n)
			}
			var pf []int16
			for n := u16(); n > 0; n-- {
				pf = append(pf, int16(u16()))
			}
			for i, n := 0, u16(); i < n; i++ {
				l := int32(binary.BigEndian.Uint32(rest))
				rest = rest[4:]
				if l < 0 {
					p.params = append(p.params, nil)
					continue
				}
				v := string(rest[:l])
				rest = rest[l:]
				if format(pf, i) == 1 && i < len(st.types) {
					switch st.types[i] {
					case Int4:
						v = strconv.Itoa(int(int32(binary.BigEndian.Uint32([]byte(v)))))
					case Int8:
						v = strconv.FormatInt(int64(binary.BigEndian.Uint64([]byte(v))), 10)
					case Oid:
						v = strconv.FormatUint(uint64(binary.BigEndian.Uint32([]byte(v))), 10)
					case Bool:
						if v[0] != 0 {
							v = "t"
						} else {
							v = "f"
						}
					}
				}
				p.params = append(p.params, &v)
			}
			for n := u16(); n > 0; n-- {
				p.formats = append(p.formats, int16(u16()))
			}
			portals[pname] = p
			x.msg('2', nil)
		case 'E':
			pname, _ := cstr(b)
			p := portals[pname]
			if p == nil {
				x.err(&Err{"", "34000", "no such portal"})
				skip = true
				continue
			}
			r := p.st.result
			if r == nil {
				r = s.Answer(&Query{SQL: p.st.sql, Params: p.params, Conn: c})
				if f := p.st.fault; f != nil {
					m := *r
					m.ErrAtRow, m.BreakAtRow, m.AtRow, m.BreakInRow, m.ErrInSync = f.ErrAtRow, f.BreakAtRow, f.AtRow, f.BreakInRow, f.ErrInSync
					r = &m
				}
			}
			if r.Break {
				x.flush()
				return
			}
			if r.Err != nil {
				x.err(r.Err)
				skip = true
				continue
			}
			alive, failed := x.rows(r, p.formats)
			if !alive {
				x.flush()
				return
			}
			if failed {
				skip = true
			}
		case 'C':
			x.msg('3', nil)
		case 'S':
			skip = false
			x.ready()
			if x.flush() != nil {
				return
			}
		case 'H':
			if x.flush() != nil {
				return
			}
		}
	}
}
