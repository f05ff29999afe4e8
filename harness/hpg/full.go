//go:build go1.23

package main

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"os"
	"path/filepath"
	"sync"
	"syscall"

	"github.com/sjansen/pgutil/internal/commands"
	"github.com/sjansen/pgutil/internal/logger"
	"github.com/sjansen/pgutil/internal/sys"
	. "github.com/sjansen/pgutil/internal/zzverif/engine"
	"github.com/sjansen/pgutil/internal/zzverif/rapid"
)

// FullOut is a command whose output can't be written beyond some byte.
type FullOut struct {
	Cmd   string
	Book  *Book
	Cat   *Cat `json:",omitempty"`
	Long  bool
	Color string
	Room  int  // per mille of the output that can be written
	Less  int  // and so many bytes less
	Kind  int  // of the error
	Shell int  `json:",omitempty"` // bytes that a shell task prints as well
	Spill bool // nothing of the write that doesn't fit is written
	Once  bool // only one write fails
}

var writeErrors = []error{errors.New("no room"), syscall.ENOSPC, syscall.EPIPE, syscall.EIO, os.ErrPermission, os.ErrClosed, io.ErrClosedPipe, io.ErrShortWrite, io.EOF, &os.PathError{Op: "write", Path: "/dev/stdout", Err: syscall.EPIPE}, syscall.EAGAIN, syscall.EPERM, errors.New(""), fmt.Errorf("wrapped: %w", io.EOF), os.ErrDeadlineExceeded}

func genFull(t *rapid.T) *FullOut {
	b := &FullOut{Cmd: Pick(t, "cmd", "dot", "eval", "list", "run", "run", "version", "inspect", "ping"), Book: genBook(t), Long: Bool(t, "long"), Color: Pick(t, "color", "auto", "true", "false")}
	if b.Cmd == "inspect" || b.Cmd == "ping" {
		b.Cat = genCat(t)
	}
	if b.Cmd == "run" && Chance(t, "shell", 40) {
		b.Shell = 1 + Size(t, "bytes", 100000)
	}
	b.Room = Pick(t, "whole", 0, 1000, 1000, -1)
	if b.Room < 0 {
		b.Room = Even(t, "room", 1001)
	}
	b.Less = Pick(t, "less", 0, 0, 1, 1, 2, 5)
	b.Kind = Even(t, "kind", len(writeErrors))
	b.Spill = Chance(t, "spill", 30)
	b.Once = Chance(t, "once", 40)
	return b
}

// limitedWriter takes so many bytes and then fails.
type limitedWriter struct {
	mu    sync.Mutex
	left  int
	err   error
	spill bool
	once  bool
	buf   bytes.Buffer
}

func (w *limitedWriter) Write(p []byte) (int, error) {
	w.mu.Lock()
	defer w.mu.Unlock()
	if len(p) <= w.left {
		w.left -= len(p)
		return w.buf.Write(p)
	}
	n := w.left
	if w.spill {
		n = 0
	}
	w.buf.Write(p[:n])
	w.left = 0
	if w.once {
		w.left = 1 << 30
	}
	return n, w.err
}

func runFull(c *Ctx, k *FullOut) {
	dir := caseDir()
	defer dropCase(dir)
	file := filepath.Join(dir, "book.jsonnet")
	if err := os.WriteFile(file, k.Book.json(), 0o600); err != nil {
		Harnessf("%v", err)
	}
	if k.Shell > 0 {
		c.Class("shell task")
		text := fmt.Sprintf(`local b = import "demo.jsonnet"; b + {targets+: {"the shell": {class: "sh"}}, tasks+: {"shell task": {target: "the shell", config: {args: ["/bin/sh", "-c", "/usr/bin/head -c %d /dev/zero"]}}}}`, k.Shell)
		if err := os.Rename(file, filepath.Join(dir, "demo.jsonnet")); err != nil {
			Harnessf("%v", err)
		}
		if err := os.WriteFile(file, []byte(text), 0o600); err != nil {
			Harnessf("%v", err)
		}
	}
	var cmd interface{ Run(*commands.Base) error }
	switch k.Cmd {
	case "dot":
		cmd = &commands.RunBookDotCmd{File: file}
	case "eval":
		cmd = &commands.RunBookEvalCmd{File: file, Color: k.Color}
	case "list":
		cmd = &commands.RunBookListCmd{File: file}
	case "run":
		cmd = &commands.RunBookRunCmd{File: file}
	case "version":
		cmd = versionCmd(k.Long)
	default:
		b := serve(k.Cat, nil)
		defer b.server.Close()
		defer b.settle()
		cmd = &commands.PingCmd{Host: socketDir(), Port: b.port, SSLMode: "disable", Username: "u", DBName: "db"}
		if k.Cmd == "inspect" {
			cmd = &commands.InspectCmd{Host: socketDir(), Port: b.port, SSLMode: "disable", Username: "u", DBName: "db"}
		}
	}
	try := func(w io.Writer) error {
		var stderr bytes.Buffer
		return cmd.Run(&commands.Base{IO: sys.IO{Log: logger.Discard(), Stdout: w, Stderr: &stderr}})
	}
	whole := &limitedWriter{left: 1 << 30}
	if err := try(whole); err != nil {
		c.Class("fails")
		return
	}
	total := whole.buf.Len()
	room := total*k.Room/1000 - k.Less
	if room < 0 {
		room = 0
	}
	w := &limitedWriter{left: room, err: writeErrors[k.Kind], spill: k.Spill, once: k.Once}
	err := try(w)
	c.Class("%s", k.Cmd)
	c.NonTrivialIf(room < total)
	if room < total {
		c.Check(err != nil, "%s ends without an error, but not all of the %d bytes of its output could be written: %d were (%v)", k.Cmd, total, w.buf.Len(), w.err)
	} else {
		c.Check(err == nil, "%s fails although its output could be written: %v", k.Cmd, err)
		c.Check(w.buf.Len() == total, "%s writes %d bytes, then %d", k.Cmd, total, w.buf.Len())
	}
}

func init() {
	Add("C04", "writer", Opt{Quick: 1000, Thorough: 40000,
		Rule: "A command run in-process whose output can be written only up to a random byte, or just about completely, and then fails with an error of one of 15 kinds: it must report an error exactly if something couldn't be written. Non-trivial: something couldn't."},
		genFull, runFull)
}
