//go:build go1.23

package main

import (
	"bufio"
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"runtime/debug"
	"syscall"
	"time"

	jsonnet "github.com/google/go-jsonnet"

	"github.com/sjansen/pgutil/internal/runbook"
	. "github.com/sjansen/pgutil/internal/zzverif/engine"
)

// A worker is a child process that runs commands on files whose evaluation may
// never end: Jsonnet is a programming language.

type request struct{ Op, File string }

type reply struct {
	Err   string
	Fail  bool
	Out   string
	Panic string
}

func serveWorker() {
	lim := syscall.Rlimit{Cur: 6 << 30, Max: 6 << 30}
	syscall.Setrlimit(syscall.RLIMIT_AS, &lim)
	in := json.NewDecoder(os.Stdin)
	out := json.NewEncoder(os.Stdout)
	for {
		var q request
		if in.Decode(&q) != nil {
			os.Exit(0)
		}
		r := answer(q)
		if out.Encode(r) != nil {
			os.Exit(0)
		}
	}
}

func answer(q request) (r reply) {
	defer func() {
		if x := recover(); x != nil {
			r.Panic = fmt.Sprintf("%v\n%s", x, debug.Stack())
		}
	}()
	var err error
	sys, o, e := recordingIO()
	var w bytes.Buffer
	switch q.Op {
	case "jsonnet":
		data, err2 := os.ReadFile(q.File)
		if err2 != nil {
			Harnessf("%v", err2)
		}
		vm := jsonnet.MakeVM()
		vm.Importer(&jsonnet.FileImporter{JPaths: []string{filepath.Dir(q.File)}})
		_, err = vm.EvaluateSnippet(q.File, string(data))
	case "list":
		_, err = runbook.List(sys, q.File)
	case "dot":
		err = runbook.Dot(sys, q.File, &w, "")
	case "eval":
		err = runbook.Eval(sys, q.File, &w, false)
	case "evalcolor":
		err = runbook.Eval(sys, q.File, &w, true)
	}
	if err != nil {
		r.Fail, r.Err = true, err.Error()
	}
	r.Out = o.String() + e.String() + w.String()
	return
}

type worker struct {
	cmd   *exec.Cmd
	in    io.WriteCloser
	lines chan []byte
	errs  *lockedBuffer
}

var theWorker *worker

func getWorker() *worker {
	if theWorker != nil {
		return theWorker
	}
	exe, err := os.Executable()
	if err != nil {
		Harnessf("%v", err)
	}
	w := &worker{cmd: exec.Command(exe, "-runbook-worker"), lines: make(chan []byte, 1), errs: &lockedBuffer{}}
	w.cmd.Stderr = w.errs
	w.in, err = w.cmd.StdinPipe()
	if err != nil {
		Harnessf("%v", err)
	}
	out, err := w.cmd.StdoutPipe()
	if err != nil {
		Harnessf("%v", err)
	}
	if err := w.cmd.Start(); err != nil {
		Harnessf("%v", err)
	}
	go func() {
		rd := bufio.NewReader(out)
		for {
			line, err := rd.ReadBytes('\n')
			if err != nil {
				close(w.lines)
				return
			}
			w.lines <- line
		}
	}()
	theWorker = w
	return w
}

func (w *worker) kill() {
	w.cmd.Process.Kill()
	go func() {
		for range w.lines {
		}
	}()
	w.cmd.Wait()
	theWorker = nil
}

// ask runs one operation; how is "" or "timeout" or "crash".
func ask(op, file string, limit time.Duration) (r reply, how string, detail string) {
	w := getWorker()
	data, _ := json.Marshal(request{op, file})
	if _, err := w.in.Write(append(data, '\n')); err != nil {
		Harnessf("worker: %v", err)
	}
	select {
	case line, ok := <-w.lines:
		if !ok {
			w.kill()
			return r, "crash", w.errs.String()
		}
		if err := json.Unmarshal(line, &r); err != nil {
			Harnessf("worker said %q", line)
		}
		return r, "", ""
	case <-time.After(limit):
		w.kill()
		return r, "timeout", ""
	}
}
