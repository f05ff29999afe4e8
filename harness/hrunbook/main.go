//go:build go1.23

// Command hrunbook checks the properties of runbooks.
package main

import (
	"os"
	"path/filepath"
	"strconv"

	"github.com/sjansen/pgutil/internal/zzverif/engine"
)

func main() {
	if len(os.Args) > 1 && os.Args[1] == "-runbook-worker" {
		serveWorker()
	}
	if name := filepath.Base(os.Args[0]); name == recorderName || name == "only-here" {
		recorder()
	}
	decoys()
	engine.Main()
}

// decoys puts files with the names of those that run books import into the
// current directory, which has nothing to do with any run book.
func decoys() {
	if os.Getenv("VERIF_WORK") == "" {
		return
	}
	os.Mkdir("sub", 0o755)
	os.WriteFile("missing.libsonnet", []byte("'text'"), 0o644)
	for _, d := range []string{"", "sub/"} {
		for i := 1; i < 60; i++ {
			for _, ext := range []string{".libsonnet", ".txt"} {
				os.WriteFile(d+"f"+strconv.Itoa(i)+ext, []byte("error 'a file in the current directory was imported'"), 0o644)
			}
		}
	}
}
