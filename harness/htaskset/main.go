//go:build go1.23

// Command htaskset checks the properties of task sets.
package main

import (
	"os"

	"github.com/sjansen/pgutil/internal/zzverif/engine"
)

// quietly sends what is printed on the process's own output nowhere.
func quietly(f func()) {
	null, err := os.OpenFile(os.DevNull, os.O_WRONLY, 0)
	if err != nil {
		engine.Harnessf("%v", err)
	}
	saved := os.Stdout
	os.Stdout = null
	defer func() {
		os.Stdout = saved
		null.Close()
	}()
	f()
}

func main() { engine.Main() }
