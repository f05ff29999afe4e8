//go:build go1.23

// Command hddl checks the properties of database descriptions.
package main

import "github.com/sjansen/pgutil/internal/zzverif/engine"

func main() { engine.Main() }
