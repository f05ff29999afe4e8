//go:build go1.23

// Command hpg checks the properties of connecting to and inspecting databases.
package main

import "github.com/sjansen/pgutil/internal/zzverif/engine"

func main() { engine.Main() }
