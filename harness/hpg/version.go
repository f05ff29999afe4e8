//go:build go1.23

package main

import (
	"bytes"
	"debug/buildinfo"
	"fmt"
	"os"
	"os/exec"
	"runtime/debug"
	"strings"

	"github.com/sjansen/pgutil/internal/cli"
	"github.com/sjansen/pgutil/internal/commands"
	. "github.com/sjansen/pgutil/internal/zzverif/engine"
	"github.com/sjansen/pgutil/internal/zzverif/rapid"
)

func versionCmd(long bool) interface {
	Run(*commands.Base) error
} {
	return &commands.VersionCmd{App: "app", Build: "build", Verbose: long, BuildInfo: &debug.BuildInfo{Deps: []*debug.Module{{Path: "example.com/dep", Version: "v1.2.3"}}}}
}

// ---------------------------------------------------------------- C05

// Version is a request for the version.
type Version struct {
	Via   string // "command": any build; "line": this program, in-process; "program": pgutil itself
	App   S
	Build S
	Long  bool
	NoBI  bool // nothing is known about the build
	Swap  int  `json:",omitempty"` // every so many of the dependencies is replaced
	Deps  [][2]S
	Flags []string // before, and after, the command
}

// aWord draws text without white space.
func aWord(t *rapid.T, what string) S {
	if Chance(t, what+"odd", 30) {
		s := strings.Join(strings.Fields(Text(t, what+"t", 4)), "")
		s = strings.Map(func(r rune) rune {
			if r < 0x20 || r == 0x7f || r >= 0x80 && r < 0xa1 || r == 0x2028 || r == 0x2029 {
				return -1
			}
			return r
		}, s)
		if s != "" {
			return S(s)
		}
	}
	return S(Ident(t, what))
}

func genVersion(t *rapid.T) *Version {
	v := &Version{Via: Pick(t, "via", "command", "command", "command", "command", "command", "line", "line", "program"), Build: aWord(t, "build"), App: aWord(t, "app"), Long: Chance(t, "long", 70), NoBI: Chance(t, "nobi", 10)}
	for n := Int(t, "deps", 0, 6); n > 0; n-- {
		p := aWord(t, "path")
		for m := Int(t, "parts", 0, 4); m > 0; m-- {
			p += "/" + aWord(t, "part")
		}
		if Chance(t, "longpath", 10) {
			p += S(strings.Repeat("x", Pick(t, "len", 30, 40, 41, 80, 300)))
		}
		ver := S(Pick(t, "ver", "v1.2.3", "v0.0.0-20190308221718-c2843e01d9a2", "(devel)", "v2.0.0+incompatible", "v1.0.0-rc.1", "v0.0.0-20190308221718-c2843e01d9a2+incompatible", "v1.2.3-pre.0.20190308221718-c2843e01d9a2"))
		if Chance(t, "oddver", 20) {
			ver = aWord(t, "verw")
		}
		v.Deps = append(v.Deps, [2]S{p, ver})
	}
	if Chance(t, "many", 2) {
		for n := Size(t, "more", 500); n > 0; n-- {
			v.Deps = append(v.Deps, [2]S{S(fmt.Sprintf("example.com/m%d", n*7%501)), S(fmt.Sprintf("v0.%d.0", n))})
		}
	}
	if Chance(t, "replaced", 15) {
		v.Swap = Int(t, "every", 1, 3)
	}
	v.Flags = []string{Pick(t, "before", "", "-q", "-qq"), Pick(t, "after", "", "-q")}
	return v
}

func runVersion(c *Ctx, v *Version) {
	var text string
	deps := v.Deps
	app, build := v.App, v.Build
	var args []string
	if v.Flags[0] != "" {
		args = append(args, v.Flags[0])
	}
	args = append(args, "version")
	if v.Long {
		args = append(args, longFlag(len(v.Deps)%2 == 1))
	}
	if v.Flags[1] != "" {
		args = append(args, v.Flags[1])
	}
	known := func(bi *debug.BuildInfo) {
		deps = nil
		for _, m := range bi.Deps {
			deps = append(deps, [2]S{S(m.Path), S(m.Version)})
		}
	}
	switch v.Via {
	case "command":
		bi := &debug.BuildInfo{}
		for i, d := range v.Deps {
			m := &debug.Module{Path: string(d[0]), Version: string(d[1])}
			if i%3 == 1 {
				m.Sum = "h1:0000"
			}
			if v.Swap > 0 && i%v.Swap == 0 {
				m.Replace = &debug.Module{Path: "../replacement", Version: "v9.9.9"}
			}
			bi.Deps = append(bi.Deps, m)
		}
		if v.NoBI {
			bi, deps = nil, nil
		}
		var o, e bytes.Buffer
		base := &commands.Base{}
		base.Stdout, base.Stderr = &o, &e
		cmd := &commands.VersionCmd{App: string(v.App), Build: string(v.Build), Verbose: v.Long, BuildInfo: bi}
		c.Protect("version", func() {
			if err := cmd.Run(base); err != nil {
				c.Failf("version: %v", err)
			}
		})
		c.Check(e.Len() == 0, "version wrote %q to the error stream", e.String())
		text = o.String()
	case "line":
		bi, ok := debug.ReadBuildInfo()
		if !ok {
			Harnessf("no build information")
		}
		known(bi)
		var o, e bytes.Buffer
		cmd, err := cli.RegisterCommands(string(v.Build)).Parse(args)
		c.Check(err == nil, "%q: %v", args, err)
		err = cmd(&o, &e)
		c.Check(err == nil && e.Len() == 0, "%q: %v %q", args, err, e.String())
		app, text = "pgutil", o.String()
	case "program":
		path := os.Getenv("VERIF_PGUTIL")
		bi, err := buildinfo.ReadFile(path)
		if err != nil {
			Harnessf("%v", err)
		}
		known(bi)
		var o, e bytes.Buffer
		x := exec.Command(path, args...)
		x.Stdout, x.Stderr = &o, &e
		err = x.Run()
		c.Check(err == nil && e.Len() == 0, "%q: %v %q", args, err, e.String())
		app, build, text = "pgutil", "", o.String()
	}
	if !v.Long {
		deps = nil
	}
	c.NonTrivialIf(len(deps) > 0)
	c.Class("via %s, long: %v", v.Via, v.Long)
	c.Check(strings.HasSuffix(text, "\n"), "the last line isn't ended: %q", text)
	var lines []string
	for _, l := range strings.Split(text, "\n") {
		if strings.TrimSpace(l) != "" {
			lines = append(lines, l)
		}
	}
	c.Check(len(lines) > 0, "nothing is printed")
	f := strings.Fields(lines[0])
	c.Check(len(f) == 2 && f[0] == string(app) && (f[1] == string(build) || build == ""), "the first line is %q instead of %q", lines[0], app+" "+build)
	if v.Via == "program" {
		c.Check(f[1][0] >= '0' && f[1][0] <= '9' || f[1][0] == 'v', "the version is %q", f[1])
	}
	c.Check(len(lines)-1 == len(deps), "%d lines for %d dependencies:\n%s", len(lines)-1, len(deps), text)
	for i, d := range deps {
		f := strings.Fields(lines[i+1])
		c.Check(len(f) >= 2 && f[0] == string(d[0]) && f[1] == string(d[1]), "the dependency %q is shown as %q", d, lines[i+1])
	}
}

// longFlag is the long or the short flag.
func longFlag(short bool) string {
	if short {
		return "-l"
	}
	return "--long"
}

func init() {
	Add("C05", "version", Opt{Quick: 4000, Thorough: 100000,
		Rule: "The version command for any program name, build and dependencies, in-process through the command line, or by the program itself. Non-trivial: dependencies are to be listed."},
		genVersion, runVersion)
}
