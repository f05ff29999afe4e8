//go:build go1.23 && verif_inner

package main

import (
	"errors"

	"github.com/sjansen/pgutil/internal/taskset/parser"
	"github.com/sjansen/pgutil/internal/taskset/types"
	. "github.com/sjansen/pgutil/internal/zzverif/engine"
)

// Targets that remember which tasks they created.

type fakeFactory struct {
	typ  string
	made []*fakeTarget
}

func (f *fakeFactory) NewTarget() types.Target {
	t := &fakeTarget{typ: f.typ}
	f.made = append(f.made, t)
	return t
}

type fakeTarget struct {
	typ string
	Str string `hcl:"string,optional"`
	Max int    `hcl:"max_concurrency,optional"`
}

type fakeTask struct {
	from *fakeTarget
	kind string
	SQL  string   `hcl:"sql,optional"`
	Args []string `hcl:"args,optional"`
	Secs int      `hcl:"seconds,optional"`
}

func (x *fakeTask) Dependencies() []string { return nil }
func (x *fakeTask) Provides() []string     { return nil }
func (x *fakeTask) Ready() error           { return nil }

var errKind = errors.New("the target refuses to create the task")

func (t *fakeTarget) NewTask(kind string) (types.Task, error) {
	if kind == "refused" {
		return nil, errKind
	}
	return &fakeTask{from: t, kind: kind}, nil
}
func (t *fakeTarget) Ready() error { return nil }
func (t *fakeTarget) Start() (chan<- types.TaskBatch, <-chan types.TaskResults) {
	return nil, nil
}

func runFake(c *Ctx, k SetCase) {
	p := &parser.Parser{Targets: map[string]types.TargetFactory{}}
	fs := map[string]*fakeFactory{}
	for name := range k.Types {
		fs[name] = &fakeFactory{typ: name}
		p.Targets[name] = fs[name]
	}
	d := k.doc()
	refused := k.Where%8 == 1 && len(k.Tasks) > 0
	if refused {
		for _, b := range d.Blocks() {
			if b.Type == "task" {
				x := k.Tasks[0]
				for _, y := range k.Tasks {
					if y.ID == b.Labels[1] {
						x = y
					}
				}
				b.Labels[0] = S(x.Type) + "/refused"
				break
			}
		}
	}
	text := (&HRender{Tape: k.Tape}).Doc(d)
	var ts *types.TaskSet
	var err error
	c.Protect("Parse", func() { ts, err = parseText(p, text) })
	c.NonTrivialIf(len(k.Tasks) > 0)
	if refused {
		c.Check(errors.Is(err, errKind) && ts == nil, "a target refuses to create a task, Parse returns %v, %v\n%s", ts, err, text)
		return
	}
	c.Check(err == nil && ts != nil, "Parse: %v\n%s", err, text)
	seen := map[types.Target]bool{}
	for name := range k.Types {
		for id, t := range ts.Targets[name] {
			f, ok := t.(*fakeTarget)
			c.Check(ok && f.typ == name, "the %s target %q was made by another factory: %#v\n%s", name, id, t, text)
			c.Check(!seen[t], "two targets share an object (%s %q)\n%s", name, id, text)
			seen[t] = true
		}
	}
	for i := range k.Tasks {
		x := &k.Tasks[i]
		id := types.TargetID("")
		if x.Target != nil {
			id = types.TargetID(*x.Target)
		}
		f, ok := ts.Tasks[types.TaskID(x.ID)].(*fakeTask)
		c.Check(ok, "task %q is %#v\n%s", x.ID, ts.Tasks[types.TaskID(x.ID)], text)
		c.Check(f.from == ts.Targets[x.Type][id], "task %q was not created by target %q\n%s", x.ID, id, text)
		c.Check(f.kind == x.Kind, "task %q was created as a %q, expected %q\n%s", x.ID, f.kind, x.Kind, text)
	}
}

func init() {
	Add("T01", "creator", Opt{Quick: 3000, Thorough: 100000,
		Rule: "task set model parsed with target factories that remember which target created which task as what; non-trivial: a task"},
		genSet, runFake)
}
