//go:build go1.23

package main

import (
	"reflect"
	"sort"

	"github.com/sjansen/pgutil/internal/dag"
	. "github.com/sjansen/pgutil/internal/zzverif/engine"
	"github.com/sjansen/pgutil/internal/zzverif/rapid"
)

// ---------------------------------------------------------------- R09

// GraphCase is any directed graph, possibly cyclic.
type GraphCase struct {
	G     Graph
	Order []int // insertion order for the AddEdge construction
}

func genAnyGraph(t *rapid.T) GraphCase {
	g := genGraph(t, 24, true)
	if n := g.n(); n > 0 && Chance(t, "cyclic", 50) {
		for k := Int(t, "back", 1, 3); k > 0; k-- {
			i := Int(t, "from", 0, n-1)
			g.After[i] = append(g.After[i], Int(t, "to", 0, n-1))
		}
	}
	return GraphCase{G: g, Order: Perm(t, "insertion", g.n())}
}

// largeGraphs are long chains and cycles and nodes with many edges.
func largeGraphs() (out []GraphCase) {
	for _, g := range []Graph{
		ring(60, 0), ring(130, 5), ring(260, 0), ring(600, 40), ring(2, 300), ring(1100, 3),
		largeGraph(1100, 1, false), largeGraph(1100, 1, true), largeGraph(1100, 2, false), largeGraph(1100, 3, true), largeGraph(300, 7, true),
	} {
		k := GraphCase{G: g}
		for i := range g.Names {
			k.Order = append(k.Order, i*7%g.n())
		}
		if g.n()%7 == 0 {
			k.Order = Order(g.n())
		}
		out = append(out, k)
	}
	return out
}

// Order is 0, 1, ... n-1.
func Order(n int) []int {
	out := make([]int, n)
	for i := range out {
		out[i] = i
	}
	return out
}

func checkOrder(c *Ctx, adj map[string]map[string]bool, result, cycle []string) {
	ac := acyclic(adj)
	switch {
	case len(result) > 0 && len(cycle) > 0:
		c.Failf("both an order %q and a cycle %q were returned", result, cycle)
	case ac:
		c.Check(cycle == nil, "acyclic graph %v: cycle %q reported", adj, cycle)
		c.Check(len(result) == len(adj), "order %q does not hold each of the %d nodes once", result, len(adj))
		at := map[string]int{}
		for i, n := range result {
			_, dup := at[n]
			c.Check(!dup, "node %q twice in order %q", n, result)
			_, ok := adj[n]
			c.Check(ok, "invented node %q in order %q", n, result)
			at[n] = i
		}
		for n, ms := range adj {
			for m := range ms {
				c.Check(at[m] < at[n], "node %q comes before %q, which it points to: %q", n, m, result)
			}
		}
	default:
		c.Check(result == nil || len(result) == 0, "cyclic graph %v: order %q returned", adj, result)
		c.Check(cycle != nil, "cyclic graph %v: no cycle reported", adj)
		c.Check(realCycle(adj, cycle), "reported cycle %q is not a cycle of %v", cycle, adj)
	}
}

func runTSort(c *Ctx, k GraphCase) {
	g := &k.G
	adj := g.adjacency()
	ac := acyclic(adj)
	c.NonTrivialIf(g.edges() >= 2)
	c.Class("acyclic=%v", ac)
	d1, err := dag.NewDirectedGraph(g.nodes())
	c.Check(err == nil, "graph without dangling edges refused: %v", err)
	r1, c1 := dag.TSort(d1)
	checkOrder(c, adj, r1, c1)
	r0, c0 := dag.TSort(d1)
	c.Check(reflect.DeepEqual(r0, r1) && reflect.DeepEqual(c0, c1), "sorting the same graph twice gives %q/%q and %q/%q", r1, c1, r0, c0)

	// same graph, built in another order
	d2, err := dag.NewDirectedGraph(nil)
	c.Check(err == nil, "empty graph refused: %v", err)
	for _, i := range k.Order {
		(*d2)[string(g.Names[i])] = dag.NodeSet{}
	}
	for _, i := range k.Order {
		var deps []string
		for j := len(g.After[i]) - 1; j >= 0; j-- {
			deps = append(deps, string(g.Names[g.After[i][j]]))
		}
		d2.AddEdges(string(g.Names[i]), deps)
	}
	r2, c2 := dag.TSort(d2)
	c.Check(reflect.DeepEqual(r1, r2) && reflect.DeepEqual(c1, c2),
		"the answer depends on how the graph was built: %q/%q and %q/%q", r1, c1, r2, c2)
	for _, n := range g.Names {
		c.Check(d1.OutDegree(string(n)) == len(adj[string(n)]), "out-degree of %q is %d, want %d", n, d1.OutDegree(string(n)), len(adj[string(n)]))
		c.Check(d2.OutDegree(string(n)) == len(adj[string(n)]), "out-degree of %q is %d, want %d", n, d2.OutDegree(string(n)), len(adj[string(n)]))
	}

	_, err = dag.NewDependencyGraph(g.nodes())
	if ac {
		c.Check(err == nil, "acyclic graph refused: %v", err)
	} else {
		e, ok := err.(*dag.CircularDependencyError)
		c.Check(ok, "cyclic graph not refused as such: %v", err)
		c.Check(realCycle(adj, e.Cycle), "reported cycle %q is not a cycle of %v", e.Cycle, adj)
	}
}

// GraphOp is one operation on a graph.
type GraphOp struct {
	Op   string
	A, B int
	Many []int
}

// GraphOps is a history of graph operations.
type GraphOps struct {
	Init  GraphCase
	Nil   bool
	Ops   []GraphOp
	Names []S
}

func genGraphOps(t *rapid.T) GraphOps {
	names := distinctNames(t, "name", 6, true)
	k := GraphOps{Names: names}
	n := Int(t, "init", 0, 6)
	g := Graph{Names: names[:n], After: make([][]int, n)}
	for i := 0; i < n; i++ {
		for j := 0; j < n; j++ {
			if Chance(t, "edge", 30) {
				g.After[i] = append(g.After[i], j)
			}
		}
	}
	k.Init.G = g
	k.Nil = n == 0 && Bool(t, "nil")
	for m := Int(t, "ops", 1, 20); m > 0; m-- {
		op := GraphOp{Op: Pick(t, "op", "addEdge", "addEdges", "removeEdge", "removeNode", "hasNode", "outDegree"), A: Int(t, "a", 0, 5), B: Int(t, "b", 0, 5)}
		if op.Op == "addEdges" {
			op.Many = rapid.SliceOfN(rapid.IntRange(0, 5), 0, 4).Draw(t, "many")
		}
		k.Ops = append(k.Ops, op)
	}
	return k
}

func runGraphOps(c *Ctx, k GraphOps) {
	var in map[string][]string
	if !k.Nil {
		in = k.Init.G.nodes()
	}
	d, err := dag.NewDirectedGraph(in)
	c.Check(err == nil, "refused: %v", err)
	model := k.Init.G.adjacency()
	add := func(a, b string) {
		for _, x := range []string{a, b} {
			if model[x] == nil {
				model[x] = map[string]bool{}
			}
		}
		model[a][b] = true
	}
	removed := false
	// a set of nodes with a history of its own
	set, members := dag.NodeSet{}, map[string]bool{}
	for step, op := range k.Ops {
		a, b := string(k.Names[op.A]), string(k.Names[op.B])
		if op.Op[0] == 'a' {
			set.Add(a)
			members[a] = true
		} else {
			set.Remove(b)
			delete(members, b)
		}
		c.Check(set.Size() == len(members), "after %d operations (%+v): the set has %d members, want %d", step+1, op, set.Size(), len(members))
		for _, s := range k.Names {
			c.Check(set.Contains(string(s)) == members[string(s)], "after %d operations (%+v): %q in the set = %v, want %v", step+1, op, s, set.Contains(string(s)), members[string(s)])
		}
		switch op.Op {
		case "addEdge":
			d.AddEdge(a, b)
			add(a, b)
		case "addEdges":
			var many []string
			for _, i := range op.Many {
				many = append(many, string(k.Names[i]))
				add(a, string(k.Names[i]))
			}
			d.AddEdges(a, many)
		case "removeEdge":
			d.RemoveEdge(a, b)
			delete(model[a], b)
			removed = true
		case "removeNode":
			d.RemoveNode(a)
			delete(model, a)
			for _, s := range model {
				delete(s, a)
			}
			removed = true
		}
		for _, s := range k.Names {
			x := string(s)
			_, want := model[x]
			c.Check(d.HasNode(x) == want, "after %d operations (%+v): HasNode(%q) = %v, want %v", step+1, op, x, d.HasNode(x), want)
			c.Check(d.OutDegree(x) == len(model[x]), "after %d operations (%+v): OutDegree(%q) = %d, want %d", step+1, op, x, d.OutDegree(x), len(model[x]))
			for _, s2 := range k.Names {
				y := string(s2)
				c.Check((*d)[x].Contains(y) == model[x][y], "after %d operations (%+v): edge %q->%q present = %v, want %v", step+1, op, x, y, (*d)[x].Contains(y), model[x][y])
			}
		}
		c.Check(len(*d) == len(model), "after %d operations: %d nodes, want %d", step+1, len(*d), len(model))
	}
	c.NonTrivialIf(removed && len(k.Ops) > 3)
	r, cy := dag.TSort(d)
	checkOrder(c, model, r, cy)
}

// DanglingCase is a graph with references to unknown nodes.
type DanglingCase struct {
	G    Graph
	From []int
	To   []S
}

func genDangling(t *rapid.T) DanglingCase {
	g := genGraph(t, 12, true)
	k := DanglingCase{G: g}
	if g.n() == 0 {
		return k
	}
	used := map[string]bool{}
	for _, n := range g.Names {
		used[string(n)] = true
	}
	for m := Int(t, "dangling", 0, 2); m > 0; m-- {
		name := Pick(t, "missing", "nope", "", "A", "missing task", "zzzz")
		for used[name] {
			name += "?"
		}
		k.From = append(k.From, Int(t, "from", 0, g.n()-1))
		k.To = append(k.To, S(name))
	}
	return k
}

func runDangling(c *Ctx, k DanglingCase) {
	nodes := k.G.nodes()
	want := map[[2]string]bool{}
	for i, f := range k.From {
		n := string(k.G.Names[f])
		nodes[n] = append(nodes[n], string(k.To[i]))
		want[[2]string{n, string(k.To[i])}] = true
	}
	c.NonTrivialIf(len(want) > 0 && k.G.n() > 1)
	g, err := dag.NewDirectedGraph(nodes)
	if len(want) == 0 {
		c.Check(err == nil && g != nil, "graph without dangling edges refused: %v", err)
		return
	}
	e, ok := err.(*dag.InvalidEdgeError)
	c.Check(ok && g == nil, "dangling edge not refused: graph %v, error %v", g, err)
	c.Check(want[[2]string{e.Node, e.Edge}], "error names %q -> %q, which is not a dangling edge", e.Node, e.Edge)
}

// ---------------------------------------------------------------- R10

// DepCase is an acyclic graph and an order of completions.
type DepCase struct {
	G      Graph
	Choice []int
}

func genDep(t *rapid.T) DepCase {
	g := genGraph(t, 24, true)
	return DepCase{G: g, Choice: rapid.SliceOfN(rapid.IntRange(0, 23), 0, g.n()).Draw(t, "choice")}
}

// largeDeps are completed in different orders.
func largeDeps() (out []DepCase) {
	for i, g := range []Graph{
		largeGraph(700, 1, false), largeGraph(400, 2, true), largeGraph(400, 3, false), largeGraph(400, 4, true), largeGraph(300, 6, false), largeGraph(120, 7, true), largeGraph(400, 0, false),
	} {
		k := DepCase{G: g}
		for j := range g.Names {
			k.Choice = append(k.Choice, j*j*i%24)
		}
		out = append(out, k)
	}
	return out
}

func runDep(c *Ctx, k DepCase) {
	g := &k.G
	idx := map[string]int{}
	for i, n := range g.Names {
		idx[string(n)] = i
	}
	d, err := dag.NewDependencyGraph(g.nodes())
	c.Check(err == nil && d != nil, "acyclic graph refused: %v", err)
	completed := make([]bool, g.n())
	released := make([]bool, g.n())
	left := g.n()
	var inflight []int
	step := func(what string) {
		c.Check(d.HasPending() == (left > 0), "before %s: pending = %v, but %d nodes are unreleased", what, d.HasPending(), left)
		var got []string
		got = d.Next(what)
		seen := map[string]bool{}
		for _, n := range got {
			i, ok := idx[n]
			c.Check(ok && !seen[n], "completing %q released unknown or repeated node %q", what, n)
			seen[n] = true
			c.Check(!released[i], "node %q released twice", n)
			for _, j := range g.deps(i) {
				c.Check(completed[j], "node %q released although %q has not completed", n, g.Names[j])
			}
		}
		for i := range released {
			ready := !released[i]
			for _, j := range g.deps(i) {
				ready = ready && completed[j]
			}
			if ready {
				c.Check(seen[string(g.Names[i])], "completing %q did not release %q although all its dependencies have completed", what, g.Names[i])
			}
		}
		sort.Strings(got)
		for _, n := range got {
			released[idx[n]] = true
			left--
			inflight = append(inflight, idx[n])
		}
		c.Check(d.HasPending() == (left > 0), "after %q: pending = %v, but %d nodes are unreleased", what, d.HasPending(), left)
	}
	step("")
	maxw := 0
	for n := 0; len(inflight) > 0; n++ {
		if len(inflight) > maxw {
			maxw = len(inflight)
		}
		p := 0
		if n < len(k.Choice) {
			p = k.Choice[n] % len(inflight)
		}
		i := inflight[p]
		inflight = append(inflight[:p:p], inflight[p+1:]...)
		completed[i] = true
		step(string(g.Names[i]))
	}
	c.Check(left == 0, "%d nodes were never released", left)
	c.NonTrivialIf(g.edges() >= 2 && maxw >= 2)
	c.Class("width=%d", min(maxw, 6))
	if _, ok := idx[""]; ok {
		c.Class("has a node named \"\"")
	}
}

func init() {
	Add("R09", "tsort", Opt{Quick: 6000, Rule: "random digraph (half of them with injected cycles), sorted twice from two constructions; non-trivial: at least two edges"}, genAnyGraph, runTSort, largeGraphs()...)
	Add("R09", "operations", Opt{Quick: 4000, Rule: "random operation history against a set model, checked after each step; non-trivial: more than three operations with a removal"}, genGraphOps, runGraphOps)
	Add("R09", "dangling", Opt{Quick: 2000, Rule: "graph with references to unknown nodes; non-trivial: at least one dangling reference in a graph of two or more nodes"}, genDangling, runDangling)
	Add("R10", "release", Opt{Quick: 8000, Rule: "random acyclic graph and completion order against a set model; non-trivial: at least two edges and two nodes in flight at once"}, genDep, runDep, largeDeps()...)
}
