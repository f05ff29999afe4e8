//go:build go1.23

package main

import (
	"fmt"
	"sort"
	"strings"

	. "github.com/sjansen/pgutil/internal/zzverif/engine"
	"github.com/sjansen/pgutil/internal/zzverif/rapid"
)

// A Graph is a task graph: node i depends on the nodes in After[i].
type Graph struct {
	Names []S
	After [][]int
}

func (g *Graph) n() int { return len(g.Names) }

var namePool = []string{
	"", "a", "b", "c", "d", "e", "f", "g", "A", "B", "aa", "ab", "a b", "0", "1", "10", "2",
	"a/b", "a.b", "α", "β", "\"", "\\", "'", "task", "line1", "line10", "line2", "a ", " a", "b\t", "a  b", " ", "\n", "{", "%s", "%d", "$x", "z", "zz", "zzz",
}

// distinctNames draws n distinct names.
func distinctNames(t *rapid.T, what string, n int, allowEmpty bool) []S {
	seen := map[string]bool{}
	out := make([]S, 0, n)
	for i := 0; i < n; i++ {
		name := rapid.SampledFrom(namePool).Draw(t, what)
		if name == "" && !allowEmpty {
			name = "x"
		}
		for k := 0; seen[name]; k++ {
			name = fmt.Sprintf("%s%d", strings.TrimRight(name, "0123456789"), i+k)
		}
		seen[name] = true
		out = append(out, S(name))
	}
	return out
}

// largeGraph is a graph of n nodes of a regular form.
func largeGraph(n, style int, back bool) Graph {
	g := Graph{After: make([][]int, n)}
	at := func(k int) int {
		if back {
			return n - 1 - k
		}
		return k
	}
	for k := 0; k < n; k++ {
		g.Names = append(g.Names, S(fmt.Sprintf("n%d", k)))
	}
	for k := 1; k < n; k++ {
		var deps []int
		switch style {
		case 1: // chain
			deps = append(deps, at(k-1))
		case 2: // all after one
			deps = append(deps, at(0))
		case 3: // one after all
			for j := 0; k == n-1 && j < k; j++ {
				deps = append(deps, at(j))
			}
		case 4: // tree
			deps = append(deps, at((k-1)/2))
		case 5: // layers
			for j := k/10*10 - 10; j >= 0 && j < k/10*10; j++ {
				deps = append(deps, at(j))
			}
		case 6: // two dependencies each
			deps = append(deps, at(k-1), at(k/2))
		case 7: // many dependencies each
			for j := 0; j < k; j += 1 + k%3 {
				deps = append(deps, at(j))
			}
		}
		g.After[at(k)] = deps
	}
	return g
}

// ring is a graph with one cycle of n nodes and a chain of tail nodes leading to it.
func ring(n, tail int) Graph {
	g := largeGraph(n+tail, 1, tail%2 == 1)
	first, last := 0, n-1
	if tail%2 == 1 {
		first, last = n+tail-1, tail
	}
	g.After[first] = append(g.After[first], last)
	return g
}

// genGraph draws an acyclic graph with at most max nodes.
func genGraph(t *rapid.T, max int, allowEmpty bool) Graph {
	if max >= 8 && Chance(t, "large", 1) {
		return largeGraph([]int{33, 40, 40, 65, 65, 101, 101, 130}[Even(t, "largen", 8)], Even(t, "largestyle", 8), Bool(t, "largeback"))
	}
	n := 0
	switch Int(t, "size", 0, 9) {
	case 0:
		n = Int(t, "n", 0, 2)
	case 9:
		n = Int(t, "n", 0, max)
	default:
		n = Int(t, "n", 1, (max+2)/3+2)
	}
	g := Graph{Names: distinctNames(t, "task", n, allowEmpty), After: make([][]int, n)}
	// pos[k] is the node at topological position k
	pos := Perm(t, "topo", n)
	style := Int(t, "style", 0, 5)
	for k := 1; k < n; k++ {
		i := pos[k]
		var deps []int
		switch style {
		case 0: // sparse
			if Chance(t, "edge", 60) {
				deps = append(deps, pos[Int(t, "dep", 0, k-1)])
			}
		case 1: // chain
			deps = append(deps, pos[k-1])
		case 2: // fan out and in
			if k == n-1 {
				deps = append(deps, pos[:k]...)
			} else {
				deps = append(deps, pos[0])
			}
		case 3: // layers of three
			layer := k / 3
			for j := 0; j < k; j++ {
				if j/3 == layer-1 && Bool(t, "dep") {
					deps = append(deps, pos[j])
				}
			}
		case 4: // dense
			for j := 0; j < k; j++ {
				if Bool(t, "dep") {
					deps = append(deps, pos[j])
				}
			}
		default: // random small
			m := Int(t, "ndeps", 0, 3)
			for j := 0; j < m; j++ {
				deps = append(deps, pos[Int(t, "dep", 0, k-1)]) // repeats allowed
			}
		}
		g.After[i] = deps
	}
	return g
}

func (g *Graph) edges() int {
	m := 0
	for i := range g.After {
		m += len(g.deps(i))
	}
	return m
}

// deps returns the distinct dependencies of i, sorted.
func (g *Graph) deps(i int) []int {
	set := map[int]bool{}
	for _, j := range g.After[i] {
		set[j] = true
	}
	out := []int{}
	for j := range set {
		out = append(out, j)
	}
	sort.Ints(out)
	return out
}

// nodes renders the graph the way the code under test takes it.
func (g *Graph) nodes() map[string][]string {
	m := map[string][]string{}
	for i, name := range g.Names {
		var deps []string
		for _, j := range g.After[i] {
			deps = append(deps, string(g.Names[j]))
		}
		m[string(name)] = deps
	}
	return m
}

// adjacency returns node -> set of successors as strings.
func (g *Graph) adjacency() map[string]map[string]bool {
	m := map[string]map[string]bool{}
	for i, name := range g.Names {
		s := map[string]bool{}
		for _, j := range g.After[i] {
			s[string(g.Names[j])] = true
		}
		m[string(name)] = s
	}
	return m
}

// acyclic decides by repeatedly removing sinks, independently of the code under test.
func acyclic(adj map[string]map[string]bool) bool {
	left := map[string]bool{}
	for n := range adj {
		left[n] = true
	}
	for len(left) > 0 {
		removed := false
		for n := range left {
			sink := true
			for m := range adj[n] {
				if left[m] {
					sink = false
					break
				}
			}
			if sink {
				delete(left, n)
				removed = true
			}
		}
		if !removed {
			return false
		}
	}
	return true
}

// realCycle reports whether the nodes, read in either direction, form a simple cycle.
func realCycle(adj map[string]map[string]bool, cycle []string) bool {
	if len(cycle) == 0 {
		return false
	}
	seen := map[string]bool{}
	for _, n := range cycle {
		if seen[n] {
			return false
		}
		seen[n] = true
	}
	fwd, bwd := true, true
	for i, n := range cycle {
		m := cycle[(i+1)%len(cycle)]
		fwd = fwd && adj[n][m]
		bwd = bwd && adj[m][n]
	}
	return fwd || bwd
}

// Missing is a dependency of task From on a task that does not exist.
type Missing struct {
	From int
	To   S
}
