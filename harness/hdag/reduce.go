package hdag

import (
	"github.com/hexbee-net/etxe/pkg/dag"
	"github.com/hexbee-net/etxe/pkg/zzverif/v"
)

// Reduce: any acyclic graph with any warmed answers is reduced; edges, ancestors, descendants and everything else are
// compared with the definition. Reducing again changes nothing; further operations and reductions behave.
//
//verif prop=C05 mode=merge N=4 tier=both
//verif prop=C05 mode=merge N=5 tier=thorough
func Reduce() {
	v.MapDir(v.Case() / 2)
	g, m := build(v.Param("N"), v.Case()%2 == 1)
	warm(g, m, "0")
	reduceAndCheck(g, m)
}

func ReduceCases() int { return 6 }

// ReduceAfter: the same after an operation.
//
//verif prop=C05 mode=merge N=3 tier=both
//verif prop=C05 mode=merge N=4 tier=thorough
func ReduceAfter() {
	g, m := build(v.Param("N"), v.Case()%2 == 1)
	warm(g, m, "0")
	apply(g, m, v.Case()%4, 0)
	warm(g, m, "1")
	reduceAndCheck(g, m)
}

func ReduceAfterCases() int { return 4 }

func reduceAndCheck(g *graph, m *model) {
	before := m.reach()
	g.ReduceTransitively()
	m.reduce()
	after := m.reach()
	for i := 0; i < m.n; i++ {
		for j := 0; j < m.n; j++ {
			v.Assert(v.Eq(before[i][j], after[i][j]), "C05:the definition keeps reachability")
		}
	}
	if v.Bool("direct") {
		checkReach(g, m, "C05")
		checkStruct(g, m, "C05")
	} else {
		checkStruct(g, m, "C05")
		g.ReduceTransitively()
		checkStruct(g, m, "C05")
		checkReach(g, m, "C05")
	}
	v.Reach("reduced")
}

// ReduceOrder: the same for every iteration order of the maps involved.
//
//verif prop=C05 mode=fork N=3 tier=both
//verif prop=C05 mode=fork N=4 tier=thorough secs=400
func ReduceOrder() {
	n := v.Param("N")
	g, m := build(n, false)
	for i := 0; i < n; i++ {
		for j := 0; j < n; j++ {
			m.edge[i][j] = m.edge[i][j] && true
		}
	}
	v.MapOrder(true)
	g.ReduceTransitively()
	v.MapOrder(false)
	m.reduce()
	checkStruct(g, m, "C05")
	checkReach(g, m, "C05")
	v.Reach("any order")
}

// Snapshot: answers do not change when the graph does, and the graph does not when an answer does.
//
//verif prop=C09 mode=merge N=3 tier=quick
//verif prop=C09 mode=merge N=4 tier=thorough
func Snapshot() {
	n := v.Param("N")
	g, m := build(n, v.Case()%2 == 1)
	warm(g, m, "0")
	old := *m
	r := m.reach()
	all, roots, leaves := g.GetVertices(), g.GetRoots(), g.GetLeaves()
	var par, chd, anc, desc [maxN]map[string]int
	for i := 0; i < n; i++ {
		par[i], _ = g.GetParents(names[i])
		chd[i], _ = g.GetChildren(names[i])
		anc[i], _ = g.GetAncestors(names[i])
		desc[i], _ = g.GetDescendants(names[i])
	}
	if v.Case() < 2 {
		// the graph changes
		apply(g, m, -1, 0)
		nr, nl := 0, 0
		for i := 0; i < n; i++ {
			in, out := false, false
			np, nc, na, nd := 0, 0, 0, 0
			for j := 0; j < n; j++ {
				in, out = v.Or(in, old.edge[j][i]), v.Or(out, old.edge[i][j])
				snap(par[i], j, old.edge[j][i], old.val[j], "parents")
				snap(chd[i], j, old.edge[i][j], old.val[j], "children")
				snap(anc[i], j, r[j][i], old.val[j], "ancestors")
				snap(desc[i], j, r[i][j], old.val[j], "descendants")
				np, nc = np+v.Num(old.edge[j][i]), nc+v.Num(old.edge[i][j])
				na, nd = na+v.Num(r[j][i]), nd+v.Num(r[i][j])
			}
			snap(all, i, true, old.val[i], "vertices")
			snap(roots, i, v.Not(in), old.val[i], "roots")
			snap(leaves, i, v.Not(out), old.val[i], "leaves")
			nr, nl = nr+v.Num(v.Not(in)), nl+v.Num(v.Not(out))
			v.Assert(v.And(v.And(len(par[i]) == np, len(chd[i]) == nc), v.And(len(anc[i]) == na, len(desc[i]) == nd)), "C09:an earlier answer keeps its size")
		}
		v.Assert(v.And(len(all) == n, v.And(len(roots) == nr, len(leaves) == nl)), "C09:an earlier listing keeps its size")
		v.Reach("graph changed")
		return
	}
	// the answers are modified
	spoil(all)
	spoil(roots)
	spoil(leaves)
	for i := 0; i < n; i++ {
		spoil(par[i])
		spoil(chd[i])
		spoil(anc[i])
		spoil(desc[i])
	}
	checkStruct(g, m, "C09")
	checkReach(g, m, "C09")
	apply(g, m, -1, 0)
	checkStruct(g, m, "C09")
	checkReach(g, m, "C09")
	v.Reach("answers spoiled")
}

func SnapshotCases() int { return 4 }

func snap(x map[string]int, j int, want bool, val int, what string) {
	y, ok := x[names[j]]
	v.Assert(v.Eq(ok, want), "C09:an earlier answer keeps its members: "+what)
	v.Assert(implies(ok, y == val), "C09:an earlier answer keeps its values: "+what)
}

// spoil changes a map in every way a caller can.
func spoil(x map[string]int) {
	for i := range names {
		if i%2 == 0 {
			x[names[i]] = -1
		} else {
			delete(x, names[i])
		}
	}
	x["zz"] = 99
}

// SnapshotOrdered: the same for the ordered listings, one vertex and direction at a time.
//
//verif prop=C09 mode=fork N=3 tier=both
//verif prop=C09 mode=fork N=4 tier=thorough secs=300
func SnapshotOrdered() {
	n := v.Param("N")
	c := v.Case()
	i, up, op := c/12, c/6%2 == 0, c%6
	if i >= n {
		return
	}
	g, m := build(n, false)
	m.concrete()
	list := func() []string {
		var x []string
		if up {
			x, _ = g.GetOrderedAncestors(names[i])
		} else {
			x, _ = g.GetOrderedDescendants(names[i])
		}
		return x
	}
	a := list()
	keep := append([]string(nil), a...)
	if op < 5 {
		apply(g, m, op, 0)
		_ = list()
		v.Assert(sameList(a, keep), "C09:an earlier ordered answer does not change")
		v.Reach("ordered kept")
		return
	}
	for j := range a {
		a[j] = "zz"
	}
	a = append(a[:0], "y", "z")
	checkStruct(g, m, "C09")
	checkReach(g, m, "C09")
	b := list()
	v.Assert(len(b) == len(keep), "C09:ordered answers are fresh")
	for j := range b {
		v.Assert(b[j] != "zz" && b[j] != "y" && b[j] != "z", "C09:ordered answers are not shared")
	}
	v.Reach("ordered spoiled")
}

func SnapshotOrderedCases() int { return 48 }

func sameList(a, b []string) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

var _ = dag.ErrEdgeLoop
