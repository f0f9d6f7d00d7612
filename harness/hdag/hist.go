package hdag

import (
	"github.com/hexbee-net/etxe/pkg/dag"
	"github.com/hexbee-net/etxe/pkg/zzverif/v"
)

func Warmup() {}

// ident is the identifier of argument k: a vertex, an identifier never added (k == n), or the empty one.
func ident(m *model, k int) string {
	if k < m.n {
		return names[k]
	}
	if k == m.n {
		return names[m.n]
	}
	return ""
}

func (m *model) has(k int) bool {
	if k < m.n {
		return m.pres[k]
	}
	return false
}

// step applies operation op with arguments s and t to the graph and the model, and checks its result.
func step(g *graph, m *model, op, s, t, fresh int) {
	switch op {
	case 0: // add a vertex
		if s == m.n {
			return
		}
		err := g.AddVertex(ident(m, s), fresh)
		if s > m.n {
			v.Assert(err == dag.ErrVertexIDEmpty, "C03:adding a vertex with an empty id is refused")
			return
		}
		v.Assert(v.Eq(err == nil, v.Not(m.pres[s])), "C03:adding a vertex succeeds exactly when it is new")
		v.Assert(v.Or(err == nil, err == dag.ErrVertexDuplicate), "C03:adding an existing vertex is refused as duplicate")
		if !m.pres[s] {
			m.pres[s], m.val[s] = true, fresh
		}
	case 1: // delete a vertex
		err := g.DeleteVertex(ident(m, s))
		if s > m.n {
			v.Assert(err == dag.ErrVertexIDEmpty, "C03:deleting a vertex with an empty id is refused")
			return
		}
		v.Assert(v.Eq(err == nil, m.has(s)), "C03:deleting a vertex succeeds exactly when it exists")
		v.Assert(v.Or(err == nil, err == dag.ErrVertexNotFound), "C03:deleting an unknown vertex is refused as not found")
		if s < m.n {
			m.pres[s] = false
			for j := 0; j < m.n; j++ {
				m.edge[s][j], m.edge[j][s] = false, false
			}
		}
	case 2, 3: // add or delete an edge
		var err error
		if op == 2 {
			err = g.AddEdge(ident(m, s), ident(m, t))
		} else {
			err = g.DeleteEdge(ident(m, s), ident(m, t))
		}
		switch {
		case s > m.n:
			v.Assert(err == dag.ErrEdgeSourceIDEmpty, "C03:an empty source is refused")
			return
		case t > m.n:
			v.Assert(err == dag.ErrEdgeTargetIDEmpty, "C03:an empty target is refused")
			return
		case s == t:
			v.Assert(err == dag.ErrEdgeSourceTargetIdentical, "C03:identical source and target are refused")
			return
		}
		ps, pt := m.has(s), m.has(t)
		v.Assert(implies(v.Not(ps), err == dag.ErrEdgeSourceIDNotFound), "C03:an unknown source is refused")
		v.Assert(implies(v.And(ps, v.Not(pt)), err == dag.ErrEdgeTargetIDNotFound), "C03:an unknown target is refused")
		if s >= m.n || t >= m.n {
			return
		}
		both := v.And(ps, pt)
		e := m.edge[s][t]
		if op == 2 {
			loop := v.And(both, m.reach()[t][s])
			v.Assert(implies(e, err == dag.ErrEdgeDuplicate), "C03:adding an existing edge is refused as duplicate")
			v.Assert(v.Eq(err == dag.ErrEdgeDuplicate, e), "C03:only an existing edge is refused as duplicate")
			v.Assert(v.Eq(err == dag.ErrEdgeLoop, loop), "C01:an edge is refused with the loop error exactly when it closes a cycle")
			add := v.And(both, v.And(v.Not(e), v.Not(loop)))
			v.Assert(v.Eq(err == nil, add), "C01:an edge that closes no cycle is accepted unless it exists")
			m.edge[s][t] = v.Or(e, add)
		} else {
			v.Assert(implies(v.And(both, v.Not(e)), err == dag.ErrEdgeNotFound), "C03:deleting a missing edge is refused as not found")
			v.Assert(v.Eq(err == nil, e), "C03:deleting an edge succeeds exactly when it exists")
			m.edge[s][t] = false
		}
	case 4: // reduce
		g.ReduceTransitively()
		m.reduce()
	}
}

func (m *model) reduce() {
	r := m.reach()
	var out [maxN][maxN]bool
	for i := 0; i < m.n; i++ {
		for j := 0; j < m.n; j++ {
			longer := false
			for k := 0; k < m.n; k++ {
				longer = v.Or(longer, v.And(r[i][k], r[k][j]))
			}
			out[i][j] = v.And(m.edge[i][j], v.Not(longer))
		}
	}
	m.edge = out
}

func checkAcyclic(g *graph, m *model) {
	for i := 0; i < m.n; i++ {
		anc, _ := g.GetAncestors(names[i])
		desc, _ := g.GetDescendants(names[i])
		_, a := anc[names[i]]
		_, d := desc[names[i]]
		v.Assert(!a, "C01:no vertex is its own ancestor")
		v.Assert(!d, "C01:no vertex is its own descendant")
	}
}

// apply chooses an operation and its arguments and applies it.
func apply(g *graph, m *model, op, k int) {
	n := m.n
	if op < 0 {
		op = v.Choose("op", 5, k)
	}
	s, t := 0, 0
	if op < 4 {
		s = v.Choose("s", n+2, k)
	}
	if op == 2 || op == 3 {
		t = v.Choose("t", n+2, k)
	}
	step(g, m, op, s, t, 50+k)
	v.Fence(0)
}

// Step: any acyclic graph, any warmed answers, then operations with any arguments, then all queries.
//
//verif prop=C01,C02,C03,C04 mode=merge N=3 STEPS=1 tier=quick
//verif prop=C01,C02,C03,C04 mode=merge N=4 STEPS=1 tier=quick
//verif prop=C01,C02,C03,C04 mode=merge N=3 STEPS=2 tier=quick cases=0-4
//verif prop=C01,C02,C03,C04 mode=merge N=4 STEPS=2 tier=thorough
//verif prop=C01,C02,C03,C04 mode=merge N=3 STEPS=3 tier=thorough
//verif prop=C01,C02,C03,C04 mode=merge N=5 STEPS=1 tier=thorough
func Step() {
	op := v.Case() % 5
	desc := v.Case() >= 5
	g, m := build(v.Param("N"), desc)
	for k := 0; k < v.Param("STEPS"); k++ {
		warm(g, m, string(rune('0'+k)))
		if k > 0 {
			op = -1
		}
		apply(g, m, op, k)
	}
	checkReach(g, m, "C02")
	checkAcyclic(g, m)
	checkStruct(g, m, "C04")
	v.Reach("end")
}

func StepCases() int { return 10 }

// seqs are the fixed sequences of operations of Seq; the arguments and the warmed answers in between are symbolic.
var seqs = [][]int{{1, 0, 2}, {1, 0, 3}, {3, 2, 2}, {2, 1, 0}, {1, 0, 1}, {3, 2, 3}, {2, 3, 2}, {4, 1, 2}}

// Seq: longer fixed sequences, such as deleting a vertex, adding one and connecting it.
//
//verif prop=C01,C02,C03,C04 mode=merge N=3 FULL=0 tier=quick cases=0-3
//verif prop=C01,C02,C03,C04 mode=merge N=3 FULL=1 tier=thorough
func Seq() {
	ops := seqs[v.Case()]
	g, m := build(v.Param("N"), false)
	if v.Param("FULL") == 0 {
		warm(g, m, "0")
	}
	for k, op := range ops {
		if v.Param("FULL") == 1 {
			warm(g, m, string(rune('0'+k)))
		}
		apply(g, m, op, k)
	}
	checkReach(g, m, "C02")
	checkAcyclic(g, m)
	checkStruct(g, m, "C04")
	v.Reach("sequence")
}

func SeqCases() int { return len(seqs) }
