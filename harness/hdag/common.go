package hdag

import (
	"github.com/hexbee-net/etxe/pkg/dag"
	"github.com/hexbee-net/etxe/pkg/zzverif/v"
)

// names of the vertices; index n is an identifier that is never added, "" is the empty one
var names = []string{"a", "b", "c", "d", "e", "f", "g", "h", "i"}

type graph = dag.AcyclicGraph[string, int]

const maxN = 8

// model is the oracle: presence, value and edges of up to maxN vertices.
type model struct {
	n    int
	pres [maxN]bool
	val  [maxN]int
	edge [maxN][maxN]bool
}

// reach computes the transitive closure of the edges, without branches.
func (m *model) reach() (r [maxN][maxN]bool) {
	for i := 0; i < m.n; i++ {
		for j := 0; j < m.n; j++ {
			r[i][j] = m.edge[i][j]
		}
	}
	for k := 0; k < m.n; k++ {
		for i := 0; i < m.n; i++ {
			for j := 0; j < m.n; j++ {
				r[i][j] = v.Or(r[i][j], v.And(r[i][k], r[k][j]))
			}
		}
	}
	return r
}

// build makes a graph of n vertices with any set of edges from lower to higher index (every acyclic graph up to
// renaming), added in ascending or descending order.
func build(n int, desc bool) (*graph, *model) {
	g := dag.NewAcyclicGraph[string, int]()
	m := &model{n: n}
	for i := 0; i < n; i++ {
		m.val[i] = 10 + i
		m.pres[i] = true
		err := g.AddVertex(names[i], m.val[i])
		v.Assert(err == nil, "C03:adding a new vertex succeeds")
	}
	for x := 0; x < n; x++ {
		for y := 0; y < n; y++ {
			i, j := x, y
			if desc {
				i, j = n-1-x, n-1-y
			}
			if i >= j {
				continue
			}
			m.edge[i][j] = v.Bool("e", i, j)
			if m.edge[i][j] {
				err := g.AddEdge(names[i], names[j])
				v.Assert(err == nil, "C01:an edge that closes no cycle is accepted")
			}
		}
	}
	return g, m
}

// warm asks any subset of the memoised queries.
func warm(g *graph, m *model, tag string) {
	for i := 0; i < m.n; i++ {
		if v.Bool("wa"+tag, i) {
			_, _ = g.GetAncestors(names[i])
		}
		if v.Bool("wd"+tag, i) {
			_, _ = g.GetDescendants(names[i])
		}
	}
}

func implies(a, b bool) bool { return v.Or(v.Not(a), b) }

// checkReach compares the ancestors and descendants of every vertex with the closure of the model.
func checkReach(g *graph, m *model, prop string) {
	r := m.reach()
	for i := 0; i < m.n; i++ {
		anc, ea := g.GetAncestors(names[i])
		desc, ed := g.GetDescendants(names[i])
		p := m.pres[i]
		v.Assert(v.Eq(ea == nil, p), prop+":ancestors are answered exactly for present vertices")
		v.Assert(v.Eq(ed == nil, p), prop+":descendants are answered exactly for present vertices")
		v.Assert(v.Or(p, v.And(ea == dag.ErrVertexNotFound, ed == dag.ErrVertexNotFound)), "C03:queries of an absent vertex fail")
		na, nd := 0, 0
		for j := 0; j < m.n; j++ {
			x, ok := anc[names[j]]
			v.Assert(v.Eq(ok, r[j][i]), prop+":ancestors are the vertices that reach it")
			v.Assert(implies(ok, x == m.val[j]), prop+":an ancestor comes with its current value")
			na += v.Num(r[j][i])
			x, ok = desc[names[j]]
			v.Assert(v.Eq(ok, r[i][j]), prop+":descendants are the vertices it reaches")
			v.Assert(implies(ok, x == m.val[j]), prop+":a descendant comes with its current value")
			nd += v.Num(r[i][j])
		}
		v.Assert(len(anc) == na, prop+":no other ancestors")
		v.Assert(len(desc) == nd, prop+":no other descendants")
	}
}

// checkStruct compares every structural query with the model.
func checkStruct(g *graph, m *model, prop string) {
	order, size := 0, 0
	roots, leaves, all := g.GetRoots(), g.GetLeaves(), g.GetVertices()
	nr, nl := 0, 0
	for i := 0; i < m.n; i++ {
		p := m.pres[i]
		order += v.Num(p)
		x, err := g.GetVertex(names[i])
		v.Assert(v.Eq(err == nil, p), prop+":exactly the present vertices are found")
		v.Assert(v.Or(p, err == dag.ErrVertexNotFound), prop+":an absent vertex is not found")
		y, isInt := x.(int)
		v.Assert(implies(p, v.And(isInt, y == m.val[i])), prop+":vertex lookup gives its value")
		w, ok := all[names[i]]
		v.Assert(v.Eq(ok, p), prop+":the listing has exactly the vertices")
		v.Assert(implies(ok, w == m.val[i]), prop+":the listing has their values")
		in, out := false, false
		par, ep := g.GetParents(names[i])
		chd, ec := g.GetChildren(names[i])
		v.Assert(v.And(v.Eq(ep == nil, p), v.Eq(ec == nil, p)), prop+":parents and children are answered exactly for present vertices")
		v.Assert(v.Or(p, v.And(ep == dag.ErrVertexNotFound, ec == dag.ErrVertexNotFound)), prop+":parents and children of an absent vertex are refused")
		np, nc := 0, 0
		for j := 0; j < m.n; j++ {
			in = v.Or(in, m.edge[j][i])
			out = v.Or(out, m.edge[i][j])
			size += v.Num(m.edge[i][j])
			if i != j {
				is, err := g.IsEdge(names[i], names[j])
				v.Assert(v.Eq(is, m.edge[i][j]), prop+":edge membership")
				v.Assert(v.Eq(err == nil, v.And(p, m.pres[j])), prop+":edge membership is answered for present vertices only")
			}
			x, ok := par[names[j]]
			v.Assert(v.Eq(ok, m.edge[j][i]), prop+":parents")
			v.Assert(implies(ok, x == m.val[j]), prop+":a parent comes with its value")
			np += v.Num(m.edge[j][i])
			x, ok = chd[names[j]]
			v.Assert(v.Eq(ok, m.edge[i][j]), prop+":children")
			v.Assert(implies(ok, x == m.val[j]), prop+":a child comes with its value")
			nc += v.Num(m.edge[i][j])
		}
		v.Assert(v.And(len(par) == np, len(chd) == nc), prop+":no other parents or children")
		w, ok = roots[names[i]]
		v.Assert(v.Eq(ok, v.And(p, v.Not(in))), prop+":roots are the vertices without parents")
		v.Assert(implies(ok, w == m.val[i]), prop+":a root comes with its value")
		nr += v.Num(ok)
		w, ok = leaves[names[i]]
		v.Assert(v.Eq(ok, v.And(p, v.Not(out))), prop+":leaves are the vertices without children")
		v.Assert(implies(ok, w == m.val[i]), prop+":a leaf comes with its value")
		nl += v.Num(ok)
	}
	v.Assert(v.And(len(all) == order, g.GetOrder() == order), prop+":order")
	v.Assert(g.GetSize() == size, prop+":size counts each edge once")
	v.Assert(v.And(len(roots) == nr, len(leaves) == nl), prop+":no other roots or leaves")
}
