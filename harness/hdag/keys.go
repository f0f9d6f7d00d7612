package hdag

import (
	"github.com/hexbee-net/etxe/pkg/dag"
	"github.com/hexbee-net/etxe/pkg/zzverif/v"
)

type pair struct {
	a string
	b int
}

type title string

func (t title) String() string { return "" }

// value is not comparable and may be zero.
type value struct {
	n    int
	list []int
}

// Keys: graphs whose identifiers and values are of other types than strings and numbers, with any identifiers of that type.
//
// verif prop=C01,C02,C03,C04,C05,C06 panic=* mode=fork EDGES=4 tier=quick reach=keys
// verif prop=C01,C02,C03,C04,C05,C06 panic=* mode=fork EDGES=8 tier=thorough reach=keys
func Keys() {
	op := v.Case() % 5
	if v.Is("C05") != (op == 4) {
		return
	}
	switch v.Case() / 5 {
	case 0: // any numbers
		ids := make([]int, 4)
		for i := range ids {
			ids[i] = v.Int("id", -100, 100, i)
			v.Assume(ids[i] != 0)
			for j := 0; j < i; j++ {
				v.Assume(ids[i] != ids[j])
			}
		}
		keysRun(op, ids, 0, []int{0, 1, 2}, func(a, b int) bool { return a == b })
	case 1: // any bytes
		ids := make([]byte, 4)
		for i := range ids {
			ids[i] = v.Byte("id", i)
			v.Assume(ids[i] != 0)
			for j := 0; j < i; j++ {
				v.Assume(ids[i] != ids[j])
			}
		}
		keysRun(op, ids, 0, []string{"", "a", "a"}, func(a, b string) bool { return a == b })
	case 2: // any texts of one or two bytes
		ids := make([]string, 4)
		for i := range ids {
			ids[i] = string([]byte{v.Byte("id", i)})
			if i%2 == 1 {
				ids[i] += string([]byte{v.Byte("more", i)})
			}
			for j := 0; j < i; j++ {
				v.Assume(ids[i] != ids[j])
			}
		}
		keysRun(op, ids, "", []bool{false, true, false}, func(a, b bool) bool { return a == b })
	case 3: // structures, of which one part is zero or the same
		x := v.Byte("x")
		v.Assume(x != 0)
		keysRun(op, []pair{{"", int(x)}, {"a", 0}, {"a", int(x)}, {"b", int(x)}}, pair{}, []value{{}, {n: 1}, {list: []int{1}}}, func(a, b value) bool {
			return a.n == b.n && len(a.list) == len(b.list)
		})
	case 4: // pointers to equal values
		ids := make([]*int, 4)
		for i := range ids {
			ids[i] = new(int)
		}
		keysRun(op, ids, nil, ids[:3], func(a, b *int) bool { return a == b })
	case 5: // arrays
		x := v.Byte("x")
		v.Assume(x != 0)
		keysRun(op, [][2]byte{{0, x}, {x, 0}, {x, x}, {x + 1, 0}}, [2]byte{}, [][]int{nil, {}, {1}}, func(a, b []int) bool {
			return (a == nil) == (b == nil) && len(a) == len(b)
		})
	case 6: // a type whose values all print as the empty text
		ids := make([]title, 4)
		for i := range ids {
			ids[i] = title([]byte{v.Byte("id", i)})
			for j := 0; j < i; j++ {
				v.Assume(ids[i] != ids[j])
			}
		}
		keysRun(op, ids, "", []any{nil, 1, "a"}, func(a, b any) bool { return a == b })
	case 7: // fractions
		keysRun(op, []float64{0.25, 0.5, -1, 1e300}, 0, []error{nil, dag.ErrEdgeLoop, nil}, func(a, b error) bool { return a == b })
	case 8: // texts that look alike
		b := string([]byte{v.Byte("b")})
		keysRun(op, []string{b + "x", b + "x ", "x" + b + "-", "\x00"}, "", []func(){nil, func() {}, nil}, func(a, b func()) bool { return (a == nil) == (b == nil) })
	}
}

func KeysCases() int { return 9 * 5 }

var keyEdges = [][]int{{}, {0, 1, 1, 2}, {2, 1, 1, 0, 2, 0}, {0, 1, 2, 1}, {1, 0, 1, 2}, {0, 1}, {2, 0}, {0, 1, 1, 2, 0, 2}}

// keysRun builds a graph of the first three identifiers; the fourth is unknown.
func keysRun[K comparable, T any](op int, ids []K, empty K, vals []T, same func(a, b T) bool) {
	const n = 3
	v.Sched(1)
	g := dag.NewAcyclicGraph[K, T]()
	m := &model{n: n}
	val := make([]T, n)
	for i := 0; i < n; i++ {
		val[i] = vals[i]
		m.pres[i] = true
		v.Assert(g.AddVertex(ids[i], vals[i]) == nil, "C03:adding a new vertex succeeds")
	}
	e := keyEdges[v.Choose("edges", v.Param("EDGES"))]
	for i := 0; i+1 < len(e); i += 2 {
		v.Assert(g.AddEdge(ids[e[i]], ids[e[i+1]]) == nil, "C01:an edge that closes no cycle is accepted")
		m.edge[e[i]][e[i+1]] = true
	}
	if v.Bool("warm") {
		for i := 0; i < n; i++ {
			_, _ = g.GetAncestors(ids[i])
			_, _ = g.GetDescendants(ids[i])
		}
	}
	arg := func(k int) K {
		if k <= n {
			return ids[k]
		}
		return empty
	}
	s, t := 0, 0
	if op < 4 {
		s = v.Choose("s", n+2)
	}
	if op == 2 || op == 3 {
		t = v.Choose("t", n+2)
	}
	switch op {
	case 0:
		err := g.AddVertex(arg(s), vals[0])
		switch {
		case s > n:
			v.Assert(err == dag.ErrVertexIDEmpty, "C03:adding a vertex with an empty id is refused")
		case s < n:
			v.Assert(err == dag.ErrVertexDuplicate, "C03:adding an existing vertex is refused as duplicate")
		default:
			v.Assert(err == nil, "C03:adding a vertex succeeds exactly when it is new")
			m.n, m.pres[n], val = n+1, true, append(val, vals[0])
		}
	case 1:
		err := g.DeleteVertex(arg(s))
		switch {
		case s > n:
			v.Assert(err == dag.ErrVertexIDEmpty, "C03:deleting a vertex with an empty id is refused")
		case s == n:
			v.Assert(err == dag.ErrVertexNotFound, "C03:deleting an unknown vertex is refused as not found")
		default:
			v.Assert(err == nil, "C03:deleting a vertex succeeds exactly when it exists")
			m.pres[s] = false
			for j := 0; j < n; j++ {
				m.edge[s][j], m.edge[j][s] = false, false
			}
		}
	case 2, 3:
		var err error
		if op == 2 {
			err = g.AddEdge(arg(s), arg(t))
		} else {
			err = g.DeleteEdge(arg(s), arg(t))
		}
		switch {
		case s > n:
			v.Assert(err == dag.ErrEdgeSourceIDEmpty, "C03:an empty source is refused")
		case t > n:
			v.Assert(err == dag.ErrEdgeTargetIDEmpty, "C03:an empty target is refused")
		case s == t:
			v.Assert(err == dag.ErrEdgeSourceTargetIdentical, "C03:identical source and target are refused")
		case s == n:
			v.Assert(err == dag.ErrEdgeSourceIDNotFound, "C03:an unknown source is refused")
		case t == n:
			v.Assert(err == dag.ErrEdgeTargetIDNotFound, "C03:an unknown target is refused")
		case op == 3:
			v.Assert((err == nil) == m.edge[s][t], "C03:deleting an edge succeeds exactly when it exists")
			v.Assert(err == nil || err == dag.ErrEdgeNotFound, "C03:deleting a missing edge is refused as not found")
			m.edge[s][t] = false
		case m.edge[s][t]:
			v.Assert(err == dag.ErrEdgeDuplicate, "C03:adding an existing edge is refused as duplicate")
		case m.reach()[t][s]:
			v.Assert(err == dag.ErrEdgeLoop, "C01:an edge is refused with the loop error exactly when it closes a cycle")
		default:
			v.Assert(err == nil, "C01:an edge that closes no cycle is accepted unless it exists")
			m.edge[s][t] = true
		}
	case 4:
		g.ReduceTransitively()
		m.reduce()
	}
	v.Reach("keys")
	reach, structure := "C02", "C04"
	if op == 4 {
		reach, structure = "C05", "C05"
	}
	r := m.reach()
	answer := func(got map[K]T, in func(j int) bool) bool {
		k := 0
		for j := 0; j < m.n; j++ {
			if in(j) {
				k++
				if x, ok := got[ids[j]]; !ok || !same(x, val[j]) {
					return false
				}
			}
		}
		return k == len(got)
	}
	walk := func(got []K, up bool, s int) bool {
		seen := 0
		last := 0
		d := m.dist(s, up)
		for _, id := range got {
			j := 0
			for j < m.n && ids[j] != id {
				j++
			}
			if j == m.n || d[j] < last || d[j] == 0 {
				return false
			}
			for k := 0; k < seen; k++ {
				if got[k] == id {
					return false
				}
			}
			last = d[j]
			seen++
		}
		want := 0
		for j := 0; j < m.n; j++ {
			if up && r[j][s] || !up && r[s][j] {
				want++
			}
		}
		return seen == want
	}
	order, size := 0, 0
	for i := 0; i < m.n; i++ {
		x, err := g.GetVertex(ids[i])
		if !m.pres[i] {
			_, e2 := g.GetAncestors(ids[i])
			_, e3 := g.GetDescendants(ids[i])
			_, e4 := g.GetParents(ids[i])
			_, e5 := g.GetChildren(ids[i])
			_, _, e6 := g.AncestorsWalker(ids[i])
			_, _, e7 := g.DescendantsWalker(ids[i])
			nf := dag.ErrVertexNotFound
			v.Assert(err == nf && e2 == nf && e3 == nf && e4 == nf && e5 == nf && e6 == nf && e7 == nf, "C03:queries of an absent vertex fail")
			continue
		}
		order++
		y, isT := x.(T)
		v.Assert(err == nil && (isT && same(y, val[i]) || x == nil && any(val[i]) == nil), structure+":vertex lookup gives its value")
		anc, e1 := g.GetAncestors(ids[i])
		desc, e2 := g.GetDescendants(ids[i])
		v.Assert(e1 == nil && answer(anc, func(j int) bool { return r[j][i] }), reach+":ancestors are the vertices that reach it")
		v.Assert(e2 == nil && answer(desc, func(j int) bool { return r[i][j] }), reach+":descendants are the vertices it reaches")
		par, e1 := g.GetParents(ids[i])
		chd, e2 := g.GetChildren(ids[i])
		v.Assert(e1 == nil && answer(par, func(j int) bool { return m.edge[j][i] }), structure+":parents")
		v.Assert(e2 == nil && answer(chd, func(j int) bool { return m.edge[i][j] }), structure+":children")
		if v.Is("C06") {
			up, e1 := g.GetOrderedAncestors(ids[i])
			down, e2 := g.GetOrderedDescendants(ids[i])
			v.Assert(e1 == nil && walk(up, true, i), "C06:each ancestor once, the nearest first")
			v.Assert(e2 == nil && walk(down, false, i), "C06:each descendant once, the nearest first")
		}
		for j := 0; j < m.n; j++ {
			if m.edge[i][j] {
				size++
			}
			if i != j && m.pres[j] {
				is, err := g.IsEdge(ids[i], ids[j])
				v.Assert(err == nil && is == m.edge[i][j], structure+":edge membership")
			}
		}
	}
	_, e1 := g.GetVertex(empty)
	_, e2 := g.GetAncestors(empty)
	_, e3 := g.GetDescendants(empty)
	_, e4 := g.GetParents(empty)
	_, e5 := g.GetChildren(empty)
	_, _, e6 := g.AncestorsWalker(empty)
	_, _, e7 := g.DescendantsWalker(empty)
	ie := dag.ErrVertexIDEmpty
	v.Assert(e1 == ie && e2 == ie && e3 == ie && e4 == ie && e5 == ie && e6 == ie && e7 == ie, "C03:queries with an empty id are refused")
	v.Assert(answer(g.GetVertices(), func(j int) bool { return m.pres[j] }), structure+":the listing has exactly the vertices")
	v.Assert(answer(g.GetRoots(), func(j int) bool {
		for i := 0; i < m.n; i++ {
			if m.edge[i][j] {
				return false
			}
		}
		return m.pres[j]
	}), structure+":roots are the vertices without parents")
	v.Assert(answer(g.GetLeaves(), func(i int) bool {
		for j := 0; j < m.n; j++ {
			if m.edge[i][j] {
				return false
			}
		}
		return m.pres[i]
	}), structure+":leaves are the vertices without children")
	v.Assert(g.GetOrder() == order && g.GetSize() == size, structure+":order and size")
}
