package hdag

import (
	"github.com/hexbee-net/etxe/pkg/dag"
	"github.com/hexbee-net/etxe/pkg/zzverif/v"
)

// A bigModel is the oracle for graphs of many vertices.
type bigModel struct {
	pres []bool
	val  []int
	edge [][]bool
}

func bigName(i int) string {
	return string([]byte{'v', byte('a' + i/10), byte('0' + i%10)})
}

func bigIndex(s string) int {
	if len(s) != 3 {
		return -1
	}
	return int(s[1]-'a')*10 + int(s[2]-'0')
}

// closure gives which vertices each vertex reaches.
func (m *bigModel) closure() [][]bool {
	n := len(m.pres)
	r := make([][]bool, n)
	for i := 0; i < n; i++ {
		r[i] = make([]bool, n)
		todo := []int{i}
		for len(todo) > 0 {
			x := todo[0]
			todo = todo[1:]
			for y := 0; y < n; y++ {
				if m.edge[x][y] && !r[i][y] {
					r[i][y] = true
					todo = append(todo, y)
				}
			}
		}
	}
	return r
}

// bigEdge tells whether shape k of n vertices has an edge from i to a higher j.
func bigEdge(k, n, i, j int) bool {
	switch k {
	case 0: // a chain
		return j == i+1
	case 1: // one vertex above all
		return i == 0
	case 2: // one vertex below all
		return j == n-1
	case 3: // a tree
		return (j-1)/2 == i
	case 4: // a ladder
		return j == i+2 || i%2 == 0 && j == i+1
	case 5: // diamonds, one below the other
		return i%3 == 0 && (j == i+1 || j == i+2) || i%3 != 0 && j == i-i%3+3
	case 6: // layers of four
		return j/4 == i/4+1
	case 7: // one between many and many
		return j == n/2 || i == n/2
	case 8: // a chain with shortcuts
		return j == i+1 || j == i+5
	}
	return false
}

const bigShapes = 9

func bigBuild(k, n int) (*graph, *bigModel) {
	g := dag.NewAcyclicGraph[string, int]()
	m := &bigModel{}
	for i := 0; i < n; i++ {
		_ = g.AddVertex(bigName(i), 100+i)
		m.pres = append(m.pres, true)
		m.val = append(m.val, 100+i)
		m.edge = append(m.edge, make([]bool, n))
	}
	for i := 0; i < n; i++ {
		for j := i + 1; j < n; j++ {
			if bigEdge(k, n, i, j) {
				m.edge[i][j] = true
				err := g.AddEdge(bigName(i), bigName(j))
				v.Assert(err == nil, "C01:an edge that closes no cycle is accepted")
			}
		}
	}
	return g, m
}

// sameSet compares an answer with the vertices for which in holds.
func (m *bigModel) sameSet(got map[string]int, in func(j int) bool) bool {
	n := 0
	for j := range m.pres {
		if in(j) {
			n++
			if x, ok := got[bigName(j)]; !ok || x != m.val[j] {
				return false
			}
		}
	}
	return n == len(got)
}

// check compares all queries with the model.
func (m *bigModel) check(g *graph, reach, structure string) {
	r := m.closure()
	size, order := 0, 0
	for i := range m.pres {
		if !m.pres[i] {
			_, e1 := g.GetAncestors(bigName(i))
			_, e2 := g.GetDescendants(bigName(i))
			_, e3 := g.GetVertex(bigName(i))
			v.Assert(e1 == dag.ErrVertexNotFound && e2 == dag.ErrVertexNotFound && e3 == dag.ErrVertexNotFound, "C03:queries of an absent vertex fail")
			continue
		}
		order++
		anc, e1 := g.GetAncestors(bigName(i))
		desc, e2 := g.GetDescendants(bigName(i))
		v.Assert(e1 == nil && m.sameSet(anc, func(j int) bool { return r[j][i] }), reach+":ancestors are the vertices that reach it")
		v.Assert(e2 == nil && m.sameSet(desc, func(j int) bool { return r[i][j] }), reach+":descendants are the vertices it reaches")
		_, a := anc[bigName(i)]
		_, d := desc[bigName(i)]
		v.Assert(!a && !d, "C01:no vertex is its own ancestor")
		par, e1 := g.GetParents(bigName(i))
		chd, e2 := g.GetChildren(bigName(i))
		v.Assert(e1 == nil && m.sameSet(par, func(j int) bool { return m.edge[j][i] }), structure+":parents")
		v.Assert(e2 == nil && m.sameSet(chd, func(j int) bool { return m.edge[i][j] }), structure+":children")
		for j := range m.pres {
			if m.edge[i][j] {
				size++
			}
			if i != j && m.pres[j] {
				is, err := g.IsEdge(bigName(i), bigName(j))
				v.Assert(err == nil && is == m.edge[i][j], structure+":edge membership")
			}
		}
	}
	v.Assert(m.sameSet(g.GetVertices(), func(j int) bool { return m.pres[j] }), structure+":the listing has exactly the vertices")
	v.Assert(m.sameSet(g.GetRoots(), func(j int) bool {
		for i := range m.pres {
			if m.edge[i][j] {
				return false
			}
		}
		return m.pres[j]
	}), structure+":roots are the vertices without parents")
	v.Assert(m.sameSet(g.GetLeaves(), func(i int) bool {
		for j := range m.pres {
			if m.edge[i][j] {
				return false
			}
		}
		return m.pres[i]
	}), structure+":leaves are the vertices without children")
	v.Assert(g.GetOrder() == order && g.GetSize() == size, structure+":order and size")
}

// bigWarm asks some of the memoised queries.
func (m *bigModel) bigWarm(g *graph) {
	n := len(m.pres)
	switch v.Choose("warm", 4) {
	case 1:
		for i := 0; i < n; i++ {
			_, _ = g.GetAncestors(bigName(i))
			_, _ = g.GetDescendants(bigName(i))
		}
	case 2:
		_, _ = g.GetAncestors(bigName(n - 1))
		_, _ = g.GetDescendants(bigName(0))
	case 3:
		_, _ = g.GetAncestors(bigName(n / 2))
		_, _ = g.GetDescendants(bigName(n / 2))
	}
}

// Big: graphs of many vertices, then one operation, then all queries.
//
// verif prop=C01,C02,C03,C04,C05 panic=* mode=fork N=18 tier=quick reach=big
// verif prop=C01,C02,C03,C04,C05 panic=* mode=fork N=18 tier=thorough reach=big
// verif prop=C01,C02,C03,C04,C05 panic=* mode=fork N=40 tier=thorough reach=big
func Big() {
	n := v.Param("N")
	op := v.Case() % 5
	if v.Is("C05") != (op == 4) {
		return
	}
	g, m := bigBuild(v.Case()/5, n)
	m.bigWarm(g)
	ends := []int{0, 1, n / 2, n - 1}
	s, t := 0, 0
	if op < 4 {
		s = ends[v.Choose("s", len(ends))]
	}
	if op == 2 || op == 3 {
		t = ends[v.Choose("t", len(ends))]
		if v.Choose("next", 2) == 1 {
			t = (t + 1) % n
		}
		if s == t {
			return
		}
	}
	switch op {
	case 0:
		v.Assert(g.AddVertex(bigName(s), 1) == dag.ErrVertexDuplicate, "C03:adding an existing vertex is refused as duplicate")
		v.Assert(g.AddVertex(bigName(n), 7) == nil, "C03:adding a vertex succeeds exactly when it is new")
		for i := range m.edge {
			m.edge[i] = append(m.edge[i], false)
		}
		m.pres, m.val, m.edge = append(m.pres, true), append(m.val, 7), append(m.edge, make([]bool, n+1))
		err := g.AddEdge(bigName(n), bigName(s))
		v.Assert(err == nil, "C01:an edge that closes no cycle is accepted unless it exists")
		m.edge[n][s] = true
	case 1:
		v.Assert(g.DeleteVertex(bigName(s)) == nil, "C03:deleting a vertex succeeds exactly when it exists")
		m.pres[s] = false
		for j := 0; j < n; j++ {
			m.edge[s][j], m.edge[j][s] = false, false
		}
	case 2:
		err := g.AddEdge(bigName(s), bigName(t))
		switch {
		case m.edge[s][t]:
			v.Assert(err == dag.ErrEdgeDuplicate, "C03:adding an existing edge is refused as duplicate")
		case m.closure()[t][s]:
			v.Assert(err == dag.ErrEdgeLoop, "C01:an edge is refused with the loop error exactly when it closes a cycle")
		default:
			v.Assert(err == nil, "C01:an edge that closes no cycle is accepted unless it exists")
			m.edge[s][t] = true
		}
	case 3:
		err := g.DeleteEdge(bigName(s), bigName(t))
		v.Assert((err == nil) == m.edge[s][t], "C03:deleting an edge succeeds exactly when it exists")
		v.Assert(err == nil || err == dag.ErrEdgeNotFound, "C03:deleting a missing edge is refused as not found")
		m.edge[s][t] = false
	case 4:
		if v.Choose("edge", 2) == 1 { // one more edge that the reduction removes, or not
			err := g.AddEdge(bigName(0), bigName(n-1))
			v.Assert(err == nil || m.edge[0][n-1], "C01:an edge that closes no cycle is accepted unless it exists")
			m.edge[0][n-1] = true
		}
		g.ReduceTransitively()
		r := m.closure()
		for i := 0; i < n; i++ {
			for j := 0; j < n; j++ {
				if !m.edge[i][j] {
					continue
				}
				for k := 0; k < n; k++ {
					if r[i][k] && r[k][j] {
						m.edge[i][j] = false
						break
					}
				}
			}
		}
	}
	v.Reach("big")
	if op == 4 {
		m.check(g, "C05", "C05")
		return
	}
	m.check(g, "C02", "C04")
}

func BigCases() int { return 5 * bigShapes }

// BigWalk: walks of these graphs from any vertex.
//
// verif prop=C06 panic=C06 mode=fork N=18 tier=quick reach=walked
// verif prop=C06 panic=C06 mode=fork N=40 tier=thorough reach=walked
func BigWalk() {
	n := v.Param("N")
	g, m := bigBuild(v.Case(), n)
	m.bigWarm(g)
	up := v.Bool("up")
	s := v.Choose("start", n)
	v.MapDir(v.Choose("dir", 2))
	v.Sched(1 + v.Choose("sched", 2))
	d := make([]int, n)
	want := 0
	cur := []int{s}
	for k := 1; len(cur) > 0; k++ {
		var nxt []int
		for _, x := range cur {
			for y := 0; y < n; y++ {
				e := m.edge[x][y]
				if up {
					e = m.edge[y][x]
				}
				if e && d[y] == 0 && y != s {
					d[y] = k
					want++
					nxt = append(nxt, y)
				}
			}
		}
		cur = nxt
	}
	var got []string
	if up {
		got, _ = g.GetOrderedAncestors(bigName(s))
	} else {
		got, _ = g.GetOrderedDescendants(bigName(s))
	}
	seen := map[string]bool{}
	last := 0
	for _, id := range got {
		i := bigIndex(id)
		v.Assert(i >= 0 && i < n && d[i] > 0, "C06:a walk visits only reachable vertices")
		v.Assert(!seen[id], "C06:a walk visits no vertex twice")
		v.Assert(d[i] >= last, "C06:a walk visits in order of distance")
		seen[id] = true
		last = d[i]
	}
	v.Assert(len(got) == want, "C06:a walk visits every reachable vertex")
	v.Reach("walked")
}

func BigWalkCases() int { return bigShapes }

// BigStop: a walk of these graphs is stopped after any number of vertices.
//
// verif prop=C07 panic=C07 mode=fork N=18 tier=quick reach=stopped
// verif prop=C07 panic=C07 mode=fork N=40 tier=thorough reach=stopped
func BigStop() {
	n := v.Param("N")
	g, _ := bigBuild(v.Case(), n)
	k := v.Choose("received", n+1)
	drain := v.Bool("drain")
	up := v.Bool("up")
	v.MapDir(1)
	v.Sched(1 + v.Choose("sched", 2))
	var ids chan string
	var signal chan bool
	if up {
		ids, signal, _ = g.AncestorsWalker(bigName(n - 1))
	} else {
		ids, signal, _ = g.DescendantsWalker(bigName(0))
	}
	seen := map[string]bool{}
	take := func() bool {
		id, ok := <-ids
		if ok {
			v.Assert(!seen[id], "C07:no vertex is delivered twice")
			seen[id] = true
		}
		return ok
	}
	for i := 0; i < k; i++ {
		if !take() {
			break
		}
	}
	signal <- true
	if drain {
		for take() {
		}
	}
	v.Quiesce()
	v.Assert(v.Live() == 0, "C07:the goroutine of a walk ends")
	v.Reach("stopped")
}

func BigStopCases() int { return bigShapes }

// BigSets: sets of many elements.
//
// verif prop=C08 panic=* mode=fork reach=sets
func BigSets() {
	lens := []int{0, 1, 9, 20, 40}
	na, nb := lens[v.Choose("a", len(lens))], lens[v.Choose("b", len(lens))]
	from := []int{0, 5, 20, 50}[v.Choose("from", 4)]
	a, b := make(dag.Set[int]), make(dag.Set[int])
	for i := 0; i < na; i++ {
		a.Add(i)
	}
	for i := 0; i < nb; i++ {
		b.Add(from + i)
	}
	inA := func(x int) bool { return x >= 0 && x < na }
	inB := func(x int) bool { return x >= from && x < from+nb }
	var res dag.Set[int]
	var want func(x int) bool
	switch v.Case() {
	case 0:
		res, want = a.Intersection(b), func(x int) bool { return inA(x) && inB(x) }
	case 1:
		res, want = a.Difference(b), func(x int) bool { return inA(x) && !inB(x) }
	case 2:
		res, want = a.Filter(func(x int) bool { return x%3 == 0 }), func(x int) bool { return inA(x) && x%3 == 0 }
	case 3:
		res, want = a.Copy(), inA
	case 4:
		res = make(dag.Set[int])
		for _, x := range a.List() {
			v.Assert(!res.Includes(x), "C08:a list has each element once")
			res.Add(x)
		}
		want = inA
	case 5:
		res = a.Copy()
		for x := 0; x < 100; x++ {
			if inB(x) {
				res.Delete(x)
			}
		}
		want = func(x int) bool { return inA(x) && !inB(x) }
	}
	is := func(s dag.Set[int], in func(x int) bool, what string) {
		n := 0
		for x := -1; x < 100; x++ {
			v.Assert(s.Includes(x) == in(x), "C08:"+what)
			if in(x) {
				n++
			}
		}
		v.Assert(len(s) == n, "C08:"+what)
	}
	is(res, want, "the elements of the result")
	is(a, inA, "the receiver is unchanged")
	is(b, inB, "the argument is unchanged")
	for x := 0; x < 100; x++ {
		if inA(x) {
			res.Delete(x)
		} else {
			res.Add(x)
		}
	}
	is(a, inA, "the result shares nothing with the receiver")
	is(b, inB, "the result shares nothing with the argument")
	v.Reach("sets")
}

func BigSetsCases() int { return 6 }

// BigSnapshot: answers about graphs of many vertices are written to.
//
// verif prop=C09 panic=* mode=fork N=18 tier=quick reach=written
// verif prop=C09 panic=* mode=fork N=40 tier=thorough reach=written
func BigSnapshot() {
	n := v.Param("N")
	g, m := bigBuild(v.Case(), n)
	m.bigWarm(g)
	s := []int{0, 1, n / 2, n - 1}[v.Choose("s", 4)]
	x := bigName(s)
	ask := func(k int) map[string]int {
		switch k {
		case 0:
			a, _ := g.GetAncestors(x)
			return a
		case 1:
			a, _ := g.GetDescendants(x)
			return a
		case 2:
			a, _ := g.GetParents(x)
			return a
		case 3:
			a, _ := g.GetChildren(x)
			return a
		case 4:
			return g.GetVertices()
		case 5:
			return g.GetRoots()
		}
		return g.GetLeaves()
	}
	k := v.Choose("query", 7)
	switch v.Choose("then", 2) {
	case 0: // the caller writes to the answer
		a := ask(k)
		for i := 0; i < n; i++ {
			if _, ok := a[bigName(i)]; ok {
				delete(a, bigName(i))
			} else {
				a[bigName(i)] = -1
			}
		}
		m.check(g, "C09", "C09")
	case 1: // the graph changes later
		a := ask(k)
		before := map[string]int{}
		for i := 0; i < n; i++ {
			if y, ok := a[bigName(i)]; ok {
				before[bigName(i)] = y
			}
		}
		_ = g.DeleteVertex(bigName(n / 3))
		_ = g.DeleteEdge(bigName(0), bigName(1))
		_ = g.AddVertex(bigName(n), 1)
		_ = g.AddEdge(bigName(n), bigName(0))
		g.ReduceTransitively()
		for i := 0; i < n; i++ {
			y, ok := a[bigName(i)]
			z, was := before[bigName(i)]
			v.Assert(ok == was && y == z, "C09:an earlier answer does not change")
		}
		v.Assert(len(a) == len(before), "C09:an earlier answer does not change")
	}
	v.Reach("written")
}

func BigSnapshotCases() int { return bigShapes }
