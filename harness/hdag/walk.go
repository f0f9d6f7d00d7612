package hdag

import (
	"github.com/hexbee-net/etxe/pkg/zzverif/v"
)

// dist gives the shortest distances from vertex s (along edges, or against them), 0 for unreachable ones.
func (m *model) dist(s int, up bool) (d [maxN]int) {
	cur := []int{s}
	for k := 1; len(cur) > 0; k++ {
		var nxt []int
		for _, x := range cur {
			for y := 0; y < m.n; y++ {
				e := m.edge[x][y]
				if up {
					e = m.edge[y][x]
				}
				if e && d[y] == 0 && y != s {
					d[y] = k
					nxt = append(nxt, y)
				}
			}
		}
		cur = nxt
	}
	return d
}

func index(s string) int {
	for i := range names {
		if names[i] == s {
			return i
		}
	}
	return -1
}

// concrete turns the edges into plain booleans on this path.
func (m *model) concrete() {
	for i := 0; i < m.n; i++ {
		for j := 0; j < m.n; j++ {
			if m.edge[i][j] {
				m.edge[i][j] = true
			} else {
				m.edge[i][j] = false
			}
		}
	}
}

// history applies extra operations so that the walked graph is not only freshly built.
func history(g *graph, m *model, k int) {
	for i := 0; i < k; i++ {
		apply(g, m, -1, i)
	}
	m.concrete()
}

func checkWalk(m *model, d [maxN]int, got []string) {
	want := 0
	for i := 0; i < m.n; i++ {
		if d[i] > 0 {
			want++
		}
	}
	seen := map[int]bool{}
	last := 0
	for _, s := range got {
		i := index(s)
		v.Assert(i >= 0 && i < m.n && d[i] > 0, "C06:a walk visits only reachable vertices")
		v.Assert(!seen[i], "C06:a walk visits no vertex twice")
		v.Assert(d[i] >= last, "C06:a walk visits in order of distance")
		seen[i] = true
		last = d[i]
	}
	v.Assert(len(got) == want, "C06:a walk visits every reachable vertex")
}

// Walk: a complete walk, and the ordered listing, for every sibling order and every schedule.
//
//verif prop=C06 panic=C06 mode=fork N=3 HIST=0 tier=both
//verif prop=C06 panic=C06 mode=fork N=4 HIST=0 tier=both
//verif prop=C06 panic=C06 mode=fork N=3 HIST=1 tier=both
//verif prop=C06 panic=C06 mode=fork N=5 HIST=0 tier=thorough secs=300
//verif prop=C06 panic=C06 mode=fork N=4 HIST=1 tier=thorough secs=300
func Walk() {
	n := v.Param("N")
	g, m := build(n, false)
	history(g, m, v.Param("HIST"))
	s := v.Case() / 4 % n
	if v.Case()/4 >= n {
		return
	}
	up := v.Case()%2 == 0
	d := m.dist(s, up)
	if !m.pres[s] {
		return
	}
	var got []string
	v.MapOrder(true)
	if v.Case()/2%2 == 0 {
		var ids chan string
		var err error
		if up {
			ids, _, err = g.AncestorsWalker(names[s])
		} else {
			ids, _, err = g.DescendantsWalker(names[s])
		}
		v.Assert(err == nil, "C06:a walk from a present vertex starts")
		for id := range ids {
			got = append(got, id)
		}
		v.MapOrder(false)
		checkWalk(m, d, got)
		v.Quiesce()
		v.Assert(v.Live() == 0, "C06:a completed walk leaves nothing running")
		v.Reach("walked")
		return
	}
	var err error
	if up {
		got, err = g.GetOrderedAncestors(names[s])
	} else {
		got, err = g.GetOrderedDescendants(names[s])
	}
	v.MapOrder(false)
	v.Assert(err == nil, "C06:the ordered listing of a present vertex succeeds")
	checkWalk(m, d, got)
	v.Reach("listed")
}

func WalkCases() int { return 4 * 5 }

// Stop: the consumer receives some vertices, then stops in one of several ways, at any moment.
//
//verif prop=C07 panic=C07 mode=fork N=3 tier=both runs=300
//verif prop=C07 panic=C07 mode=fork N=4 tier=both runs=300
//verif prop=C07 panic=C07 mode=fork N=5 tier=thorough runs=300 secs=600
func Stop() {
	n := v.Param("N")
	g, m := build(n, false)
	m.concrete()
	s := v.Case() / 2
	if s >= n {
		return
	}
	up := v.Case()%2 == 0
	d := m.dist(s, up)
	total := 0
	for i := 0; i < n; i++ {
		if d[i] > 0 {
			total++
		}
	}
	v.MapOrder(true)
	var ids chan string
	var signal chan bool
	if up {
		ids, signal, _ = g.AncestorsWalker(names[s])
	} else {
		ids, signal, _ = g.DescendantsWalker(names[s])
	}
	seen := map[string]bool{}
	recv := func() bool {
		id, ok := <-ids
		if !ok {
			return false
		}
		i := index(id)
		v.Assert(i >= 0 && i < n && d[i] > 0, "C07:a stopped walk delivers only reachable vertices")
		v.Assert(!seen[id], "C07:a stopped walk delivers no vertex twice")
		seen[id] = true
		return true
	}
	k := v.Choose("received", total+2)
	for i := 0; i < k; i++ {
		if !recv() {
			break
		}
	}
	how := v.Choose("how", 4)
	if how >= 1 {
		signal <- true
	}
	switch how {
	case 1: // stop receiving at once
	case 2: // take one more, if it comes
		recv()
	case 3: // drain
		for recv() {
		}
	case 0: // never stop: only a walk that is read to its end ends
		for recv() {
		}
	}
	v.Quiesce()
	v.Assert(v.Live() == 0, "C07:the walker goroutine ends after a stop")
	v.Reach("stopped")
}

func StopCases() int { return 10 }
