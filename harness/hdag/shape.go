package hdag

import (
	"github.com/hexbee-net/etxe/pkg/dag"
	"github.com/hexbee-net/etxe/pkg/zzverif/v"
)

// shapes are larger graphs, as pairs of vertices.
var shapes = []string{
	"01122334455667",               // a chain
	"010203040506172737475767",     // one vertex, six between, one below them
	"01021213232434354546566757",   // each to its next two
	"010213142526374757",           // a tree that grows together again
	"0224461335570325",             // two chains with rungs
	"0405060714151617242526273435", // two layers
	"071727374757670102",           // many parents
	"01020304050607",               // many children
}

// larger builds shape k; one of its edges may be missing and one more may be there.
func larger(k int, edit bool) (*graph, *model) {
	g := dag.NewAcyclicGraph[string, int]()
	n := 8
	m := &model{n: n}
	for i := 0; i < n; i++ {
		m.val[i] = 10 + i
		m.pres[i] = true
		_ = g.AddVertex(names[i], m.val[i])
	}
	s := shapes[k]
	drop, x, y := -1, -1, -1
	if edit {
		if v.Bool("drop") {
			drop = v.Choose("which", len(s)/2)
		} else {
			x = v.Choose("from", n-1)
			y = x + 1 + v.Choose("to", n-1-x)
		}
	}
	for i := 0; i < len(s)/2; i++ {
		if i != drop {
			m.edge[s[2*i]-'0'][s[2*i+1]-'0'] = true
		}
	}
	if x >= 0 {
		m.edge[x][y] = true
	}
	for i := 0; i < n; i++ {
		for j := 0; j < n; j++ {
			if m.edge[i][j] {
				err := g.AddEdge(names[i], names[j])
				v.Assert(err == nil, "C01:an edge that closes no cycle is accepted")
			}
		}
	}
	return g, m
}

// Larger: graphs of eight vertices, any warmed answers, any operation with any arguments, all queries.
//
//verif prop=C01,C02,C03,C04,C05 mode=merge EDIT=0 STEPS=1 tier=quick reach=larger
//verif prop=C01,C02,C03,C04,C05 mode=merge EDIT=0 STEPS=2 tier=thorough reach=larger
func Larger() {
	g, m := larger(v.Case()/5, v.Param("EDIT") == 1)
	warm(g, m, "0")
	apply(g, m, v.Case()%5, 0)
	if v.Param("STEPS") > 1 {
		warm(g, m, "1")
		apply(g, m, -1, 1)
	}
	prop := "C05"
	if v.Case()%5 < 4 {
		prop = "C02"
	}
	checkReach(g, m, prop)
	checkAcyclic(g, m)
	if v.Case()%5 < 4 {
		prop = "C04"
	}
	checkStruct(g, m, prop)
	v.Reach("larger")
}

func LargerCases() int { return 5 * len(shapes) }

// LargerWalk: walks of these graphs, each in three orders of siblings.
//
//verif prop=C06 panic=C06 mode=fork EDIT=0 tier=quick reach=walked
//verif prop=C06 panic=C06 mode=fork EDIT=1 tier=thorough reach=walked
func LargerWalk() {
	g, m := larger(v.Case(), v.Param("EDIT") == 1)
	up := v.Bool("up")
	s := v.Choose("start", m.n)
	v.MapDir(v.Choose("dir", 3))
	d := m.dist(s, up)
	var got []string
	if up {
		got, _ = g.GetOrderedAncestors(names[s])
	} else {
		got, _ = g.GetOrderedDescendants(names[s])
	}
	checkWalk(m, d, got)
	v.Reach("walked")
}

func LargerWalkCases() int { return len(shapes) }
