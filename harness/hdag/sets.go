package hdag

import (
	"github.com/hexbee-net/etxe/pkg/dag"
	"github.com/hexbee-net/etxe/pkg/zzverif/v"
)

const maxU = 5

// anySet makes a set with any subset of the first n numbers (plus base), nil or built in either order.
func anySet(tag string, n int, null bool) (dag.Set[int], [maxU]bool) {
	var in [maxU]bool
	if null {
		return nil, in
	}
	s := make(dag.Set[int])
	for i := 0; i < n; i++ {
		in[i] = v.Bool(tag, i)
		if in[i] {
			s.Add(i)
		}
	}
	return s, in
}

func checkSet(s dag.Set[int], in [maxU]bool, what string) {
	n := 0
	for i := 0; i < maxU; i++ {
		v.Assert(v.Eq(s.Includes(i), in[i]), "C08:membership: "+what)
		x, ok := s[i]
		v.Assert(v.Eq(ok, in[i]), "C08:elements: "+what)
		v.Assert(implies(ok, x == i), "C08:an element is stored as itself: "+what)
		n += v.Num(in[i])
	}
	v.Assert(len(s) == n, "C08:number of elements: "+what)
}

// touch changes a set in every way.
func touch(s dag.Set[int]) {
	for i := 0; i < maxU; i++ {
		if i%2 == 0 {
			s.Add(i)
		} else {
			s.Delete(i)
		}
	}
	s.Add(77)
}

// Sets: intersection, difference, filter, copy and list of any two sets over a small universe.
//
//verif prop=C08 mode=merge N=4 tier=both
//verif prop=C08 mode=merge N=5 tier=thorough
func Sets() {
	n := v.Param("N")
	c := v.Case()
	op := c % 5
	nilA, nilB := c/5%2 == 1, c/10%2 == 1
	alias := c/20%2 == 1
	v.MapDir(c / 40)
	a, ia := anySet("a", n, nilA)
	b, ib := anySet("b", n, nilB)
	if alias {
		b, ib = a, ia
	}
	var res dag.Set[int]
	var want [maxU]bool
	switch op {
	case 0:
		res = a.Intersection(b)
		for i := range want {
			want[i] = v.And(ia[i], ib[i])
		}
	case 1:
		res = a.Difference(b)
		for i := range want {
			want[i] = v.And(ia[i], v.Not(ib[i]))
		}
	case 2:
		var keep [maxU]bool
		for i := 0; i < n; i++ {
			keep[i] = v.Bool("keep", i)
		}
		bad := false
		res = a.Filter(func(x int) bool {
			if x < 0 || x >= maxU {
				bad = true
				return false
			}
			return keep[x]
		})
		v.Assert(!bad, "C08:the predicate is asked about elements only")
		for i := range want {
			want[i] = v.And(ia[i], keep[i])
		}
	case 3:
		res = a.Copy()
		want = ia
	case 4:
		l := a.List()
		cnt := 0
		for i := range ia {
			cnt += v.Num(ia[i])
		}
		v.Assert(len(l) == cnt, "C08:a list has as many items as the set")
		for i := range ia {
			found := 0
			for _, x := range l {
				found += v.Num(x == i)
			}
			v.Assert(found == v.Num(ia[i]), "C08:a list has every element once")
		}
		for i := range l {
			l[i] = -5
		}
		checkSet(a, ia, "operand after list")
		v.Reach("list")
		return
	}
	checkSet(res, want, "result")
	checkSet(a, ia, "left operand")
	checkSet(b, ib, "right operand")
	// the result is independent of the operands, in both directions
	touch(res)
	checkSet(a, ia, "left operand after the result was changed")
	checkSet(b, ib, "right operand after the result was changed")
	v.Reach("op")
}

func SetsCases() int { return 120 }

// SetsIndependent: a result does not follow later changes of its operands.
//
//verif prop=C08 mode=merge N=4 tier=both
func SetsIndependent() {
	n := v.Param("N")
	op := v.Case() % 4
	nilB := v.Case()/4 == 1
	a, ia := anySet("a", n, false)
	b, ib := anySet("b", n, nilB)
	var res dag.Set[int]
	var want [maxU]bool
	switch op {
	case 0:
		res = a.Intersection(b)
	case 1:
		res = a.Difference(b)
	case 2:
		res = a.Filter(func(int) bool { return true })
	case 3:
		res = a.Copy()
	}
	for i := range want {
		switch op {
		case 0:
			want[i] = v.And(ia[i], ib[i])
		case 1:
			want[i] = v.And(ia[i], v.Not(ib[i]))
		default:
			want[i] = ia[i]
		}
	}
	touch(a)
	if !nilB {
		touch(b)
	}
	checkSet(res, want, "result after the operands were changed")
	v.Reach("independent")
}

func SetsIndependentCases() int { return 8 }

// SetsEdit: additions, deletions and membership, for any small number of edits with any arguments.
//
//verif prop=C08 mode=merge N=3 K=3 tier=both
//verif prop=C08 mode=merge N=4 K=5 tier=thorough
func SetsEdit() {
	n := v.Param("N")
	s, in := anySet("a", n, false)
	for k := 0; k < v.Param("K"); k++ {
		x := v.Choose("x", n+1, k)
		if v.Bool("del", k) {
			s.Delete(x)
			in[x] = false
		} else {
			s.Add(x)
			in[x] = true
		}
		v.Fence(0)
		checkSet(s, in, "after an edit")
	}
	v.Reach("edited")
}
