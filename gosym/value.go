package main

import (
	"fmt"
	"go/types"
	"strings"
)

// Value is one of: I, bool, *Term, float64, complex128, string, *SStr, Ptr, Slice, MapRef, ChanRef,
// *FuncV, Iface, Agg, Tuple, *RVal, RType, Opq, *Union, IterRef.
type Value any

type I uint64 // concrete integer, truncated to its width

type SStr struct{ b []Value } // string with at least one symbolic byte

type Ptr struct{ id, off int32 }

type Slice struct{ id, off, n, c int32 }

type MapRef struct{ id int32 }
type ChanRef struct{ id int32 }
type IterRef struct{ id int32 }

type FuncV struct {
	fn   *FnInfo
	free []Value
	nat  func(m *Machine, st *State, args []Value) Value // bound native
}

type Iface struct {
	t *TypeInfo
	v Value
}

type Agg []Value
type Tuple []Value

// Opq wraps an immutable native object (compiled regular expressions, ...).
type Opq struct {
	kind string
	v    any
}

type RType struct{ t *TypeInfo }

// RVal is a reflect.Value.
type RVal struct {
	t    *TypeInfo
	addr bool
	p    Ptr   // storage, when addr
	v    Value // register form, when !addr
	ro   bool
}

type Alt struct {
	g *Term
	v Value
}
type Union struct{ alts []Alt }

func mkStr(b []Value) Value {
	for _, x := range b {
		if _, ok := x.(*Term); ok {
			return &SStr{b}
		}
	}
	bs := make([]byte, len(b))
	for i, x := range b {
		bs[i] = byte(x.(I))
	}
	return string(bs)
}

func strLen(v Value) int {
	switch s := v.(type) {
	case string:
		return len(s)
	case *SStr:
		return len(s.b)
	}
	panic(fmt.Sprintf("strLen %T", v))
}

func strAt(v Value, i int) Value {
	switch s := v.(type) {
	case string:
		return I(s[i])
	case *SStr:
		return s.b[i]
	}
	panic("strAt")
}

func strBytes(v Value) []Value {
	switch s := v.(type) {
	case string:
		out := make([]Value, len(s))
		for i := 0; i < len(s); i++ {
			out[i] = I(s[i])
		}
		return out
	case *SStr:
		return s.b
	}
	panic("strBytes")
}

func strSub(v Value, lo, hi int) Value {
	switch s := v.(type) {
	case string:
		return s[lo:hi]
	case *SStr:
		return mkStr(s.b[lo:hi:hi])
	}
	panic("strSub")
}

func strCat(a, b Value) Value {
	x, ok1 := a.(string)
	y, ok2 := b.(string)
	if ok1 && ok2 {
		return x + y
	}
	if ok1 && x == "" {
		return b
	}
	if ok2 && y == "" {
		return a
	}
	p, q := strBytes(a), strBytes(b)
	out := make([]Value, 0, len(p)+len(q))
	out = append(out, p...)
	out = append(out, q...)
	return &SStr{out}
}

// boolean helpers over bool | *Term

func (m *Machine) bterm(v Value) *Term {
	switch x := v.(type) {
	case bool:
		return m.tt.Bool(x)
	case *Term:
		return x
	}
	panic(fmt.Sprintf("bterm %T", v))
}

func bval(t *Term) Value {
	if t.isConst() && t.w == 0 {
		return t.k != 0
	}
	return t
}

func (m *Machine) iterm(v Value, w uint8) *Term {
	switch x := v.(type) {
	case I:
		return m.tt.Const(w, uint64(x))
	case *Term:
		return x
	}
	panic(fmt.Sprintf("iterm %T", v))
}

func ival(t *Term) Value {
	if t.isConst() {
		return I(t.k)
	}
	return t
}

func (m *Machine) vnot(a Value) Value {
	if b, ok := a.(bool); ok {
		return !b
	}
	return bval(m.tt.Not(a.(*Term)))
}
func (m *Machine) vand(a, b Value) Value {
	if x, ok := a.(bool); ok {
		if !x {
			return false
		}
		return b
	}
	if x, ok := b.(bool); ok {
		if !x {
			return false
		}
		return a
	}
	return bval(m.tt.And(a.(*Term), b.(*Term)))
}
func (m *Machine) vor(a, b Value) Value { return m.vnot(m.vand(m.vnot(a), m.vnot(b))) }

// equal compares two register values of (static) type ti; result bool | *Term.
func (m *Machine) equal(st *State, ti *TypeInfo, a, b Value) Value {
	if ua, ok := a.(*Union); ok {
		var or []*Term
		for _, x := range ua.alts {
			e := m.equal(st, ti, x.v, b)
			or = append(or, m.tt.And(x.g, m.bterm(e)))
		}
		return bval(m.tt.Or(or...))
	}
	if _, ok := b.(*Union); ok {
		return m.equal(st, ti, b, a)
	}
	switch x := a.(type) {
	case I:
		if y, ok := b.(I); ok {
			return x == y
		}
		y := b.(*Term)
		return bval(m.tt.Eq(m.tt.Const(y.w, uint64(x)), y))
	case bool:
		if y, ok := b.(bool); ok {
			return x == y
		}
		return bval(m.tt.Eq(b.(*Term), m.tt.Bool(x)))
	case *Term:
		if x.w == 0 {
			return bval(m.tt.Eq(x, m.bterm(b)))
		}
		return bval(m.tt.Eq(x, m.iterm(b, x.w)))
	case string:
		if y, ok := b.(string); ok {
			return x == y
		}
		return m.strEq(a, b)
	case *SStr:
		return m.strEq(a, b)
	case Agg:
		y := b.(Agg)
		var res Value = true
		if ti != nil && ti.fields != nil {
			for i, f := range ti.fields {
				if !f.agg {
					res = m.vand(res, m.equal(st, f, x[ti.offs[i]], y[ti.offs[i]]))
				} else {
					res = m.vand(res, m.equal(st, f, x[ti.offs[i]:ti.offs[i]+f.size], y[ti.offs[i]:ti.offs[i]+f.size]))
				}
				if res == false {
					return false
				}
			}
			return res
		}
		for i := range x {
			res = m.vand(res, m.equal(st, nil, x[i], y[i]))
			if res == false {
				return false
			}
		}
		return res
	case Iface:
		y, ok := b.(Iface)
		if !ok {
			panic(fmt.Sprintf("iface eq %T", b))
		}
		if x.t != y.t {
			return false
		}
		if x.t == nil {
			return true
		}
		switch x.t.U.(type) {
		case *types.Slice, *types.Map, *types.Signature:
			panic(goPanic{m.rtErr("comparing uncomparable type " + x.t.name)})
		}
		return m.equal(st, x.t, x.v, y.v)
	case *FuncV:
		y, _ := b.(*FuncV)
		return x == y
	case Slice:
		y := b.(Slice)
		return x == y
	case *RVal:
		return a == b
	case nil:
		return b == nil
	default:
		return a == b
	}
}

func (m *Machine) strEq(a, b Value) Value {
	if strLen(a) != strLen(b) {
		return false
	}
	x, y := strBytes(a), strBytes(b)
	var conj []*Term
	for i := range x {
		e := m.equal(nil, nil, x[i], y[i])
		if e == false {
			return false
		}
		if t, ok := e.(*Term); ok {
			conj = append(conj, t)
		}
	}
	return bval(m.tt.And(conj...))
}

// strLess: a < b (or a <= b)
func (m *Machine) strLess(a, b Value, orEq bool) Value {
	x, y := strBytes(a), strBytes(b)
	n := min(len(x), len(y))
	var res Value
	if orEq {
		res = len(x) <= len(y)
	} else {
		res = len(x) < len(y)
	}
	for i := n - 1; i >= 0; i-- {
		if p, ok := x[i].(I); ok {
			if q, ok := y[i].(I); ok {
				if p != q {
					res = p < q
				}
				continue
			}
		}
		p, q := m.iterm(x[i], 8), m.iterm(y[i], 8)
		res = bval(m.tt.Or(m.tt.Ult(p, q), m.tt.And(m.tt.Eq(p, q), m.bterm(res))))
	}
	return res
}

// concrete map-key normal form
func normKey(v Value) (any, bool) {
	switch x := v.(type) {
	case I, bool, string, Ptr, MapRef, ChanRef, float64, RType, complex128:
		return x, true
	case *FuncV:
		return x, true
	case Iface:
		if x.t == nil {
			return Iface{}, true
		}
		k, ok := normKey(x.v)
		if !ok {
			return nil, false
		}
		return Iface{x.t, k}, true
	case Agg:
		var sb strings.Builder
		for _, e := range x {
			k, ok := normKey(e)
			if !ok {
				return nil, false
			}
			fmt.Fprintf(&sb, "%T:%v|", k, k)
		}
		return "agg:" + sb.String(), true
	case Opq:
		return x, true
	case *RVal:
		return x, true
	}
	return nil, false
}

func (m *Machine) showVal(v Value) string {
	switch x := v.(type) {
	case *Term:
		return m.tt.show(x, 3)
	case *SStr:
		var sb strings.Builder
		sb.WriteByte('"')
		for _, b := range x.b {
			if c, ok := b.(I); ok {
				sb.WriteByte(byte(c))
			} else {
				sb.WriteString("{" + m.tt.show(b.(*Term), 2) + "}")
			}
		}
		sb.WriteByte('"')
		return sb.String()
	case string:
		return fmt.Sprintf("%q", x)
	case Iface:
		if x.t == nil {
			return "nil"
		}
		return x.t.name + "(" + m.showVal(x.v) + ")"
	case *Union:
		s := "union["
		for _, a := range x.alts {
			s += m.showVal(a.v) + ";"
		}
		return s + "]"
	}
	return fmt.Sprintf("%T%v", v, v)
}
