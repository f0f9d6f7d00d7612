package main

import (
	"fmt"
	"go/types"
	"reflect"
)

// Model of package reflect over the engine's values.

func (p *Program) typeOf(pkg, name string) *TypeInfo {
	for _, pk := range p.prog.AllPackages() {
		if pk.Pkg.Path() == pkg {
			if o := pk.Pkg.Scope().Lookup(name); o != nil {
				return tinfo(o.Type())
			}
		}
	}
	return nil
}

func (m *Machine) rtypeTI() *TypeInfo {
	if m.p.rtypeTI == nil {
		m.p.rtypeTI = tinfo(types.NewPointer(m.p.typeOf("reflect", "rtype").T))
	}
	return m.p.rtypeTI
}

func (m *Machine) mkRType(ti *TypeInfo) Value {
	if ti == nil {
		return Iface{}
	}
	return Iface{m.rtypeTI(), RType{ti}}
}

func kindOf(ti *TypeInfo) reflect.Kind {
	if ti.opaque == "reflect.Value" {
		return reflect.Struct
	}
	switch u := ti.U.(type) {
	case *types.Basic:
		switch u.Kind() {
		case types.Bool:
			return reflect.Bool
		case types.Int:
			return reflect.Int
		case types.Int8:
			return reflect.Int8
		case types.Int16:
			return reflect.Int16
		case types.Int32:
			return reflect.Int32
		case types.Int64:
			return reflect.Int64
		case types.Uint:
			return reflect.Uint
		case types.Uint8:
			return reflect.Uint8
		case types.Uint16:
			return reflect.Uint16
		case types.Uint32:
			return reflect.Uint32
		case types.Uint64:
			return reflect.Uint64
		case types.Uintptr:
			return reflect.Uintptr
		case types.Float32:
			return reflect.Float32
		case types.Float64:
			return reflect.Float64
		case types.Complex64:
			return reflect.Complex64
		case types.Complex128:
			return reflect.Complex128
		case types.String:
			return reflect.String
		case types.UnsafePointer:
			return reflect.UnsafePointer
		}
	case *types.Pointer:
		return reflect.Ptr
	case *types.Slice:
		return reflect.Slice
	case *types.Array:
		return reflect.Array
	case *types.Map:
		return reflect.Map
	case *types.Chan:
		return reflect.Chan
	case *types.Signature:
		return reflect.Func
	case *types.Interface:
		return reflect.Interface
	case *types.Struct:
		return reflect.Struct
	}
	return reflect.Invalid
}

func typeString(ti *TypeInfo) string {
	return types.TypeString(ti.T, func(p *types.Package) string { return p.Name() })
}

func typeName(ti *TypeInfo) string {
	switch t := types.Unalias(ti.T).(type) {
	case *types.Named:
		s := t.Obj().Name()
		if ta := t.TypeArgs(); ta != nil && ta.Len() > 0 {
			s += "["
			for i := 0; i < ta.Len(); i++ {
				if i > 0 {
					s += ","
				}
				s += types.TypeString(ta.At(i), nil)
			}
			s += "]"
		}
		return s
	case *types.Basic:
		return t.Name()
	}
	return ""
}

func (m *Machine) rty(st *State, v Value) *TypeInfo {
	if u, ok := v.(*Union); ok {
		v = m.pick(st, u)
	}
	switch x := v.(type) {
	case RType:
		return x.t
	case Iface:
		if r, ok := x.v.(RType); ok {
			return r.t
		}
	case Ptr:
		if x.id == 0 {
			m.nilDeref()
		}
	}
	m.unsupported(fmt.Sprintf("reflect.Type operand %T", v))
	return nil
}

func (m *Machine) mkStructVal(ti *TypeInfo, fields map[string]Value) Value {
	out := append(Agg(nil), ti.zero...)
	su := ti.U.(*types.Struct)
	for i := 0; i < su.NumFields(); i++ {
		if v, ok := fields[su.Field(i).Name()]; ok {
			if a, ok := v.(Agg); ok && ti.fields[i].agg {
				copy(out[ti.offs[i]:], a)
			} else {
				out[ti.offs[i]] = v
			}
		}
	}
	return out
}

func (m *Machine) structField(st *State, ti *TypeInfo, i int, index []int) Value {
	su := ti.U.(*types.Struct)
	f := su.Field(i)
	pkg := ""
	if !f.Exported() && f.Pkg() != nil {
		pkg = f.Pkg().Path()
	}
	idx := make([]Value, len(index))
	for k, x := range index {
		idx[k] = I(uint64(x))
	}
	intTI := tinfo(types.Typ[types.Int])
	id := m.alloc(st, idx, intTI)
	return m.mkStructVal(m.p.typeOf("reflect", "StructField"), map[string]Value{
		"Name": f.Name(), "PkgPath": pkg, "Type": m.mkRType(tinfo(f.Type())), "Tag": su.Tag(i),
		"Offset": I(uint64(0)), "Index": Slice{id, 0, int32(len(idx)), int32(len(idx))}, "Anonymous": f.Embedded(),
	})
}

// findField resolves a promoted field by name (breadth first).
func findField(ti *TypeInfo, name string) []int {
	obj, index, _ := types.LookupFieldOrMethod(ti.T, true, nil, name)
	if v, ok := obj.(*types.Var); ok && v.IsField() {
		return index
	}
	if su, ok := ti.U.(*types.Struct); ok {
		for i := 0; i < su.NumFields(); i++ {
			if su.Field(i).Name() == name {
				return []int{i}
			}
		}
	}
	return nil
}

func fieldTypeByIndex(ti *TypeInfo, index []int) (*TypeInfo, int) {
	cur := ti
	for k, i := range index {
		if k == len(index)-1 {
			return cur, i
		}
		cur = tinfo(cur.U.(*types.Struct).Field(i).Type())
		if p, ok := cur.U.(*types.Pointer); ok {
			cur = tinfo(p.Elem())
		}
	}
	return nil, 0
}

func (m *Machine) rv(st *State, v Value) *RVal {
	if u, ok := v.(*Union); ok {
		v = m.pick(st, u)
	}
	r, ok := v.(*RVal)
	if !ok {
		m.unsupported(fmt.Sprintf("reflect.Value operand %T", v))
	}
	return r
}

func (m *Machine) rload(st *State, r *RVal) Value {
	if r.addr {
		v := m.load(st, r.p, r.t)
		if u, ok := v.(*Union); ok {
			v = m.pick(st, u)
		}
		return v
	}
	if u, ok := r.v.(*Union); ok {
		return m.pick(st, u)
	}
	return r.v
}

func (m *Machine) rpanic(msg string) { panic(goPanic{m.rtErr2("reflect: " + msg)}) }

func (m *Machine) need(r *RVal, what string) *RVal {
	if r == nil {
		m.rpanic("call of reflect.Value." + what + " on zero Value")
	}
	return r
}

func (m *Machine) intSlice(st *State, v Value) []int {
	s := m.rslice(st, v)
	out := make([]int, s.n)
	for i := range out {
		out[i] = m.concInt(st, m.getObj(st, s.id).slots[int(s.off)+i])
	}
	return out
}

func (m *Machine) rfield(st *State, r *RVal, i int) *RVal {
	ft := r.t.fields[i]
	su := r.t.U.(*types.Struct)
	ro := r.ro || !su.Field(i).Exported()
	if su.Field(i).Embedded() && !su.Field(i).Exported() {
		ro = r.ro || true
	}
	if r.addr {
		return &RVal{t: ft, addr: true, p: Ptr{r.p.id, r.p.off + int32(r.t.offs[i])}, ro: ro}
	}
	a := m.rload(st, r).(Agg)
	if ft.agg {
		return &RVal{t: ft, v: a[r.t.offs[i] : r.t.offs[i]+ft.size : r.t.offs[i]+ft.size], ro: ro}
	}
	return &RVal{t: ft, v: a[r.t.offs[i]], ro: ro}
}

func (m *Machine) rIface(st *State, r *RVal) Value {
	v := m.rload(st, r)
	if isIface(r.t) {
		return v
	}
	return Iface{r.t, v}
}

func (m *Machine) valueOf(v Iface) Value {
	if v.t == nil {
		return (*RVal)(nil)
	}
	return &RVal{t: v.t, v: v.v}
}

func (m *Machine) asIface(st *State, v Value) Iface {
	if u, ok := v.(*Union); ok {
		v = m.pick(st, u)
	}
	return v.(Iface)
}

func (m *Machine) relem(st *State, r *RVal) Value {
	switch kindOf(r.t) {
	case reflect.Ptr:
		p := m.rload(st, r)
		q, ok := p.(Ptr)
		if !ok {
			m.unsupported(fmt.Sprintf("reflect Elem of %T", p))
		}
		if q.id == 0 {
			return (*RVal)(nil)
		}
		return &RVal{t: tinfo(r.t.U.(*types.Pointer).Elem()), addr: true, p: q, ro: r.ro}
	case reflect.Interface:
		x := m.rload(st, r).(Iface)
		if x.t == nil {
			return (*RVal)(nil)
		}
		return &RVal{t: x.t, v: x.v, ro: r.ro}
	}
	m.rpanic("Elem of " + r.t.name)
	return nil
}

// isZeroV: symbolic-aware zero test of a register value.
func (m *Machine) isZeroV(st *State, ti *TypeInfo, v Value) Value {
	if u, ok := v.(*Union); ok {
		v = m.pick(st, u)
	}
	switch x := v.(type) {
	case Agg:
		var r Value = true
		for i := range x {
			e := x[i]
			var z Value
			switch y := e.(type) {
			case I:
				z = y == 0
			case bool:
				z = !y
			case *Term:
				if y.w == 0 {
					z = m.vnot(y)
				} else {
					z = bval(m.tt.Eq(y, m.tt.Const(y.w, 0)))
				}
			default:
				z = m.isZeroV(st, nil, e)
			}
			r = m.vand(r, z)
		}
		return r
	case I:
		return x == 0
	case bool:
		return !x
	case *Term:
		if x.w == 0 {
			return m.vnot(x)
		}
		return bval(m.tt.Eq(x, m.tt.Const(x.w, 0)))
	case string:
		return x == ""
	case *SStr:
		return len(x.b) == 0
	case Ptr:
		return x.id == 0
	case Slice:
		return x.id == 0
	case MapRef:
		return x.id == 0
	case ChanRef:
		return x.id == 0
	case *FuncV:
		return x == nil
	case Iface:
		return x.t == nil
	case float64:
		return x == 0
	case RType:
		return false
	case *RVal:
		return x == nil
	case Opq:
		return false
	}
	m.unsupported(fmt.Sprintf("IsZero of %T", v))
	return nil
}

func (m *Machine) convTo(st *State, r *RVal, to *TypeInfo) *RVal {
	v := m.rload(st, r)
	if types.Identical(r.t.U, to.U) {
		return &RVal{t: to, v: v}
	}
	if isIface(to) {
		if isIface(r.t) {
			return &RVal{t: to, v: v}
		}
		return &RVal{t: to, v: Iface{r.t, v}}
	}
	in := &inst{t1: r.t, ti: to}
	return &RVal{t: to, v: m.convert(st, in, v)}
}

// deepEqual is reflect.DeepEqual over engine values; decides symbolic scalars by forking.
func (m *Machine) deepEqual(st *State, ti *TypeInfo, a, b Value, depth int) Value {
	if depth > 200 {
		m.unsupported("DeepEqual depth")
	}
	if u, ok := a.(*Union); ok {
		a = m.pick(st, u)
	}
	if u, ok := b.(*Union); ok {
		b = m.pick(st, u)
	}
	switch kindOf(ti) {
	case reflect.Ptr:
		p, ok1 := a.(Ptr)
		q, ok2 := b.(Ptr)
		if !ok1 || !ok2 {
			return a == b
		}
		if p == q {
			return true
		}
		if p.id == 0 || q.id == 0 {
			return false
		}
		e := tinfo(ti.U.(*types.Pointer).Elem())
		return m.deepEqual(st, e, m.load(st, p, e), m.load(st, q, e), depth+1)
	case reflect.Slice:
		s, t := a.(Slice), b.(Slice)
		if (s.id == 0) != (t.id == 0) || s.n != t.n {
			return false
		}
		e := ti.elem
		var r Value = true
		for i := 0; i < int(s.n); i++ {
			x := m.load(st, Ptr{s.id, s.off + int32(i*e.size)}, e)
			y := m.load(st, Ptr{t.id, t.off + int32(i*e.size)}, e)
			r = m.vand(r, m.deepEqual(st, e, x, y, depth+1))
			if r == false {
				return false
			}
		}
		return r
	case reflect.Interface:
		x, y := a.(Iface), b.(Iface)
		if x.t != y.t {
			return false
		}
		if x.t == nil {
			return true
		}
		return m.deepEqual(st, x.t, x.v, y.v, depth+1)
	case reflect.Struct, reflect.Array:
		if ti.opaque != "" {
			return a == b
		}
		x, y := a.(Agg), b.(Agg)
		var r Value = true
		n := len(ti.fields)
		if ti.fields == nil {
			n = ti.n
		}
		for i := 0; i < n; i++ {
			var f *TypeInfo
			var o int
			if ti.fields != nil {
				f, o = ti.fields[i], ti.offs[i]
			} else {
				f, o = ti.elem, i*ti.elem.size
			}
			var p, q Value
			if f.agg {
				p, q = x[o:o+f.size], y[o:o+f.size]
			} else {
				p, q = x[o], y[o]
			}
			r = m.vand(r, m.deepEqual(st, f, p, q, depth+1))
			if r == false {
				return false
			}
		}
		return r
	case reflect.Map:
		p, q := a.(MapRef), b.(MapRef)
		if p == q {
			return true
		}
		if p.id == 0 || q.id == 0 {
			return false
		}
		x, y := st.obj(p.id).mp, st.obj(q.id).mp
		if !m.decide(st, m.equal(st, nil, m.mapLen(st, x), m.mapLen(st, y))) {
			return false
		}
		var r Value = true
		for i := range x.ents {
			if !m.decide(st, x.ents[i].present) {
				continue
			}
			v, ok := m.mapGet(st, y, x.ents[i].key)
			if !m.decide(st, ok) {
				return false
			}
			r = m.vand(r, m.deepEqual(st, ti.elem, x.ents[i].val, v, depth+1))
		}
		return r
	case reflect.Func:
		return m.vand(m.isZeroV(st, nil, a), m.isZeroV(st, nil, b))
	}
	return m.equal(st, ti, a, b)
}

func init() {
	N := func(name string, f nativeFn) { natives[name] = f }
	bv := func(b bool) Value { return b }
	iv := func(i int) Value { return I(uint64(int64(i))) }

	// ---- reflect.Type (methods of *reflect.rtype)
	T := func(name string, f func(m *Machine, st *State, ti *TypeInfo, args []Value) Value) {
		N("(*reflect.rtype)."+name, func(m *Machine, st *State, fi *FnInfo, args []Value) Value {
			return f(m, st, m.rty(st, args[0]), args[1:])
		})
	}
	T("Kind", func(m *Machine, st *State, ti *TypeInfo, a []Value) Value { return I(kindOf(ti)) })
	T("String", func(m *Machine, st *State, ti *TypeInfo, a []Value) Value { return typeString(ti) })
	T("Name", func(m *Machine, st *State, ti *TypeInfo, a []Value) Value { return typeName(ti) })
	T("PkgPath", func(m *Machine, st *State, ti *TypeInfo, a []Value) Value {
		if n, ok := types.Unalias(ti.T).(*types.Named); ok && n.Obj().Pkg() != nil {
			return n.Obj().Pkg().Path()
		}
		return ""
	})
	T("Elem", func(m *Machine, st *State, ti *TypeInfo, a []Value) Value {
		switch u := ti.U.(type) {
		case *types.Pointer:
			return m.mkRType(tinfo(u.Elem()))
		case *types.Slice, *types.Array, *types.Map, *types.Chan:
			return m.mkRType(ti.elem)
		}
		m.rpanic("Elem of invalid type " + ti.name)
		return nil
	})
	T("Key", func(m *Machine, st *State, ti *TypeInfo, a []Value) Value { return m.mkRType(ti.key) })
	T("Len", func(m *Machine, st *State, ti *TypeInfo, a []Value) Value { return iv(ti.n) })
	T("NumField", func(m *Machine, st *State, ti *TypeInfo, a []Value) Value {
		return iv(ti.U.(*types.Struct).NumFields())
	})
	T("NumMethod", func(m *Machine, st *State, ti *TypeInfo, a []Value) Value {
		if it, ok := ti.U.(*types.Interface); ok {
			return iv(it.NumMethods())
		}
		ms := m.p.prog.MethodSets.MethodSet(ti.T)
		n := 0
		for i := 0; i < ms.Len(); i++ {
			if ms.At(i).Obj().Exported() {
				n++
			}
		}
		return iv(n)
	})
	T("Field", func(m *Machine, st *State, ti *TypeInfo, a []Value) Value {
		i := m.concInt(st, a[0])
		return m.structField(st, ti, i, []int{i})
	})
	T("FieldByIndex", func(m *Machine, st *State, ti *TypeInfo, a []Value) Value {
		idx := m.intSlice(st, a[0])
		t, i := fieldTypeByIndex(ti, idx)
		return m.structField(st, t, i, []int{i})
	})
	T("FieldByName", func(m *Machine, st *State, ti *TypeInfo, a []Value) Value {
		idx := findField(ti, m.concStr(st, a[0]))
		if idx == nil {
			return Tuple{m.p.typeOf("reflect", "StructField").zeroValue(), false}
		}
		t, i := fieldTypeByIndex(ti, idx)
		return Tuple{m.structField(st, t, i, idx), true}
	})
	T("Implements", func(m *Machine, st *State, ti *TypeInfo, a []Value) Value {
		return bv(m.implements(ti, m.rty(st, a[0])))
	})
	T("AssignableTo", func(m *Machine, st *State, ti *TypeInfo, a []Value) Value {
		return bv(types.AssignableTo(ti.T, m.rty(st, a[0]).T))
	})
	T("ConvertibleTo", func(m *Machine, st *State, ti *TypeInfo, a []Value) Value {
		return bv(types.ConvertibleTo(ti.T, m.rty(st, a[0]).T))
	})
	T("Comparable", func(m *Machine, st *State, ti *TypeInfo, a []Value) Value { return bv(types.Comparable(ti.T)) })
	T("Size", func(m *Machine, st *State, ti *TypeInfo, a []Value) Value { return I(uint64(goSize(ti))) })
	T("Bits", func(m *Machine, st *State, ti *TypeInfo, a []Value) Value { return iv(int(goSize(ti)) * 8) })

	N("reflect.TypeOf", func(m *Machine, st *State, fi *FnInfo, a []Value) Value {
		return m.mkRType(m.asIface(st, a[0]).t)
	})
	natives["internal/reflectlite.TypeOf"] = natives["reflect.TypeOf"]
	N("reflect.ValueOf", func(m *Machine, st *State, fi *FnInfo, a []Value) Value { return m.valueOf(m.asIface(st, a[0])) })
	natives["internal/reflectlite.ValueOf"] = natives["reflect.ValueOf"]
	ptrTo := func(m *Machine, st *State, fi *FnInfo, a []Value) Value {
		return m.mkRType(tinfo(types.NewPointer(m.rty(st, a[0]).T)))
	}
	N("reflect.PtrTo", ptrTo)
	N("reflect.PointerTo", ptrTo)
	N("reflect.SliceOf", func(m *Machine, st *State, fi *FnInfo, a []Value) Value {
		return m.mkRType(tinfo(types.NewSlice(m.rty(st, a[0]).T)))
	})
	N("reflect.New", func(m *Machine, st *State, fi *FnInfo, a []Value) Value {
		ti := m.rty(st, a[0])
		id := m.allocZero(st, ti, 1)
		return &RVal{t: tinfo(types.NewPointer(ti.T)), v: Ptr{id, 0}}
	})
	N("reflect.Zero", func(m *Machine, st *State, fi *FnInfo, a []Value) Value {
		ti := m.rty(st, a[0])
		return &RVal{t: ti, v: ti.zeroValue()}
	})
	N("reflect.Indirect", func(m *Machine, st *State, fi *FnInfo, a []Value) Value {
		r := m.rv(st, a[0])
		if r == nil || kindOf(r.t) != reflect.Ptr {
			return r
		}
		return m.relem(st, r)
	})
	N("reflect.MakeSlice", func(m *Machine, st *State, fi *FnInfo, a []Value) Value {
		ti := m.rty(st, a[0])
		n, c := m.concInt(st, a[1]), m.concInt(st, a[2])
		id := m.allocZero(st, ti.elem, c)
		return &RVal{t: ti, v: Slice{id, 0, int32(n), int32(c)}}
	})
	N("reflect.MakeMap", func(m *Machine, st *State, fi *FnInfo, a []Value) Value {
		ti := m.rty(st, a[0])
		return &RVal{t: ti, v: m.makeMap(st, ti)}
	})
	N("reflect.DeepEqual", func(m *Machine, st *State, fi *FnInfo, a []Value) Value {
		x, y := m.asIface(st, a[0]), m.asIface(st, a[1])
		if x.t != y.t {
			return false
		}
		if x.t == nil {
			return true
		}
		return m.deepEqual(st, x.t, x.v, y.v, 0)
	})
	N("reflect.Append", func(m *Machine, st *State, fi *FnInfo, a []Value) Value {
		r := m.need(m.rv(st, a[0]), "Append")
		more := m.rslice(st, a[1])
		s := m.rslice(st, m.rload(st, r))
		e := r.t.elem
		var flat []Value
		for i := 0; i < int(more.n); i++ {
			x := m.rv(st, m.getObj(st, more.id).slots[int(more.off)+i])
			m.need(x, "Append")
			if x.t != e {
				if !types.AssignableTo(x.t.T, e.T) {
					m.rpanic("value of type " + x.t.name + " is not assignable to type " + e.name)
				}
			}
			v := m.rload(st, x)
			if isIface(e) && !isIface(x.t) {
				v = Iface{x.t, v}
			}
			if ag, ok := v.(Agg); ok && e.agg {
				flat = append(flat, ag...)
			} else {
				flat = append(flat, v)
			}
		}
		id := m.alloc(st, flat, e)
		ns := m.appendB(st, r.t, s, Slice{id, 0, more.n, more.n})
		return &RVal{t: r.t, v: ns}
	})

	// ---- reflect.Value
	V := func(name string, f func(m *Machine, st *State, r *RVal, args []Value) Value) {
		g := func(m *Machine, st *State, fi *FnInfo, args []Value) Value {
			return f(m, st, m.rv(st, args[0]), args[1:])
		}
		N("(reflect.Value)."+name, g)
		N("(internal/reflectlite.Value)."+name, g)
	}
	V("Kind", func(m *Machine, st *State, r *RVal, a []Value) Value {
		if r == nil {
			return I(0)
		}
		return I(kindOf(r.t))
	})
	V("IsValid", func(m *Machine, st *State, r *RVal, a []Value) Value { return bv(r != nil) })
	V("Type", func(m *Machine, st *State, r *RVal, a []Value) Value { return m.mkRType(m.need(r, "Type").t) })
	V("CanAddr", func(m *Machine, st *State, r *RVal, a []Value) Value { return bv(r != nil && r.addr) })
	V("CanSet", func(m *Machine, st *State, r *RVal, a []Value) Value { return bv(r != nil && r.addr && !r.ro) })
	V("CanInterface", func(m *Machine, st *State, r *RVal, a []Value) Value { return bv(!m.need(r, "CanInterface").ro) })
	V("Elem", func(m *Machine, st *State, r *RVal, a []Value) Value { return m.relem(st, m.need(r, "Elem")) })
	V("NumField", func(m *Machine, st *State, r *RVal, a []Value) Value {
		return iv(m.need(r, "NumField").t.U.(*types.Struct).NumFields())
	})
	V("NumMethod", func(m *Machine, st *State, r *RVal, a []Value) Value {
		return natives["(*reflect.rtype).NumMethod"](m, st, nil, []Value{RType{m.need(r, "NumMethod").t}})
	})
	V("Field", func(m *Machine, st *State, r *RVal, a []Value) Value {
		return m.rfield(st, m.need(r, "Field"), m.concInt(st, a[0]))
	})
	byIndex := func(m *Machine, st *State, r *RVal, idx []int) Value {
		for k, i := range idx {
			if k > 0 && kindOf(r.t) == reflect.Ptr {
				e := m.relem(st, r).(*RVal)
				if e == nil {
					m.rpanic("indirection through nil pointer to embedded struct")
				}
				r = e
			}
			r = m.rfield(st, r, i)
		}
		return r
	}
	V("FieldByIndex", func(m *Machine, st *State, r *RVal, a []Value) Value {
		return byIndex(m, st, m.need(r, "FieldByIndex"), m.intSlice(st, a[0]))
	})
	V("FieldByName", func(m *Machine, st *State, r *RVal, a []Value) Value {
		idx := findField(m.need(r, "FieldByName").t, m.concStr(st, a[0]))
		if idx == nil {
			return (*RVal)(nil)
		}
		return byIndex(m, st, r, idx)
	})
	V("Addr", func(m *Machine, st *State, r *RVal, a []Value) Value {
		if !m.need(r, "Addr").addr {
			m.rpanic("Value.Addr of unaddressable value")
		}
		return &RVal{t: tinfo(types.NewPointer(r.t.T)), v: r.p, ro: r.ro}
	})
	V("Interface", func(m *Machine, st *State, r *RVal, a []Value) Value {
		if m.need(r, "Interface").ro {
			m.rpanic("Value.Interface: cannot return value obtained from unexported field or method")
		}
		return m.rIface(st, r)
	})
	V("IsNil", func(m *Machine, st *State, r *RVal, a []Value) Value {
		m.need(r, "IsNil")
		switch kindOf(r.t) {
		case reflect.Ptr, reflect.Slice, reflect.Map, reflect.Chan, reflect.Func, reflect.Interface, reflect.UnsafePointer:
			return m.isZeroV(st, r.t, m.rload(st, r))
		}
		m.rpanic("call of reflect.Value.IsNil on " + kindOf(r.t).String() + " Value")
		return nil
	})
	V("IsZero", func(m *Machine, st *State, r *RVal, a []Value) Value {
		m.need(r, "IsZero")
		return m.isZeroV(st, r.t, m.rload(st, r))
	})
	V("Len", func(m *Machine, st *State, r *RVal, a []Value) Value {
		switch x := m.rload(st, m.need(r, "Len")).(type) {
		case Slice:
			return I(x.n)
		case string, *SStr:
			return iv(strLen(x))
		case MapRef:
			if x.id == 0 {
				return I(0)
			}
			return m.mapLen(st, st.obj(x.id).mp)
		case Agg:
			return iv(r.t.n)
		}
		m.rpanic("Len")
		return nil
	})
	V("Cap", func(m *Machine, st *State, r *RVal, a []Value) Value {
		return I(m.rslice(st, m.rload(st, m.need(r, "Cap"))).c)
	})
	V("Index", func(m *Machine, st *State, r *RVal, a []Value) Value {
		i := m.concInt(st, a[0])
		switch x := m.rload(st, m.need(r, "Index")).(type) {
		case Slice:
			if i < 0 || i >= int(x.n) {
				m.rpanic("slice index out of range")
			}
			return &RVal{t: r.t.elem, addr: true, p: Ptr{x.id, x.off + int32(i*r.t.elem.size)}, ro: r.ro}
		case string, *SStr:
			return &RVal{t: tinfo(types.Typ[types.Uint8]), v: strAt(x, i)}
		case Agg:
			e := r.t.elem
			if r.addr {
				return &RVal{t: e, addr: true, p: Ptr{r.p.id, r.p.off + int32(i*e.size)}, ro: r.ro}
			}
			if e.agg {
				return &RVal{t: e, v: x[i*e.size : (i+1)*e.size]}
			}
			return &RVal{t: e, v: x[i]}
		}
		m.rpanic("Index")
		return nil
	})
	set := func(m *Machine, st *State, r, x *RVal) {
		if !m.need(r, "Set").addr {
			m.rpanic("Set using unaddressable value")
		}
		if r.ro {
			m.rpanic("Set using value obtained using unexported field")
		}
		m.need(x, "Set")
		v := m.rload(st, x)
		if isIface(r.t) && !isIface(x.t) {
			if !m.implements(x.t, r.t) {
				m.rpanic("Set: value of type " + x.t.name + " is not assignable to type " + r.t.name)
			}
			v = Iface{x.t, v}
		} else if x.t != r.t && !types.AssignableTo(x.t.T, r.t.T) {
			m.rpanic("Set: value of type " + x.t.name + " is not assignable to type " + r.t.name)
		}
		m.store(st, r.p, r.t, v)
	}
	V("Set", func(m *Machine, st *State, r *RVal, a []Value) Value { set(m, st, r, m.rv(st, a[0])); return nil })
	scal := func(kinds ...reflect.Kind) func(m *Machine, st *State, r *RVal, a []Value) Value {
		return func(m *Machine, st *State, r *RVal, a []Value) Value {
			m.need(r, "Set")
			ok := false
			for _, k := range kinds {
				if kindOf(r.t) == k {
					ok = true
				}
			}
			if !ok || !r.addr || r.ro {
				m.rpanic("cannot set " + r.t.name)
			}
			v := a[0]
			if r.t.w != 0 {
				switch x := v.(type) {
				case I:
					v = I(uint64(x) & mask(r.t.w))
				case *Term:
					v = ival(m.tt.Extract(x, 0, r.t.w))
				}
			}
			m.store(st, r.p, r.t, v)
			return nil
		}
	}
	V("SetInt", scal(reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64))
	V("SetUint", scal(reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr))
	V("SetBool", scal(reflect.Bool))
	V("SetString", scal(reflect.String))
	V("SetFloat", scal(reflect.Float32, reflect.Float64))
	V("SetLen", func(m *Machine, st *State, r *RVal, a []Value) Value {
		s := m.rslice(st, m.rload(st, m.need(r, "SetLen")))
		n := m.concInt(st, a[0])
		if n < 0 || n > int(s.c) {
			m.rpanic("slice length out of range in SetLen")
		}
		s.n = int32(n)
		m.store(st, r.p, r.t, s)
		return nil
	})
	V("String", func(m *Machine, st *State, r *RVal, a []Value) Value {
		if r == nil {
			return "<invalid Value>"
		}
		if kindOf(r.t) == reflect.String {
			return m.rload(st, r)
		}
		return "<" + typeString(r.t) + " Value>"
	})
	wide := func(signed bool) func(m *Machine, st *State, r *RVal, a []Value) Value {
		return func(m *Machine, st *State, r *RVal, a []Value) Value {
			m.need(r, "Int")
			switch x := m.rload(st, r).(type) {
			case I:
				if signed {
					return I(uint64(sx(uint64(x), r.t.w)))
				}
				return x
			case *Term:
				if signed {
					return ival(m.tt.Sext(x, 64))
				}
				return ival(m.tt.Zext(x, 64))
			}
			m.rpanic("call of reflect.Value.Int on " + r.t.name + " Value")
			return nil
		}
	}
	V("Int", wide(true))
	V("Uint", wide(false))
	V("Bool", func(m *Machine, st *State, r *RVal, a []Value) Value { return m.rload(st, m.need(r, "Bool")) })
	V("Float", func(m *Machine, st *State, r *RVal, a []Value) Value { return m.rload(st, m.need(r, "Float")) })
	V("Convert", func(m *Machine, st *State, r *RVal, a []Value) Value {
		to := m.rty(st, a[0])
		if !types.ConvertibleTo(m.need(r, "Convert").t.T, to.T) {
			m.rpanic("Value.Convert: value of type " + r.t.name + " cannot be converted to type " + to.name)
		}
		return m.convTo(st, r, to)
	})
	V("CanConvert", func(m *Machine, st *State, r *RVal, a []Value) Value {
		return bv(types.ConvertibleTo(m.need(r, "CanConvert").t.T, m.rty(st, a[0]).T))
	})
	ptrv := func(m *Machine, st *State, r *RVal, a []Value) Value {
		switch x := m.rload(st, m.need(r, "Pointer")).(type) {
		case Ptr:
			return I(uint64(x.id)<<24 | uint64(x.off))
		case Slice:
			return I(uint64(x.id)<<24 | uint64(x.off))
		case MapRef:
			return I(uint64(x.id) << 24)
		case ChanRef:
			return I(uint64(x.id) << 24)
		}
		m.unsupported("reflect Pointer")
		return nil
	}
	V("Pointer", ptrv)
	V("UnsafePointer", ptrv)
	V("MapKeys", func(m *Machine, st *State, r *RVal, a []Value) Value {
		mr := m.rload(st, m.need(r, "MapKeys")).(MapRef)
		var out []Value
		if mr.id != 0 {
			mp := st.obj(mr.id).mp
			for i := range mp.ents {
				if m.decide(st, mp.ents[i].present) {
					out = append(out, &RVal{t: r.t.key, v: mp.ents[i].key})
				}
			}
		}
		id := m.alloc(st, out, m.p.typeOf("reflect", "Value"))
		return Slice{id, 0, int32(len(out)), int32(len(out))}
	})
	V("MapIndex", func(m *Machine, st *State, r *RVal, a []Value) Value {
		mr := m.rload(st, m.need(r, "MapIndex")).(MapRef)
		if mr.id == 0 {
			return (*RVal)(nil)
		}
		v, ok := m.mapGet(st, st.obj(mr.id).mp, m.rload(st, m.rv(st, a[0])))
		if !m.decide(st, ok) {
			return (*RVal)(nil)
		}
		return &RVal{t: r.t.elem, v: v}
	})
	V("Slice", func(m *Machine, st *State, r *RVal, a []Value) Value {
		i, j := m.concInt(st, a[0]), m.concInt(st, a[1])
		switch x := m.rload(st, m.need(r, "Slice")).(type) {
		case Slice:
			if i < 0 || j < i || j > int(x.c) {
				m.rpanic("slice index out of bounds")
			}
			return &RVal{t: r.t, v: Slice{x.id, x.off + int32(i*r.t.elem.size), int32(j - i), x.c - int32(i)}}
		case string, *SStr:
			return &RVal{t: r.t, v: strSub(x, i, j)}
		}
		m.unsupported("reflect Slice")
		return nil
	})
	V("Comparable", func(m *Machine, st *State, r *RVal, a []Value) Value { return bv(r == nil || types.Comparable(r.t.T)) })
	N("reflect.Swapper", func(m *Machine, st *State, fi *FnInfo, a []Value) Value { return m.swapper(st, a[0]) })
	N("internal/reflectlite.Swapper", func(m *Machine, st *State, fi *FnInfo, a []Value) Value { return m.swapper(st, a[0]) })
	N("(reflect.Kind).String", func(m *Machine, st *State, fi *FnInfo, a []Value) Value {
		return reflect.Kind(m.conc(st, a[0])).String()
	})
}

func (m *Machine) swapper(st *State, v Value) Value {
	x := m.asIface(st, v)
	s := m.rslice(st, x.v)
	es := x.t.elem.size
	return &FuncV{nat: func(m *Machine, st *State, args []Value) Value {
		i, j := m.concInt(st, args[0]), m.concInt(st, args[1])
		m.getObj(st, s.id)
		o := st.wobj(s.id)
		for k := 0; k < es; k++ {
			a, b := int(s.off)+i*es+k, int(s.off)+j*es+k
			o.slots[a], o.slots[b] = o.slots[b], o.slots[a]
		}
		return nil
	}}
}
