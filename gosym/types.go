package main

import (
	"fmt"
	"go/types"
	"sync"

	"golang.org/x/tools/go/types/typeutil"
)

// Slot kinds: one slot per scalar leaf of a type.
type SK uint8

const (
	skOther SK = iota
	skBool
	sk8
	sk16
	sk32
	sk64
)

func (k SK) width() uint8 {
	switch k {
	case sk8:
		return 8
	case sk16:
		return 16
	case sk32:
		return 32
	case sk64:
		return 64
	}
	return 0
}

type TypeInfo struct {
	T      types.Type
	U      types.Type // underlying
	size   int        // slots
	sks    []SK
	zero   []Value
	agg    bool // struct or array (register form is Agg)
	w      uint8
	signed bool
	elem   *TypeInfo // ptr/slice/array/chan/map value
	key    *TypeInfo
	fields []*TypeInfo
	offs   []int
	n      int
	opaque string // "reflect.Value", ...
	name   string
	msets  sync.Map
}

func (ti *TypeInfo) String() string { return ti.name }

type TypeTable struct {
	mu  sync.Mutex
	m   typeutil.Map
	ptr sync.Map // types.Type -> *TypeInfo, complete ones only

	// while a type is worked out: what its pointers, slices, ... lead to comes last, as types may be recursive
	pend []func()
	made map[types.Type]*TypeInfo
}

var TT = &TypeTable{made: map[types.Type]*TypeInfo{}}

func tinfo(t types.Type) *TypeInfo {
	if v, ok := TT.ptr.Load(t); ok {
		return v.(*TypeInfo)
	}
	TT.mu.Lock()
	defer TT.mu.Unlock()
	ti := TT.get(t)
	for len(TT.pend) > 0 {
		f := TT.pend[0]
		TT.pend = TT.pend[1:]
		f()
	}
	for t, ti := range TT.made {
		TT.ptr.Store(t, ti)
	}
	TT.made = map[types.Type]*TypeInfo{}
	return ti
}

func (tt *TypeTable) get(t types.Type) *TypeInfo {
	if v, ok := tt.ptr.Load(t); ok {
		return v.(*TypeInfo)
	}
	orig := t
	t = types.Unalias(t)
	if v := tt.m.At(t); v != nil {
		ti := v.(*TypeInfo)
		tt.made[orig] = ti
		return ti
	}
	ti := &TypeInfo{T: t, U: t.Underlying(), name: types.TypeString(t, nil)}
	tt.m.Set(t, ti)
	if n, ok := t.(*types.Named); ok && n.Obj().Pkg() != nil {
		full := n.Obj().Pkg().Path() + "." + n.Obj().Name()
		switch full {
		case "reflect.Value", "internal/reflectlite.Value":
			ti.opaque = "reflect.Value"
			ti.size = 1
			ti.sks = []SK{skOther}
			ti.zero = []Value{(*RVal)(nil)}
			tt.made[orig] = ti
			return ti
		}
	}
	scalar := func(k SK, z Value) {
		ti.size = 1
		ti.sks = []SK{k}
		ti.zero = []Value{z}
	}
	switch u := ti.U.(type) {
	case *types.Basic:
		switch u.Kind() {
		case types.Bool, types.UntypedBool:
			scalar(skBool, false)
		case types.Int8, types.Uint8:
			ti.w = 8
			scalar(sk8, I(0))
		case types.Int16, types.Uint16:
			ti.w = 16
			scalar(sk16, I(0))
		case types.Int32, types.Uint32, types.UntypedRune:
			ti.w = 32
			scalar(sk32, I(0))
		case types.Int, types.Uint, types.Int64, types.Uint64, types.Uintptr, types.UntypedInt:
			ti.w = 64
			scalar(sk64, I(0))
		case types.Float32:
			scalar(skOther, float64(0))
		case types.Float64, types.UntypedFloat:
			scalar(skOther, float64(0))
		case types.Complex64, types.Complex128, types.UntypedComplex:
			scalar(skOther, complex128(0))
		case types.String, types.UntypedString:
			scalar(skOther, "")
		case types.UnsafePointer:
			scalar(skOther, Ptr{})
		case types.UntypedNil:
			scalar(skOther, Ptr{})
		default:
			scalar(skOther, nil)
		}
		ti.signed = u.Info()&types.IsUnsigned == 0
	case *types.Pointer:
		scalar(skOther, Ptr{})
		tt.pend = append(tt.pend, func() { ti.elem = tt.get(u.Elem()) })
	case *types.Slice:
		scalar(skOther, Slice{})
		tt.pend = append(tt.pend, func() { ti.elem = tt.get(u.Elem()) })
	case *types.Map:
		scalar(skOther, MapRef{})
		tt.pend = append(tt.pend, func() {
			ti.key = tt.get(u.Key())
			ti.elem = tt.get(u.Elem())
		})
	case *types.Chan:
		scalar(skOther, ChanRef{})
		tt.pend = append(tt.pend, func() { ti.elem = tt.get(u.Elem()) })
	case *types.Signature:
		scalar(skOther, (*FuncV)(nil))
	case *types.Interface:
		scalar(skOther, Iface{})
	case *types.Struct:
		ti.agg = true
		for i := 0; i < u.NumFields(); i++ {
			f := tt.get(u.Field(i).Type())
			ti.fields = append(ti.fields, f)
			ti.offs = append(ti.offs, ti.size)
			ti.size += f.size
			ti.sks = append(ti.sks, f.sks...)
			ti.zero = append(ti.zero, f.zero...)
		}
	case *types.Array:
		ti.agg = true
		ti.elem = tt.get(u.Elem())
		ti.n = int(u.Len())
		ti.size = ti.n * ti.elem.size
		if ti.size <= 1<<20 {
			for i := 0; i < ti.n; i++ {
				ti.sks = append(ti.sks, ti.elem.sks...)
				ti.zero = append(ti.zero, ti.elem.zero...)
			}
		}
	case *types.Tuple:
		ti.agg = true
		for i := 0; i < u.Len(); i++ {
			f := tt.get(u.At(i).Type())
			ti.fields = append(ti.fields, f)
		}
		ti.size = u.Len()
	default:
		scalar(skOther, nil)
		if _, ok := t.(*types.TypeParam); !ok {
			ti.name = fmt.Sprintf("%T:%s", u, ti.name)
		}
	}
	tt.made[orig] = ti
	return ti
}

// zeroValue returns the register form of the zero value.
func (ti *TypeInfo) zeroValue() Value {
	if ti.agg {
		if ti.zero == nil && ti.size > 0 {
			return Agg(make([]Value, ti.size))
		}
		return Agg(ti.zero)
	}
	return ti.zero[0]
}

func isIface(ti *TypeInfo) bool { _, ok := ti.U.(*types.Interface); return ok }
