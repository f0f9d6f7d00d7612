package main

import (
	"fmt"
	"go/types"
	"math"
	"math/bits"
	"reflect"
	"strconv"
	"strings"
)

// Natives: functions the engine evaluates itself instead of interpreting (runtime, assembly, synchronisation,
// the harness interface). The list is part of the stated trusted base.

var natives = map[string]nativeFn{}

type prefixNative struct {
	prefix string
	f      nativeFn
}

var prefixNatives []prefixNative

const vpkg = "github.com/hexbee-net/etxe/pkg/zzverif/v"
const partPkg = "github.com/alecthomas/participle/v2"

func (m *Machine) stringTI() *TypeInfo { return tinfo(types.Typ[types.String]) }
func (m *Machine) intTI() *TypeInfo    { return tinfo(types.Typ[types.Int]) }

func (m *Machine) newError(st *State, msg string) Value {
	ti := m.p.typeOf("errors", "errorString")
	id := m.alloc(st, []Value{msg}, ti)
	return Iface{tinfo(types.NewPointer(ti.T)), Ptr{id, 0}}
}

func (m *Machine) ptrArg(st *State, v Value) Ptr {
	if u, ok := v.(*Union); ok {
		v = m.pick(st, u)
	}
	p, ok := v.(Ptr)
	if !ok {
		m.unsupported(fmt.Sprintf("pointer operand %T", v))
	}
	if p.id == 0 {
		m.nilDeref()
	}
	m.getObj(st, p.id)
	return p
}

func (m *Machine) slot(st *State, p Ptr) Value { return m.getObj(st, p.id).slots[p.off] }
func (m *Machine) setSlot(st *State, p Ptr, v Value) {
	m.getObj(st, p.id)
	st.wobj(p.id).slots[p.off] = v
}

func (m *Machine) un(st *State, v Value) Value {
	if u, ok := v.(*Union); ok {
		return m.pick(st, u)
	}
	return v
}

// bytesOf returns the symbolic bytes of a string or []byte value.
func (m *Machine) bytesOf(st *State, v Value) []Value {
	switch x := m.un(st, v).(type) {
	case string, *SStr:
		return strBytes(x)
	case Slice:
		if x.n == 0 {
			return nil
		}
		return m.getObj(st, x.id).slots[x.off : x.off+x.n]
	}
	m.unsupported(fmt.Sprintf("bytesOf %T", v))
	return nil
}

func (m *Machine) matchAt(st *State, s, sub []Value) bool {
	for i := range sub {
		if !m.decide(st, m.equal(st, nil, s[i], sub[i])) {
			return false
		}
	}
	return true
}

// symVar creates (or finds) an input variable.
func (m *Machine) symVar(st *State, name string, w uint8, lo, hi uint64) *Term {
	v := m.tt.Var(name, w, lo, hi)
	if w > 0 && !(lo == 0 && hi == mask(w)) {
		c := m.tt.And(m.tt.Ule(m.tt.Const(w, lo), v.term), m.tt.Ule(v.term, m.tt.Const(w, hi)))
		// extend the model before adding the constraint
		if int(v.term.k) >= len(st.model) {
			mod := append([]uint64(nil), st.model...)
			for len(mod) <= int(v.term.k) {
				mod = append(mod, m.tt.vars[len(mod)].lo)
			}
			st.model = mod
		}
		m.addPC(st, c)
	} else if int(v.term.k) >= len(st.model) {
		mod := append([]uint64(nil), st.model...)
		for len(mod) <= int(v.term.k) {
			mod = append(mod, m.tt.vars[len(mod)].lo)
		}
		st.model = mod
	}
	return v.term
}

func (m *Machine) idxName(st *State, name Value, idx Value) string {
	s := m.concStr(st, name)
	sl := m.rslice(st, idx)
	for i := 0; i < int(sl.n); i++ {
		s += fmt.Sprintf("[%d]", m.concInt(st, m.getObj(st, sl.id).slots[int(sl.off)+i]))
	}
	return s
}

// push starts interpreting the function's own body (or its model) from a native.
func (m *Machine) push(st *State, fi *FnInfo, args []Value) Value {
	g := st.gor()
	if len(g.frames) > m.maxDepth {
		m.tooDeep()
	}
	g.frames = append(g.frames, m.newFrame(st, fi, args, nil))
	return pending
}

func (m *Machine) callerName(st *State) string {
	g := st.gs[st.cur]
	if len(g.frames) == 0 {
		return ""
	}
	return g.frames[len(g.frames)-1].fn.name
}

func init() {
	N := func(name string, f nativeFn) { natives[name] = f }
	nop := func(m *Machine, st *State, fi *FnInfo, a []Value) Value { return nil }
	ident := func(m *Machine, st *State, fi *FnInfo, a []Value) Value { return a[0] }

	// ---- harness interface
	V := func(name string, f nativeFn) { natives[vpkg+"."+name] = f }
	V("Bool", func(m *Machine, st *State, fi *FnInfo, a []Value) Value {
		return m.symVar(st, m.idxName(st, a[0], a[1]), 0, 0, 1)
	})
	V("Byte", func(m *Machine, st *State, fi *FnInfo, a []Value) Value {
		return m.symVar(st, m.idxName(st, a[0], a[1]), 8, 0, 127)
	})
	V("Int", func(m *Machine, st *State, fi *FnInfo, a []Value) Value {
		lo, hi := m.conc(st, a[1]), m.conc(st, a[2])
		t := m.symVar(st, m.idxName(st, a[0], a[3]), 8, lo, hi)
		return ival(m.tt.Zext(t, 64))
	})
	V("Choose", func(m *Machine, st *State, fi *FnInfo, a []Value) Value {
		n := m.conc(st, a[1])
		if n <= 1 {
			return I(0)
		}
		t := m.symVar(st, m.idxName(st, a[0], a[2]), 8, 0, n-1)
		r := m.conc(st, t)
		if m.merging {
			st.fence = st.fence*257 + int(r) + 1 // not merged with the other choices until Fence(0)
		}
		return I(r)
	})
	V("Assume", func(m *Machine, st *State, fi *FnInfo, a []Value) Value {
		c := m.un(st, a[0])
		if b, ok := c.(bool); ok {
			if !b {
				panic(pathEnd{"assume"})
			}
			return nil
		}
		r, mod := m.feasible(st, c.(*Term))
		if r == Unsat {
			panic(pathEnd{"assume"})
		}
		if r == Unknown {
			st.unsure = true
			m.unknowns++
		} else {
			st.model = mod
		}
		m.addPC(st, c.(*Term))
		return nil
	})
	V("Assert", func(m *Machine, st *State, fi *FnInfo, a []Value) Value {
		label := m.concStr(st, a[1])
		m.assert(st, m.un(st, a[0]), label)
		return nil
	})
	V("Is", func(m *Machine, st *State, fi *FnInfo, a []Value) Value {
		return m.res.job == nil || m.res.job.Prop == "" || m.res.job.Prop == m.concStr(st, a[0])
	})
	V("Reach", func(m *Machine, st *State, fi *FnInfo, a []Value) Value {
		m.res.reach[m.concStr(st, a[0])]++
		return nil
	})
	obs := func(m *Machine, st *State, fi *FnInfo, a []Value) Value {
		st.obs = append(st.obs, obsRec{m.concStr(st, a[0]), m.un(st, a[1])})
		return nil
	}
	V("ObsStr", obs)
	V("ObsInt", obs)
	V("ObsBool", obs)
	V("Case", func(m *Machine, st *State, fi *FnInfo, a []Value) Value { return I(uint64(m.caseIdx)) })
	V("Param", func(m *Machine, st *State, fi *FnInfo, a []Value) Value {
		n := m.concStr(st, a[0])
		v, ok := m.params[n]
		if !ok {
			m.unsupported("missing parameter " + n)
		}
		return I(uint64(int64(v)))
	})
	V("And", func(m *Machine, st *State, fi *FnInfo, a []Value) Value {
		return m.vand(m.un(st, a[0]), m.un(st, a[1]))
	})
	V("Or", func(m *Machine, st *State, fi *FnInfo, a []Value) Value { return m.vor(m.un(st, a[0]), m.un(st, a[1])) })
	V("Not", func(m *Machine, st *State, fi *FnInfo, a []Value) Value { return m.vnot(m.un(st, a[0])) })
	V("Eq", func(m *Machine, st *State, fi *FnInfo, a []Value) Value {
		return m.vnot(m.vnot(bval(m.tt.Eq(m.bterm(m.un(st, a[0])), m.bterm(m.un(st, a[1]))))))
	})
	V("Num", func(m *Machine, st *State, fi *FnInfo, a []Value) Value {
		return ival(m.tt.Ite(m.bterm(m.un(st, a[0])), m.tt.Const(64, 1), m.tt.Const(64, 0)))
	})
	V("Fence", func(m *Machine, st *State, fi *FnInfo, a []Value) Value {
		st.fence = int(m.conc(st, a[0]))
		return nil
	})
	V("MapDir", func(m *Machine, st *State, fi *FnInfo, a []Value) Value {
		st.mapDir = int(m.conc(st, a[0]))
		return nil
	})
	V("Sched", func(m *Machine, st *State, fi *FnInfo, a []Value) Value {
		st.schDir = int(m.conc(st, a[0]))
		return nil
	})
	V("Panics", func(m *Machine, st *State, fi *FnInfo, a []Value) Value {
		st.panics = true
		return nil
	})
	V("MapOrder", func(m *Machine, st *State, fi *FnInfo, a []Value) Value {
		st.mapArb = m.decide(st, a[0])
		return nil
	})
	V("Quiesce", func(m *Machine, st *State, fi *FnInfo, a []Value) Value {
		me := st.cur
		until := func(s *State) bool {
			for i, g := range s.gs {
				if i == me || len(g.frames) == 0 {
					continue
				}
				if g.stat == gRun || g.stat == gBlocked && g.wait != nil && g.wait.until != nil && g.wait.until(s) {
					return false
				}
			}
			return true
		}
		if until(st) {
			return nil
		}
		g := st.gor()
		g.stat = gBlocked
		g.wait = &waitRec{until: until}
		return nil
	})
	V("Live", func(m *Machine, st *State, fi *FnInfo, a []Value) Value {
		n := 0
		for i, g := range st.gs {
			if i != st.cur && len(g.frames) > 0 {
				n++
			}
		}
		return I(uint64(n))
	})
	V("Symbolic", func(m *Machine, st *State, fi *FnInfo, a []Value) Value { return true })
	V("Conc", func(m *Machine, st *State, fi *FnInfo, a []Value) Value { return I(m.conc(st, a[0])) })

	// ---- models helpers
	N(modelsPkg+".ReplacerPairs", func(m *Machine, st *State, fi *FnInfo, a []Value) Value {
		p := m.ptrArg(st, a[0])
		rt := m.p.typeOf("strings", "Replacer")
		su := rt.U.(*types.Struct)
		for i := 0; i < su.NumFields(); i++ {
			if su.Field(i).Name() == "oldnew" {
				return m.getObj(st, p.id).slots[int(p.off)+rt.offs[i]]
			}
		}
		m.unsupported("strings.Replacer")
		return nil
	})
	N("github.com/alecthomas/repr.String", func(m *Machine, st *State, fi *FnInfo, a []Value) Value { return "<repr>" })

	// error text of the parser library is not modelled: the format string stands for it
	N("fmt.Sprintf", func(m *Machine, st *State, fi *FnInfo, a []Value) Value {
		if c := m.callerName(st); strings.HasPrefix(c, partPkg) {
			switch {
			case strings.HasSuffix(c, "rrorf"), strings.HasSuffix(c, "rapf"), strings.HasSuffix(c, "rappedErrorf"), strings.Contains(c, "decorate"), strings.HasSuffix(c, ".FormatError"), strings.HasSuffix(c, "formatError"),
				strings.HasSuffix(c, "Message"), strings.HasSuffix(c, "Error"):
				return m.un(st, a[0])
			}
		}
		return m.push(st, fi, a)
	})

	// ---- memoised constructions of the parser library (a deterministic function of its arguments)
	memo := func(m *Machine, st *State, fi *FnInfo, a []Value) Value {
		key, ids, ok := m.canon(st, fi.name, a)
		if ok {
			if r, ok := m.p.memo[key]; ok {
				return m.useMemo(st, r, ids)
			}
		}
		from := st.heap.next
		r := m.push(st, fi, a)
		if m.initMode && ok {
			st.top().cont = func(m *Machine, st *State, res Value) {
				m.p.memo[key] = &memoRec{res: res, from: from, to: st.heap.next, args: ids}
				m.finish(st, res)
			}
		}
		return r
	}
	N(partPkg+".MustBuild", memo)
	N(partPkg+".Build", memo)
	N(partPkg+"/lexer.MustStateful", memo)

	// ---- sync
	lock := func(m *Machine, st *State, fi *FnInfo, a []Value) Value {
		p := m.ptrArg(st, a[0])
		if v, ok := m.slot(st, p).(I); ok && v != 0 {
			g := st.gor()
			g.stat = gBlocked
			g.wait = &waitRec{until: func(s *State) bool { return s.obj(p.id).slots[p.off] == I(0) }}
			return pending
		}
		m.setSlot(st, p, I(1))
		return nil
	}
	unlock := func(m *Machine, st *State, fi *FnInfo, a []Value) Value {
		p := m.ptrArg(st, a[0])
		if v, ok := m.slot(st, p).(I); ok && v == 0 {
			m.unsupported("fatal error: unlock of unlocked mutex")
		}
		m.setSlot(st, p, I(0))
		return nil
	}
	for _, t := range []string{"(*sync.Mutex).", "(*internal/sync.Mutex).", "(*sync.RWMutex)."} {
		N(t+"Lock", lock)
		N(t+"Unlock", unlock)
	}
	tryLock := func(m *Machine, st *State, fi *FnInfo, a []Value) Value {
		p := m.ptrArg(st, a[0])
		if v, ok := m.slot(st, p).(I); ok && v != 0 {
			return false
		}
		m.setSlot(st, p, I(1))
		return true
	}
	for _, t := range []string{"(*sync.Mutex).", "(*internal/sync.Mutex).", "(*sync.RWMutex)."} {
		N(t+"TryLock", tryLock)
	}
	N("(*sync.RWMutex).TryRLock", func(m *Machine, st *State, fi *FnInfo, a []Value) Value {
		p := m.ptrArg(st, a[0])
		v := m.slot(st, p).(I)
		if v == 1 {
			return false
		}
		m.setSlot(st, p, v+2)
		return true
	})
	// readers: count in the second half of the flag (>=2)
	N("(*sync.RWMutex).RLock", func(m *Machine, st *State, fi *FnInfo, a []Value) Value {
		p := m.ptrArg(st, a[0])
		v := m.slot(st, p).(I)
		if v == 1 {
			g := st.gor()
			g.stat = gBlocked
			g.wait = &waitRec{until: func(s *State) bool { return s.obj(p.id).slots[p.off] != I(1) }}
			return pending
		}
		m.setSlot(st, p, v+2)
		return nil
	})
	N("(*sync.RWMutex).RUnlock", func(m *Machine, st *State, fi *FnInfo, a []Value) Value {
		p := m.ptrArg(st, a[0])
		m.setSlot(st, p, m.slot(st, p).(I)-2)
		return nil
	})
	N("(*sync.WaitGroup).Add", func(m *Machine, st *State, fi *FnInfo, a []Value) Value {
		p := m.ptrArg(st, a[0])
		v, _ := m.slot(st, p).(I)
		n := int64(v) + int64(m.conc(st, a[1]))
		if n < 0 {
			panic(goPanic{m.rtErr2("sync: negative WaitGroup counter")})
		}
		m.setSlot(st, p, I(n))
		return nil
	})
	N("(*sync.WaitGroup).Done", func(m *Machine, st *State, fi *FnInfo, a []Value) Value {
		return natives["(*sync.WaitGroup).Add"](m, st, fi, []Value{a[0], I(math.MaxUint64)})
	})
	N("(*sync.WaitGroup).Wait", func(m *Machine, st *State, fi *FnInfo, a []Value) Value {
		p := m.ptrArg(st, a[0])
		if m.slot(st, p) != I(0) {
			g := st.gor()
			g.stat = gBlocked
			g.wait = &waitRec{until: func(s *State) bool { return s.obj(p.id).slots[p.off] == I(0) }}
		}
		return nil
	})
	N("(*sync.Pool).Get", func(m *Machine, st *State, fi *FnInfo, a []Value) Value {
		p := m.ptrArg(st, a[0])
		pt := m.p.typeOf("sync", "Pool")
		su := pt.U.(*types.Struct)
		for i := 0; i < su.NumFields(); i++ {
			if su.Field(i).Name() == "New" {
				f, _ := m.getObj(st, p.id).slots[int(p.off)+pt.offs[i]].(*FuncV)
				if f == nil {
					return Iface{}
				}
				return m.call(st, f, nil)
			}
		}
		return Iface{}
	})
	N("(*sync.Pool).Put", nop)
	// the entries of a sync.Map live in an ordinary map, kept in its first word; the methods are models
	N(modelsPkg+".SyncMap", func(m *Machine, st *State, fi *FnInfo, a []Value) Value {
		p := m.ptrArg(st, a[0])
		mr, ok := m.slot(st, p).(MapRef)
		if !ok || mr.id == 0 {
			any := tinfo(types.NewInterfaceType(nil, nil))
			mr = m.makeMap(st, tinfo(types.NewMap(any.T, any.T))).(MapRef)
			m.setSlot(st, p, mr)
		}
		return mr
	})

	// ---- atomics (the schedules explored interleave only at channel and lock operations)
	at := func(pkg, op string) {
		prefixNatives = append(prefixNatives, prefixNative{pkg + op, func(m *Machine, st *State, fi *FnInfo, a []Value) Value {
			return m.atomic(st, fi, strings.TrimPrefix(fi.name, pkg), a)
		}})
	}
	for _, op := range []string{"Load", "Store", "Swap", "Add", "And", "Or", "CompareAndSwap"} {
		at("sync/atomic.", op)
	}
	at("internal/runtime/atomic.", "")

	// text templates are only used by the parser library's code generator
	for _, pre := range []string{"text/template.", "(*text/template.Template)."} {
		prefixNatives = append(prefixNatives, prefixNative{pre, func(m *Machine, st *State, fi *FnInfo, a []Value) Value {
			if !m.initMode {
				m.unsupported("text/template")
			}
			return m.zeroRes(fi)
		}})
	}
	// ---- runtime and friends
	for _, n := range []string{"runtime.Gosched", "runtime.GC", "runtime.KeepAlive", "runtime.SetFinalizer", "internal/race.Acquire",
		"internal/race.Release", "internal/race.ReleaseMerge", "internal/race.Disable", "internal/race.Enable", "internal/race.Read", "internal/race.Write", "internal/race.ReadRange", "internal/race.WriteRange",
		"internal/race.Errors", "internal/godebug.registerMetric", "(*internal/godebug.Setting).IncNonDefault"} {
		N(n, nop)
	}
	N("(*internal/godebug.Setting).Value", func(m *Machine, st *State, fi *FnInfo, a []Value) Value { return "" })
	N("(*internal/godebug.Setting).Name", func(m *Machine, st *State, fi *FnInfo, a []Value) Value { return "" })
	N("internal/godebug.New", func(m *Machine, st *State, fi *FnInfo, a []Value) Value {
		ti := m.p.typeOf("internal/godebug", "Setting")
		return Ptr{m.allocZero(st, ti, 1), 0}
	})
	N("internal/abi.NoEscape", ident)
	N("internal/abi.Escape", ident)
	N("strings.noescape", ident)
	N("runtime.Stack", func(m *Machine, st *State, fi *FnInfo, a []Value) Value { return I(0) })
	N("runtime.NumGoroutine", natives[vpkg+".Live"])
	N("runtime.Caller", func(m *Machine, st *State, fi *FnInfo, a []Value) Value { return Tuple{I(0), "?", I(0), false} })
	N("internal/stringslite.Clone", ident)
	N("strings.Clone", ident)
	N("internal/bytealg.MakeNoZero", func(m *Machine, st *State, fi *FnInfo, a []Value) Value {
		n := m.concInt(st, a[0])
		id := m.allocZero(st, tinfo(types.Typ[types.Uint8]), n)
		return Slice{id, 0, int32(n), int32(n)}
	})
	indexByte := func(m *Machine, st *State, fi *FnInfo, a []Value) Value {
		for i, b := range m.bytesOf(st, a[0]) {
			if m.decide(st, m.equal(st, nil, b, a[1])) {
				return I(i)
			}
		}
		return I(math.MaxUint64)
	}
	N("internal/bytealg.IndexByte", indexByte)
	N("internal/bytealg.IndexByteString", indexByte)
	N("strings.IndexByte", indexByte)
	N("bytes.IndexByte", indexByte)
	lastIndexByte := func(m *Machine, st *State, fi *FnInfo, a []Value) Value {
		bs := m.bytesOf(st, a[0])
		for i := len(bs) - 1; i >= 0; i-- {
			if m.decide(st, m.equal(st, nil, bs[i], a[1])) {
				return I(i)
			}
		}
		return I(math.MaxUint64)
	}
	N("internal/bytealg.LastIndexByte", lastIndexByte)
	N("internal/bytealg.LastIndexByteString", lastIndexByte)
	N("strings.LastIndexByte", lastIndexByte)
	countByte := func(m *Machine, st *State, fi *FnInfo, a []Value) Value {
		n := 0
		for _, b := range m.bytesOf(st, a[0]) {
			if m.decide(st, m.equal(st, nil, b, a[1])) {
				n++
			}
		}
		return I(n)
	}
	N("internal/bytealg.Count", countByte)
	N("internal/bytealg.CountString", countByte)
	index := func(m *Machine, st *State, fi *FnInfo, a []Value) Value {
		s, sub := m.bytesOf(st, a[0]), m.bytesOf(st, a[1])
		for i := 0; i+len(sub) <= len(s); i++ {
			if m.matchAt(st, s[i:], sub) {
				return I(i)
			}
		}
		return I(math.MaxUint64)
	}
	N("internal/bytealg.Index", index)
	N("internal/bytealg.IndexString", index)
	N("strings.Index", index)
	N("bytes.Index", index)
	N("strings.LastIndex", func(m *Machine, st *State, fi *FnInfo, a []Value) Value {
		s, sub := m.bytesOf(st, a[0]), m.bytesOf(st, a[1])
		for i := len(s) - len(sub); i >= 0; i-- {
			if m.matchAt(st, s[i:], sub) {
				return I(i)
			}
		}
		return I(math.MaxUint64)
	})
	N("internal/bytealg.Equal", func(m *Machine, st *State, fi *FnInfo, a []Value) Value {
		return m.strEq(mkStr(m.bytesOf(st, a[0])), mkStr(m.bytesOf(st, a[1])))
	})
	cmp := func(m *Machine, st *State, fi *FnInfo, a []Value) Value {
		x, y := mkStr(append([]Value(nil), m.bytesOf(st, a[0])...)), mkStr(append([]Value(nil), m.bytesOf(st, a[1])...))
		if m.decide(st, m.strEq(x, y)) {
			return I(0)
		}
		if m.decide(st, m.strLess(x, y, false)) {
			return I(math.MaxUint64)
		}
		return I(1)
	}
	N("internal/bytealg.Compare", cmp)
	N("internal/bytealg.CompareString", cmp)
	N("strings.Compare", cmp)
	N("bytes.Equal", natives["internal/bytealg.Equal"])

	// ---- math
	f1 := func(name string, f func(float64) float64) {
		N("math."+name, func(m *Machine, st *State, fi *FnInfo, a []Value) Value {
			x, ok := a[0].(float64)
			if !ok {
				m.unsupported("symbolic float")
			}
			return f(x)
		})
	}
	f1("Floor", math.Floor)
	f1("Ceil", math.Ceil)
	f1("Trunc", math.Trunc)
	f1("Sqrt", math.Sqrt)
	f1("Abs", math.Abs)
	f1("Log", math.Log)
	f1("Log2", math.Log2)
	f1("Log10", math.Log10)
	f1("Exp", math.Exp)
	N("math.Pow", func(m *Machine, st *State, fi *FnInfo, a []Value) Value {
		return math.Pow(a[0].(float64), a[1].(float64))
	})
	N("math.Float64bits", func(m *Machine, st *State, fi *FnInfo, a []Value) Value { return I(math.Float64bits(a[0].(float64))) })
	N("math.Float64frombits", func(m *Machine, st *State, fi *FnInfo, a []Value) Value {
		return math.Float64frombits(m.conc(st, a[0]))
	})
	N("math.Float32bits", func(m *Machine, st *State, fi *FnInfo, a []Value) Value {
		return I(math.Float32bits(float32(a[0].(float64))))
	})
	N("math.Float32frombits", func(m *Machine, st *State, fi *FnInfo, a []Value) Value {
		return float64(math.Float32frombits(uint32(m.conc(st, a[0]))))
	})
	b1 := func(name string, f func(uint64) int) {
		N("math/bits."+name, func(m *Machine, st *State, fi *FnInfo, a []Value) Value {
			return I(f(m.conc(st, a[0])))
		})
	}
	b1("Len", func(x uint64) int { return bits.Len64(x) })
	b1("Len64", func(x uint64) int { return bits.Len64(x) })
	b1("Len32", func(x uint64) int { return bits.Len64(x) })
	b1("Len16", func(x uint64) int { return bits.Len64(x) })
	b1("Len8", func(x uint64) int { return bits.Len64(x) })
	b1("LeadingZeros", bits.LeadingZeros64)
	b1("LeadingZeros64", bits.LeadingZeros64)
	b1("LeadingZeros32", func(x uint64) int { return bits.LeadingZeros32(uint32(x)) })
	b1("TrailingZeros", bits.TrailingZeros64)
	b1("TrailingZeros64", bits.TrailingZeros64)
	b1("TrailingZeros32", func(x uint64) int { return bits.TrailingZeros32(uint32(x)) })
	b1("OnesCount", bits.OnesCount64)
	b1("OnesCount64", bits.OnesCount64)
	b2 := func(name string, f func(x, y uint64) (uint64, uint64)) {
		g := func(m *Machine, st *State, fi *FnInfo, a []Value) Value {
			hi, lo := f(m.conc(st, a[0]), m.conc(st, a[1]))
			return Tuple{I(hi), I(lo)}
		}
		N("math/bits."+name, g)
		N("math/bits."+name+"64", g)
	}
	b2("Mul", bits.Mul64)
	N("math/bits.Div64", func(m *Machine, st *State, fi *FnInfo, a []Value) Value {
		hi, lo, y := m.conc(st, a[0]), m.conc(st, a[1]), m.conc(st, a[2])
		if y == 0 || y <= hi {
			panic(goPanic{m.rtErr("integer overflow or divide by zero")})
		}
		q, r := bits.Div64(hi, lo, y)
		return Tuple{I(q), I(r)}
	})
	natives["math/bits.Div"] = natives["math/bits.Div64"]

	// ---- reflect.StructTag
	N("(reflect.StructTag).Lookup", func(m *Machine, st *State, fi *FnInfo, a []Value) Value {
		v, ok := reflect.StructTag(m.concStr(st, a[0])).Lookup(m.concStr(st, a[1]))
		return Tuple{v, ok}
	})
	N("(reflect.StructTag).Get", func(m *Machine, st *State, fi *FnInfo, a []Value) Value {
		return reflect.StructTag(m.concStr(st, a[0])).Get(m.concStr(st, a[1]))
	})

	// ---- environment
	N("os.Getenv", func(m *Machine, st *State, fi *FnInfo, a []Value) Value { return "" })
	N("os.LookupEnv", func(m *Machine, st *State, fi *FnInfo, a []Value) Value { return Tuple{"", false} })
}

func (m *Machine) atomic(st *State, fi *FnInfo, name string, a []Value) Value {
	p := m.ptrArg(st, a[0])
	switch {
	case strings.HasPrefix(name, "Load"):
		return m.slot(st, p)
	case strings.HasPrefix(name, "Store"):
		m.setSlot(st, p, a[1])
		return nil
	case strings.HasPrefix(name, "Swap"), strings.HasPrefix(name, "Xchg"):
		old := m.slot(st, p)
		m.setSlot(st, p, a[1])
		return old
	case strings.HasPrefix(name, "Add"), strings.HasPrefix(name, "Xadd"):
		w := tinfo(fi.fn.Signature.Results().At(0).Type()).w
		v := I((m.conc(st, m.slot(st, p)) + m.conc(st, a[1])) & mask(w))
		m.setSlot(st, p, v)
		return v
	case strings.HasPrefix(name, "And"), strings.HasPrefix(name, "Or"):
		old := m.conc(st, m.slot(st, p))
		v := old & m.conc(st, a[1])
		if strings.HasPrefix(name, "Or") {
			v = old | m.conc(st, a[1])
		}
		m.setSlot(st, p, I(v))
		if fi.fn.Signature.Results().Len() == 0 {
			return nil
		}
		return I(old)
	case strings.HasPrefix(name, "CompareAndSwap"), strings.HasPrefix(name, "Cas"):
		if m.decide(st, m.equal(st, nil, m.slot(st, p), a[1])) {
			m.setSlot(st, p, a[2])
			return true
		}
		return false
	}
	m.unsupported("atomic " + fi.name)
	return nil
}

// canon renders values and everything reachable from them, for memoising deterministic constructions.
func (m *Machine) canon(st *State, name string, args []Value) (string, []int32, bool) {
	var sb strings.Builder
	sb.WriteString(name)
	ids := map[int32]int{}
	ok := true
	var val func(v Value, d int)
	val = func(v Value, d int) {
		if d > 60 || sb.Len() > 1<<20 {
			ok = false
			return
		}
		switch x := v.(type) {
		case I, bool, float64, complex128:
			fmt.Fprintf(&sb, "%T%v;", x, x)
		case string:
			fmt.Fprintf(&sb, "%q;", x)
		case nil:
			sb.WriteString("nil;")
		case Ptr:
			fmt.Fprintf(&sb, "P%d+", x.off)
			if x.id != 0 {
				m.canonObj(st, x.id, ids, &sb, val, d)
			}
		case Slice:
			fmt.Fprintf(&sb, "S%d,%d,%d+", x.off, x.n, x.c)
			if x.id != 0 {
				m.canonObj(st, x.id, ids, &sb, val, d)
			}
		case MapRef:
			sb.WriteString("M")
			if x.id != 0 {
				m.canonObj(st, x.id, ids, &sb, val, d)
			}
		case Iface:
			if x.t == nil {
				sb.WriteString("i0;")
				return
			}
			sb.WriteString("i" + x.t.name + ":")
			val(x.v, d+1)
		case *FuncV:
			if x == nil {
				sb.WriteString("f0;")
				return
			}
			if x.fn == nil {
				ok = false
				return
			}
			fmt.Fprintf(&sb, "f%s@%p(", x.fn.name, x.fn)
			for _, y := range x.free {
				val(y, d+1)
			}
			sb.WriteString(")")
		case Agg:
			for _, y := range x {
				val(y, d+1)
			}
		case RType:
			sb.WriteString("t" + x.t.name + ";")
		case Opq:
			if r, k := x.v.(*SymRE); k && r.re != nil {
				sb.WriteString("re" + strconv.Quote(r.src))
				return
			}
			ok = false
		default:
			ok = false
		}
	}
	for _, a := range args {
		val(a, 0)
	}
	order := make([]int32, len(ids))
	for id, n := range ids {
		order[n] = id
	}
	return sb.String(), order, ok
}

// memoRec is a memoised construction: its result and the objects it consists of.
type memoRec struct {
	res      Value
	from, to int32   // the objects made by the construction have numbers in (from, to]
	args     []int32 // the objects reachable from the arguments, in canonical order
}

// useMemo hands out a memoised construction: the first time on a path the original, then copies of it.
func (m *Machine) useMemo(st *State, r *memoRec, args []int32) Value {
	used := false
	for _, x := range st.memos {
		used = used || x == r
	}
	if !used {
		st.memos = append(st.memos[:len(st.memos):len(st.memos)], r)
		return r.res
	}
	base := &State{heap: *m.p.base}
	ids := map[int32]int32{}
	for i, id := range r.args {
		if i < len(args) {
			ids[id] = args[i]
		}
	}
	var cp func(v Value) Value
	var obj func(id int32) int32
	list := func(vs []Value) []Value {
		if vs == nil {
			return nil
		}
		n := make([]Value, len(vs))
		for i, v := range vs {
			n[i] = cp(v)
		}
		return n
	}
	cp = func(v Value) Value {
		switch x := v.(type) {
		case Ptr:
			return Ptr{obj(x.id), x.off}
		case Slice:
			return Slice{obj(x.id), x.off, x.n, x.c}
		case MapRef:
			return MapRef{obj(x.id)}
		case ChanRef:
			return ChanRef{obj(x.id)}
		case Iface:
			return Iface{x.t, cp(x.v)}
		case Agg:
			return Agg(list(x))
		case Tuple:
			return Tuple(list(x))
		case *FuncV:
			if x == nil || len(x.free) == 0 {
				return x
			}
			return &FuncV{fn: x.fn, free: list(x.free), nat: x.nat}
		case *RVal:
			return &RVal{t: x.t, addr: x.addr, p: Ptr{obj(x.p.id), x.p.off}, v: cp(x.v), ro: x.ro}
		}
		return v
	}
	obj = func(id int32) int32 {
		if n, ok := ids[id]; ok {
			return n
		}
		if id <= r.from || id > r.to {
			return id
		}
		o := base.obj(id)
		if o == nil {
			return id
		}
		n := m.newID(st)
		ids[id] = n
		c := o.clone(st.tok)
		st.setObj(n, c)
		for i, v := range c.slots {
			c.slots[i] = cp(v)
		}
		if c.mp != nil {
			for i := range c.mp.ents {
				e := &c.mp.ents[i]
				e.key, e.val = cp(e.key), cp(e.val)
			}
			c.mp.idx = map[any]int32{}
			for _, i := range o.mp.idx {
				if k, ok := normKey(c.mp.ents[i].key); ok {
					c.mp.idx[k] = i
				}
			}
		}
		return n
	}
	return cp(r.res)
}

func (m *Machine) canonObj(st *State, id int32, ids map[int32]int, sb *strings.Builder, val func(Value, int), d int) {
	if n, ok := ids[id]; ok {
		fmt.Fprintf(sb, "#%d;", n)
		return
	}
	ids[id] = len(ids)
	o := m.getObj(st, id)
	sb.WriteString("{")
	for _, s := range o.slots {
		val(s, d+1)
	}
	if o.mp != nil {
		// map order is insertion order in the engine
		for i := range o.mp.ents {
			e := &o.mp.ents[i]
			val(e.present, d+1)
			val(e.key, d+1)
			if ag, ok := e.val.(Agg); ok {
				val(ag, d+1)
			} else {
				val(e.val, d+1)
			}
		}
	}
	sb.WriteString("}")
}
