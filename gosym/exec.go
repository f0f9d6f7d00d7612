package main

import (
	"fmt"
	gotok "go/token"
	"go/types"
	"math"
	"sort"
	"sync"
	"unicode/utf8"

	"golang.org/x/tools/go/ssa"
)

type Stats struct {
	paths, steps, forks, quick, modelHits, queries, merges, mergeFail int
	assertsConst, assertsSolver                                       int
}

type Machine struct {
	p         *Program
	tt        *TermTable
	solver    *Solver
	stat      Stats
	nstates   int
	nextID    int32
	globalIDs bool
	merging   bool
	initMode  bool
	work      []*State
	unknowns  int

	qm        quickMemo
	mfails    map[int]int
	maxSteps  int // per path
	maxPaths  int
	maxDepth  int
	maxStates int
	deadline  func() bool

	res       *JobResult
	fnsSeen   map[*FnInfo]bool
	tmemo     map[string]Value
	curState  *State
	params    map[string]int
	caseIdx   int
	classMemo map[classKey]*Term
	lastPanic string
}

type cex struct {
	msg    string
	kind   string
	inputs map[string]uint64
	trace  []string
}

func (f *Frame) get(o int32) Value {
	if o >= 0 {
		return f.regs[o]
	}
	return f.fn.consts[-o-1]
}

type pendingT struct{}

var pending Value = &pendingT{} // returned by natives that pushed a frame

func (m *Machine) newFrame(st *State, fi *FnInfo, args, free []Value) *Frame {
	m.p.prep(fi)
	if fi.model != nil {
		fi = fi.model
	}
	if fi.blocks == nil {
		m.unsupported("no body: " + fi.name)
	}
	f := &Frame{tok: st.tok, fn: fi, regs: make([]Value, fi.nregs)}
	copy(f.regs, args)
	copy(f.regs[fi.nparams:], free)
	if m.merging {
		m.prepLoops(fi)
		f.iters = make([]int32, fi.nloops)
	}
	if !m.fnsSeen[fi] {
		m.fnsSeen[fi] = true
	}
	return f
}

// call starts a call: either runs a native to completion (returning its value) or pushes a frame
// and returns pending.
func (m *Machine) call(st *State, fv *FuncV, args []Value) Value {
	if fv == nil {
		panic(goPanic{m.rtErr("invalid memory address or nil pointer dereference")})
	}
	if fv.nat != nil {
		return fv.nat(m, st, args)
	}
	fi := fv.fn
	m.p.prep(fi)
	if fi.native != nil {
		return fi.native(m, st, fi, args)
	}
	g := st.gor()
	if len(g.frames) > m.maxDepth {
		m.tooDeep()
	}
	g.frames = append(g.frames, m.newFrame(st, fi, args, fv.free))
	return pending
}

// finish completes the call instruction at the top frame with the given result.
func (m *Machine) finish(st *State, res Value) {
	f := st.top()
	in := &f.fn.blocks[f.blk].ins[f.pc]
	if in.dst >= 0 {
		f.regs[in.dst] = res
	}
	f.pc++
}

func (m *Machine) ret(st *State, res Value) {
	g := st.gor()
	f := g.frames[len(g.frames)-1]
	g.frames = g.frames[:len(g.frames)-1]
	if f.cont != nil {
		f.cont(m, st, res)
		return
	}
	if len(g.frames) == 0 {
		g.stat = gDone
		return
	}
	if f.isDefer {
		m.runDefers(st)
		return
	}
	m.finish(st, res)
}

func (m *Machine) startPanic(st *State, v Value) {
	f := st.top()
	f.panicking = true
	f.panicVal = v
	f.running = true
	m.runDefers(st)
}

func (m *Machine) runDefers(st *State) {
	for {
		f := st.top()
		if n := len(f.defers); n > 0 {
			d := f.defers[n-1]
			f.defers = f.defers[: n-1 : n-1]
			if d.blt != "" {
				// a panic in the builtin becomes the current panic
				m.deferred(st, d, func() { m.builtin(st, f, d.binst, d.blt, d.args) })
				continue
			}
			if d.fn == nil {
				f.panicking = true
				f.panicVal = m.rtErr("invalid memory address or nil pointer dereference")
				continue
			}
			var r Value
			depth := len(st.gor().frames)
			m.deferred(st, d, func() { r = m.call(st, d.fn, d.args) })
			if r == pending {
				if len(st.gor().frames) == depth { // blocked: run it again later
					f := st.top()
					f.defers = append(f.defers, d)
					return
				}
				st.top().isDefer = true
				return
			}
			continue
		}
		f.running = false
		if f.panicking {
			v := f.panicVal
			g := st.gor()
			g.frames = g.frames[:len(g.frames)-1]
			if len(g.frames) == 0 {
				panic(uncaught{v})
			}
			n := st.top()
			n.panicking = true
			n.panicVal = v
			n.running = true
			continue
		}
		if f.recovered {
			f.recovered = false
			if f.fn.recover >= 0 {
				f.blk, f.pc = f.fn.recover, 0
				return
			}
			m.ret(st, m.zeroRes(f.fn))
			return
		}
		f.pc++
		return
	}
}

// deferred runs one deferred call; when the run has to split first, the call is put back.
func (m *Machine) deferred(st *State, d deferRec, run func()) {
	defer func() {
		r := recover()
		if r == nil {
			return
		}
		if _, ok := r.(goPanic); !ok {
			f := st.top()
			f.defers = append(f.defers, d)
		}
		panic(r)
	}()
	run()
}

type uncaught struct{ v Value }

func (m *Machine) zeroRes(fi *FnInfo) Value {
	switch fi.res.Len() {
	case 0:
		return nil
	case 1:
		return tinfo(fi.res.At(0).Type()).zeroValue()
	}
	t := make(Tuple, fi.res.Len())
	for i := range t {
		t[i] = tinfo(fi.res.At(i).Type()).zeroValue()
	}
	return t
}

func (m *Machine) rtErr(msg string) Value {
	return Iface{tinfo(m.p.rtErrType()), "runtime error: " + msg}
}

func (p *Program) rtErrType() types.Type {
	for _, pk := range p.prog.AllPackages() {
		if pk.Pkg.Path() == "runtime" {
			return pk.Pkg.Scope().Lookup("plainError").Type()
		}
	}
	return types.Typ[types.String]
}

type runEnd int

const (
	endDone runEnd = iota
	endForked
	endParked
	endDead
)

// run executes st until it ends, forks or parks.
func (m *Machine) run(st *State) (end runEnd) {
	for {
		c := m.runSome(st)
		switch c {
		case ctlAgain:
			continue
		case ctlDone:
			return endDone
		case ctlFork:
			return endForked
		case ctlPark:
			return endParked
		case ctlDead:
			return endDead
		}
	}
}

type ctl int

const (
	ctlAgain ctl = iota
	ctlDone
	ctlFork
	ctlPark
	ctlDead
)

func (m *Machine) runSome(st *State) (c ctl) {
	m.curState = st
	defer func() {
		r := recover()
		if r == nil {
			return
		}
		c = m.handle(st, r)
	}()
	return m.loop(st)
}

func (m *Machine) handle(st *State, r any) ctl {
	switch x := r.(type) {
	case needFork:
		m.stat.forks++
		st.chi = 0
		for i, a := range x.alts {
			n := st
			if i < len(x.alts)-1 {
				n = m.cloneState(st)
			}
			n.forks++
			if a.cond != nil {
				m.addPC(n, a.cond)
			}
			if a.model != nil {
				n.model = a.model
			}
			if a.do != nil {
				a.do(n)
			}
			n.parked = false
			n.fresh = true
			m.work = append(m.work, n)
		}
		return ctlFork
	case goPanic:
		st.chq, st.chi = nil, 0
		m.lastPanic = m.where(st)
		return m.guard(st, func() { m.startPanic(st, x.v) })
	case hang:
		m.res.onHang(m, st, x.why)
		return ctlDead
	case uncaught:
		m.res.onPanic(m, st, x.v)
		return ctlDead
	case unsup:
		m.res.onUnsupported(m, st, x.msg)
		return ctlDead
	case pathEnd:
		m.res.onCut(m, st, x.why)
		return ctlDead
	case deadlockT:
		m.res.onDeadlock(m, st)
		return ctlDead
	case stopJob:
		panic(x)
	case unionFork:
		panic(x)
	}
	if m.initMode || debugPanics {
		panic(r)
	}
	m.res.onUnsupported(m, st, fmt.Sprintf("engine: %v at %s", r, m.where(st)))
	return ctlDead
}

var debugPanics = false

type stopJob struct{}
type unionFork struct{}
type deadlockT struct{}

func (m *Machine) guard(st *State, f func()) (c ctl) {
	defer func() {
		if r := recover(); r != nil {
			c = m.handle(st, r)
		}
	}()
	f()
	return ctlAgain
}

func (m *Machine) where(st *State) string {
	g := st.gs[st.cur]
	if len(g.frames) == 0 {
		return "?"
	}
	s := ""
	for i := len(g.frames) - 1; i >= 0 && i > len(g.frames)-9; i-- {
		f := g.frames[i]
		if int(f.blk) >= len(f.fn.blocks) || int(f.pc) >= len(f.fn.blocks[f.blk].ins) {
			s += " < " + f.fn.name
			continue
		}
		in := &f.fn.blocks[f.blk].ins[f.pc]
		s += fmt.Sprintf(" < %s [%v] %s", f.fn.name, in.ssa, m.p.prog.Fset.Position(in.pos))
	}
	return s
}

func (m *Machine) jump(st *State, f *Frame, to int32) bool {
	from := f.blk
	blk := &f.fn.blocks[to]
	if len(blk.phis) > 0 {
		var e int
		for i, p := range blk.preds {
			if p == from {
				e = i
				break
			}
		}
		if len(blk.phis) == 1 {
			f.regs[blk.phis[0].dst] = f.get(blk.phis[0].edges[e])
		} else {
			tmp := make([]Value, len(blk.phis))
			for i := range blk.phis {
				tmp[i] = f.get(blk.phis[i].edges[e])
			}
			for i := range blk.phis {
				f.regs[blk.phis[i].dst] = tmp[i]
			}
		}
	}
	if m.merging {
		if h := blk.isHead; h >= 0 {
			if inLoop(&f.fn.blocks[from], h) {
				f.iters[h]++
			} else {
				f.iters[h] = 0
			}
		}
	}
	f.blk, f.pc = to, 0
	return blk.join
}

func inLoop(b *block, h int32) bool {
	for _, l := range b.loops {
		if l == h {
			return true
		}
	}
	return false
}

// loop is the interpreter proper.
func (m *Machine) loop(st *State) ctl {
	for {
		g := st.gs[st.cur]
		if len(g.frames) == 0 || g.stat != gRun {
			if c, stop := m.schedule(st); stop {
				return c
			}
			continue
		}
		f := st.top()
		if f.running { // in the middle of its deferred calls
			m.runDefers(st)
			continue
		}
		fi := f.fn
	inner:
		for {
			blk := &fi.blocks[f.blk]
			in := &blk.ins[f.pc]
			st.steps++
			m.stat.steps++
			if stepProf != nil && m.stat.steps&0x3ff == 0 {
				m.sampleSteps(st)
			}
			if st.steps&0x3fff == 0 {
				if st.steps > m.maxSteps {
					if !m.merging && m.res.job != nil {
						panic(hang{"step bound"})
					}
					panic(unsup{"step bound"})
				}
				if m.deadline != nil && m.deadline() {
					panic(stopJob{})
				}
			}
			switch in.op {
			case oAlloc:
				id := m.allocZero(st, in.t1, 1)
				f.regs[in.dst] = Ptr{id, 0}
			case oBinOp:
				f.regs[in.dst] = m.binop(st, in, f.get(in.a), f.get(in.b))
			case oUnNot:
				v := f.get(in.a)
				if u, ok := v.(*Union); ok {
					v = m.pick(st, u)
				}
				f.regs[in.dst] = m.vnot(v)
			case oUnNeg:
				switch v := f.get(in.a).(type) {
				case I:
					f.regs[in.dst] = I(-uint64(v) & mask(in.t1.w))
				case *Term:
					f.regs[in.dst] = ival(m.tt.Bin(tSub, m.tt.Const(v.w, 0), v))
				case float64:
					f.regs[in.dst] = -v
				case complex128:
					f.regs[in.dst] = -v
				}
			case oUnXor:
				switch v := f.get(in.a).(type) {
				case I:
					f.regs[in.dst] = I(^uint64(v) & mask(in.t1.w))
				case *Term:
					f.regs[in.dst] = ival(m.tt.Bnot(v))
				}
			case oUnLoad:
				f.regs[in.dst] = m.load(st, f.get(in.a), in.ti)
			case oStore:
				m.store(st, f.get(in.a), in.t1, f.get(in.b))
			case oFieldAddr:
				f.regs[in.dst] = m.fieldAddr(st, f.get(in.a), in.off)
			case oIndexAddr:
				f.regs[in.dst] = m.indexAddr(st, in, f.get(in.a), f.get(in.b))
			case oField:
				a := f.get(in.a).(Agg)
				if in.t1.fields == nil {
					m.unsupported("field of opaque " + in.t1.name)
				}
				ft := in.t1.fields[in.n]
				o := in.t1.offs[in.n]
				if ft.agg {
					f.regs[in.dst] = a[o : o+ft.size : o+ft.size]
				} else {
					f.regs[in.dst] = a[o]
				}
			case oIndex:
				f.regs[in.dst] = m.index(st, in, f.get(in.a), f.get(in.b))
			case oCall:
				var fv *FuncV
				if in.dyn {
					v := f.get(in.a)
					if u, ok := v.(*Union); ok {
						v = m.pick(st, u)
					}
					fv, _ = v.(*FuncV)
				} else {
					fv = in.callee.fv
				}
				args := make([]Value, len(in.args))
				for i, a := range in.args {
					args[i] = f.get(a)
				}
				r := m.call(st, fv, args)
				if r == pending {
					break inner
				}
				if st.chq != nil {
					st.chq, st.chi = nil, 0
				}
				// the native may have copied the frame (it may have forked nothing, though)
				f = st.top()
				if in.dst >= 0 {
					f.regs[in.dst] = r
				}
				f.pc++
				if g2 := st.gs[st.cur]; g2.stat != gRun {
					break inner
				}
				continue
			case oInvoke:
				r := m.invoke(st, f, in)
				if r == pending {
					break inner
				}
				if st.chq != nil {
					st.chq, st.chi = nil, 0
				}
				f = st.top()
				if in.dst >= 0 {
					f.regs[in.dst] = r
				}
				f.pc++
				continue
			case oBuiltin:
				args := make([]Value, len(in.args))
				for i, a := range in.args {
					args[i] = f.get(a)
				}
				r := m.builtin(st, f, in, in.blt, args)
				if st.chq != nil {
					st.chq, st.chi = nil, 0
				}
				if in.dst >= 0 {
					f.regs[in.dst] = r
				}
			case oChangeType:
				f.regs[in.dst] = f.get(in.a)
			case oChangeIface:
				f.regs[in.dst] = f.get(in.a)
			case oConvert:
				f.regs[in.dst] = m.convert(st, in, f.get(in.a))
			case oMakeIface:
				v := f.get(in.a)
				f.regs[in.dst] = Iface{in.t1, v}
			case oTypeAssert:
				f.regs[in.dst] = m.typeAssert(st, in, f.get(in.a))
			case oExtract:
				f.regs[in.dst] = f.get(in.a).(Tuple)[in.n]
			case oLookup:
				f.regs[in.dst] = m.lookup(st, in, f.get(in.a), f.get(in.b))
			case oSlice:
				f.regs[in.dst] = m.slice(st, in, f)
			case oSliceToArr:
				s := m.rslice(st, f.get(in.a))
				n := tinfo(in.ti.U.(*types.Pointer).Elem()).n
				if int(s.n) < n {
					panic(goPanic{m.rtErr("cannot convert slice to array: too short")})
				}
				f.regs[in.dst] = Ptr{s.id, s.off}
			case oMakeSlice:
				n := int(int64(m.conc(st, f.get(in.a))))
				c := int(int64(m.conc(st, f.get(in.b))))
				if n < 0 || c < n {
					panic(goPanic{m.rtErr("makeslice: len out of range")})
				}
				if c > 1<<24 {
					m.unsupported("huge slice")
				}
				id := m.allocZero(st, in.ti.elem, c)
				f.regs[in.dst] = Slice{id, 0, int32(n), int32(c)}
			case oMakeMap:
				f.regs[in.dst] = m.makeMap(st, in.ti)
			case oMakeChan:
				n := m.concInt(st, f.get(in.a))
				id := m.alloc(st, nil, nil)
				st.wobj(id).ch = &ChanObj{cap: n, et: in.ti.elem}
				f.regs[in.dst] = ChanRef{id}
			case oMakeClosure:
				fr := make([]Value, len(in.args))
				for i, a := range in.args {
					fr[i] = f.get(a)
				}
				f.regs[in.dst] = &FuncV{fn: in.callee, free: fr}
			case oRange:
				f.regs[in.dst] = m.mkIter(st, in, f.get(in.a))
			case oNext:
				r, park := m.next(st, f, in)
				if park {
					return ctlPark
				}
				if st.chq != nil {
					st.chq, st.chi = nil, 0
				}
				f.regs[in.dst] = r
			case oMapUpdate:
				m.mapUpdate(st, f.get(in.a), f.get(in.b), f.get(in.args[0]), in.t1)
			case oSend, oRecv, oSelect:
				done := m.chanOp(st, f, in)
				if !done {
					break inner
				}
				st.sched = false
				st.chq, st.chi = nil, 0
				f = st.top()
			case oGo:
				m.goStmt(st, f, in)
				f = st.top()
			case oDefer:
				if in.flag {
					m.unsupported("defer stack")
				}
				d := deferRec{}
				switch opcode(in.n) {
				case oBuiltin:
					d.blt = in.blt
					d.binst = in
					for _, a := range in.args {
						d.args = append(d.args, f.get(a))
					}
				case oInvoke:
					fv, recv := m.resolveInvoke(st, f.get(in.a), in)
					d.fn = fv
					d.args = append(d.args, recv)
					for _, a := range in.args {
						d.args = append(d.args, f.get(a))
					}
				default:
					if in.dyn {
						v := f.get(in.a)
						if u, ok := v.(*Union); ok {
							v = m.pick(st, u)
						}
						d.fn, _ = v.(*FuncV)
					} else {
						d.fn = in.callee.fv
					}
					for _, a := range in.args {
						d.args = append(d.args, f.get(a))
					}
				}
				f.defers = append(f.defers, d)
			case oRunDefers:
				f.running = true
				m.runDefers(st)
				break inner
			case oPanic:
				m.lastPanic = m.where(st)
				v := f.get(in.a)
				if u, ok := v.(*Union); ok {
					v = m.pick(st, u)
				}
				if ifc, ok := v.(Iface); ok && ifc.t == nil {
					v = m.rtErr("panic called with nil argument (use GODEBUG=panicnil=1 to disable)")
				}
				m.startPanic(st, v)
				break inner
			case oReturn:
				var res Value
				switch len(in.args) {
				case 0:
				case 1:
					res = f.get(in.args[0])
				default:
					t := make(Tuple, len(in.args))
					for i, a := range in.args {
						t[i] = f.get(a)
					}
					res = t
				}
				m.ret(st, res)
				if m.merging && len(st.gs) == 1 && len(st.gs[0].frames) > 0 && m.others(st) {
					return ctlPark
				}
				break inner
			case oIf:
				c := f.get(in.a)
				b, ok := c.(bool)
				if !ok {
					b = m.decide(st, c)
				}
				to := blk.succs[1]
				if b {
					to = blk.succs[0]
				}
				if m.jump(st, f, to) && m.merging && m.others(st) {
					return ctlPark
				}
				continue
			case oJump:
				if m.jump(st, f, blk.succs[0]) && m.merging && m.others(st) {
					return ctlPark
				}
				continue
			default:
				m.unsupported(fmt.Sprintf("opcode %d", in.op))
			}
			f.pc++
		}
	}
}

func (m *Machine) others(st *State) bool { return len(m.work) > 0 }

// ---- memory

func (m *Machine) nilDeref() {
	panic(goPanic{m.rtErr("invalid memory address or nil pointer dereference")})
}

// SymPtr is a pointer to an element selected by a symbolic index.
type SymPtr struct {
	id, off   int32
	stride, n int32
	idx       *Term
}

func (m *Machine) load(st *State, a Value, ti *TypeInfo) Value {
	if u, ok := a.(*Union); ok {
		a = m.pick(st, u)
	}
	if sp, ok := a.(*SymPtr); ok {
		return m.loadSym(st, sp, ti)
	}
	p, ok := a.(Ptr)
	if !ok {
		m.unsupported(fmt.Sprintf("load through %T (%s)", a, ti.name))
	}
	if p.id == 0 {
		m.nilDeref()
	}
	o := m.getObj(st, p.id)
	if ti.agg {
		if int(p.off)+ti.size > len(o.slots) {
			m.unsupported("load out of object (aggregate)")
		}
		out := make(Agg, ti.size)
		copy(out, o.slots[p.off:])
		return out
	}
	if int(p.off) >= len(o.slots) {
		m.unsupported("load out of object")
	}
	return o.slots[p.off]
}

func (m *Machine) getObj(st *State, id int32) *Obj {
	o := st.obj(id)
	if o == nil {
		if int(id) <= len(m.p.gnames) {
			gl := m.p.gnames[id-1]
			if !m.p.initOK[gl.Pkg] && m.p.gdirty[gl] && !m.initMode {
				m.unsupported("global of uninitialised package: " + gl.String())
			}
			ti := tinfo(gl.Type().Underlying().(*types.Pointer).Elem())
			o = &Obj{tok: st.tok, slots: append([]Value(nil), ti.zero...), elem: ti, label: gl.String()}
			st.setObj(id, o)
			return o
		}
		panic(fmt.Sprintf("no object %d", id))
	}
	return o
}

func (m *Machine) store(st *State, a Value, ti *TypeInfo, v Value) {
	if u, ok := a.(*Union); ok {
		a = m.pick(st, u)
	}
	if sp, ok := a.(*SymPtr); ok {
		i := int32(m.conc(st, sp.idx))
		a = Ptr{sp.id, sp.off + i*sp.stride}
	}
	p, ok := a.(Ptr)
	if !ok {
		m.unsupported(fmt.Sprintf("store through %T", a))
	}
	if p.id == 0 {
		m.nilDeref()
	}
	m.getObj(st, p.id)
	o := st.wobj(p.id)
	if ti.agg {
		if u, ok := v.(*Union); ok {
			v = m.pick(st, u)
		}
		if int(p.off)+ti.size > len(o.slots) {
			m.unsupported("store out of object (aggregate)")
		}
		copy(o.slots[p.off:], v.(Agg))
		return
	}
	if int(p.off) >= len(o.slots) {
		m.unsupported("store out of object")
	}
	o.slots[p.off] = v
}

func (m *Machine) fieldAddr(st *State, a Value, off int) Value {
	if u, ok := a.(*Union); ok {
		a = m.pick(st, u)
	}
	if off < 0 {
		m.unsupported("field address of opaque type")
	}
	switch p := a.(type) {
	case Ptr:
		if p.id == 0 {
			m.nilDeref()
		}
		return Ptr{p.id, p.off + int32(off)}
	case *SymPtr:
		n := *p
		n.off += int32(off)
		return &n
	}
	m.unsupported(fmt.Sprintf("fieldaddr of %T", a))
	return nil
}

func (m *Machine) loadSym(st *State, sp *SymPtr, ti *TypeInfo) Value {
	o := m.getObj(st, sp.id)
	if ti.agg {
		i := int32(m.conc(st, sp.idx))
		return m.load(st, Ptr{sp.id, sp.off + i*sp.stride}, ti)
	}
	vals := make([]Value, sp.n)
	for i := int32(0); i < sp.n; i++ {
		vals[i] = o.slots[sp.off+i*sp.stride]
	}
	if v, ok := m.selectVal(vals, sp.idx, ti.sks[0]); ok {
		return v
	}
	i := int32(m.conc(st, sp.idx))
	return vals[i]
}

// selectVal builds vals[idx] as a term when the values are scalars.
func (m *Machine) selectVal(vals []Value, idx *Term, sk SK) (Value, bool) {
	if sk == skOther {
		return nil, false
	}
	w := sk.width()
	type grp struct {
		t     *Term
		conds []*Term
	}
	var order []*grp
	by := map[*Term]*grp{}
	for i, v := range vals {
		var t *Term
		if sk == skBool {
			t = m.bterm(v)
		} else {
			t = m.iterm(v, w)
		}
		g := by[t]
		if g == nil {
			g = &grp{t: t}
			by[t] = g
			order = append(order, g)
		}
		g.conds = append(g.conds, m.tt.Eq(idx, m.tt.Const(idx.w, uint64(i))))
	}
	sort.SliceStable(order, func(i, j int) bool { return len(order[i].conds) > len(order[j].conds) })
	res := order[0].t
	for _, g := range order[1:] {
		res = m.tt.Ite(m.tt.Or(g.conds...), g.t, res)
	}
	if sk == skBool {
		return bval(res), true
	}
	return ival(res), true
}

func (m *Machine) rslice(st *State, v Value) Slice {
	if u, ok := v.(*Union); ok {
		v = m.pick(st, u)
	}
	s, ok := v.(Slice)
	if !ok {
		m.unsupported(fmt.Sprintf("slice operand %T", v))
	}
	return s
}

// boundIdx checks 0 <= idx < n; returns a concrete index or a term.
func (m *Machine) boundIdx(st *State, in *inst, iv Value, n int) (int, *Term) {
	if u, ok := iv.(*Union); ok {
		iv = m.pick(st, u)
	}
	switch x := iv.(type) {
	case I:
		k := int64(x)
		if in.flag {
			k = sx(uint64(x), uint8(in.n))
		}
		if k < 0 || k >= int64(n) {
			panic(goPanic{m.rtErr(fmt.Sprintf("index out of range [%d] with length %d", k, n))})
		}
		return int(k), nil
	case *Term:
		var ok *Term
		if uint64(n) > mask(x.w) {
			ok = m.tt.tru
		} else {
			ok = m.tt.Ult(x, m.tt.Const(x.w, uint64(n)))
		}
		if !m.decide(st, bval(ok)) {
			panic(goPanic{m.rtErr("index out of range")})
		}
		return 0, x
	}
	panic(fmt.Sprintf("index %T", iv))
}

func (m *Machine) indexAddr(st *State, in *inst, a, iv Value) Value {
	if u, ok := a.(*Union); ok {
		a = m.pick(st, u)
	}
	switch x := a.(type) {
	case Slice:
		i, t := m.boundIdx(st, in, iv, int(x.n))
		es := in.t1.elem.size
		if t != nil {
			if x.n <= 300 {
				return &SymPtr{x.id, x.off, int32(es), x.n, t}
			}
			i = int(m.conc(st, t))
		}
		return Ptr{x.id, x.off + int32(i*es)}
	case Ptr:
		at := in.t1.elem // array type
		if x.id == 0 {
			m.nilDeref()
		}
		i, t := m.boundIdx(st, in, iv, at.n)
		es := at.elem.size
		if t != nil {
			if at.n <= 300 {
				return &SymPtr{x.id, x.off, int32(es), int32(at.n), t}
			}
			i = int(m.conc(st, t))
		}
		return Ptr{x.id, x.off + int32(i*es)}
	}
	m.unsupported(fmt.Sprintf("indexaddr %T", a))
	return nil
}

func (m *Machine) index(st *State, in *inst, a, iv Value) Value {
	if u, ok := a.(*Union); ok {
		a = m.pick(st, u)
	}
	switch x := a.(type) {
	case string, *SStr:
		i, t := m.boundIdx(st, in, iv, strLen(x))
		if t != nil {
			if r, ok := m.selectVal(strBytes(x), t, sk8); ok {
				return r
			}
		}
		return strAt(x, i)
	case Agg:
		at := in.t1
		i, t := m.boundIdx(st, in, iv, at.n)
		es := at.elem.size
		if t != nil {
			if !at.elem.agg {
				if r, ok := m.selectVal(x, t, at.elem.sks[0]); ok {
					return r
				}
			}
			i = int(m.conc(st, t))
		}
		if at.elem.agg {
			return x[i*es : (i+1)*es : (i+1)*es]
		}
		return x[i]
	}
	m.unsupported(fmt.Sprintf("index of %T", a))
	return nil
}

// ---- operators

func (m *Machine) binop(st *State, in *inst, a, b Value) Value {
	ti := in.t1
	switch in.tok {
	case gotok.EQL:
		return m.equalU(st, ti, a, b)
	case gotok.NEQ:
		return m.vnot(m.equalU(st, ti, a, b))
	}
	if u, ok := a.(*Union); ok {
		a = m.pick(st, u)
	}
	if u, ok := b.(*Union); ok {
		b = m.pick(st, u)
	}
	switch x := a.(type) {
	case I:
		if y, ok := b.(I); ok {
			return m.intOp(in, uint64(x), uint64(y))
		}
		if y, ok := b.(*Term); ok {
			return m.termOp(st, in, m.tt.Const(ti.w, uint64(x)), y)
		}
	case *Term:
		if x.w == 0 {
			switch in.tok {
			case gotok.AND:
				return m.vand(a, b)
			case gotok.OR:
				return m.vor(a, b)
			}
		}
		if in.tok == gotok.SHL || in.tok == gotok.SHR {
			var y *Term
			if k, ok := b.(I); ok {
				y = m.tt.Const(uint8(in.n), uint64(k))
			} else {
				y = b.(*Term)
			}
			return m.termOp(st, in, x, y)
		}
		return m.termOp(st, in, x, m.iterm(b, x.w))
	case bool:
		switch in.tok {
		case gotok.AND:
			return m.vand(a, b)
		case gotok.OR:
			return m.vor(a, b)
		}
	case float64:
		y := b.(float64)
		r := 0.0
		switch in.tok {
		case gotok.ADD:
			r = x + y
		case gotok.SUB:
			r = x - y
		case gotok.MUL:
			r = x * y
		case gotok.QUO:
			r = x / y
		case gotok.LSS:
			return x < y
		case gotok.LEQ:
			return x <= y
		case gotok.GTR:
			return x > y
		case gotok.GEQ:
			return x >= y
		}
		if bt, ok := ti.U.(*types.Basic); ok && bt.Kind() == types.Float32 {
			r = float64(float32(r))
		}
		return r
	case complex128:
		y := b.(complex128)
		switch in.tok {
		case gotok.ADD:
			return x + y
		case gotok.SUB:
			return x - y
		case gotok.MUL:
			return x * y
		case gotok.QUO:
			return x / y
		}
	case string, *SStr:
		switch in.tok {
		case gotok.ADD:
			return strCat(a, b)
		case gotok.LSS:
			return m.strLess(a, b, false)
		case gotok.LEQ:
			return m.strLess(a, b, true)
		case gotok.GTR:
			return m.strLess(b, a, false)
		case gotok.GEQ:
			return m.strLess(b, a, true)
		}
	}
	m.unsupported(fmt.Sprintf("binop %s on %T,%T", in.tok, a, b))
	return nil
}

func (m *Machine) equalU(st *State, ti *TypeInfo, a, b Value) Value {
	if ti.w == 0 {
		// slices, maps and funcs are compared with nil only
		switch ti.U.(type) {
		case *types.Slice:
			return m.isNilV(a, b)
		case *types.Map, *types.Signature:
		}
	}
	return m.equal(st, ti, a, b)
}

func (m *Machine) isNilV(a, b Value) Value {
	f := func(v Value) Value {
		switch x := v.(type) {
		case Slice:
			return x.id == 0
		case *Union:
			var or []*Term
			for _, al := range x.alts {
				if s, ok := al.v.(Slice); ok && s.id == 0 {
					or = append(or, al.g)
				}
			}
			return bval(m.tt.Or(or...))
		}
		return false
	}
	return m.vand(f(a), f(b))
}

func (m *Machine) intOp(in *inst, a, b uint64) Value {
	w := in.t1.w
	sg := in.t1.signed
	mk := mask(w)
	switch in.tok {
	case gotok.ADD:
		return I((a + b) & mk)
	case gotok.SUB:
		return I((a - b) & mk)
	case gotok.MUL:
		return I((a * b) & mk)
	case gotok.QUO, gotok.REM:
		if b == 0 {
			panic(goPanic{m.rtErr("integer divide by zero")})
		}
		if sg {
			if in.tok == gotok.QUO {
				return I(evalBin(tSdiv, w, a, b))
			}
			return I(evalBin(tSrem, w, a, b))
		}
		if in.tok == gotok.QUO {
			return I(a / b)
		}
		return I(a % b)
	case gotok.AND:
		return I(a & b)
	case gotok.OR:
		return I(a | b)
	case gotok.XOR:
		return I(a ^ b)
	case gotok.AND_NOT:
		return I(a &^ b)
	case gotok.SHL, gotok.SHR:
		if in.flag && sx(b, uint8(in.n)) < 0 {
			panic(goPanic{m.rtErr("negative shift amount")})
		}
		if in.tok == gotok.SHL {
			return I(evalBin(tShl, w, a, b))
		}
		if sg {
			return I(evalBin(tAshr, w, a, b))
		}
		return I(evalBin(tLshr, w, a, b))
	case gotok.LSS:
		if sg {
			return sx(a, w) < sx(b, w)
		}
		return a < b
	case gotok.LEQ:
		if sg {
			return sx(a, w) <= sx(b, w)
		}
		return a <= b
	case gotok.GTR:
		if sg {
			return sx(a, w) > sx(b, w)
		}
		return a > b
	case gotok.GEQ:
		if sg {
			return sx(a, w) >= sx(b, w)
		}
		return a >= b
	}
	panic("intOp " + in.tok.String())
}

func (m *Machine) termOp(st *State, in *inst, a, b *Term) Value {
	t := m.tt
	sg := in.t1.signed
	switch in.tok {
	case gotok.ADD:
		return ival(t.Bin(tAdd, a, b))
	case gotok.SUB:
		return ival(t.Bin(tSub, a, b))
	case gotok.MUL:
		return ival(t.Bin(tMul, a, b))
	case gotok.QUO, gotok.REM:
		if m.decide(st, bval(t.Eq(b, t.Const(b.w, 0)))) {
			panic(goPanic{m.rtErr("integer divide by zero")})
		}
		op := tUdiv
		switch {
		case in.tok == gotok.QUO && sg:
			op = tSdiv
		case in.tok == gotok.REM && sg:
			op = tSrem
		case in.tok == gotok.REM:
			op = tUrem
		}
		return ival(t.Bin(op, a, b))
	case gotok.AND:
		return ival(t.Bin(tBand, a, b))
	case gotok.OR:
		return ival(t.Bin(tBor, a, b))
	case gotok.XOR:
		return ival(t.Bin(tBxor, a, b))
	case gotok.AND_NOT:
		return ival(t.Bin(tBand, a, t.Bnot(b)))
	case gotok.SHL, gotok.SHR:
		if in.flag {
			if m.decide(st, bval(t.Slt(b, t.Const(b.w, 0)))) {
				panic(goPanic{m.rtErr("negative shift amount")})
			}
		}
		// bring the shift count to the width of a
		var c *Term
		if b.w <= a.w {
			c = t.Zext(b, a.w)
		} else {
			big := t.Ule(t.Const(b.w, uint64(a.w)), b)
			c = t.Ite(big, t.Const(a.w, uint64(a.w)), t.Extract(b, 0, a.w))
		}
		op := tShl
		if in.tok == gotok.SHR {
			op = tLshr
			if sg {
				op = tAshr
			}
		}
		if op == tAshr && c.isConst() && c.k >= uint64(a.w) {
			c = t.Const(a.w, uint64(a.w)-1)
		}
		return ival(t.Bin(op, a, c))
	case gotok.LSS:
		if sg {
			return bval(t.Slt(a, b))
		}
		return bval(t.Ult(a, b))
	case gotok.LEQ:
		if sg {
			return bval(t.Sle(a, b))
		}
		return bval(t.Ule(a, b))
	case gotok.GTR:
		if sg {
			return bval(t.Slt(b, a))
		}
		return bval(t.Ult(b, a))
	case gotok.GEQ:
		if sg {
			return bval(t.Sle(b, a))
		}
		return bval(t.Ule(b, a))
	}
	panic("termOp " + in.tok.String())
}

func (m *Machine) convert(st *State, in *inst, v Value) Value {
	from, to := in.t1, in.ti
	if u, ok := v.(*Union); ok {
		v = m.pick(st, u)
	}
	switch to.U.(type) {
	case *types.Pointer:
		return v // unsafe.Pointer -> *T
	}
	tb, _ := to.U.(*types.Basic)
	fb, _ := from.U.(*types.Basic)
	if tb != nil && tb.Kind() == types.UnsafePointer {
		return v
	}
	if tb != nil && fb != nil {
		switch {
		case tb.Info()&types.IsInteger != 0 && fb.Info()&types.IsInteger != 0:
			switch x := v.(type) {
			case I:
				if from.signed {
					return I(uint64(sx(uint64(x), from.w)) & mask(to.w))
				}
				return I(uint64(x) & mask(to.w))
			case *Term:
				if to.w <= from.w {
					return ival(m.tt.Extract(x, 0, to.w))
				}
				if from.signed {
					return ival(m.tt.Sext(x, to.w))
				}
				return ival(m.tt.Zext(x, to.w))
			case Ptr:
				return v
			}
		case tb.Info()&types.IsFloat != 0 && fb.Info()&types.IsInteger != 0:
			x := m.conc(st, v)
			var r float64
			if from.signed {
				r = float64(sx(x, from.w))
			} else {
				r = float64(x)
			}
			if tb.Kind() == types.Float32 {
				r = float64(float32(r))
			}
			return r
		case tb.Info()&types.IsInteger != 0 && fb.Info()&types.IsFloat != 0:
			x := v.(float64)
			if to.signed {
				return I(uint64(int64(x)) & mask(to.w))
			}
			if x >= math.MaxInt64 {
				return I(uint64(x))
			}
			return I(uint64(int64(x)) & mask(to.w))
		case tb.Info()&types.IsFloat != 0 && fb.Info()&types.IsFloat != 0:
			x := v.(float64)
			if tb.Kind() == types.Float32 {
				x = float64(float32(x))
			}
			return x
		case tb.Info()&types.IsComplex != 0:
			return v
		case tb.Info()&types.IsString != 0 && fb.Info()&types.IsInteger != 0:
			if t, ok := v.(*Term); ok {
				if m.decide(st, bval(m.tt.Ult(t, m.tt.Const(t.w, 0x80)))) {
					return mkStr([]Value{ival(m.tt.Extract(t, 0, 8))})
				}
			}
			x := sx(m.conc(st, v), from.w)
			if x < 0 || x > utf8.MaxRune {
				return "\uFFFD"
			}
			return string(rune(x))
		case tb.Info()&types.IsString != 0 && fb.Info()&types.IsString != 0:
			return v
		}
		if fb.Kind() == types.UnsafePointer || tb.Kind() == types.Uintptr {
			return v
		}
	}
	if tb != nil && tb.Info()&types.IsString != 0 {
		if sl, ok := from.U.(*types.Slice); ok {
			s := v.(Slice)
			if s.n == 0 {
				return ""
			}
			o := m.getObj(st, s.id)
			if tinfo(sl.Elem()).w == 8 {
				b := append([]Value(nil), o.slots[s.off:s.off+s.n]...)
				for _, x := range b {
					if _, ok := x.(*Union); ok {
						m.unsupported("union byte")
					}
				}
				return mkStr(b)
			}
			var res Value = ""
			for _, x := range o.slots[s.off : s.off+s.n] {
				if t, ok := x.(*Term); ok {
					if !m.decide(st, bval(m.tt.Ult(t, m.tt.Const(t.w, 0x80)))) {
						m.unsupported("non-ASCII symbolic rune")
					}
					res = strCat(res, mkStr([]Value{ival(m.tt.Extract(t, 0, 8))}))
				} else {
					res = strCat(res, string(rune(int32(x.(I)))))
				}
			}
			return res
		}
	}
	if sl, ok := to.U.(*types.Slice); ok && fb != nil && fb.Info()&types.IsString != 0 {
		if tinfo(sl.Elem()).w == 8 {
			b := strBytes(v)
			if len(b) == 0 {
				id := m.alloc(st, []Value{}, to.elem)
				return Slice{id, 0, 0, 0}
			}
			id := m.alloc(st, append([]Value(nil), b...), to.elem)
			return Slice{id, 0, int32(len(b)), int32(len(b))}
		}
		var rs []Value
		n := strLen(v)
		for i := 0; i < n; {
			r, sz := m.decodeRune(st, v, i)
			rs = append(rs, r)
			i += sz
		}
		id := m.alloc(st, rs, to.elem)
		return Slice{id, 0, int32(len(rs)), int32(len(rs))}
	}
	m.unsupported(fmt.Sprintf("convert %s -> %s", from.name, to.name))
	return nil
}

func (m *Machine) decodeRune(st *State, s Value, i int) (Value, int) {
	b := strAt(s, i)
	if t, ok := b.(*Term); ok {
		if m.decide(st, bval(m.tt.Ult(t, m.tt.Const(8, 0x80)))) {
			return ival(m.tt.Zext(t, 32)), 1
		}
		m.unsupported("non-ASCII symbolic byte")
	}
	if b.(I) < 0x80 {
		return b, 1
	}
	var buf []byte
	for j := i; j < strLen(s) && j < i+4; j++ {
		c, ok := strAt(s, j).(I)
		if !ok {
			// a symbolic byte is ASCII within the bound: it cannot continue the rune
			buf = append(buf, ' ')
			break
		}
		buf = append(buf, byte(c))
	}
	r, sz := utf8.DecodeRune(buf)
	return I(uint32(r)), sz
}

func (m *Machine) typeAssert(st *State, in *inst, v Value) Value {
	if u, ok := v.(*Union); ok {
		v = m.pick(st, u)
	}
	x, ok := v.(Iface)
	if !ok {
		m.unsupported(fmt.Sprintf("type assert on %T", v))
	}
	good := false
	if x.t != nil {
		if isIface(in.t1) {
			good = m.implements(x.t, in.t1)
		} else {
			good = x.t == in.t1
		}
	}
	if in.flag {
		if good {
			if isIface(in.t1) {
				return Tuple{x, true}
			}
			return Tuple{x.v, true}
		}
		return Tuple{in.t1.zeroValue(), false}
	}
	if !good {
		if x.t == nil {
			panic(goPanic{m.rtErr("interface conversion: interface is nil, not " + in.t1.name)})
		}
		panic(goPanic{m.rtErr("interface conversion: interface is " + x.t.name + ", not " + in.t1.name)})
	}
	if isIface(in.t1) {
		return x
	}
	return x.v
}

func (m *Machine) implements(t, it *TypeInfo) bool {
	key := "impl:" + it.name
	type pair struct {
		it *TypeInfo
		ok bool
	}
	if v, ok := t.msets.Load(key); ok {
		p := v.(pair)
		if p.it == it {
			return p.ok
		}
	}
	ok := types.Implements(t.T, it.U.(*types.Interface))
	t.msets.Store(key, pair{it, ok})
	return ok
}

func (m *Machine) method(t *TypeInfo, meth *types.Func) *FuncV {
	key := meth.Id()
	if v, ok := t.msets.Load(key); ok {
		return v.(*FuncV)
	}
	f := m.p.prog.LookupMethod(t.T, meth.Pkg(), meth.Name())
	if f == nil {
		m.unsupported("no method " + meth.Name() + " on " + t.name)
	}
	fv := m.p.fn(f).fv
	t.msets.Store(key, fv)
	return fv
}

func (m *Machine) resolveInvoke(st *State, v Value, in *inst) (*FuncV, Value) {
	if u, ok := v.(*Union); ok {
		v = m.pick(st, u)
	}
	x, ok := v.(Iface)
	if !ok {
		m.unsupported(fmt.Sprintf("invoke on %T", v))
	}
	if x.t == nil {
		m.nilDeref()
	}
	return m.method(x.t, in.meth), x.v
}

func (m *Machine) invoke(st *State, f *Frame, in *inst) Value {
	fv, recv := m.resolveInvoke(st, f.get(in.a), in)
	args := make([]Value, 0, len(in.args)+1)
	args = append(args, recv)
	for _, a := range in.args {
		args = append(args, f.get(a))
	}
	return m.call(st, fv, args)
}

func (m *Machine) slice(st *State, in *inst, f *Frame) Value {
	v := f.get(in.a)
	if u, ok := v.(*Union); ok {
		v = m.pick(st, u)
	}
	opt := func(k int) (int, bool) {
		if in.args[k] == math.MinInt32 {
			return 0, false
		}
		return int(int64(m.conc(st, f.get(in.args[k])))), true
	}
	lo, _ := opt(0)
	hi, hasHi := opt(1)
	mx, hasMax := opt(2)
	oob := func(what string, x int) {
		panic(goPanic{m.rtErr(fmt.Sprintf("slice bounds out of range [%s %d]", what, x))})
	}
	switch x := v.(type) {
	case string, *SStr:
		n := strLen(x)
		if !hasHi {
			hi = n
		}
		if hi < 0 || hi > n {
			oob(":", hi)
		}
		if lo < 0 || lo > hi {
			oob("", lo)
		}
		return strSub(x, lo, hi)
	case Slice:
		if !hasHi {
			hi = int(x.n)
		}
		if !hasMax {
			mx = int(x.c)
		}
		if mx < 0 || mx > int(x.c) {
			oob("::", mx)
		}
		if hi < 0 || hi > mx {
			oob(":", hi)
		}
		if lo < 0 || lo > hi {
			oob("", lo)
		}
		if x.id == 0 {
			return Slice{}
		}
		es := in.t1.elem.size
		return Slice{x.id, x.off + int32(lo*es), int32(hi - lo), int32(mx - lo)}
	case Ptr:
		at := in.t1.elem
		if x.id == 0 {
			m.nilDeref()
		}
		if !hasHi {
			hi = at.n
		}
		if !hasMax {
			mx = at.n
		}
		if mx < 0 || mx > at.n {
			oob("::", mx)
		}
		if hi < 0 || hi > mx {
			oob(":", hi)
		}
		if lo < 0 || lo > hi {
			oob("", lo)
		}
		es := at.elem.size
		return Slice{x.id, x.off + int32(lo*es), int32(hi - lo), int32(mx - lo)}
	}
	m.unsupported(fmt.Sprintf("slice of %T", v))
	return nil
}

// ---- maps

func (m *Machine) makeMap(st *State, ti *TypeInfo) Value {
	id := m.alloc(st, nil, nil)
	st.wobj(id).mp = &MapObj{kt: ti.key, vt: ti.elem, idx: map[any]int32{}}
	return MapRef{id}
}

func (m *Machine) rmap(st *State, v Value) (int32, *MapObj) {
	if u, ok := v.(*Union); ok {
		v = m.pick(st, u)
	}
	r, ok := v.(MapRef)
	if !ok {
		m.unsupported(fmt.Sprintf("map operand %T", v))
	}
	if r.id == 0 {
		return 0, nil
	}
	return r.id, st.obj(r.id).mp
}

func (m *Machine) deepPick(st *State, v Value) Value {
	if u, ok := v.(*Union); ok {
		v = m.pick(st, u)
	}
	switch x := v.(type) {
	case Iface:
		if u, ok := x.v.(*Union); ok {
			return Iface{x.t, m.pick(st, u)}
		}
	case Agg:
		for i, e := range x {
			if _, ok := e.(*Union); ok {
				n := append(Agg(nil), x...)
				for j := i; j < len(n); j++ {
					n[j] = m.deepPick(st, n[j])
				}
				return n
			}
		}
	}
	return v
}

// mapFind returns the index of the entry for key, or -1. Symbolic keys are resolved by forking.
func (m *Machine) mapFind(st *State, mp *MapObj, key Value) int {
	if nk, ok := normKey(key); ok {
		if x, isF := key.(Iface); isF && x.t != nil {
			switch x.t.U.(type) {
			case *types.Slice, *types.Map, *types.Signature:
				panic(goPanic{m.rtErr("hash of unhashable type " + x.t.name)})
			}
		}
		if i, ok := mp.idx[nk]; ok {
			return int(i)
		}
		if !mp.symKeys {
			return -1
		}
	}
	for i := range mp.ents {
		e := m.equal(st, mp.kt, mp.ents[i].key, key)
		if e == false {
			continue
		}
		if m.decide(st, e) {
			return i
		}
	}
	return -1
}

func (m *Machine) mapGet(st *State, mp *MapObj, key Value) (Value, Value) {
	zero := mp.vt.zeroValue()
	i := m.mapFind(st, mp, key)
	if i < 0 {
		return zero, false
	}
	e := &mp.ents[i]
	if b, ok := e.present.(bool); ok {
		if b {
			return e.val, true
		}
		return zero, false
	}
	if !m.merging {
		if m.decide(st, e.present) {
			return e.val, true
		}
		return zero, false
	}
	c := e.present.(*Term)
	if v, k := m.quick(st, c); k {
		if v {
			return e.val, true
		}
		return zero, false
	}
	v, ok := m.mergeVal(c, e.val, zero, mp.vt)
	if !ok {
		if m.decide(st, e.present) {
			return e.val, true
		}
		return zero, false
	}
	return v, e.present
}

func (m *Machine) lookup(st *State, in *inst, a, k Value) Value {
	if in.t1.key == nil {
		return m.index(st, in, a, k)
	}
	k = m.deepPick(st, k)
	if u, isU := a.(*Union); isU && m.merging {
		if v, ok, good := m.unionGet(st, u, k, in.t1.elem); good {
			if in.flag {
				return Tuple{v, ok}
			}
			return v
		}
	}
	_, mp := m.rmap(st, a)
	var v, ok Value
	if mp == nil {
		v, ok = in.t1.elem.zeroValue(), false
	} else {
		v, ok = m.mapGet(st, mp, k)
	}
	if in.flag {
		return Tuple{v, ok}
	}
	return v
}

func (m *Machine) mapUpdate(st *State, a, k, v Value, ti *TypeInfo) {
	k = m.deepPick(st, k)
	if u, isU := a.(*Union); isU && m.merging && m.unionSet(st, u, k, v, true) {
		return
	}
	id, mp := m.rmap(st, a)
	if mp == nil {
		panic(goPanic{m.rtErr("assignment to entry in nil map")})
	}
	i := m.mapFind(st, mp, k)
	mp = st.wobj(id).mp
	m.mapSet(mp, i, k, v)
}

func (m *Machine) mapSet(mp *MapObj, i int, k, v Value) {
	if i >= 0 {
		mp.ents[i].val = v
		mp.ents[i].present = true
		return
	}
	if nk, ok := normKey(k); ok {
		mp.idx[nk] = int32(len(mp.ents))
	} else {
		mp.symKeys = true
	}
	mp.ents = append(mp.ents, MapEntry{k, v, true})
}

func (m *Machine) mapLen(st *State, mp *MapObj) Value {
	n := 0
	var sum *Term
	for _, e := range mp.ents {
		switch p := e.present.(type) {
		case bool:
			if p {
				n++
			}
		case *Term:
			if v, k := m.quick(st, p); k {
				if v {
					n++
				}
				continue
			}
			b := m.tt.Ite(p, m.tt.Const(64, 1), m.tt.Const(64, 0))
			if sum == nil {
				sum = b
			} else {
				sum = m.tt.Bin(tAdd, sum, b)
			}
		}
	}
	if sum == nil {
		return I(n)
	}
	return ival(m.tt.Bin(tAdd, sum, m.tt.Const(64, uint64(n))))
}

// refAlts lists the alternatives of a union of map references that the path allows.
func (m *Machine) refAlts(st *State, u *Union) ([]Alt, bool) {
	var out []Alt
	for _, a := range u.alts {
		if _, ok := a.v.(MapRef); !ok {
			return nil, false
		}
		if v, k := m.quick(st, a.g); k && !v {
			continue
		}
		out = append(out, a)
	}
	return out, len(out) > 0
}

// unionGet looks a key up in a union of maps without choosing one of them.
func (m *Machine) unionGet(st *State, u *Union, k Value, vt *TypeInfo) (Value, Value, bool) {
	alts, ok := m.refAlts(st, u)
	if !ok {
		return nil, nil, false
	}
	nk, ok := normKey(k)
	if !ok {
		return nil, nil, false
	}
	var rv, rp Value
	for n := len(alts) - 1; n >= 0; n-- {
		a := alts[n]
		var v, p Value = vt.zeroValue(), false
		if id := a.v.(MapRef).id; id != 0 {
			mp := st.obj(id).mp
			if mp.symKeys {
				return nil, nil, false
			}
			if i, ok := mp.idx[nk]; ok {
				e := &mp.ents[i]
				v, p = e.val, e.present
				if t, isT := p.(*Term); isT {
					if v, ok = m.mergeVal(t, e.val, vt.zeroValue(), vt); !ok {
						return nil, nil, false
					}
				} else if p == false {
					v = vt.zeroValue()
				}
			}
		}
		if rv == nil {
			rv, rp = v, p
			continue
		}
		if rv, ok = m.mergeVal(a.g, v, rv, vt); !ok {
			return nil, nil, false
		}
		rp = bval(m.tt.Ite(a.g, m.bterm(p), m.bterm(rp)))
	}
	return rv, rp, true
}

// unionSet stores into (or deletes from) every map of a union under the condition that it is the one meant.
func (m *Machine) unionSet(st *State, u *Union, k, v Value, set bool) bool {
	alts, ok := m.refAlts(st, u)
	if !ok {
		return false
	}
	nk, ok := normKey(k)
	if !ok {
		return false
	}
	if x, isF := k.(Iface); isF && x.t != nil {
		return false
	}
	type upd struct {
		id int32
		i  int
		v  Value
		p  Value
	}
	var us []upd
	for _, a := range alts {
		id := a.v.(MapRef).id
		if id == 0 {
			if set {
				return false // may panic: choose
			}
			continue
		}
		mp := st.obj(id).mp
		if mp.symKeys {
			return false
		}
		i := -1
		if j, ok := mp.idx[nk]; ok {
			i = int(j)
		}
		switch {
		case set && i >= 0:
			nv, ok := m.mergeVal(a.g, v, mp.ents[i].val, mp.vt)
			if !ok {
				return false
			}
			us = append(us, upd{id, i, nv, bval(m.tt.Or(a.g, m.bterm(mp.ents[i].present)))})
		case set:
			us = append(us, upd{id, -1, v, bval(a.g)})
		case i >= 0:
			us = append(us, upd{id, i, mp.ents[i].val, bval(m.tt.And(m.tt.Not(a.g), m.bterm(mp.ents[i].present)))})
		}
	}
	for _, x := range us {
		mp := st.wobj(x.id).mp
		i := x.i
		if i < 0 {
			m.mapSet(mp, -1, k, x.v)
			i = len(mp.ents) - 1
		}
		mp.ents[i].val, mp.ents[i].present = x.v, x.p
	}
	return true
}

func (m *Machine) mkIter(st *State, in *inst, v Value) Value {
	if m.merging {
		if it := m.mergeIter(st, v); it != nil {
			id := m.alloc(st, nil, nil)
			st.wobj(id).it = it
			return IterRef{id}
		}
	}
	if u, ok := v.(*Union); ok {
		v = m.pick(st, u)
	}
	id := m.alloc(st, nil, nil)
	o := st.wobj(id)
	switch x := v.(type) {
	case string, *SStr:
		o.it = &IterObj{str: x}
	case MapRef:
		o.it = &IterObj{mp: x.id, arb: st.mapArb}
	default:
		m.unsupported(fmt.Sprintf("range over %T", v))
	}
	return IterRef{id}
}

// mergeIter makes an iterator with a fixed list of candidate keys over a map or a union of maps; entries inserted during
// the iteration are not visited, deleted ones are skipped.
func (m *Machine) mergeIter(st *State, v Value) *IterObj {
	var refs []MapRef
	switch x := v.(type) {
	case MapRef:
		refs = append(refs, x)
	case *Union:
		alts, ok := m.refAlts(st, x)
		if !ok {
			return nil
		}
		for _, a := range alts {
			refs = append(refs, a.v.(MapRef))
		}
	default:
		return nil
	}
	it := &IterObj{ref: v, keys: []Value{}}
	seen := map[any]bool{}
	for _, r := range refs {
		if r.id == 0 {
			continue
		}
		mp := st.obj(r.id).mp
		if mp.symKeys {
			return nil
		}
		for i := range mp.ents {
			if mp.ents[i].present == false {
				continue
			}
			nk, ok := normKey(mp.ents[i].key)
			if !ok {
				return nil
			}
			if !seen[nk] {
				seen[nk] = true
				it.keys = append(it.keys, mp.ents[i].key)
			}
		}
	}
	if n := len(it.keys); n > 1 {
		switch st.mapDir {
		case 1:
			for i := 0; i < n/2; i++ {
				it.keys[i], it.keys[n-1-i] = it.keys[n-1-i], it.keys[i]
			}
		case 2:
			it.keys = append(it.keys[n/2:n:n], it.keys[:n/2]...)
		}
	}
	return it
}

func (m *Machine) mergeNext(st *State, f *Frame, in *inst, id int32) (Value, bool) {
	kt, vt := in.t1.key, in.t1.elem
	for {
		it := st.obj(id).it
		if it.pos >= len(it.keys) {
			return Tuple{false, kt.zeroValue(), vt.zeroValue()}, false
		}
		k := it.keys[it.pos]
		var v, p Value
		switch x := it.ref.(type) {
		case MapRef:
			mp := st.obj(x.id).mp
			nk, _ := normKey(k)
			e := &mp.ents[mp.idx[nk]]
			v, p = e.val, e.present
		case *Union:
			var ok bool
			v, p, ok = m.unionGet(st, x, k, vt)
			if !ok {
				m.unsupported("range over a union of maps")
			}
		}
		take := m.decide(st, p)
		st.wobj(id).it.pos++
		if take {
			return Tuple{true, k, v}, false
		}
		if h := f.fn.blocks[f.blk].isHead; h >= 0 {
			f.iters[h]++
			if m.others(st) {
				return nil, true
			}
		}
	}
}

func (m *Machine) next(st *State, f *Frame, in *inst) (Value, bool) {
	r := f.get(in.a)
	if u, ok := r.(*Union); ok {
		r = m.pick(st, u)
	}
	id := r.(IterRef).id
	it := st.obj(id).it
	if it.keys != nil {
		return m.mergeNext(st, f, in, id)
	}
	if it.str != nil {
		if it.pos >= strLen(it.str) {
			return Tuple{false, I(0), I(0)}, false
		}
		rn, sz := m.decodeRune(st, it.str, it.pos)
		p := it.pos
		st.wobj(id).it.pos = p + sz
		return Tuple{true, I(p), rn}, false
	}
	kt, vt := in.t1.key, in.t1.elem
	if it.mp == 0 {
		return Tuple{false, kt.zeroValue(), vt.zeroValue()}, false
	}
	mp := st.obj(it.mp).mp
	if it.arb {
		var cand []int
		for i := range mp.ents {
			if i < len(it.done) && it.done[i] {
				continue
			}
			if m.decide(st, mp.ents[i].present) {
				cand = append(cand, i)
			}
		}
		if len(cand) == 0 {
			return Tuple{false, kt.zeroValue(), vt.zeroValue()}, false
		}
		c := cand[m.choose(st, len(cand))]
		w := st.wobj(id).it
		for len(w.done) <= c {
			w.done = append(w.done, false)
		}
		w.done[c] = true
		return Tuple{true, mp.ents[c].key, mp.ents[c].val}, false
	}
	for {
		if it.pos >= len(mp.ents) {
			return Tuple{false, kt.zeroValue(), vt.zeroValue()}, false
		}
		e := &mp.ents[it.pos]
		take := m.decide(st, e.present)
		it = st.wobj(id).it
		it.pos++
		if take {
			return Tuple{true, e.key, e.val}, false
		}
		if m.merging {
			if h := f.fn.blocks[f.blk].isHead; h >= 0 {
				f.iters[h]++
				if m.others(st) {
					return nil, true
				}
			}
		}
	}
}

// choose makes an unconstrained choice among n alternatives, forking.
func (m *Machine) choose(st *State, n int) int {
	if n == 1 {
		return 0
	}
	if st.chi < len(st.chq) {
		r := st.chq[st.chi]
		st.chi++
		return r
	}
	base := append([]int(nil), st.chq...)
	var alts []falt
	for i := 0; i < n; i++ {
		q := append(append([]int(nil), base...), i)
		alts = append(alts, falt{nil, nil, func(s *State) { s.chq = q; s.chi = 0 }})
	}
	panic(needFork{alts})
}

// ---- builtins

func (m *Machine) builtin(st *State, f *Frame, in *inst, name string, args []Value) Value {
	if len(args) == 0 {
		// recover
	} else if u, ok := args[0].(*Union); ok && m.merging {
		switch name {
		case "len":
			if alts, ok := m.refAlts(st, u); ok {
				var r Value
				for n := len(alts) - 1; n >= 0; n-- {
					var l Value = I(0)
					if id := alts[n].v.(MapRef).id; id != 0 {
						l = m.mapLen(st, st.obj(id).mp)
					}
					if r == nil {
						r = l
					} else {
						r = ival(m.tt.Ite(alts[n].g, m.iterm(l, 64), m.iterm(r, 64)))
					}
				}
				return r
			}
		case "delete":
			if m.unionSet(st, u, m.deepPick(st, args[1]), nil, false) {
				return nil
			}
		}
	}
	for i, a := range args {
		if u, ok := a.(*Union); ok {
			args[i] = m.pick(st, u)
		}
	}
	switch name {
	case "len":
		switch x := args[0].(type) {
		case string, *SStr:
			return I(strLen(x))
		case Slice:
			return I(x.n)
		case MapRef:
			if x.id == 0 {
				return I(0)
			}
			return m.mapLen(st, st.obj(x.id).mp)
		case ChanRef:
			if x.id == 0 {
				return I(0)
			}
			return I(len(st.obj(x.id).ch.buf))
		case Agg:
			return I(in.t1.n)
		case Ptr:
			return I(in.t1.elem.n)
		}
	case "cap":
		switch x := args[0].(type) {
		case Slice:
			return I(x.c)
		case ChanRef:
			if x.id == 0 {
				return I(0)
			}
			return I(st.obj(x.id).ch.cap)
		case Agg:
			return I(in.t1.n)
		case Ptr:
			return I(in.t1.elem.n)
		}
	case "append":
		return m.appendB(st, in.t1, args[0].(Slice), args[1])
	case "copy":
		dst := args[0].(Slice)
		es := in.t1.elem.size
		switch src := args[1].(type) {
		case Slice:
			n := min(dst.n, src.n)
			if n == 0 {
				return I(0)
			}
			so := m.getObj(st, src.id)
			tmp := append([]Value(nil), so.slots[src.off:int(src.off)+int(n)*es]...)
			m.getObj(st, dst.id)
			do := st.wobj(dst.id)
			copy(do.slots[dst.off:], tmp)
			return I(n)
		case string, *SStr:
			n := min(int(dst.n), strLen(src))
			if n == 0 {
				return I(0)
			}
			m.getObj(st, dst.id)
			do := st.wobj(dst.id)
			copy(do.slots[dst.off:int(dst.off)+n], strBytes(src)[:n])
			return I(n)
		}
	case "delete":
		k := m.deepPick(st, args[1])
		if u, isU := args[0].(*Union); isU && m.merging && m.unionSet(st, u, k, nil, false) {
			return nil
		}
		id, mp := m.rmap(st, args[0])
		if mp == nil {
			return nil
		}
		i := m.mapFind(st, mp, k)
		if i >= 0 {
			mp = st.wobj(id).mp
			mp.ents[i].present = false
			mp.ents[i].val = mp.vt.zeroValue()
		}
		return nil
	case "clear":
		switch x := args[0].(type) {
		case MapRef:
			if x.id != 0 {
				mp := st.wobj(x.id).mp
				for i := range mp.ents {
					mp.ents[i].present = false
				}
			}
			return nil
		case Slice:
			if x.n > 0 {
				m.getObj(st, x.id)
				o := st.wobj(x.id)
				e := in.t1.elem
				for i := 0; i < int(x.n); i++ {
					copy(o.slots[int(x.off)+i*e.size:], e.zero)
				}
			}
			return nil
		}
	case "close":
		return m.closeChan(st, args[0])
	case "panic":
		panic(goPanic{args[0]})
	case "recover":
		g := st.gor()
		top := g.frames[len(g.frames)-1]
		if top.isDefer && len(g.frames) >= 2 {
			p := st.frameAt(g, len(g.frames)-2)
			if p.panicking {
				p.panicking = false
				p.recovered = true
				v := p.panicVal
				if x, ok := v.(Iface); ok {
					return x
				}
				return Iface{tinfo(types.Typ[types.String]), v}
			}
		}
		return Iface{}
	case "print", "println":
		return nil
	case "ssa:wrapnilchk":
		if p, ok := args[0].(Ptr); ok && p.id == 0 {
			panic(goPanic{m.rtErr(fmt.Sprintf("value method %v.%v called using nil pointer", args[1], args[2]))})
		}
		return args[0]
	case "min", "max":
		r := args[0]
		for _, a := range args[1:] {
			tk := gotok.LSS
			if name == "max" {
				tk = gotok.GTR
			}
			c := m.binop(st, &inst{tok: tk, t1: in.t1}, a, r)
			if m.decide(st, c) {
				r = a
			}
		}
		return r
	case "String": // unsafe.String
		n := m.concInt(st, args[1])
		if n == 0 {
			return ""
		}
		p := args[0].(Ptr)
		o := m.getObj(st, p.id)
		return mkStr(append([]Value(nil), o.slots[p.off:int(p.off)+n]...))
	case "StringData":
		b := strBytes(args[0])
		id := m.alloc(st, append([]Value(nil), b...), tinfo(types.Typ[types.Uint8]))
		return Ptr{id, 0}
	case "SliceData":
		s := args[0].(Slice)
		return Ptr{s.id, s.off}
	case "Slice": // unsafe.Slice
		p := args[0].(Ptr)
		n := m.concInt(st, args[1])
		if p.id == 0 {
			return Slice{}
		}
		return Slice{p.id, p.off, int32(n), int32(n)}
	case "Add":
		p := args[0].(Ptr)
		n := m.concInt(st, args[1])
		if n == 0 {
			return p
		}
	case "real":
		return real(args[0].(complex128))
	case "imag":
		return imag(args[0].(complex128))
	case "complex":
		return complex(args[0].(float64), args[1].(float64))
	}
	m.unsupported(fmt.Sprintf("builtin %s(%T)", name, args[0]))
	return nil
}

func (m *Machine) appendB(st *State, ti *TypeInfo, s Slice, more Value) Value {
	es := ti.elem.size
	var src []Value
	var n int
	switch x := more.(type) {
	case Slice:
		n = int(x.n)
		if n > 0 {
			src = m.getObj(st, x.id).slots[x.off : int(x.off)+n*es]
		}
	case string, *SStr:
		src = strBytes(x)
		n = len(src)
	default:
		m.unsupported(fmt.Sprintf("append %T", more))
	}
	if n == 0 {
		return s
	}
	if int(s.n)+n <= int(s.c) && s.id != 0 {
		src = append([]Value(nil), src...)
		m.getObj(st, s.id)
		o := st.wobj(s.id)
		copy(o.slots[int(s.off)+int(s.n)*es:], src)
		return Slice{s.id, s.off, s.n + int32(n), s.c}
	}
	nc := growCap(int(s.c), int(s.n)+n, es, ti.elem)
	slots := make([]Value, 0, nc*es)
	if s.n > 0 {
		slots = append(slots, m.getObj(st, s.id).slots[s.off:int(s.off)+int(s.n)*es]...)
	}
	slots = append(slots, src...)
	for i := int(s.n) + n; i < nc; i++ {
		slots = append(slots, ti.elem.zero...)
	}
	id := m.alloc(st, slots, ti.elem)
	return Slice{id, 0, s.n + int32(n), int32(nc)}
}

// growCap follows the runtime's growth policy closely enough for aliasing questions.
func growCap(old, need, es int, ti *TypeInfo) int {
	nc := old
	dbl := old * 2
	if need > dbl {
		nc = need
	} else if old < 256 {
		nc = dbl
	} else {
		for nc < need {
			nc += (nc + 3*256) / 4
		}
	}
	// size classes
	sz := int(goSize(ti))
	if sz == 0 {
		return nc
	}
	bytes := nc * sz
	classes := []int{8, 16, 24, 32, 48, 64, 80, 96, 112, 128, 144, 160, 176, 192, 208, 224, 240, 256, 288, 320, 352, 384, 416, 448, 480, 512, 576, 640, 704, 768, 896, 1024, 1152, 1280, 1408, 1536, 1792, 2048, 2304, 2688, 3072, 3200, 3456, 4096}
	for _, c := range classes {
		if bytes <= c {
			return c / sz
		}
	}
	return nc
}

var gosizes = types.SizesFor("gc", "amd64")

func goSize(ti *TypeInfo) int64 { return gosizes.Sizeof(ti.T) }

// ---- goroutines and channels

type waitCase struct {
	ch   int32
	send bool
	v    Value
	idx  int
}

type waitRec struct {
	cases []waitCase
	done  bool
	idx   int
	v     Value
	ok    bool
	boom  bool
	until func(st *State) bool // for locks: condition to become runnable
}

func (m *Machine) goStmt(st *State, f *Frame, in *inst) {
	var fv *FuncV
	var args []Value
	switch opcode(in.n) {
	case oInvoke:
		x, recv := m.resolveInvoke(st, f.get(in.a), in)
		fv = x
		args = append(args, recv)
	case oBuiltin:
		m.unsupported("go builtin")
	default:
		if in.dyn {
			v := f.get(in.a)
			if u, ok := v.(*Union); ok {
				v = m.pick(st, u)
			}
			fv, _ = v.(*FuncV)
		} else {
			fv = in.callee.fv
		}
	}
	for _, a := range in.args {
		args = append(args, f.get(a))
	}
	if fv == nil {
		m.nilDeref()
	}
	if m.merging {
		m.unsupported("goroutine in merging mode")
	}
	m.p.prep(fv.fn)
	if fv.fn.native != nil {
		m.unsupported("go native")
	}
	g := &Gor{tok: st.tok, id: len(st.gs)}
	g.frames = []*Frame{m.newFrame(st, fv.fn, args, fv.free)}
	st.gs = append(st.gs, g)
}

func (m *Machine) runnable(st *State) []int {
	var out []int
	for i, g := range st.gs {
		if g.stat == gRun && len(g.frames) > 0 {
			out = append(out, i)
		} else if g.stat == gBlocked && g.wait != nil && g.wait.until != nil && g.wait.until(st) {
			out = append(out, i)
		}
	}
	return out
}

// schedule is called when the current goroutine cannot continue.
func (m *Machine) schedule(st *State) (ctl, bool) {
	if len(st.gs[0].frames) == 0 {
		return ctlDone, true
	}
	r := m.runnable(st)
	if len(r) == 0 {
		panic(deadlockT{})
	}
	var c int
	switch st.schDir {
	case 1:
		c = r[0]
	case 2:
		c = r[len(r)-1]
	default:
		c = r[m.choose(st, len(r))]
	}
	st.chq, st.chi = nil, 0
	m.switchTo(st, c)
	return 0, false
}

func (m *Machine) switchTo(st *State, c int) {
	st.cur = c
	g := st.gor()
	if g.stat == gBlocked {
		g.stat = gRun
		g.wait = nil
	}
	f := g.frames[len(g.frames)-1]
	in := &f.fn.blocks[f.blk].ins[f.pc]
	if n := len(f.defers); f.running && n > 0 {
		st.sched = f.defers[n-1].blt == "close"
		return
	}
	st.sched = isVisible(in)
}

func isVisible(in *inst) bool {
	switch in.op {
	case oSend, oRecv, oSelect:
		return true
	case oBuiltin:
		return in.blt == "close"
	}
	return false
}

// visible is a scheduling point before a visible operation.
func (m *Machine) visible(st *State) bool {
	if st.sched {
		return true
	}
	r := m.runnable(st)
	if len(r) <= 1 {
		st.sched = true
		return true
	}
	switch st.schDir {
	case 1:
		r = r[:1]
	case 2:
		r = r[len(r)-1:]
	}
	if len(r) == 1 && r[0] == st.cur {
		st.sched = true
		return true
	}
	var alts []falt
	for _, i := range r {
		i := i
		alts = append(alts, falt{nil, nil, func(s *State) {
			if i == s.cur {
				s.sched = true
			} else {
				m.switchTo(s, i)
			}
		}})
	}
	panic(needFork{alts})
}

func (m *Machine) waiters(st *State, ch int32, send bool) []int {
	var out []int
	for i, g := range st.gs {
		if i == st.cur || g.stat != gBlocked || g.wait == nil || g.wait.done {
			continue
		}
		for _, c := range g.wait.cases {
			if c.ch == ch && c.send == send {
				out = append(out, i)
				break
			}
		}
	}
	return out
}

func (m *Machine) complete(st *State, gi int, ch int32, send bool, v Value, ok bool) Value {
	g := st.wgor(gi)
	w := *g.wait
	for _, c := range w.cases {
		if c.ch == ch && c.send == send {
			w.idx = c.idx
			w.done = true
			if send {
				v = c.v
			}
			break
		}
	}
	if !send {
		w.v, w.ok = v, ok
	}
	g.wait = &w
	g.stat = gRun
	return v
}

// ready reports whether the case can proceed now.
func (m *Machine) ready(st *State, c waitCase) bool {
	if c.ch == 0 {
		return false
	}
	ch := st.obj(c.ch).ch
	if c.send {
		return ch.closed || len(ch.buf) < ch.cap || len(m.waiters(st, c.ch, false)) > 0
	}
	return len(ch.buf) > 0 || ch.closed || len(m.waiters(st, c.ch, true)) > 0
}

// perform executes a ready case; returns the received value.
func (m *Machine) perform(st *State, c waitCase) (Value, bool) {
	ch := st.obj(c.ch).ch
	if c.send {
		if ch.closed {
			panic(goPanic{m.rtErr2("send on closed channel")})
		}
		if ws := m.waiters(st, c.ch, false); len(ws) > 0 {
			w := ws[m.choose(st, len(ws))]
			m.complete(st, w, c.ch, false, c.v, true)
			return nil, false
		}
		o := st.wobj(c.ch).ch
		o.buf = append(o.buf, c.v)
		return nil, false
	}
	if len(ch.buf) > 0 {
		ws := m.waiters(st, c.ch, true)
		k := 0
		if len(ws) > 0 {
			k = m.choose(st, len(ws))
		}
		o := st.wobj(c.ch).ch
		v := o.buf[0]
		o.buf = o.buf[1:]
		if len(ws) > 0 {
			sv := m.complete(st, ws[k], c.ch, true, nil, true)
			o.buf = append(o.buf, sv)
		}
		return v, true
	}
	if ws := m.waiters(st, c.ch, true); len(ws) > 0 {
		w := ws[m.choose(st, len(ws))]
		v := m.complete(st, w, c.ch, true, nil, true)
		return v, true
	}
	return ch.et.zeroValue(), false
}

func (m *Machine) rtErr2(msg string) Value {
	return Iface{tinfo(m.p.rtErrType()), msg}
}

func (m *Machine) rchan(st *State, v Value) int32 {
	if u, ok := v.(*Union); ok {
		v = m.pick(st, u)
	}
	return v.(ChanRef).id
}

// chanOp returns false when the goroutine blocked.
func (m *Machine) chanOp(st *State, f *Frame, in *inst) bool {
	g := st.gs[st.cur]
	var cases []waitCase
	blocking := true
	switch in.op {
	case oSend:
		cases = []waitCase{{m.rchan(st, f.get(in.a)), true, f.get(in.b), 0}}
	case oRecv:
		cases = []waitCase{{m.rchan(st, f.get(in.a)), false, nil, 0}}
	case oSelect:
		blocking = in.flag
		for i, s := range in.sel {
			c := waitCase{ch: m.rchan(st, f.get(s.ch)), send: s.send, idx: i}
			if s.send {
				c.v = f.get(s.v)
			}
			cases = append(cases, c)
		}
	}
	finish := func(idx int, v Value, ok bool) {
		f := st.top()
		switch in.op {
		case oRecv:
			if in.flag {
				f.regs[in.dst] = Tuple{v, ok}
			} else {
				f.regs[in.dst] = v
			}
		case oSelect:
			t := Tuple{I(uint64(int64(idx))), ok}
			for i, s := range in.sel {
				if !s.send {
					if i == idx {
						t = append(t, v)
					} else {
						t = append(t, s.et.zeroValue())
					}
				}
			}
			f.regs[in.dst] = t
		}
	}
	if g.wait != nil {
		w := g.wait
		if !w.done {
			panic("resumed without completion")
		}
		g = st.gor()
		g.wait = nil
		if w.boom {
			panic(goPanic{m.rtErr2("send on closed channel")})
		}
		finish(w.idx, w.v, w.ok)
		return true
	}
	m.visible(st)
	var ready []waitCase
	for _, c := range cases {
		if m.ready(st, c) {
			ready = append(ready, c)
		}
	}
	if len(ready) > 0 {
		c := ready[m.choose(st, len(ready))]
		v, ok := m.perform(st, c)
		finish(c.idx, v, ok)
		return true
	}
	if !blocking {
		finish(-1, nil, false)
		return true
	}
	g = st.gor()
	g.wait = &waitRec{cases: cases}
	g.stat = gBlocked
	st.sched = false
	return false
}

func (m *Machine) closeChan(st *State, v Value) Value {
	m.visible(st)
	id := v.(ChanRef).id
	if id == 0 {
		panic(goPanic{m.rtErr2("close of nil channel")})
	}
	if st.obj(id).ch.closed {
		panic(goPanic{m.rtErr2("close of closed channel")})
	}
	o := st.wobj(id).ch
	o.closed = true
	for _, w := range m.waiters(st, id, false) {
		m.complete(st, w, id, false, o.et.zeroValue(), false)
	}
	for _, w := range m.waiters(st, id, true) {
		m.complete(st, w, id, true, nil, false)
		g := st.wgor(w)
		wr := *g.wait
		wr.boom = true
		g.wait = &wr
	}
	st.sched = false
	return nil
}

var _ ssa.Value

// stepProf counts, per function, samples of the interpreted steps (development only).
var stepProf map[string][2]int
var stepMu sync.Mutex

func (m *Machine) sampleSteps(st *State) {
	stepMu.Lock()
	defer stepMu.Unlock()
	seen := map[string]bool{}
	fs := st.gs[st.cur].frames
	for i := len(fs) - 1; i >= 0; i-- {
		n := fs[i].fn.name
		x := stepProf[n]
		if i == len(fs)-1 {
			x[0]++
		}
		if !seen[n] {
			x[1]++
			seen[n] = true
		}
		stepProf[n] = x
	}
}
