package main

import (
	"fmt"
)

type token struct{ _ byte }

// ---- heap: persistent two-level table of objects, copy on write by owner token

const pageBits = 6
const pageSize = 1 << pageBits

type page struct {
	tok  *token
	objs [pageSize]*Obj
}

type Heap struct {
	pages []*page
	next  int32
}

type Obj struct {
	tok   *token
	slots []Value
	elem  *TypeInfo // slot pattern
	mp    *MapObj
	ch    *ChanObj
	it    *IterObj
	label string
}

type MapEntry struct {
	key, val Value
	present  Value // bool | *Term
}

type MapObj struct {
	kt, vt  *TypeInfo
	ents    []MapEntry
	idx     map[any]int32
	symKeys bool
}

type ChanObj struct {
	cap    int
	buf    []Value
	closed bool
	et     *TypeInfo
}

type IterObj struct {
	mp   int32 // map object id
	pos  int
	lim  int
	str  Value
	done []bool // visited entries, in arbitrary-order mode
	arb  bool
	ref  Value   // merging mode: a map or a union of maps
	keys []Value // merging mode: candidate keys
}

func (o *Obj) clone(tok *token) *Obj {
	n := &Obj{tok: tok, elem: o.elem, label: o.label}
	if o.slots != nil {
		n.slots = append([]Value(nil), o.slots...)
	}
	if o.mp != nil {
		c := *o.mp
		c.ents = append([]MapEntry(nil), o.mp.ents...)
		c.idx = make(map[any]int32, len(o.mp.idx))
		for k, v := range o.mp.idx {
			c.idx[k] = v
		}
		n.mp = &c
	}
	if o.ch != nil {
		c := *o.ch
		c.buf = append([]Value(nil), o.ch.buf...)
		n.ch = &c
	}
	if o.it != nil {
		c := *o.it
		c.done = append([]bool(nil), o.it.done...)
		n.it = &c
	}
	return n
}

func (st *State) obj(id int32) *Obj {
	pi := int(id >> pageBits)
	if pi < len(st.heap.pages) {
		if p := st.heap.pages[pi]; p != nil {
			if o := p.objs[id&(pageSize-1)]; o != nil {
				return o
			}
		}
	}
	return nil
}

func (st *State) setObj(id int32, o *Obj) {
	pi := int(id >> pageBits)
	for pi >= len(st.heap.pages) {
		st.heap.pages = append(st.heap.pages, nil)
	}
	p := st.heap.pages[pi]
	if p == nil {
		p = &page{tok: st.tok}
		st.heap.pages[pi] = p
	} else if p.tok != st.tok {
		np := &page{tok: st.tok, objs: p.objs}
		p = np
		st.heap.pages[pi] = p
	}
	p.objs[id&(pageSize-1)] = o
}

// wobj returns a writable object.
func (st *State) wobj(id int32) *Obj {
	o := st.obj(id)
	if o == nil {
		panic(fmt.Sprintf("wobj: no object %d", id))
	}
	if o.tok == st.tok {
		return o
	}
	o = o.clone(st.tok)
	st.setObj(id, o)
	return o
}

func (m *Machine) newID(st *State) int32 {
	if m.globalIDs {
		m.nextID++
		return m.nextID
	}
	st.heap.next++
	return st.heap.next
}

func (m *Machine) alloc(st *State, slots []Value, elem *TypeInfo) int32 {
	id := m.newID(st)
	st.setObj(id, &Obj{tok: st.tok, slots: slots, elem: elem})
	return id
}

func (m *Machine) allocZero(st *State, ti *TypeInfo, n int) int32 {
	if ti.zero == nil && ti.size > 0 {
		m.unsupported("huge array " + ti.name)
	}
	if n == 1 {
		return m.alloc(st, append([]Value(nil), ti.zero...), ti)
	}
	s := make([]Value, 0, n*ti.size)
	for i := 0; i < n; i++ {
		s = append(s, ti.zero...)
	}
	return m.alloc(st, s, ti)
}

// ---- state

type Frame struct {
	tok       *token
	fn        *FnInfo
	regs      []Value
	blk       int32
	pc        int32
	iters     []int32
	defers    []deferRec
	running   bool // running its deferred calls
	panicking bool
	panicVal  Value
	recovered bool
	isDefer   bool                                   // this frame is a deferred call of the frame below
	discard   bool                                   // result is not wanted
	cont      func(m *Machine, st *State, res Value) // native continuation on return (immutable closure)
}

type deferRec struct {
	fn    *FuncV
	blt   string
	args  []Value
	binst *inst
}

type gstat uint8

const (
	gRun gstat = iota
	gBlocked
	gDone
)

type Gor struct {
	tok    *token
	frames []*Frame
	stat   gstat
	wait   *waitRec
	id     int
}

type obsRec struct {
	label string
	val   Value
}

type State struct {
	id     int
	tok    *token
	pc     []*Term
	dom    [][4]uint64
	multi  []bool
	model  []uint64
	heap   Heap
	gs     []*Gor
	cur    int
	steps  int
	obs    []obsRec
	reach  []string
	sched  bool // scheduling decision already taken for the current visible operation
	mapArb bool
	unsure bool
	parked bool
	fresh  bool
	forks  int
	clk    int
	chq    []int
	chi    int
	fence  int
	mapDir int
	schDir int  // 0 all interleavings, 1 the lowest goroutine goes on, 2 the highest
	panics bool // a panic breaks the checked property, whichever it is
	names  []string
	memos  []*memoRec
}

func (m *Machine) cloneState(st *State) *State {
	m.nstates++
	n := *st
	n.id = m.nstates
	n.tok = &token{}
	st.tok = &token{}
	n.pc = st.pc[:len(st.pc):len(st.pc)]
	st.pc = n.pc
	n.dom = append([][4]uint64(nil), st.dom...)
	n.multi = append([]bool(nil), st.multi...)
	n.heap.pages = append([]*page(nil), st.heap.pages...)
	n.gs = append([]*Gor(nil), st.gs...)
	n.obs = st.obs[:len(st.obs):len(st.obs)]
	st.obs = n.obs
	n.reach = st.reach[:len(st.reach):len(st.reach)]
	st.reach = n.reach
	n.names = st.names[:len(st.names):len(st.names)]
	st.names = n.names
	return &n
}

func (st *State) gor() *Gor {
	g := st.gs[st.cur]
	if g.tok != st.tok {
		c := *g
		c.tok = st.tok
		c.frames = append(make([]*Frame, 0, len(g.frames)+8), g.frames...)
		st.gs[st.cur] = &c
		g = &c
	}
	return g
}

func (st *State) wgor(i int) *Gor {
	g := st.gs[i]
	if g.tok != st.tok {
		c := *g
		c.tok = st.tok
		c.frames = append(make([]*Frame, 0, len(g.frames)+8), g.frames...)
		st.gs[i] = &c
		g = &c
	}
	return g
}

func (st *State) frameAt(g *Gor, i int) *Frame {
	f := g.frames[i]
	if f.tok != st.tok {
		c := *f
		c.tok = st.tok
		c.regs = append([]Value(nil), f.regs...)
		if f.iters != nil {
			c.iters = append([]int32(nil), f.iters...)
		}
		c.defers = append([]deferRec(nil), f.defers...)
		g.frames[i] = &c
		f = &c
	}
	return f
}

func (st *State) top() *Frame {
	g := st.gor()
	return st.frameAt(g, len(g.frames)-1)
}

// ---- path condition

func (m *Machine) addPC(st *State, t *Term) {
	if t.op == tAnd {
		for _, a := range t.args {
			m.addPC(st, a)
		}
		return
	}
	if t.isConst() {
		if t.k == 0 {
			panic("addPC false")
		}
		return
	}
	for _, x := range st.pc {
		if x == t {
			return
		}
	}
	st.pc = append(st.pc, t)
	if t.sup >= 0 {
		if tt := m.tt.truthTable(t); tt != nil {
			m.growDom(st, int(t.sup)+1)
			d := &st.dom[t.sup]
			for i := range d {
				d[i] &= tt[i]
			}
			return
		}
	}
	vs := m.tt.varSet(t)
	for i, w := range vs {
		for b := 0; b < 64; b++ {
			if w>>b&1 != 0 {
				m.growDom(st, i*64+b+1)
				st.multi[i*64+b] = true
			}
		}
	}
}

func (m *Machine) growDom(st *State, n int) {
	for len(st.dom) < n {
		i := len(st.dom)
		var d [4]uint64
		v := m.tt.vars[i]
		k := uint64(256)
		if v.w < 8 {
			k = 1 << v.w
			if v.w == 0 {
				k = 2
			}
		}
		for j := uint64(0); j < k; j++ {
			d[j/64] |= 1 << (j % 64)
		}
		st.dom = append(st.dom, d)
		st.multi = append(st.multi, v.w > 8)
	}
}

// quick evaluates t from the facts of the path condition without the solver.
func (m *Machine) quick(st *State, t *Term) (bool, bool) {
	if t.isConst() {
		return t.k != 0, true
	}
	if !m.merging {
		return m.quick1(st, t, m.quick)
	}
	// the answers depend on the path condition only: keep them until it changes
	q := &m.qm
	same := q.memo != nil && q.st == st.id && len(q.pc) == len(st.pc)
	if same && len(q.pc) > 0 {
		same = q.pc[len(q.pc)-1] == st.pc[len(q.pc)-1] && q.pc[0] == st.pc[0]
	}
	if !same || len(q.memo) > 200000 {
		q.st, q.pc = st.id, st.pc
		q.memo = map[*Term]int8{}
		for _, x := range st.pc {
			q.memo[x] = 1
			q.memo[m.tt.Not(x)] = -1
		}
	}
	return m.quickMemo(st, t)
}

type quickMemo struct {
	st   int
	pc   []*Term
	memo map[*Term]int8
}

func (m *Machine) quickMemo(st *State, t *Term) (bool, bool) {
	if t.isConst() {
		return t.k != 0, true
	}
	if r, ok := m.qm.memo[t]; ok {
		return r > 0, r != 0
	}
	v, k := m.quick1(st, t, m.quickMemo)
	r := int8(0)
	if k {
		r = -1
		if v {
			r = 1
		}
	}
	m.qm.memo[t] = r
	return v, k
}

func (m *Machine) quick1(st *State, t *Term, rec func(st *State, t *Term) (bool, bool)) (bool, bool) {
	if !m.merging {
		for _, x := range st.pc {
			if x == t {
				return true, true
			}
		}
	}
	if t.sup >= 0 {
		if tt := m.tt.truthTable(t); tt != nil {
			m.growDom(st, int(t.sup)+1)
			d := st.dom[t.sup]
			some, all := false, true
			for i := range d {
				if d[i]&tt[i] != 0 {
					some = true
				}
				if d[i]&^tt[i] != 0 {
					all = false
				}
			}
			if !some {
				return false, true
			}
			if all {
				return true, true
			}
		}
	}
	switch t.op {
	case tNot:
		v, k := rec(st, t.args[0])
		return !v, k
	case tAnd:
		all := true
		for _, a := range t.args {
			v, k := rec(st, a)
			if k && !v {
				return false, true
			}
			if !k {
				all = false
			}
		}
		if all {
			return true, true
		}
	case tOr:
		all := true
		for _, a := range t.args {
			v, k := rec(st, a)
			if k && v {
				return true, true
			}
			if !k {
				all = false
			}
		}
		if all {
			return false, true
		}
	case tIte:
		if v, k := rec(st, t.args[0]); k {
			if v {
				return rec(st, t.args[1])
			}
			return rec(st, t.args[2])
		}
	}
	if m.merging {
		return false, false
	}
	n := m.tt.Not(t)
	if n.op != tNot {
		for _, x := range st.pc {
			if x == n {
				return false, true
			}
		}
	} else {
		for _, x := range st.pc {
			if x.op == tNot && x.args[0] == t {
				return false, true
			}
		}
	}
	return false, false
}

// feasible decides pc && t; returns a model when it is.
func (m *Machine) feasible(st *State, t *Term) (Res, []uint64) {
	if v, k := m.quick(st, t); k {
		if v {
			return Sat, st.model
		}
		m.stat.quick++
		return Unsat, nil
	}
	if m.tt.eval(t, st.model, m.memo()) != 0 {
		m.stat.modelHits++
		return Sat, st.model
	}
	if t.sup >= 0 && !st.multi[t.sup] {
		if tt := m.tt.truthTable(t); tt != nil {
			d := st.dom[t.sup]
			for i := range d {
				d[i] &= tt[i]
			}
			model := append([]uint64(nil), st.model...)
			for len(model) <= int(t.sup) {
				model = append(model, m.tt.vars[len(model)].lo)
			}
			model[t.sup] = firstTT(&d)
			m.stat.quick++
			return Sat, model
		}
	}
	m.stat.queries++
	return m.solver.Check(st.pc, t)
}

func (m *Machine) memo() map[*Term]uint64 {
	return map[*Term]uint64{}
}

type falt struct {
	cond  *Term
	model []uint64
	do    func(st *State)
}

// needFork is thrown (as a Go panic) by restartable operations.
type needFork struct{ alts []falt }

type goPanic struct{ v Value }
type unsup struct{ msg string }
type pathEnd struct{ why string } // the path ends silently (assumption, bound)

func (m *Machine) unsupported(msg string) { panic(unsup{msg}) }

// decide returns the truth of t on this path, forking when both are possible.
func (m *Machine) decide(st *State, v Value) bool {
	t, ok := v.(*Term)
	if !ok {
		if u, ok := v.(*Union); ok {
			return m.decide(st, m.pick(st, u))
		}
		return v.(bool)
	}
	if b, k := m.quick(st, t); k {
		return b
	}
	nt := m.tt.Not(t)
	r1, m1 := m.feasible(st, t)
	if r1 == Unsat {
		m.learn(st, nt)
		return false
	}
	r0, m0 := m.feasible(st, nt)
	if r0 == Unsat {
		m.learn(st, t)
		return true
	}
	if r1 == Unknown || r0 == Unknown {
		st.unsure = true
		m.unknowns++
	}
	panic(needFork{[]falt{{t, m1, nil}, {nt, m0, nil}}})
}

func (m *Machine) learn(st *State, t *Term) {
	if !m.merging {
		m.addPC(st, t)
	}
}

// pick resolves a union to one alternative, forking when several are possible.
func (m *Machine) pick(st *State, u *Union) Value {
	for {
		var alts []falt
		var last Value
		for _, a := range u.alts {
			if v, k := m.quick(st, a.g); k {
				if v {
					last = a.v
					alts = nil
					goto done
				}
				continue
			}
			r, mod := m.feasible(st, a.g)
			if r == Unsat {
				continue
			}
			if r == Unknown {
				st.unsure = true
				m.unknowns++
			}
			alts = append(alts, falt{a.g, mod, nil})
			last = a.v
		}
	done:
		if len(alts) > 1 {
			panic(needFork{alts})
		}
		if last == nil && len(alts) == 0 {
			panic(pathEnd{"empty union"})
		}
		if n, ok := last.(*Union); ok {
			u = n
			continue
		}
		return last
	}
}

// conc forces an integer value to be concrete, forking over its possible values.
func (m *Machine) conc(st *State, v Value) uint64 {
	switch x := v.(type) {
	case I:
		return uint64(x)
	case *Union:
		return m.conc(st, m.pick(st, x))
	case *Term:
		if x.w == 0 {
			if m.decide(st, x) {
				return 1
			}
			return 0
		}
		// known?
		for _, p := range st.pc {
			if p.op == tEq && p.args[0] == x && p.args[1].isConst() {
				return p.args[1].k
			}
		}
		if x.op == tVar && x.w <= 8 {
			m.growDom(st, int(x.k)+1)
			if d := st.dom[x.k]; popTT(&d) == 1 {
				return firstTT(&d)
			}
		}
		if x.op == tZext || x.op == tSext {
			r := m.conc(st, x.args[0])
			if x.op == tSext {
				r = uint64(sx(r, x.args[0].w)) & mask(x.w)
			}
			return r
		}
		// enumerate all values (bounded)
		var alts []falt
		extra := m.tt.tru
		for len(alts) < 300 {
			r, mod := m.feasible(st, extra)
			if r == Unsat {
				break
			}
			if r == Unknown {
				m.unsupported("concretisation: solver gave up")
			}
			val := m.tt.eval(x, mod, m.memo())
			eq := m.tt.Eq(x, m.tt.Const(x.w, val))
			alts = append(alts, falt{eq, mod, nil})
			extra = m.tt.And(extra, m.tt.Not(eq))
			if extra == m.tt.fls {
				break
			}
		}
		if len(alts) >= 300 {
			m.unsupported("concretisation: too many values")
		}
		if len(alts) == 1 {
			return m.tt.eval(x, alts[0].model, m.memo())
		}
		if len(alts) == 0 {
			panic(pathEnd{"infeasible"})
		}
		panic(needFork{alts})
	}
	panic(fmt.Sprintf("conc %T", v))
}

func (m *Machine) concInt(st *State, v Value) int { return int(int64(m.conc(st, v))) }

// concStr forces a string to be concrete.
func (m *Machine) concStr(st *State, v Value) string {
	switch x := v.(type) {
	case string:
		return x
	case *Union:
		return m.concStr(st, m.pick(st, x))
	case *SStr:
		b := make([]byte, len(x.b))
		for i, e := range x.b {
			b[i] = byte(m.conc(st, e))
		}
		return string(b)
	}
	panic(fmt.Sprintf("concStr %T", v))
}
