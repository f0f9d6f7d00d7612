package main

import (
	"sort"

	"golang.org/x/tools/go/ssa"
)

// ---- loops, order and liveness

// prepLoops computes the natural loops of a function, a loop-contiguous reverse post-order and liveness.
func (m *Machine) prepLoops(fi *FnInfo) {
	fi.loopsDone.Do(func() { prepLoops(fi) })
}

func nsucc(b *block) int {
	if len(b.ins) == 0 {
		return 0
	}
	switch b.ins[len(b.ins)-1].op {
	case oIf:
		return 2
	case oJump:
		return 1
	}
	return 0
}

func prepLoops(fi *FnInfo) {
	n := len(fi.blocks)
	succ := make([][]int32, n)
	pred := make([][]int32, n)
	for i := range fi.blocks {
		b := &fi.blocks[i]
		for k := 0; k < nsucc(b); k++ {
			succ[i] = append(succ[i], b.succs[k])
			pred[b.succs[k]] = append(pred[b.succs[k]], int32(i))
		}
	}
	// post-order numbering and back edges by DFS
	state := make([]int8, n)
	var post []int32
	type edge struct{ from, to int32 }
	var back []edge
	var dfs func(b int32)
	dfs = func(b int32) {
		state[b] = 1
		for _, s := range succ[b] {
			switch state[s] {
			case 0:
				dfs(s)
			case 1:
				back = append(back, edge{b, s})
			}
		}
		state[b] = 2
		post = append(post, b)
	}
	dfs(0)
	for i := 1; i < n; i++ {
		if state[i] == 0 {
			dfs(int32(i))
		}
	}
	// natural loops, one per header
	body := map[int32]map[int32]bool{}
	for _, e := range back {
		l := body[e.to]
		if l == nil {
			l = map[int32]bool{e.to: true}
			body[e.to] = l
		}
		st := []int32{e.from}
		for len(st) > 0 {
			x := st[len(st)-1]
			st = st[:len(st)-1]
			if l[x] {
				continue
			}
			l[x] = true
			st = append(st, pred[x]...)
		}
	}
	var heads []int32
	for h := range body {
		heads = append(heads, h)
	}
	sort.Slice(heads, func(i, j int) bool {
		if len(body[heads[i]]) != len(body[heads[j]]) {
			return len(body[heads[i]]) > len(body[heads[j]])
		}
		return heads[i] < heads[j]
	})
	fi.nloops = len(heads)
	for li, h := range heads {
		fi.blocks[h].isHead = int32(li)
		for b := range body[h] {
			fi.blocks[b].loops = append(fi.blocks[b].loops, int32(li))
		}
	}
	// loop-contiguous order: topological order of the acyclic graph where the exits of a loop come after its body.
	// Implemented by repeated selection: among blocks whose forward predecessors are all placed, prefer those in the
	// innermost currently open loop.
	isBack := map[edge]bool{}
	for _, e := range back {
		isBack[e] = true
	}
	indeg := make([]int, n)
	for i := range succ {
		for _, s := range succ[i] {
			if !isBack[edge{int32(i), s}] {
				indeg[s]++
			}
		}
	}
	placed := make([]bool, n)
	var order []int32
	left := make([]int, len(heads)) // unplaced blocks of an opened loop
	opened := make([]bool, len(heads))
	for len(order) < n {
		best := int32(-1)
		bestScore := -1
		for i := 0; i < n; i++ {
			if placed[i] || indeg[i] > 0 {
				continue
			}
			score := 0
			for _, l := range fi.blocks[i].loops {
				if opened[l] && left[l] > 0 {
					score++
				}
			}
			if score > bestScore {
				best, bestScore = int32(i), score
			}
		}
		if best < 0 {
			// irreducible: place any
			fi.irreducible = true
			for i := 0; i < n; i++ {
				if !placed[i] {
					best = int32(i)
					break
				}
			}
		}
		placed[best] = true
		fi.blocks[best].rpo = int32(len(order))
		order = append(order, best)
		if h := fi.blocks[best].isHead; h >= 0 {
			opened[h] = true
			left[h] = len(body[best])
		}
		for _, l := range fi.blocks[best].loops {
			left[l]--
		}
		for _, s := range succ[best] {
			if !isBack[edge{best, s}] {
				indeg[s]--
			}
		}
	}
	// headers of loops
	fi.heads = heads
	// liveness
	live := make([]map[int32]bool, n)
	for i := range live {
		live[i] = map[int32]bool{}
	}
	changed := true
	for changed {
		changed = false
		for _, b := range post {
			blk := &fi.blocks[b]
			cur := map[int32]bool{}
			for _, s := range succ[b] {
				for r := range live[s] {
					cur[r] = true
				}
				for _, p := range fi.blocks[s].phis {
					delete(cur, p.dst)
				}
				for k, pr := range fi.blocks[s].preds {
					if pr == b {
						for _, p := range fi.blocks[s].phis {
							if e := p.edges[k]; e >= 0 {
								cur[e] = true
							}
						}
					}
				}
			}
			for k := len(blk.ins) - 1; k >= 0; k-- {
				liveStep(&blk.ins[k], cur)
			}
			if len(cur) != len(live[b]) {
				live[b] = cur
				changed = true
			}
		}
	}
	var extra map[int32]bool
	if fi.recover >= 0 {
		extra = live[fi.recover]
	}
	for i := range fi.blocks {
		l := make([]bool, fi.nregs)
		for r := range live[i] {
			l[r] = true
		}
		for r := range extra {
			l[r] = true
		}
		fi.blocks[i].liveIn = l
	}
}

func liveStep(in *inst, cur map[int32]bool) {
	if in.dst >= 0 {
		delete(cur, in.dst)
	}
	use := func(o int32) {
		if o >= 0 {
			cur[o] = true
		}
	}
	switch in.op {
	case oAlloc, oMakeMap, oRunDefers, oJump, oNop, oReturn, oMakeClosure, oBuiltin:
	case oCall, oGo, oDefer:
		if in.dyn {
			use(in.a)
		}
		if in.op != oCall && opcode(in.n) == oInvoke {
			use(in.a)
		}
	default:
		use(in.a)
		switch in.op {
		case oBinOp, oIndex, oIndexAddr, oLookup, oMakeSlice, oStore, oMapUpdate, oSend:
			use(in.b)
		}
	}
	for _, a := range in.args {
		use(a)
	}
	for _, s := range in.sel {
		use(s.ch)
		if s.send {
			use(s.v)
		}
	}
}

type livePos struct{ blk, pc int32 }

// liveAt returns the registers live before instruction (blk, pc).
func (fi *FnInfo) liveAt(blk, pc int32) []bool {
	b := &fi.blocks[blk]
	if pc == 0 {
		// the liveIn of the block before its first ordinary instruction (phis are assigned on entry)
	}
	key := livePos{blk, pc}
	if v, ok := fi.liveCache.Load(key); ok {
		return v.([]bool)
	}
	cur := map[int32]bool{}
	for k := 0; k < nsucc(b); k++ {
		s := &fi.blocks[b.succs[k]]
		for r, l := range s.liveIn {
			if l {
				cur[int32(r)] = true
			}
		}
		for _, p := range s.phis {
			delete(cur, p.dst)
		}
		for e, pr := range s.preds {
			if pr == blk {
				for _, p := range s.phis {
					if x := p.edges[e]; x >= 0 {
						cur[x] = true
					}
				}
			}
		}
	}
	for k := len(b.ins) - 1; k >= int(pc); k-- {
		liveStep(&b.ins[k], cur)
	}
	out := make([]bool, fi.nregs)
	for r := range cur {
		out[r] = true
	}
	if fi.recover >= 0 {
		for r, l := range fi.blocks[fi.recover].liveIn {
			if l {
				out[r] = true
			}
		}
	}
	fi.liveCache.Store(key, out)
	return out
}

// ---- position order

func cmpInt(a, b int32) int {
	switch {
	case a < b:
		return -1
	case a > b:
		return 1
	}
	return 0
}

func cmpFrame(a, b *Frame) int {
	if a.fn != b.fn {
		if a.fn.name < b.fn.name {
			return -1
		}
		return 1
	}
	fi := a.fn
	x, y := &fi.blocks[a.blk], &fi.blocks[b.blk]
	for i := 0; ; i++ {
		inA, inB := i < len(x.loops), i < len(y.loops)
		if inA && inB && x.loops[i] == y.loops[i] {
			l := x.loops[i]
			if c := cmpInt(a.iters[l], b.iters[l]); c != 0 {
				return c
			}
			continue
		}
		ra, rb := x.rpo, y.rpo
		if inA {
			ra = fi.blocks[fi.heads[x.loops[i]]].rpo
		}
		if inB {
			rb = fi.blocks[fi.heads[y.loops[i]]].rpo
		}
		if c := cmpInt(ra, rb); c != 0 {
			return c
		}
		break
	}
	if c := cmpInt(x.rpo, y.rpo); c != 0 {
		return c
	}
	if c := cmpInt(a.pc, b.pc); c != 0 {
		return c
	}
	if a.panicking != b.panicking {
		if b.panicking {
			return -1
		}
		return 1
	}
	if a.running != b.running {
		if b.running {
			return -1
		}
		return 1
	}
	return -cmpInt(int32(len(a.defers)), int32(len(b.defers)))
}

// cmpPos orders the control positions of two single-goroutine states.
func cmpPos(a, b *State) int {
	fa, fb := a.gs[0].frames, b.gs[0].frames
	for i := 0; i < len(fa) && i < len(fb); i++ {
		if fa[i] == fb[i] {
			continue
		}
		if c := cmpFrame(fa[i], fb[i]); c != 0 {
			return c
		}
	}
	return cmpInt(int32(len(fa)), int32(len(fb)))
}

// ---- merging

const maxAlts = 96

func valEq(a, b Value) bool {
	switch x := a.(type) {
	case I:
		y, ok := b.(I)
		return ok && x == y
	case bool:
		y, ok := b.(bool)
		return ok && x == y
	case *Term:
		return a == b
	case string:
		y, ok := b.(string)
		return ok && x == y
	case Ptr:
		y, ok := b.(Ptr)
		return ok && x == y
	case Slice:
		y, ok := b.(Slice)
		return ok && x == y
	case MapRef:
		y, ok := b.(MapRef)
		return ok && x == y
	case ChanRef:
		y, ok := b.(ChanRef)
		return ok && x == y
	case IterRef:
		y, ok := b.(IterRef)
		return ok && x == y
	case float64:
		y, ok := b.(float64)
		return ok && x == y
	case complex128:
		y, ok := b.(complex128)
		return ok && x == y
	case RType:
		y, ok := b.(RType)
		return ok && x == y
	case Opq:
		y, ok := b.(Opq)
		return ok && x.kind == y.kind && x.v == y.v
	case *FuncV:
		y, ok := b.(*FuncV)
		if !ok {
			return false
		}
		if x == y {
			return true
		}
		if x == nil || y == nil || x.fn == nil || x.fn != y.fn || len(x.free) != len(y.free) {
			return false
		}
		for i := range x.free {
			if !valEq(x.free[i], y.free[i]) {
				return false
			}
		}
		return true
	case Iface:
		y, ok := b.(Iface)
		return ok && x.t == y.t && (x.t == nil || valEq(x.v, y.v))
	case Agg:
		y, ok := b.(Agg)
		if !ok || len(x) != len(y) {
			return false
		}
		for i := range x {
			if !valEq(x[i], y[i]) {
				return false
			}
		}
		return true
	case Tuple:
		y, ok := b.(Tuple)
		if !ok || len(x) != len(y) {
			return false
		}
		for i := range x {
			if !valEq(x[i], y[i]) {
				return false
			}
		}
		return true
	case *SStr:
		y, ok := b.(*SStr)
		if !ok || len(x.b) != len(y.b) {
			return false
		}
		if x == y {
			return true
		}
		for i := range x.b {
			if !valEq(x.b[i], y.b[i]) {
				return false
			}
		}
		return true
	case *Union:
		y, ok := b.(*Union)
		if !ok || len(x.alts) != len(y.alts) {
			return false
		}
		if x == y {
			return true
		}
		for i := range x.alts {
			if x.alts[i].g != y.alts[i].g || !valEq(x.alts[i].v, y.alts[i].v) {
				return false
			}
		}
		return true
	case *RVal:
		return a == b
	case nil:
		return b == nil
	}
	return false
}

// mergeVal returns ite(c, a, b).
func (m *Machine) mergeVal(c *Term, a, b Value, ti *TypeInfo) (Value, bool) {
	if valEq(a, b) {
		return a, true
	}
	if ti != nil && ti.agg {
		if tu, ok := a.(Tuple); ok {
			tv, ok := b.(Tuple)
			if !ok || len(tu) != len(tv) {
				return nil, false
			}
			out := make(Tuple, len(tu))
			for i := range tu {
				var ft *TypeInfo
				if i < len(ti.fields) {
					ft = ti.fields[i]
				}
				v, ok := m.mergeVal(c, tu[i], tv[i], ft)
				if !ok {
					return nil, false
				}
				out[i] = v
			}
			return out, true
		}
		x, ok1 := a.(Agg)
		y, ok2 := b.(Agg)
		if !ok1 || !ok2 || len(x) != len(y) || len(ti.sks) != len(x) {
			return nil, false
		}
		out := make(Agg, len(x))
		for i := range x {
			v, ok := m.mergeSlot(c, x[i], y[i], ti.sks[i])
			if !ok {
				return nil, false
			}
			out[i] = v
		}
		return out, true
	}
	sk := skOther
	if ti != nil && len(ti.sks) == 1 {
		sk = ti.sks[0]
	}
	return m.mergeSlot(c, a, b, sk)
}

func (m *Machine) mergeSlot(c *Term, a, b Value, sk SK) (Value, bool) {
	if valEq(a, b) {
		return a, true
	}
	_, ua := a.(*Union)
	_, ub := b.(*Union)
	if !ua && !ub {
		switch sk {
		case skBool:
			return bval(m.tt.Ite(c, m.bterm(a), m.bterm(b))), true
		case skOther:
		default:
			_, p1 := a.(Ptr)
			_, p2 := b.(Ptr)
			if p1 || p2 {
				return nil, false
			}
			w := sk.width()
			return ival(m.tt.Ite(c, m.iterm(a, w), m.iterm(b, w))), true
		}
		// dynamically typed scalars
		switch x := a.(type) {
		case bool:
			return bval(m.tt.Ite(c, m.bterm(a), m.bterm(b))), true
		case *Term:
			if x.w == 0 {
				return bval(m.tt.Ite(c, x, m.bterm(b))), true
			}
			return ival(m.tt.Ite(c, x, m.iterm(b, x.w))), true
		case I:
			if y, ok := b.(*Term); ok {
				return ival(m.tt.Ite(c, m.iterm(a, y.w), y)), true
			}
			return nil, false
		case Iface:
			y, ok := b.(Iface)
			if ok && x.t == y.t && x.t != nil {
				if v, ok := m.mergeVal(c, x.v, y.v, x.t); ok {
					return Iface{x.t, v}, true
				}
			}
		}
		switch a.(type) {
		case string, *SStr:
			switch b.(type) {
			case string, *SStr:
				if n := strLen(a); n == strLen(b) && n <= 64 && n > 0 {
					p, q := strBytes(a), strBytes(b)
					out := make([]Value, n)
					for i := range p {
						v, _ := m.mergeSlot(c, p[i], q[i], sk8)
						out[i] = v
					}
					return mkStr(out), true
				}
			}
		}
	}
	// union of alternatives
	var alts []Alt
	nc := m.tt.Not(c)
	add := func(g *Term, v Value) {
		if g == m.tt.fls {
			return
		}
		for i := range alts {
			if valEq(alts[i].v, v) {
				alts[i].g = m.tt.Or(alts[i].g, g)
				return
			}
		}
		alts = append(alts, Alt{g, v})
	}
	each := func(g *Term, v Value) {
		if u, ok := v.(*Union); ok {
			for _, x := range u.alts {
				add(m.tt.And(g, x.g), x.v)
			}
			return
		}
		add(g, v)
	}
	each(c, a)
	each(nc, b)
	if len(alts) > maxAlts {
		return nil, false
	}
	if len(alts) == 1 {
		return alts[0].v, true
	}
	return &Union{alts}, true
}

func (m *Machine) mergeMaps(c *Term, a, b *MapObj) (*MapObj, bool, bool) {
	if a.symKeys || b.symKeys {
		return nil, false, false
	}
	reorder := false
	n := min(len(a.ents), len(b.ents))
	for i := 0; i < n; i++ {
		if !valEq(a.ents[i].key, b.ents[i].key) {
			reorder = true
			break
		}
	}
	out := &MapObj{kt: a.kt, vt: a.vt, idx: map[any]int32{}}
	put := func(k Value, pa, va, pb, vb Value) bool {
		var v Value
		ok := true
		switch {
		case pa == false:
			v = vb
		case pb == false:
			v = va
		default:
			v, ok = m.mergeVal(c, va, vb, a.vt)
		}
		if !ok {
			return false
		}
		p := bval(m.tt.Ite(c, m.bterm(pa), m.bterm(pb)))
		nk, ok := normKey(k)
		if !ok {
			return false
		}
		out.idx[nk] = int32(len(out.ents))
		out.ents = append(out.ents, MapEntry{k, v, p})
		return true
	}
	zero := a.vt.zeroValue()
	first, second, swap := a, b, false
	if len(b.ents) > len(a.ents) {
		first, second, swap = b, a, true
	}
	for i := range first.ents {
		e := &first.ents[i]
		nk, _ := normKey(e.key)
		var p2 Value = false
		v2 := zero
		if j, ok := second.idx[nk]; ok {
			p2, v2 = second.ents[j].present, second.ents[j].val
		}
		ok := false
		if swap {
			ok = put(e.key, p2, v2, e.present, e.val)
		} else {
			ok = put(e.key, e.present, e.val, p2, v2)
		}
		if !ok {
			return nil, false, false
		}
	}
	for i := range second.ents {
		e := &second.ents[i]
		nk, _ := normKey(e.key)
		if _, ok := first.idx[nk]; ok {
			continue
		}
		ok := false
		if swap {
			ok = put(e.key, e.present, e.val, false, zero)
		} else {
			ok = put(e.key, false, zero, e.present, e.val)
		}
		if !ok {
			return nil, false, false
		}
	}
	return out, reorder, true
}

// mergeStates merges b into a copy of a; both are at the same control position.
func (m *Machine) mergeStates(a, b *State) *State {
	if a.fence != b.fence {
		return nil
	}
	if len(a.gs) != 1 || len(b.gs) != 1 {
		return m.mfail(1)
	}
	ga, gb := a.gs[0], b.gs[0]
	if len(ga.frames) != len(gb.frames) || len(a.obs) != len(b.obs) {
		return m.mfail(2)
	}
	for i := range a.obs {
		if !valEq(a.obs[i].val, b.obs[i].val) || a.obs[i].label != b.obs[i].label {
			return m.mfail(3)
		}
	}
	// path conditions
	k := 0
	for k < len(a.pc) && k < len(b.pc) && a.pc[k] == b.pc[k] {
		k++
	}
	ca := m.tt.And(append([]*Term(nil), a.pc[k:]...)...)
	cb := m.tt.And(append([]*Term(nil), b.pc[k:]...)...)
	c := ca
	// a simpler guard: any conjunct of a whose negation is a conjunct of b separates the two
	for _, t := range a.pc[k:] {
		nt := m.tt.Not(t)
		found := false
		for _, u := range b.pc[k:] {
			if u == nt {
				found = true
				break
			}
		}
		if found {
			c = t
			break
		}
	}
	// frames
	var frames []*Frame
	tok := &token{}
	var liveIters []IterRef
	noteIter := func(v Value) {
		switch x := v.(type) {
		case IterRef:
			liveIters = append(liveIters, x)
		case *Union:
			for _, al := range x.alts {
				if r, ok := al.v.(IterRef); ok {
					liveIters = append(liveIters, r)
				}
			}
		}
	}
	for i := range ga.frames {
		fa, fb := ga.frames[i], gb.frames[i]
		if fa == fb {
			for r, ti := range fa.fn.regTI {
				_ = ti
				noteIter(fa.regs[r])
			}
			frames = append(frames, fa)
			continue
		}
		if fa.fn != fb.fn || fa.blk != fb.blk || fa.pc != fb.pc || fa.running != fb.running || fa.panicking != fb.panicking ||
			fa.recovered != fb.recovered || fa.isDefer != fb.isDefer || len(fa.defers) != len(fb.defers) || fa.cont != nil || fb.cont != nil {
			return m.mfail(4)
		}
		if fa.panicking && !valEq(fa.panicVal, fb.panicVal) {
			return m.mfail(5)
		}
		for j := range fa.iters {
			if fa.iters[j] != fb.iters[j] && inLoop(&fa.fn.blocks[fa.blk], int32(j)) {
				return m.mfail(6)
			}
		}
		for j := range fa.defers {
			x, y := fa.defers[j], fb.defers[j]
			if x.blt != y.blt || !valEq(x.fn, y.fn) || len(x.args) != len(y.args) {
				return m.mfail(7)
			}
			for q := range x.args {
				if !valEq(x.args[q], y.args[q]) {
					return m.mfail(8)
				}
			}
		}
		nf := *fa
		nf.tok = tok
		nf.regs = make([]Value, len(fa.regs))
		nf.iters = append([]int32(nil), fa.iters...)
		nf.defers = append([]deferRec(nil), fa.defers...)
		pc := fa.pc
		if i < len(ga.frames)-1 && !fa.running {
			pc++
		}
		live := fa.fn.liveAt(fa.blk, pc)
		for r := range fa.regs {
			if !live[r] {
				continue
			}
			v, ok := m.mergeVal(c, fa.regs[r], fb.regs[r], fa.fn.regTI[r])
			if !ok {
				return m.mfail(9)
			}
			nf.regs[r] = v
			noteIter(v)
		}
		frames = append(frames, &nf)
	}
	// heap
	n := *a
	n.tok = tok
	n.heap.pages = append([]*page(nil), a.heap.pages...)
	for len(n.heap.pages) < len(b.heap.pages) {
		n.heap.pages = append(n.heap.pages, nil)
	}
	var reordered map[int32]bool
	for pi := range n.heap.pages {
		var pa, pb *page
		if pi < len(a.heap.pages) {
			pa = a.heap.pages[pi]
		}
		if pi < len(b.heap.pages) {
			pb = b.heap.pages[pi]
		}
		if pa == pb || pb == nil {
			continue
		}
		if pa == nil {
			n.heap.pages[pi] = pb
			continue
		}
		var np *page
		for oi := range pa.objs {
			oa, ob := pa.objs[oi], pb.objs[oi]
			if oa == ob || ob == nil {
				continue
			}
			if np == nil {
				np = &page{tok: tok, objs: pa.objs}
				n.heap.pages[pi] = np
			}
			if oa == nil {
				np.objs[oi] = ob
				continue
			}
			no := &Obj{tok: tok, elem: oa.elem, label: oa.label}
			if len(oa.slots) != len(ob.slots) {
				return m.mfail(10)
			}
			if oa.slots != nil {
				no.slots = make([]Value, len(oa.slots))
				es := 1
				var sks []SK
				if oa.elem != nil {
					es = oa.elem.size
					sks = oa.elem.sks
				}
				for s := range oa.slots {
					sk := skOther
					if es > 0 && len(sks) == es {
						sk = sks[s%es]
					}
					v, ok := m.mergeSlot(c, oa.slots[s], ob.slots[s], sk)
					if !ok {
						return m.mfail(11)
					}
					no.slots[s] = v
				}
			}
			if oa.mp != nil {
				mp, reo, ok := m.mergeMaps(c, oa.mp, ob.mp)
				if !ok {
					return m.mfail(12)
				}
				if reo {
					if reordered == nil {
						reordered = map[int32]bool{}
					}
					reordered[int32(pi<<pageBits+oi)] = true
				}
				no.mp = mp
			}
			if oa.ch != nil {
				return m.mfail(13)
			}
			if oa.it != nil {
				x, y := oa.it, ob.it
				dead := true
				for _, r := range liveIters {
					if r.id == int32(pi<<pageBits+oi) {
						dead = false
					}
				}
				if !dead && x.keys != nil && x.pos != y.pos {
					return m.mfail(16)
				}
				if !dead && x.keys == nil && (x.mp != y.mp || x.pos != y.pos || x.arb || y.arb || (x.str == nil) != (y.str == nil) || (x.str != nil && !valEq(x.str, y.str))) {
					return m.mfail(14)
				}
				cp := *x
				no.it = &cp
			}
			np.objs[oi] = no
		}
	}
	if reordered != nil {
		for _, r := range liveIters {
			o := n.obj(r.id)
			if o == nil || o.it == nil {
				continue
			}
			if reordered[o.it.mp] && o.it.pos > 0 {
				return m.mfail(15)
			}
		}
	}
	n.gs = []*Gor{{tok: tok, frames: frames, stat: ga.stat, id: ga.id}}
	// path condition
	n.pc = a.pc[:k:k]
	n.dom, n.multi = nil, nil
	pcs := n.pc
	n.pc = nil
	for _, t := range pcs {
		m.addPC(&n, t)
	}
	m.addPC(&n, m.tt.Or(ca, cb))
	n.steps = max(a.steps, b.steps)
	n.unsure = a.unsure || b.unsure
	n.fresh = false
	m.nstates++
	n.id = m.nstates
	n.heap.next = max(a.heap.next, b.heap.next)
	n.tok = tok
	m.stat.merges++
	return &n
}

// exploreMerging runs all states, always advancing the earliest and merging states that meet.
func (m *Machine) exploreMerging() {
	for len(m.work) > 0 {
		if m.deadline != nil && m.deadline() {
			panic(stopJob{})
		}
		bi := 0
		for i := 1; i < len(m.work); i++ {
			if cmpPos(m.work[i], m.work[bi]) < 0 {
				bi = i
			}
		}
		st := m.work[bi]
		m.work = append(m.work[:bi], m.work[bi+1:]...)
		if !st.fresh {
			for i := 0; i < len(m.work); {
				o := m.work[i]
				if o.fresh || cmpPos(o, st) != 0 {
					i++
					continue
				}
				n := m.mergeStates(st, o)
				if n == nil {
					m.stat.mergeFail++
					i++
					continue
				}
				m.work = append(m.work[:i], m.work[i+1:]...)
				st = n
			}
		}
		st.fresh = false
		switch m.run(st) {
		case endDone:
			m.res.onDone(m, st)
		case endParked:
			m.work = append(m.work, st)
		}
		if len(m.work) > m.maxStates {
			panic(stopJob{})
		}
	}
}

var _ = ssa.Function{}

func (m *Machine) mfail(n int) *State {
	if m.mfails == nil {
		m.mfails = map[int]int{}
	}
	m.mfails[n]++
	return nil
}
