package main

import (
	"fmt"
	"math/bits"
	"sort"
	"strings"
)

// Terms: hash-consed bit-vector / Boolean expressions over the symbolic inputs.

type TOp uint8

const (
	tVar TOp = iota
	tConst
	tNot
	tAnd
	tOr
	tIte
	tEq
	tUlt
	tUle
	tSlt
	tSle
	tAdd
	tSub
	tMul
	tUdiv
	tUrem
	tSdiv
	tSrem
	tShl
	tLshr
	tAshr
	tBand
	tBor
	tBxor
	tBnot
	tZext
	tSext
	tExtract // low w bits starting at k
)

var tNames = map[TOp]string{tNot: "not", tAnd: "and", tOr: "or", tIte: "ite", tEq: "=", tUlt: "bvult", tUle: "bvule", tSlt: "bvslt", tSle: "bvsle",
	tAdd: "bvadd", tSub: "bvsub", tMul: "bvmul", tUdiv: "bvudiv", tUrem: "bvurem", tSdiv: "bvsdiv", tSrem: "bvsrem", tShl: "bvshl", tLshr: "bvlshr",
	tAshr: "bvashr", tBand: "bvand", tBor: "bvor", tBxor: "bvxor", tBnot: "bvnot"}

type Term struct {
	id   int32
	op   TOp
	w    uint8 // 0: Boolean
	args []*Term
	k    uint64 // constant value, variable index, extract low bit
	sup  int32  // -1: no variables, >=0: single variable, -2: several
	tt   *[4]uint64
	def  bool     // printed to the solver already
	vs   []uint64 // variable bit set (lazily built)
}

type Var struct {
	name string
	w    uint8
	lo   uint64
	hi   uint64
	term *Term
}

type TermTable struct {
	tab    map[uint64][]*Term
	n      int32
	vars   []*Var
	byName map[string]*Var
	tru    *Term
	fls    *Term
}

func NewTermTable() *TermTable {
	t := &TermTable{tab: map[uint64][]*Term{}, byName: map[string]*Var{}}
	t.tru = t.intern(tConst, 0, 1, nil)
	t.fls = t.intern(tConst, 0, 0, nil)
	return t
}

func mask(w uint8) uint64 {
	if w >= 64 {
		return ^uint64(0)
	}
	return (uint64(1) << w) - 1
}

func sx(v uint64, w uint8) int64 {
	if w >= 64 {
		return int64(v)
	}
	sh := 64 - w
	return int64(v<<sh) >> sh
}

func (t *TermTable) intern(op TOp, w uint8, k uint64, args []*Term) *Term {
	h := uint64(op)*0x9E3779B97F4A7C15 ^ uint64(w)<<40 ^ k*0xC2B2AE3D27D4EB4F
	for _, a := range args {
		h = (h ^ uint64(a.id)) * 0x9E3779B97F4A7C15
		h ^= h >> 29
	}
outer:
	for _, x := range t.tab[h] {
		if x.op != op || x.w != w || x.k != k || len(x.args) != len(args) {
			continue
		}
		for i := range args {
			if x.args[i] != args[i] {
				continue outer
			}
		}
		return x
	}
	sup := int32(-1)
	if op == tVar {
		sup = int32(k)
	}
	for _, a := range args {
		switch {
		case a.sup == -1:
		case sup == -1:
			sup = a.sup
		case sup != a.sup:
			sup = -2
		}
	}
	x := &Term{id: t.n, op: op, w: w, k: k, args: args, sup: sup}
	t.n++
	t.tab[h] = append(t.tab[h], x)
	return x
}

func (t *TermTable) Var(name string, w uint8, lo, hi uint64) *Var {
	if v, ok := t.byName[name]; ok {
		return v
	}
	v := &Var{name: name, w: w, lo: lo, hi: hi}
	v.term = t.intern(tVar, w, uint64(len(t.vars)), nil)
	t.vars = append(t.vars, v)
	t.byName[name] = v
	return v
}

func (t *TermTable) Const(w uint8, v uint64) *Term { return t.intern(tConst, w, v&mask(w), nil) }
func (t *TermTable) Bool(b bool) *Term {
	if b {
		return t.tru
	}
	return t.fls
}
func (x *Term) isConst() bool { return x.op == tConst }

func (t *TermTable) Not(a *Term) *Term {
	switch a.op {
	case tConst:
		return t.Bool(a.k == 0)
	case tNot:
		return a.args[0]
	case tUlt:
		return t.Ule(a.args[1], a.args[0])
	case tUle:
		return t.Ult(a.args[1], a.args[0])
	case tSlt:
		return t.Sle(a.args[1], a.args[0])
	case tSle:
		return t.Slt(a.args[1], a.args[0])
	}
	return t.intern(tNot, 0, 0, []*Term{a})
}

func (t *TermTable) nary(op TOp, in []*Term) *Term {
	unit, zero := t.tru, t.fls
	dual := tOr
	if op == tOr {
		unit, zero = t.fls, t.tru
		dual = tAnd
	}
	var args []*Term
	var add func(x *Term)
	add = func(x *Term) {
		if x.op == op {
			for _, a := range x.args {
				add(a)
			}
			return
		}
		args = append(args, x)
	}
	for _, x := range in {
		if x == zero {
			return zero
		}
		if x == unit {
			continue
		}
		add(x)
	}
	for round := 0; round < 4; round++ {
		sort.Slice(args, func(i, j int) bool { return args[i].id < args[j].id })
		out := args[:0:0]
		for i, x := range args {
			if i > 0 && args[i-1] == x {
				continue
			}
			out = append(out, x)
		}
		args = out
		if len(args) > 64 {
			break
		}
		has := make(map[*Term]bool, len(args))
		for _, x := range args {
			has[x] = true
		}
		changed := false
		res := args[:0:0]
		for _, x := range args {
			if has[t.Not(x)] {
				return zero
			}
			if x.op == dual {
				absorbed := false
				var keep []*Term
				for _, y := range x.args {
					if has[y] {
						absorbed = true
						break
					}
					if !has[t.Not(y)] {
						keep = append(keep, y)
					}
				}
				if absorbed {
					changed = true
					continue
				}
				if len(keep) != len(x.args) {
					changed = true
					x = t.nary(dual, keep)
					if x == zero {
						return zero
					}
					if x == unit {
						continue
					}
				}
			}
			if x.op == op {
				res = append(res, x.args...)
				changed = true
			} else {
				res = append(res, x)
			}
		}
		args = res
		if !changed {
			break
		}
	}
	// factor common parts: (a&b)|(a&!b) = a
	if len(args) == 2 {
		la, lb := parts(args[0], dual), parts(args[1], dual)
		if len(la) > 0 && len(lb) > 0 {
			var common, ra, rb []*Term
			inb := map[*Term]bool{}
			for _, y := range lb {
				inb[y] = true
			}
			ina := map[*Term]bool{}
			for _, y := range la {
				ina[y] = true
				if inb[y] {
					common = append(common, y)
				} else {
					ra = append(ra, y)
				}
			}
			for _, y := range lb {
				if !ina[y] {
					rb = append(rb, y)
				}
			}
			if len(common) > 0 {
				inner := t.nary(op, []*Term{t.nary(dual, ra), t.nary(dual, rb)})
				return t.nary(dual, append(common, inner))
			}
		}
	}
	switch len(args) {
	case 0:
		return unit
	case 1:
		return args[0]
	}
	return t.intern(op, 0, 0, args)
}

func parts(x *Term, op TOp) []*Term {
	if x.op == op {
		return x.args
	}
	return []*Term{x}
}

func (t *TermTable) And(xs ...*Term) *Term { return t.nary(tAnd, xs) }
func (t *TermTable) Or(xs ...*Term) *Term  { return t.nary(tOr, xs) }

func (t *TermTable) Ite(c, a, b *Term) *Term {
	if c.isConst() {
		if c.k != 0 {
			return a
		}
		return b
	}
	if a == b {
		return a
	}
	if c.op == tNot {
		c, a, b = c.args[0], b, a
	}
	if a.op == tIte && a.args[0] == c {
		a = a.args[1]
	}
	if b.op == tIte && b.args[0] == c {
		b = b.args[2]
	}
	if a == b {
		return a
	}
	if a.w == 0 {
		if a.isConst() {
			if a.k != 0 {
				return t.Or(c, b)
			}
			return t.And(t.Not(c), b)
		}
		if b.isConst() {
			if b.k != 0 {
				return t.Or(t.Not(c), a)
			}
			return t.And(c, a)
		}
	}
	return t.intern(tIte, a.w, 0, []*Term{c, a, b})
}

func (t *TermTable) Eq(a, b *Term) *Term {
	if a == b {
		return t.tru
	}
	if a.isConst() && b.isConst() {
		return t.Bool(a.k == b.k)
	}
	if a.isConst() {
		a, b = b, a
	}
	if a.w == 0 {
		if b.isConst() {
			if b.k != 0 {
				return a
			}
			return t.Not(a)
		}
		if t.Not(a) == b {
			return t.fls
		}
	}
	if b.isConst() {
		switch a.op {
		case tIte:
			if a.args[1].isConst() || a.args[2].isConst() {
				return t.Ite(a.args[0], t.Eq(a.args[1], b), t.Eq(a.args[2], b))
			}
		case tZext:
			x := a.args[0]
			if b.k > mask(x.w) {
				return t.fls
			}
			return t.Eq(x, t.Const(x.w, b.k))
		case tAdd:
			if a.args[1].isConst() {
				return t.Eq(a.args[0], t.Const(a.w, b.k-a.args[1].k))
			}
		}
	} else if a.op == tZext && b.op == tZext && a.args[0].w == b.args[0].w {
		return t.Eq(a.args[0], b.args[0])
	}
	if a.id > b.id && !b.isConst() {
		a, b = b, a
	}
	return t.intern(tEq, 0, 0, []*Term{a, b})
}

func (t *TermTable) cmp(op TOp, a, b *Term) *Term {
	if a == b {
		return t.Bool(op == tUle || op == tSle)
	}
	if a.isConst() && b.isConst() {
		switch op {
		case tUlt:
			return t.Bool(a.k < b.k)
		case tUle:
			return t.Bool(a.k <= b.k)
		case tSlt:
			return t.Bool(sx(a.k, a.w) < sx(b.k, b.w))
		case tSle:
			return t.Bool(sx(a.k, a.w) <= sx(b.k, b.w))
		}
	}
	// narrow zero-extended operands
	if a.op == tZext && b.isConst() {
		x := a.args[0]
		if op == tSlt || op == tSle {
			if sx(b.k, b.w) < 0 {
				return t.fls
			}
		}
		if b.k > mask(x.w) {
			return t.tru
		}
		u := tUlt
		if op == tUle || op == tSle {
			u = tUle
		}
		return t.cmp(u, x, t.Const(x.w, b.k))
	}
	if b.op == tZext && a.isConst() {
		x := b.args[0]
		if op == tSlt || op == tSle {
			if sx(a.k, a.w) < 0 {
				return t.tru
			}
		}
		if a.k > mask(x.w) {
			return t.fls
		}
		u := tUlt
		if op == tUle || op == tSle {
			u = tUle
		}
		return t.cmp(u, t.Const(x.w, a.k), x)
	}
	if a.op == tZext && b.op == tZext && a.args[0].w == b.args[0].w {
		u := tUlt
		if op == tUle || op == tSle {
			u = tUle
		}
		return t.cmp(u, a.args[0], b.args[0])
	}
	if op == tUlt && b.isConst() && b.k == 0 {
		return t.fls
	}
	if op == tUle && a.isConst() && a.k == 0 {
		return t.tru
	}
	if op == tUle && b.isConst() && b.k == mask(b.w) {
		return t.tru
	}
	if a.op == tIte && b.isConst() && (a.args[1].isConst() || a.args[2].isConst()) {
		return t.Ite(a.args[0], t.cmp(op, a.args[1], b), t.cmp(op, a.args[2], b))
	}
	if b.op == tIte && a.isConst() && (b.args[1].isConst() || b.args[2].isConst()) {
		return t.Ite(b.args[0], t.cmp(op, a, b.args[1]), t.cmp(op, a, b.args[2]))
	}
	return t.intern(op, 0, 0, []*Term{a, b})
}
func (t *TermTable) Ult(a, b *Term) *Term { return t.cmp(tUlt, a, b) }
func (t *TermTable) Ule(a, b *Term) *Term { return t.cmp(tUle, a, b) }
func (t *TermTable) Slt(a, b *Term) *Term { return t.cmp(tSlt, a, b) }
func (t *TermTable) Sle(a, b *Term) *Term { return t.cmp(tSle, a, b) }

func evalBin(op TOp, w uint8, a, b uint64) uint64 {
	m := mask(w)
	switch op {
	case tAdd:
		return (a + b) & m
	case tSub:
		return (a - b) & m
	case tMul:
		return (a * b) & m
	case tUdiv:
		if b == 0 {
			return m
		}
		return a / b
	case tUrem:
		if b == 0 {
			return a
		}
		return a % b
	case tSdiv:
		x, y := sx(a, w), sx(b, w)
		if y == 0 {
			if x < 0 {
				return 1
			}
			return m
		}
		if y == -1 {
			return uint64(-x) & m
		}
		return uint64(x/y) & m
	case tSrem:
		x, y := sx(a, w), sx(b, w)
		if y == 0 {
			return a
		}
		if y == -1 {
			return 0
		}
		return uint64(x%y) & m
	case tShl:
		if b >= uint64(w) {
			return 0
		}
		return (a << b) & m
	case tLshr:
		if b >= uint64(w) {
			return 0
		}
		return a >> b
	case tAshr:
		x := sx(a, w)
		if b >= uint64(w) {
			b = uint64(w) - 1
		}
		return uint64(x>>b) & m
	case tBand:
		return a & b
	case tBor:
		return a | b
	case tBxor:
		return a ^ b
	}
	panic("evalBin")
}

func (t *TermTable) Bin(op TOp, a, b *Term) *Term {
	w := a.w
	if a.isConst() && b.isConst() {
		return t.Const(w, evalBin(op, w, a.k, b.k))
	}
	switch op {
	case tAdd, tMul, tBand, tBor, tBxor:
		if a.isConst() {
			a, b = b, a
		}
	}
	if b.isConst() {
		switch op {
		case tAdd, tSub, tShl, tLshr, tAshr, tBor, tBxor:
			if b.k == 0 {
				return a
			}
		case tMul:
			if b.k == 0 {
				return b
			}
			if b.k == 1 {
				return a
			}
		case tUdiv, tSdiv:
			if b.k == 1 {
				return a
			}
		}
		switch op {
		case tSub:
			return t.Bin(tAdd, a, t.Const(w, -b.k))
		case tAdd:
			if a.op == tAdd && a.args[1].isConst() {
				return t.Bin(tAdd, a.args[0], t.Const(w, a.args[1].k+b.k))
			}
		case tBand:
			if b.k == 0 {
				return b
			}
			if b.k == mask(w) {
				return a
			}
			if a.op == tZext && b.k&mask(a.args[0].w) == mask(a.args[0].w) {
				return a
			}
			if a.op == tZext {
				return t.Zext(t.Bin(tBand, a.args[0], t.Const(a.args[0].w, b.k)), w)
			}
		case tLshr:
			if b.k >= uint64(w) {
				return t.Const(w, 0)
			}
			if a.op == tZext {
				return t.Zext(t.Bin(tLshr, a.args[0], t.Const(a.args[0].w, min(b.k, uint64(a.args[0].w)))), w)
			}
		case tShl:
			if b.k >= uint64(w) {
				return t.Const(w, 0)
			}
		}
	}
	if a == b {
		switch op {
		case tSub, tBxor:
			return t.Const(w, 0)
		case tBand, tBor:
			return a
		}
	}
	if b.isConst() && a.op == tIte && a.args[1].isConst() && a.args[2].isConst() {
		return t.Ite(a.args[0], t.Bin(op, a.args[1], b), t.Bin(op, a.args[2], b))
	}
	return t.intern(op, w, 0, []*Term{a, b})
}

func (t *TermTable) Bnot(a *Term) *Term {
	if a.isConst() {
		return t.Const(a.w, ^a.k)
	}
	return t.intern(tBnot, a.w, 0, []*Term{a})
}

func (t *TermTable) Zext(a *Term, w uint8) *Term {
	if a.w == w {
		return a
	}
	if a.isConst() {
		return t.Const(w, a.k)
	}
	if a.op == tZext {
		return t.Zext(a.args[0], w)
	}
	if a.op == tIte && a.args[1].isConst() && a.args[2].isConst() {
		return t.Ite(a.args[0], t.Zext(a.args[1], w), t.Zext(a.args[2], w))
	}
	return t.intern(tZext, w, 0, []*Term{a})
}

func (t *TermTable) Sext(a *Term, w uint8) *Term {
	if a.w == w {
		return a
	}
	if a.isConst() {
		return t.Const(w, uint64(sx(a.k, a.w)))
	}
	if a.op == tZext {
		return t.Zext(a.args[0], w)
	}
	return t.intern(tSext, w, 0, []*Term{a})
}

func (t *TermTable) Extract(a *Term, lo, w uint8) *Term {
	if lo == 0 && a.w == w {
		return a
	}
	if a.isConst() {
		return t.Const(w, a.k>>lo)
	}
	if a.op == tZext || a.op == tSext {
		x := a.args[0]
		if lo == 0 {
			if w == x.w {
				return x
			}
			if w < x.w {
				return t.Extract(x, 0, w)
			}
			if a.op == tZext {
				return t.Zext(x, w)
			}
			return t.Sext(x, w)
		}
	}
	if lo == 0 && (a.op == tAdd || a.op == tSub || a.op == tBand || a.op == tBor || a.op == tBxor) {
		return t.Bin(a.op, t.Extract(a.args[0], 0, w), t.Extract(a.args[1], 0, w))
	}
	return t.intern(tExtract, w, uint64(lo), []*Term{a})
}

// eval computes the value of x under a model (one value per variable).
func (t *TermTable) eval(x *Term, model []uint64, memo map[*Term]uint64) uint64 {
	switch x.op {
	case tConst:
		return x.k
	case tVar:
		if int(x.k) < len(model) {
			return model[x.k]
		}
		return t.vars[x.k].lo
	}
	if memo != nil {
		if v, ok := memo[x]; ok {
			return v
		}
	}
	var r uint64
	b2u := func(b bool) uint64 {
		if b {
			return 1
		}
		return 0
	}
	switch x.op {
	case tNot:
		r = 1 - t.eval(x.args[0], model, memo)
	case tAnd:
		r = 1
		for _, a := range x.args {
			if t.eval(a, model, memo) == 0 {
				r = 0
				break
			}
		}
	case tOr:
		for _, a := range x.args {
			if t.eval(a, model, memo) == 1 {
				r = 1
				break
			}
		}
	case tIte:
		if t.eval(x.args[0], model, memo) != 0 {
			r = t.eval(x.args[1], model, memo)
		} else {
			r = t.eval(x.args[2], model, memo)
		}
	case tBnot:
		r = ^t.eval(x.args[0], model, memo) & mask(x.w)
	case tZext:
		r = t.eval(x.args[0], model, memo)
	case tSext:
		r = uint64(sx(t.eval(x.args[0], model, memo), x.args[0].w)) & mask(x.w)
	case tExtract:
		r = (t.eval(x.args[0], model, memo) >> x.k) & mask(x.w)
	default:
		a := t.eval(x.args[0], model, memo)
		b := t.eval(x.args[1], model, memo)
		w := x.args[0].w
		switch x.op {
		case tEq:
			r = b2u(a == b)
		case tUlt:
			r = b2u(a < b)
		case tUle:
			r = b2u(a <= b)
		case tSlt:
			r = b2u(sx(a, w) < sx(b, w))
		case tSle:
			r = b2u(sx(a, w) <= sx(b, w))
		default:
			r = evalBin(x.op, w, a, b)
		}
	}
	if memo != nil {
		memo[x] = r
	}
	return r
}

// truthTable returns the satisfying values of a Boolean term over one variable of at most 8 bits.
func (t *TermTable) truthTable(x *Term) *[4]uint64 {
	if x.tt != nil {
		return x.tt
	}
	if x.sup < 0 || t.vars[x.sup].w > 8 || x.w != 0 {
		return nil
	}
	v := t.vars[x.sup]
	var out [4]uint64
	switch x.op {
	case tNot:
		a := t.truthTable(x.args[0])
		for i := range out {
			out[i] = ^a[i]
		}
	case tAnd, tOr:
		first := true
		for _, a := range x.args {
			b := t.truthTable(a)
			for i := range out {
				if first {
					out[i] = b[i]
				} else if x.op == tAnd {
					out[i] &= b[i]
				} else {
					out[i] |= b[i]
				}
			}
			first = false
		}
	default:
		model := make([]uint64, x.sup+1)
		n := uint64(1) << v.w
		if v.w == 0 {
			n = 2
		}
		for i := uint64(0); i < n; i++ {
			model[x.sup] = i
			if t.eval(x, model, nil) != 0 {
				out[i/64] |= 1 << (i % 64)
			}
		}
	}
	x.tt = &out
	return &out
}

func (t *TermTable) varSet(x *Term) []uint64 {
	if x.vs != nil || x.sup == -1 {
		return x.vs
	}
	n := (len(t.vars) + 63) / 64
	vs := make([]uint64, 0, n)
	set := func(b []uint64) {
		for len(vs) < len(b) {
			vs = append(vs, 0)
		}
		for i := range b {
			vs[i] |= b[i]
		}
	}
	if x.op == tVar {
		b := make([]uint64, x.k/64+1)
		b[x.k/64] = 1 << (x.k % 64)
		set(b)
	}
	for _, a := range x.args {
		set(t.varSet(a))
	}
	x.vs = vs
	return vs
}

func popTT(a *[4]uint64) int {
	n := 0
	for _, x := range a {
		n += bits.OnesCount64(x)
	}
	return n
}
func firstTT(a *[4]uint64) uint64 {
	for i, x := range a {
		if x != 0 {
			return uint64(i*64 + bits.TrailingZeros64(x))
		}
	}
	return 0
}

func sortOf(w uint8) string {
	if w == 0 {
		return "Bool"
	}
	return fmt.Sprintf("(_ BitVec %d)", w)
}

func (t *TermTable) ref(x *Term) string {
	switch x.op {
	case tConst:
		if x.w == 0 {
			if x.k != 0 {
				return "true"
			}
			return "false"
		}
		return fmt.Sprintf("(_ bv%d %d)", x.k, x.w)
	case tVar:
		return fmt.Sprintf("v%d", x.k)
	}
	return fmt.Sprintf("t%d", x.id)
}

func (t *TermTable) body(x *Term) string {
	var sb strings.Builder
	sb.WriteByte('(')
	switch x.op {
	case tZext:
		fmt.Fprintf(&sb, "(_ zero_extend %d)", x.w-x.args[0].w)
	case tSext:
		fmt.Fprintf(&sb, "(_ sign_extend %d)", x.w-x.args[0].w)
	case tExtract:
		fmt.Fprintf(&sb, "(_ extract %d %d)", uint8(x.k)+x.w-1, x.k)
	default:
		sb.WriteString(tNames[x.op])
	}
	for _, a := range x.args {
		sb.WriteByte(' ')
		sb.WriteString(t.ref(a))
	}
	sb.WriteByte(')')
	return sb.String()
}

// String renders a term for humans.
func (t *TermTable) show(x *Term, depth int) string {
	switch x.op {
	case tConst:
		return fmt.Sprint(x.k)
	case tVar:
		return t.vars[x.k].name
	}
	if depth == 0 {
		return "..."
	}
	s := "(" + tNames[x.op]
	if tNames[x.op] == "" {
		s += fmt.Sprint("op", x.op)
	}
	for _, a := range x.args {
		s += " " + t.show(a, depth-1)
	}
	return s + ")"
}
