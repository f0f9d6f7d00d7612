package main

import (
	"fmt"
	"regexp"
	"regexp/syntax"
	"strings"
	"sync"
)

// Symbolic execution of regular expressions: the RE2 program compiled by regexp/syntax is simulated over symbolic
// bytes with ordered threads (leftmost-first, with captures); every test that depends on a symbolic byte is decided
// by the solver, forking when both outcomes are possible. Symbolic bytes are ASCII within the stated bounds.

type SymRE struct {
	src  string
	re   *regexp.Regexp // nil when the pattern has symbolic parts
	prog *syntax.Prog
	subs map[rune]Value // placeholder runes standing for symbolic literal bytes
	ncap int
	anch bool
}

var reCache sync.Map

func compileRE(src string) (*SymRE, error) {
	if v, ok := reCache.Load(src); ok {
		return v.(*SymRE), nil
	}
	re, err := regexp.Compile(src)
	if err != nil {
		return nil, err
	}
	ast, err := syntax.Parse(src, syntax.Perl)
	if err != nil {
		return nil, err
	}
	r := &SymRE{src: src, re: re, ncap: ast.MaxCap() + 1}
	r.prog, err = syntax.Compile(ast.Simplify())
	if err != nil {
		return nil, err
	}
	r.anch = r.prog.StartCond()&syntax.EmptyBeginText != 0
	reCache.Store(src, r)
	return r, nil
}

// compileSym compiles a pattern containing symbolic bytes. They are only accepted when they are known (on this path)
// not to be regular-expression metacharacters; each stands for itself.
func (m *Machine) compileSym(st *State, v Value) (*SymRE, error) {
	if s, ok := v.(string); ok {
		return compileRE(s)
	}
	ss := v.(*SStr)
	var sb strings.Builder
	subs := map[rune]Value{}
	next := rune(0xF0000)
	for _, b := range ss.b {
		switch x := b.(type) {
		case I:
			sb.WriteByte(byte(x))
		case *Term:
			// a literal: anything but a metacharacter stands for itself; a possible metacharacter is enumerated
			if m.decide(st, bval(m.classTerm(x, metaTT))) {
				sb.WriteByte(byte(m.conc(st, x)))
				continue
			}
			subs[next] = x
			sb.WriteRune(next)
			next++
		}
	}
	ast, err := syntax.Parse(sb.String(), syntax.Perl)
	if err != nil {
		m.unsupported("symbolic pattern: " + err.Error())
	}
	r := &SymRE{src: sb.String(), ncap: ast.MaxCap() + 1, subs: subs}
	r.prog, err = syntax.Compile(ast.Simplify())
	if err != nil {
		return nil, err
	}
	r.anch = r.prog.StartCond()&syntax.EmptyBeginText != 0
	return r, nil
}

var metaTT = func() (t [2]uint64) {
	for _, c := range []byte(`\.+*?()|[]{}^$-`) {
		t[c/64] |= 1 << (c % 64)
	}
	return
}()

var wordTT = func() (t [2]uint64) {
	for c := 0; c < 128; c++ {
		if isWord(rune(c)) {
			t[c/64] |= 1 << (c % 64)
		}
	}
	return
}()

func isWord(c rune) bool {
	return c == '_' || c >= '0' && c <= '9' || c >= 'A' && c <= 'Z' || c >= 'a' && c <= 'z'
}

// classTerm is the membership of an ASCII byte term in a set of ASCII characters.
func (m *Machine) classTerm(x *Term, set [2]uint64) *Term {
	key := classKey{x, set}
	if t, ok := m.classMemo[key]; ok {
		return t
	}
	has := func(c int) bool { return set[c/64]>>(c%64)&1 != 0 }
	var or []*Term
	for c := 0; c < 128; {
		if !has(c) {
			c++
			continue
		}
		d := c
		for d+1 < 128 && has(d+1) {
			d++
		}
		lo, hi := m.tt.Const(8, uint64(c)), m.tt.Const(8, uint64(d))
		switch {
		case c == d:
			or = append(or, m.tt.Eq(x, lo))
		default:
			or = append(or, m.tt.And(m.tt.Ule(lo, x), m.tt.Ule(x, hi)))
		}
		c = d + 1
	}
	t := m.tt.Or(or...)
	m.classMemo[key] = t
	return t
}

type classKey struct {
	t   *Term
	set [2]uint64
}

type reChar struct {
	r    rune  // concrete rune, when t == nil
	t    *Term // symbolic ASCII byte
	size int
	end  bool
}

func (m *Machine) reChars(st *State, s Value) []reChar {
	n := strLen(s)
	out := make([]reChar, 0, n+1)
	for i := 0; i < n; {
		b := strAt(s, i)
		if t, ok := b.(*Term); ok {
			if !m.decide(st, bval(m.tt.Ult(t, m.tt.Const(8, 0x80)))) {
				m.unsupported("non-ASCII symbolic byte in regexp input")
			}
			out = append(out, reChar{t: t, size: 1})
			i++
			continue
		}
		r, sz := m.decodeRune(st, s, i)
		out = append(out, reChar{r: rune(int32(r.(I))), size: sz})
		i += sz
	}
	return append(out, reChar{end: true})
}

type instClass struct {
	set [2]uint64
}

var instMemo sync.Map // *syntax.Inst -> instClass

func instSet(in *syntax.Inst) [2]uint64 {
	if v, ok := instMemo.Load(in); ok {
		return v.([2]uint64)
	}
	var s [2]uint64
	for c := rune(0); c < 128; c++ {
		if in.MatchRune(c) {
			s[c/64] |= 1 << (c % 64)
		}
	}
	instMemo.Store(in, s)
	return s
}

func (m *Machine) reMatchInst(st *State, r *SymRE, in *syntax.Inst, c reChar) bool {
	if c.end {
		return false
	}
	if r.subs != nil && len(in.Rune) > 0 {
		if sub, ok := r.subs[in.Rune[0]]; ok {
			var cv Value
			if c.t != nil {
				cv = c.t
			} else {
				if c.r >= 0x80 {
					return false
				}
				cv = I(c.r)
			}
			return m.decide(st, m.equal(st, nil, sub, cv))
		}
	}
	if c.t == nil {
		return in.MatchRune(c.r)
	}
	return m.decide(st, bval(m.classTerm(c.t, instSet(in))))
}

func (m *Machine) reIsWord(st *State, c reChar) bool {
	if c.end {
		return false
	}
	if c.t == nil {
		return isWord(c.r)
	}
	return m.decide(st, bval(m.classTerm(c.t, wordTT)))
}

func (m *Machine) reIsNL(st *State, c reChar) bool {
	if c.end {
		return false
	}
	if c.t == nil {
		return c.r == '\n'
	}
	return m.decide(st, m.equal(st, nil, c.t, I('\n')))
}

type reThread struct {
	pc  int
	cap []int
}

// reMatch returns the capture offsets of the leftmost-first match starting the scan at position 0, or nil.
func (m *Machine) reMatch(st *State, r *SymRE, s Value) []int {
	return m.reMatchFrom(st, r, s, 0)
}

func (m *Machine) reMatchFrom(st *State, r *SymRE, s Value, from int) []int {
	if str, ok := s.(string); ok && r.re != nil {
		if from == 0 {
			return r.re.FindStringSubmatchIndex(str)
		}
		m.unsupported("regexp continuation")
	}
	if ss, ok := s.(*SStr); ok && r.re != nil && r.anch {
		// a concrete prefix often decides the outcome: if the first byte is concrete and cannot start a match
		if c, ok := ss.b[0].(I); ok && c < 0x80 {
			if !r.canStart(byte(c)) {
				return nil
			}
		}
	}
	chars := m.reChars(st, s)
	prog := r.prog
	none := reChar{end: true}
	// empty-width context is computed lazily
	type ctx struct {
		prev, next reChar
		first      bool
	}
	checkEmpty := func(op syntax.EmptyOp, c ctx) bool {
		if op&syntax.EmptyBeginText != 0 && !c.first {
			return false
		}
		if op&syntax.EmptyEndText != 0 && !c.next.end {
			return false
		}
		if op&syntax.EmptyBeginLine != 0 && !c.first && !m.reIsNL(st, c.prev) {
			return false
		}
		if op&syntax.EmptyEndLine != 0 && !c.next.end && !m.reIsNL(st, c.next) {
			return false
		}
		if op&(syntax.EmptyWordBoundary|syntax.EmptyNoWordBoundary) != 0 {
			wb := m.reIsWord(st, c.prev) != m.reIsWord(st, c.next)
			if op&syntax.EmptyWordBoundary != 0 && !wb {
				return false
			}
			if op&syntax.EmptyNoWordBoundary != 0 && wb {
				return false
			}
		}
		return true
	}
	var cur, nxt []reThread
	var seen map[int]bool
	var add func(list []reThread, pc int, pos int, caps []int, c ctx) []reThread
	add = func(list []reThread, pc int, pos int, caps []int, c ctx) []reThread {
		if seen[pc] {
			return list
		}
		seen[pc] = true
		in := &prog.Inst[pc]
		switch in.Op {
		case syntax.InstFail:
		case syntax.InstAlt, syntax.InstAltMatch:
			list = add(list, int(in.Out), pos, caps, c)
			list = add(list, int(in.Arg), pos, caps, c)
		case syntax.InstEmptyWidth:
			if checkEmpty(syntax.EmptyOp(in.Arg), c) {
				list = add(list, int(in.Out), pos, caps, c)
			}
		case syntax.InstNop:
			list = add(list, int(in.Out), pos, caps, c)
		case syntax.InstCapture:
			if int(in.Arg) < len(caps) {
				nc := append([]int(nil), caps...)
				nc[in.Arg] = pos
				caps = nc
			}
			list = add(list, int(in.Out), pos, caps, c)
		default:
			list = append(list, reThread{pc, caps})
		}
		return list
	}
	ncap := 2 * r.ncap
	var matched []int
	pos := 0
	empty := make([]int, ncap)
	for i := range empty {
		empty[i] = -1
	}
	for i := 0; ; i++ {
		c := ctx{prev: none, next: chars[i], first: i == 0}
		if i > 0 {
			c.prev = chars[i-1]
		}
		if matched == nil && (i == 0 || !r.anch) {
			if i == 0 {
				seen = map[int]bool{}
			}
			caps := append([]int(nil), empty...)
			caps[0] = pos
			cur = add(cur, prog.Start, pos, caps, c)
		}
		if len(cur) == 0 {
			if matched != nil || r.anch || chars[i].end {
				break
			}
		}
		// step
		nxt = nil
		seen = map[int]bool{}
		var nc ctx
		if !chars[i].end {
			nc = ctx{prev: chars[i], next: chars[i+1]}
		}
		npos := pos + chars[i].size
		for _, t := range cur {
			in := &prog.Inst[t.pc]
			if in.Op == syntax.InstMatch {
				matched = append([]int(nil), t.cap...)
				matched[1] = pos
				break
			}
			if m.reMatchInst(st, r, in, chars[i]) {
				nxt = add(nxt, int(in.Out), npos, t.cap, nc)
			}
		}
		cur = nxt
		if chars[i].end {
			break
		}
		pos = npos
	}
	return matched
}

var startMemo sync.Map

// canStart reports whether a match of an anchored pattern may begin with (or not consume) byte c.
func (r *SymRE) canStart(c byte) bool {
	var tab *[128]bool
	if v, ok := startMemo.Load(r); ok {
		tab = v.(*[128]bool)
	} else {
		tab = &[128]bool{}
		seen := map[uint32]bool{}
		all := false
		var walk func(pc uint32)
		walk = func(pc uint32) {
			if seen[pc] {
				return
			}
			seen[pc] = true
			in := &r.prog.Inst[pc]
			switch in.Op {
			case syntax.InstAlt, syntax.InstAltMatch:
				walk(in.Out)
				walk(in.Arg)
			case syntax.InstEmptyWidth, syntax.InstNop, syntax.InstCapture:
				walk(in.Out)
			case syntax.InstMatch:
				all = true
			case syntax.InstFail:
			default:
				for k := 0; k < 128; k++ {
					if in.MatchRune(rune(k)) {
						tab[k] = true
					}
				}
			}
		}
		walk(uint32(r.prog.Start))
		if all {
			for k := range tab {
				tab[k] = true
			}
		}
		startMemo.Store(r, tab)
	}
	return tab[c]
}

func (m *Machine) mkRegexp(st *State, r *SymRE) Value {
	id := m.alloc(st, []Value{Opq{"regexp", r}}, nil)
	return Ptr{id, 0}
}

func (m *Machine) reOf(st *State, v Value) *SymRE {
	if u, ok := v.(*Union); ok {
		v = m.pick(st, u)
	}
	p, ok := v.(Ptr)
	if !ok {
		m.unsupported(fmt.Sprintf("regexp operand %T", v))
	}
	if p.id == 0 {
		m.nilDeref()
	}
	o, ok := m.getObj(st, p.id).slots[p.off].(Opq)
	if !ok {
		m.unsupported("regexp object")
	}
	return o.v.(*SymRE)
}

func (m *Machine) strSlice(st *State, xs []Value) Value {
	if len(xs) == 0 {
		return Slice{}
	}
	id := m.alloc(st, xs, m.stringTI())
	return Slice{id, 0, int32(len(xs)), int32(len(xs))}
}

func init() {
	N := func(name string, f nativeFn) { natives[name] = f }
	str := func(m *Machine, st *State, v Value) Value {
		if u, ok := v.(*Union); ok {
			return m.pick(st, u)
		}
		return v
	}
	N("regexp.MustCompile", func(m *Machine, st *State, fi *FnInfo, a []Value) Value {
		r, err := m.compileSym(st, str(m, st, a[0]))
		if err != nil {
			panic(goPanic{Iface{m.stringTI(), "regexp: Compile: " + err.Error()}})
		}
		return m.mkRegexp(st, r)
	})
	N("regexp.Compile", func(m *Machine, st *State, fi *FnInfo, a []Value) Value {
		r, err := m.compileSym(st, str(m, st, a[0]))
		if err != nil {
			return Tuple{Ptr{}, m.newError(st, err.Error())}
		}
		return Tuple{m.mkRegexp(st, r), Iface{}}
	})
	N("regexp.QuoteMeta", func(m *Machine, st *State, fi *FnInfo, a []Value) Value {
		var out []Value
		for _, b := range strBytes(str(m, st, a[0])) {
			switch x := b.(type) {
			case I:
				for _, c := range []byte(regexp.QuoteMeta(string([]byte{byte(x)}))) {
					out = append(out, I(c))
				}
			case *Term:
				var set [2]uint64
				for _, c := range []byte(`\.+*?()|[]{}^$`) {
					set[c/64] |= 1 << (c % 64)
				}
				if m.decide(st, bval(m.classTerm(x, set))) {
					out = append(out, I('\\'))
				}
				out = append(out, x)
			}
		}
		return mkStr(out)
	})
	N("(*regexp.Regexp).String", func(m *Machine, st *State, fi *FnInfo, a []Value) Value { return m.reOf(st, a[0]).src })
	N("(*regexp.Regexp).MatchString", func(m *Machine, st *State, fi *FnInfo, a []Value) Value {
		return m.reMatch(st, m.reOf(st, a[0]), str(m, st, a[1])) != nil
	})
	N("(*regexp.Regexp).NumSubexp", func(m *Machine, st *State, fi *FnInfo, a []Value) Value { return I(uint64(m.reOf(st, a[0]).ncap - 1)) })
	N("(*regexp.Regexp).FindStringSubmatchIndex", func(m *Machine, st *State, fi *FnInfo, a []Value) Value {
		mt := m.reMatch(st, m.reOf(st, a[0]), str(m, st, a[1]))
		if mt == nil {
			return Slice{}
		}
		out := make([]Value, len(mt))
		for i, x := range mt {
			out[i] = I(uint64(int64(x)))
		}
		id := m.alloc(st, out, m.intTI())
		return Slice{id, 0, int32(len(out)), int32(len(out))}
	})
	natives["(*regexp.Regexp).FindStringIndex"] = func(m *Machine, st *State, fi *FnInfo, a []Value) Value {
		mt := m.reMatch(st, m.reOf(st, a[0]), str(m, st, a[1]))
		if mt == nil {
			return Slice{}
		}
		id := m.alloc(st, []Value{I(uint64(int64(mt[0]))), I(uint64(int64(mt[1])))}, m.intTI())
		return Slice{id, 0, 2, 2}
	}
	N("(*regexp.Regexp).FindString", func(m *Machine, st *State, fi *FnInfo, a []Value) Value {
		s := str(m, st, a[1])
		mt := m.reMatch(st, m.reOf(st, a[0]), s)
		if mt == nil {
			return ""
		}
		return strSub(s, mt[0], mt[1])
	})
	N("(*regexp.Regexp).FindStringSubmatch", func(m *Machine, st *State, fi *FnInfo, a []Value) Value {
		s := str(m, st, a[1])
		mt := m.reMatch(st, m.reOf(st, a[0]), s)
		if mt == nil {
			return Slice{}
		}
		var out []Value
		for i := 0; i < len(mt); i += 2 {
			if mt[i] < 0 {
				out = append(out, "")
			} else {
				out = append(out, strSub(s, mt[i], mt[i+1]))
			}
		}
		return m.strSlice(st, out)
	})
	N("(*regexp.Regexp).FindAllStringSubmatchIndex", func(m *Machine, st *State, fi *FnInfo, a []Value) Value {
		r := m.reOf(st, a[0])
		s, ok := str(m, st, a[1]).(string)
		if !ok || r.re == nil {
			m.unsupported("FindAllStringSubmatchIndex on symbolic input")
		}
		all := r.re.FindAllStringSubmatchIndex(s, m.concInt(st, a[2]))
		if all == nil {
			return Slice{}
		}
		var out []Value
		for _, mt := range all {
			e := make([]Value, len(mt))
			for i, x := range mt {
				e[i] = I(uint64(int64(x)))
			}
			id := m.alloc(st, e, m.intTI())
			out = append(out, Slice{id, 0, int32(len(e)), int32(len(e))})
		}
		id := m.alloc(st, out, nil)
		return Slice{id, 0, int32(len(out)), int32(len(out))}
	})
	N("(*regexp.Regexp).ReplaceAllString", func(m *Machine, st *State, fi *FnInfo, a []Value) Value {
		r := m.reOf(st, a[0])
		s := str(m, st, a[1])
		if cs, ok := s.(string); ok && r.re != nil {
			return r.re.ReplaceAllString(cs, m.concStr(st, a[2]))
		}
		if r.anch {
			mt := m.reMatch(st, r, s)
			if mt == nil {
				return s
			}
			repl := m.concStr(st, a[2])
			if strings.Contains(repl, "$") {
				var out Value = ""
				// expand $n / ${n}
				for i := 0; i < len(repl); i++ {
					if repl[i] != '$' {
						out = strCat(out, repl[i:i+1])
						continue
					}
					j := i + 1
					br := j < len(repl) && repl[j] == '{'
					if br {
						j++
					}
					k := j
					for k < len(repl) && repl[k] >= '0' && repl[k] <= '9' {
						k++
					}
					n := 0
					fmt.Sscanf(repl[j:k], "%d", &n)
					if k == j || 2*n+1 >= len(mt) {
						m.unsupported("replacement template")
					}
					if mt[2*n] >= 0 {
						out = strCat(out, strSub(s, mt[2*n], mt[2*n+1]))
					}
					if br {
						k++
					}
					i = k - 1
				}
				return strCat(strCat(strSub(s, 0, mt[0]), out), strSub(s, mt[1], strLen(s)))
			}
			return strCat(strCat(strSub(s, 0, mt[0]), repl), strSub(s, mt[1], strLen(s)))
		}
		m.unsupported("ReplaceAllString on symbolic input")
		return nil
	})
}
