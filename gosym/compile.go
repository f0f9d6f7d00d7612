package main

import (
	"fmt"
	"go/constant"
	gotok "go/token"
	"go/types"
	"math"
	"strings"
	"sync"

	"golang.org/x/tools/go/ssa"
)

type opcode uint8

const (
	oAlloc opcode = iota
	oBinOp
	oUnNot
	oUnNeg
	oUnLoad
	oUnXor
	oRecv
	oCall
	oBuiltin
	oInvoke
	oChangeType
	oConvert
	oMultiConvert
	oChangeIface
	oMakeIface
	oTypeAssert
	oField
	oFieldAddr
	oIndex
	oIndexAddr
	oLookup
	oSlice
	oSliceToArr
	oMakeSlice
	oMakeMap
	oMakeChan
	oMakeClosure
	oRange
	oNext
	oExtract
	oStore
	oMapUpdate
	oSend
	oSelect
	oGo
	oDefer
	oRunDefers
	oPanic
	oReturn
	oIf
	oJump
	oNop
)

type inst struct {
	op     opcode
	dst    int32
	a, b   int32
	args   []int32
	ti     *TypeInfo // result type
	t1     *TypeInfo // operand type
	n      int
	off    int
	tok    gotok.Token
	flag   bool
	callee *FnInfo
	meth   *types.Func
	blt    string
	sel    []selCase
	ssa    ssa.Instruction
	dyn    bool
	pos    gotok.Pos
	idx    int32
}

type selCase struct {
	send bool
	ch   int32
	v    int32
	et   *TypeInfo
}

type phi struct {
	dst   int32
	edges []int32
}

type block struct {
	phis  []phi
	ins   []inst
	succs [2]int32
	preds []int32
	join  bool
	// loop information for the merging scheduler
	rpo    int32
	loops  []int32 // enclosing loops, outermost first
	isHead int32   // loop index if header, else -1
	liveIn []bool
}

type FnInfo struct {
	fn          *ssa.Function
	name        string
	blocks      []block
	nregs       int
	nparams     int
	nfree       int
	consts      []Value
	regTI       []*TypeInfo
	recover     int32
	native      nativeFn
	model       *FnInfo
	once        sync.Once
	res         *types.Tuple
	isInit      bool
	loopsDone   sync.Once
	nloops      int
	heads       []int32
	irreducible bool
	liveCache   sync.Map
	resTI       *TypeInfo
	nsteps      int64
	repo        bool
	fv          *FuncV
}

type nativeFn func(m *Machine, st *State, fn *FnInfo, args []Value) Value

type Program struct {
	prog    *ssa.Program
	fns     sync.Map // *ssa.Function -> *FnInfo
	globals map[*ssa.Global]int32
	gnames  []*ssa.Global
	gdirty  map[*ssa.Global]bool // written by a package initialiser
	initOK  map[*ssa.Package]bool
	models  map[string]*ssa.Function
	base    *Heap
	memo    map[string]*memoRec
	rtypeTI *TypeInfo
	sizes   types.Sizes
}

func (p *Program) fn(f *ssa.Function) *FnInfo {
	if v, ok := p.fns.Load(f); ok {
		return v.(*FnInfo)
	}
	fi := &FnInfo{fn: f, name: fnName(f)}
	fi.fv = &FuncV{fn: fi}
	v, _ := p.fns.LoadOrStore(f, fi)
	return v.(*FnInfo)
}

func fnName(f *ssa.Function) string {
	if o := f.Origin(); o != nil {
		return o.String()
	}
	return f.String()
}

// prep compiles the function on first use.
func (p *Program) prep(fi *FnInfo) {
	fi.once.Do(func() {
		fi.native = natives[fi.name]
		if fi.native == nil {
			for _, pr := range prefixNatives {
				if strings.HasPrefix(fi.name, pr.prefix) {
					fi.native = pr.f
				}
			}
		}
		if fi.fn.Synthetic == "package initializer" && fi.fn.Pkg != nil && !initAllowed(fi.fn.Pkg.Pkg.Path()) {
			fi.native = func(m *Machine, st *State, fn *FnInfo, args []Value) Value { return nil }
		}
		fi.res = fi.fn.Signature.Results()
		switch fi.res.Len() {
		case 0:
		case 1:
			fi.resTI = tinfo(fi.res.At(0).Type())
		}
		if mf, ok := p.models[fi.name]; ok && mf != fi.fn {
			fi.model = p.fn(mf)
			p.prep(fi.model)
			return
		}
		if fi.fn.Blocks != nil {
			p.compile(fi)
		}
	})
}

type compiler struct {
	p    *Program
	fi   *FnInfo
	reg  map[ssa.Value]int32
	cidx map[ssa.Value]int32
}

func (c *compiler) newReg(v ssa.Value) int32 {
	r := int32(c.fi.nregs)
	c.fi.nregs++
	c.reg[v] = r
	c.fi.regTI = append(c.fi.regTI, tinfo(v.Type()))
	return r
}

func (c *compiler) constant(v Value) int32 {
	c.fi.consts = append(c.fi.consts, v)
	return -int32(len(c.fi.consts))
}

func (c *compiler) opnd(v ssa.Value) int32 {
	if r, ok := c.reg[v]; ok {
		return r
	}
	if r, ok := c.cidx[v]; ok {
		return r
	}
	var val Value
	switch x := v.(type) {
	case *ssa.Const:
		val = constVal(x)
	case *ssa.Global:
		id, ok := c.p.globals[x]
		if !ok {
			panic("unknown global " + x.String())
		}
		val = Ptr{id, 0}
	case *ssa.Function:
		val = c.p.fn(x).fv
	case *ssa.Builtin:
		val = nil
	default:
		panic(fmt.Sprintf("operand %T %s in %s", v, v, c.fi.name))
	}
	r := c.constant(val)
	c.cidx[v] = r
	return r
}

func constVal(x *ssa.Const) Value {
	ti := tinfo(x.Type())
	if x.Value == nil {
		return ti.zeroValue()
	}
	b, ok := ti.U.(*types.Basic)
	if !ok {
		return ti.zeroValue()
	}
	switch {
	case b.Info()&types.IsBoolean != 0:
		return constant.BoolVal(x.Value)
	case b.Info()&types.IsString != 0:
		if x.Value.Kind() == constant.Int {
			i, _ := constant.Int64Val(x.Value)
			return string(rune(i))
		}
		return constant.StringVal(x.Value)
	case b.Info()&types.IsInteger != 0:
		v := constant.ToInt(x.Value)
		if i, ok := constant.Int64Val(v); ok {
			return I(uint64(i) & mask(ti.w))
		}
		u, _ := constant.Uint64Val(v)
		return I(u & mask(ti.w))
	case b.Info()&types.IsFloat != 0:
		f, _ := constant.Float64Val(x.Value)
		if b.Kind() == types.Float32 {
			f = float64(float32(f))
		}
		return f
	case b.Info()&types.IsComplex != 0:
		re, _ := constant.Float64Val(constant.Real(x.Value))
		im, _ := constant.Float64Val(constant.Imag(x.Value))
		return complex(re, im)
	case b.Kind() == types.UnsafePointer:
		return Ptr{}
	}
	return ti.zeroValue()
}

func (p *Program) compile(fi *FnInfo) {
	f := fi.fn
	c := &compiler{p: p, fi: fi, reg: map[ssa.Value]int32{}, cidx: map[ssa.Value]int32{}}
	for _, x := range f.Params {
		c.newReg(x)
	}
	fi.nparams = len(f.Params)
	for _, x := range f.FreeVars {
		c.newReg(x)
	}
	fi.nfree = len(f.FreeVars)
	for _, b := range f.Blocks {
		for _, i := range b.Instrs {
			if v, ok := i.(ssa.Value); ok {
				c.newReg(v)
			}
		}
	}
	fi.recover = -1
	if f.Recover != nil {
		fi.recover = int32(f.Recover.Index)
	}
	if f.Pkg != nil && f.Pkg.Pkg != nil {
		fi.repo = strings.HasPrefix(f.Pkg.Pkg.Path(), "github.com/hexbee-net/etxe")
	} else if o := f.Origin(); o != nil && o.Pkg != nil {
		fi.repo = strings.HasPrefix(o.Pkg.Pkg.Path(), "github.com/hexbee-net/etxe")
	}
	fi.blocks = make([]block, len(f.Blocks))
	for bi, b := range f.Blocks {
		blk := &fi.blocks[bi]
		blk.isHead = -1
		for i, s := range b.Succs {
			blk.succs[i] = int32(s.Index)
		}
		for _, pr := range b.Preds {
			blk.preds = append(blk.preds, int32(pr.Index))
		}
		blk.join = len(b.Preds) > 1
		for _, i := range b.Instrs {
			if ph, ok := i.(*ssa.Phi); ok {
				q := phi{dst: c.reg[ph]}
				for _, e := range ph.Edges {
					q.edges = append(q.edges, c.opnd(e))
				}
				blk.phis = append(blk.phis, q)
				continue
			}
			if _, ok := i.(*ssa.DebugRef); ok {
				continue
			}
			in := c.inst(i)
			in.idx = int32(len(blk.ins))
			blk.ins = append(blk.ins, in)
		}
	}
}

func (c *compiler) inst(i ssa.Instruction) inst {
	in := inst{dst: -1, ssa: i, pos: i.Pos()}
	if v, ok := i.(ssa.Value); ok {
		in.dst = c.reg[v]
		in.ti = tinfo(v.Type())
	}
	switch x := i.(type) {
	case *ssa.Alloc:
		in.op = oAlloc
		in.t1 = tinfo(x.Type().Underlying().(*types.Pointer).Elem())
	case *ssa.BinOp:
		in.op, in.tok = oBinOp, x.Op
		in.a, in.b = c.opnd(x.X), c.opnd(x.Y)
		in.t1 = tinfo(x.X.Type())
		// shifts: operand b may have another type
		if x.Op == gotok.SHL || x.Op == gotok.SHR {
			in.n = int(tinfo(x.Y.Type()).w)
			in.flag = tinfo(x.Y.Type()).signed
		}
		// comparison of interface with concrete is already converted by SSA
	case *ssa.UnOp:
		in.a = c.opnd(x.X)
		in.t1 = tinfo(x.X.Type())
		in.flag = x.CommaOk
		switch x.Op {
		case gotok.NOT:
			in.op = oUnNot
		case gotok.SUB:
			in.op = oUnNeg
		case gotok.MUL:
			in.op = oUnLoad
		case gotok.XOR:
			in.op = oUnXor
		case gotok.ARROW:
			in.op = oRecv
		}
	case *ssa.Call:
		c.call(&in, &x.Call)
	case *ssa.Go:
		c.call(&in, &x.Call)
		in.n = int(in.op)
		in.op = oGo
	case *ssa.Defer:
		if x.DeferStack != nil {
			in.flag = true
		}
		c.call(&in, &x.Call)
		in.n = int(in.op)
		in.op = oDefer
	case *ssa.ChangeType:
		in.op, in.a = oChangeType, c.opnd(x.X)
	case *ssa.Convert:
		in.op, in.a = oConvert, c.opnd(x.X)
		in.t1 = tinfo(x.X.Type())
	case *ssa.MultiConvert:
		in.op, in.a = oConvert, c.opnd(x.X)
		in.t1 = tinfo(x.X.Type())
	case *ssa.ChangeInterface:
		in.op, in.a = oChangeIface, c.opnd(x.X)
	case *ssa.MakeInterface:
		in.op, in.a = oMakeIface, c.opnd(x.X)
		in.t1 = tinfo(x.X.Type())
	case *ssa.TypeAssert:
		in.op, in.a = oTypeAssert, c.opnd(x.X)
		in.t1 = tinfo(x.AssertedType)
		in.flag = x.CommaOk
	case *ssa.Field:
		in.op, in.a = oField, c.opnd(x.X)
		in.t1 = tinfo(x.X.Type())
		in.n = x.Field
	case *ssa.FieldAddr:
		in.op, in.a = oFieldAddr, c.opnd(x.X)
		st := tinfo(x.X.Type().Underlying().(*types.Pointer).Elem())
		in.t1 = st
		if st.opaque == "" {
			in.off = st.offs[x.Field]
		} else {
			in.off = -1
		}
	case *ssa.Index:
		in.op, in.a, in.b = oIndex, c.opnd(x.X), c.opnd(x.Index)
		in.t1 = tinfo(x.X.Type())
		in.flag = tinfo(x.Index.Type()).signed
		in.n = int(tinfo(x.Index.Type()).w)
	case *ssa.IndexAddr:
		in.op, in.a, in.b = oIndexAddr, c.opnd(x.X), c.opnd(x.Index)
		in.t1 = tinfo(x.X.Type())
		in.flag = tinfo(x.Index.Type()).signed
		in.n = int(tinfo(x.Index.Type()).w)
	case *ssa.Lookup:
		in.op, in.a, in.b = oLookup, c.opnd(x.X), c.opnd(x.Index)
		in.t1 = tinfo(x.X.Type())
		in.flag = x.CommaOk
		in.n = int(tinfo(x.Index.Type()).w)
	case *ssa.Slice:
		in.op, in.a = oSlice, c.opnd(x.X)
		in.t1 = tinfo(x.X.Type())
		none := int32(math.MinInt32)
		in.args = []int32{none, none, none}
		for k, v := range []ssa.Value{x.Low, x.High, x.Max} {
			if v != nil {
				in.args[k] = c.opnd(v)
			}
		}
	case *ssa.SliceToArrayPointer:
		in.op, in.a = oSliceToArr, c.opnd(x.X)
		in.t1 = tinfo(x.X.Type())
	case *ssa.MakeSlice:
		in.op, in.a, in.b = oMakeSlice, c.opnd(x.Len), c.opnd(x.Cap)
	case *ssa.MakeMap:
		in.op = oMakeMap
	case *ssa.MakeChan:
		in.op, in.a = oMakeChan, c.opnd(x.Size)
	case *ssa.MakeClosure:
		in.op = oMakeClosure
		in.callee = c.p.fn(x.Fn.(*ssa.Function))
		for _, b := range x.Bindings {
			in.args = append(in.args, c.opnd(b))
		}
	case *ssa.Range:
		in.op, in.a = oRange, c.opnd(x.X)
		in.t1 = tinfo(x.X.Type())
	case *ssa.Next:
		in.op, in.a = oNext, c.opnd(x.Iter)
		in.flag = x.IsString
		in.t1 = tinfo(x.Iter.(*ssa.Range).X.Type())
	case *ssa.Extract:
		in.op, in.a, in.n = oExtract, c.opnd(x.Tuple), x.Index
	case *ssa.Store:
		in.op, in.a, in.b = oStore, c.opnd(x.Addr), c.opnd(x.Val)
		in.t1 = tinfo(x.Val.Type())
	case *ssa.MapUpdate:
		in.op, in.a, in.b = oMapUpdate, c.opnd(x.Map), c.opnd(x.Key)
		in.args = []int32{c.opnd(x.Value)}
		in.t1 = tinfo(x.Map.Type())
	case *ssa.Send:
		in.op, in.a, in.b = oSend, c.opnd(x.Chan), c.opnd(x.X)
	case *ssa.Select:
		in.op = oSelect
		in.flag = x.Blocking
		for _, s := range x.States {
			sc := selCase{send: s.Dir == types.SendOnly, ch: c.opnd(s.Chan), et: tinfo(s.Chan.Type()).elem}
			if s.Send != nil {
				sc.v = c.opnd(s.Send)
			}
			in.sel = append(in.sel, sc)
		}
	case *ssa.RunDefers:
		in.op = oRunDefers
	case *ssa.Panic:
		in.op, in.a = oPanic, c.opnd(x.X)
	case *ssa.Return:
		in.op = oReturn
		for _, r := range x.Results {
			in.args = append(in.args, c.opnd(r))
		}
	case *ssa.If:
		in.op, in.a = oIf, c.opnd(x.Cond)
	case *ssa.Jump:
		in.op = oJump
	default:
		panic(fmt.Sprintf("compile: %T", i))
	}
	return in
}

func (c *compiler) call(in *inst, cc *ssa.CallCommon) {
	if cc.IsInvoke() {
		in.op = oInvoke
		in.meth = cc.Method
		in.a = c.opnd(cc.Value)
		for _, a := range cc.Args {
			in.args = append(in.args, c.opnd(a))
		}
		return
	}
	for _, a := range cc.Args {
		in.args = append(in.args, c.opnd(a))
	}
	switch v := cc.Value.(type) {
	case *ssa.Builtin:
		in.op = oBuiltin
		in.blt = v.Name()
		if len(cc.Args) > 0 {
			in.t1 = tinfo(cc.Args[0].Type())
		}
	case *ssa.Function:
		in.op = oCall
		in.callee = c.p.fn(v)
	default:
		in.op = oCall
		in.dyn = true
		in.a = c.opnd(v)
	}
}
