package main

import (
	"go/constant"
	"go/token"
	"go/types"
	"math"

	"golang.org/x/tools/go/ssa"
)

type opd struct {
	reg int32 // -1: constant v
	v   Value
}

type icode uint8

const (
	iBad icode = iota
	iAlloc
	iBinOp
	iUnOp
	iLoad
	iStore
	iCall
	iChangeType
	iConvert
	iMakeInterface
	iTypeAssert
	iExtract
	iField
	iFieldAddr
	iIndex
	iIndexAddr
	iLookup
	iMakeClosure
	iMakeMap
	iMakeSlice
	iMapUpdate
	iNext
	iRange
	iSlice
	iIf
	iJump
	iReturn
	iPanic
	iDefer
	iRunDefers
	iUnsup
)

type edge struct {
	to   int32
	pred int32 // index of this edge among the successor's predecessors
}

type Instr struct {
	op     icode
	tok    token.Token
	dst    int32
	idx    int32
	a, b   opd
	c, d   opd
	args   []opd
	k, k2  tk
	typ    types.Type // result type
	typ2   types.Type // operand type
	succ   [2]edge
	fn     *ssa.Function // static callee
	cfn    *Fn
	nat    native
	bi     string
	invoke *types.Func
	ssa    ssa.Instruction
	sig    *types.Signature
	// conditional merging
	orNext, andNext bool
	diamond         bool
	commaOk         bool
}

type phi struct {
	dst   int32
	edges []opd
	k     tk
}

type Block struct {
	idx  int
	ins  []Instr
	phis []phi
	pure bool // register-only instructions before the terminator
	np   int
}

type ssaFunction = ssa.Function

type Fn struct {
	f      *ssa.Function
	name   string
	blocks []*Block
	nregs  int
	params []int32
	free   []int32
	inrepo bool
	recov  int // recover block
}

type Frame struct {
	fn     *Fn
	parent *Frame
	epoch  int64
	blk    *Block
	pc     int
	regs   []Value
	dst    int32 // register of the parent that receives the result
	defers *deferred
	panic  *Value // this frame is running its deferred calls because of a panic
	recvd  bool
	isdef  bool // called by defer
	depth  int
}

type deferred struct {
	fn   Value
	nat  native
	ins  *Instr
	args []Value
	next *deferred
}

func (f *Frame) freezeAt(e *Engine) {}

// thaw returns a frame that may be modified in the current epoch.
func (f *Frame) thaw(e *Engine) *Frame {
	if f.epoch == e.epoch {
		return f
	}
	n := *f
	n.epoch = e.epoch
	n.regs = make([]Value, len(f.regs))
	copy(n.regs, f.regs)
	return &n
}

func (e *Engine) constVal(c *ssa.Const) Value {
	t := c.Type()
	if c.Value == nil {
		return zero(t)
	}
	if _, ok := t.(*types.TypeParam); ok {
		panic(unsup("constant of type parameter type"))
	}
	k := tinfo(t)
	switch k.c {
	case cBool:
		return vBool(constant.BoolVal(c.Value))
	case cString:
		if c.Value.Kind() == constant.Int {
			i, _ := constant.Int64Val(c.Value)
			return vStr(string(rune(i)))
		}
		return vStr(constant.StringVal(c.Value))
	case cInt:
		v := constant.ToInt(c.Value)
		if i, ok := constant.Int64Val(v); ok {
			return Value{n: uint64(i) & mask(k.w)}
		}
		u, _ := constant.Uint64Val(v)
		return Value{n: u & mask(k.w)}
	case cFloat:
		f, _ := constant.Float64Val(c.Value)
		if k.w == 32 {
			f = float64(float32(f))
		}
		return Value{n: math.Float64bits(f)}
	case cIface:
		panic(unsup("interface constant"))
	}
	return Value{o: &Opaque{"complex"}}
}

func (e *Engine) globalCell(g *ssa.Global) *Value {
	c := e.glob[g]
	if c == nil {
		c = new(Value)
		*c = zero(g.Type().(*types.Pointer).Elem())
		if g.Pkg != nil && !e.P.initOK[g.Pkg.Pkg] {
			if m, ok := globalModel(e, g); ok {
				*c = m
			} else {
				*c = Value{o: &Opaque{"global " + g.String()}}
			}
		}
		e.glob[g] = c
	}
	return c
}

func (e *Engine) compile(f *ssa.Function) *Fn {
	if fn := e.fns[f]; fn != nil {
		return fn
	}
	if len(f.Blocks) == 0 {
		return nil
	}
	fn := &Fn{f: f, name: f.String(), recov: -1}
	e.fns[f] = fn
	if p := f.Package(); p != nil {
		fn.inrepo = e.P.repo[p.Pkg]
	} else if o := f.Origin(); o != nil && o.Package() != nil {
		fn.inrepo = e.P.repo[o.Package().Pkg]
	}
	regs := map[ssa.Value]int32{}
	reg := func(v ssa.Value) int32 {
		r, ok := regs[v]
		if !ok {
			r = int32(len(regs))
			regs[v] = r
		}
		return r
	}
	op := func(v ssa.Value) opd {
		switch v := v.(type) {
		case nil:
			return opd{reg: -1}
		case *ssa.Const:
			return opd{reg: -1, v: e.constVal(v)}
		case *ssa.Global:
			return opd{reg: -1, v: Value{o: e.globalCell(v)}}
		case *ssa.Function:
			return opd{reg: -1, v: Value{o: e.funcVal(v)}}
		case *ssa.Builtin:
			return opd{reg: -1}
		}
		return opd{reg: reg(v)}
	}
	for _, p := range f.Params {
		fn.params = append(fn.params, reg(p))
	}
	for _, p := range f.FreeVars {
		fn.free = append(fn.free, reg(p))
	}
	predIdx := func(from, to *ssa.BasicBlock, nth int) int32 {
		for i, p := range to.Preds {
			if p == from {
				if nth == 0 {
					return int32(i)
				}
				nth--
			}
		}
		panic("no edge")
	}
	for _, b := range f.Blocks {
		blk := &Block{idx: b.Index, pure: true, np: len(b.Preds)}
		fn.blocks = append(fn.blocks, blk)
		for _, in := range b.Instrs {
			if p, ok := in.(*ssa.Phi); ok {
				ph := phi{dst: reg(p), k: tinfo(p.Type())}
				for _, x := range p.Edges {
					ph.edges = append(ph.edges, op(x))
				}
				blk.phis = append(blk.phis, ph)
				continue
			}
			if _, ok := in.(*ssa.DebugRef); ok {
				continue
			}
			I := Instr{ssa: in, dst: -1}
			if v, ok := in.(ssa.Value); ok {
				I.dst = reg(v)
				I.typ = v.Type()
			}
			pure := false
			switch in := in.(type) {
			case *ssa.Alloc:
				I.op = iAlloc
				I.typ = in.Type().Underlying().(*types.Pointer).Elem()
			case *ssa.BinOp:
				I.op, I.tok = iBinOp, in.Op
				I.a, I.b = op(in.X), op(in.Y)
				I.k, I.k2 = tinfo(in.X.Type()), tinfo(in.Y.Type())
				I.typ2 = in.X.Type()
				pure = in.Op != token.QUO && in.Op != token.REM && in.Op != token.SHL && in.Op != token.SHR
			case *ssa.UnOp:
				I.op, I.tok, I.a = iUnOp, in.Op, op(in.X)
				I.k = tinfo(in.X.Type())
				pure = in.Op == token.NOT || in.Op == token.SUB
				if in.Op == token.MUL {
					I.op = iLoad
				}
				I.commaOk = in.CommaOk
			case *ssa.Store:
				I.op, I.a, I.b = iStore, op(in.Addr), op(in.Val)
			case *ssa.Call:
				I.op = iCall
				e.compileCall(&I, &in.Call, op)
			case *ssa.Defer:
				I.op = iDefer
				e.compileCall(&I, &in.Call, op)
				if in.DeferStack != nil {
					I.op = iUnsup
				}
			case *ssa.ChangeType:
				I.op, I.a = iChangeType, op(in.X)
				pure = true
			case *ssa.ChangeInterface:
				I.op, I.a = iChangeType, op(in.X)
				pure = true
			case *ssa.Convert:
				I.op, I.a = iConvert, op(in.X)
				I.typ2 = in.X.Type()
				I.k, I.k2 = tinfo(in.X.Type()), tinfo(in.Type())
				pure = I.k.c == cInt && I.k2.c == cInt
			case *ssa.MakeInterface:
				I.op, I.a = iMakeInterface, op(in.X)
				I.typ2 = in.X.Type()
			case *ssa.TypeAssert:
				I.op, I.a = iTypeAssert, op(in.X)
				I.typ2 = in.AssertedType
				I.commaOk = in.CommaOk
			case *ssa.Extract:
				I.op, I.a, I.idx = iExtract, op(in.Tuple), int32(in.Index)
				pure = true
			case *ssa.Field:
				I.op, I.a, I.idx = iField, op(in.X), int32(in.Field)
				pure = true
			case *ssa.FieldAddr:
				I.op, I.a, I.idx = iFieldAddr, op(in.X), int32(in.Field)
			case *ssa.Index:
				I.op, I.a, I.b = iIndex, op(in.X), op(in.Index)
				I.k, I.k2 = tinfo(in.X.Type()), tinfo(in.Index.Type())
			case *ssa.IndexAddr:
				I.op, I.a, I.b = iIndexAddr, op(in.X), op(in.Index)
				I.typ2 = in.X.Type()
				I.k2 = tinfo(in.Index.Type())
			case *ssa.Lookup:
				I.op, I.a, I.b = iLookup, op(in.X), op(in.Index)
				I.typ2 = in.X.Type()
				I.k = tinfo(in.X.Type())
				I.k2 = tinfo(in.Index.Type())
				I.commaOk = in.CommaOk
			case *ssa.MakeClosure:
				I.op, I.fn = iMakeClosure, in.Fn.(*ssa.Function)
				for _, b := range in.Bindings {
					I.args = append(I.args, op(b))
				}
			case *ssa.MakeMap:
				I.op = iMakeMap
			case *ssa.MakeSlice:
				I.op, I.a, I.b = iMakeSlice, op(in.Len), op(in.Cap)
				I.k = tinfo(in.Len.Type())
			case *ssa.MapUpdate:
				I.op, I.a, I.b, I.c = iMapUpdate, op(in.Map), op(in.Key), op(in.Value)
				I.typ2 = in.Map.Type()
			case *ssa.Next:
				I.op, I.a = iNext, op(in.Iter)
				I.commaOk = in.IsString
			case *ssa.Range:
				I.op, I.a = iRange, op(in.X)
				I.typ2 = in.X.Type()
			case *ssa.Slice:
				I.op, I.a, I.b, I.c, I.d = iSlice, op(in.X), op(in.Low), op(in.High), op(in.Max)
				I.typ2 = in.X.Type()
				I.idx = 0
				if in.Low != nil {
					I.idx |= 1
				}
				if in.High != nil {
					I.idx |= 2
				}
				if in.Max != nil {
					I.idx |= 4
				}
			case *ssa.If:
				I.op, I.a = iIf, op(in.Cond)
				s0, s1 := b.Succs[0], b.Succs[1]
				I.succ[0] = edge{int32(s0.Index), predIdx(b, s0, 0)}
				nth := 0
				if s0 == s1 {
					nth = 1
				}
				I.succ[1] = edge{int32(s1.Index), predIdx(b, s1, nth)}
				pure = true
			case *ssa.Jump:
				I.op = iJump
				I.succ[0] = edge{int32(b.Succs[0].Index), predIdx(b, b.Succs[0], 0)}
				pure = true
			case *ssa.Return:
				I.op = iReturn
				for _, r := range in.Results {
					I.args = append(I.args, op(r))
				}
			case *ssa.Panic:
				I.op, I.a = iPanic, op(in.X)
			case *ssa.RunDefers:
				I.op = iRunDefers
			case *ssa.MultiConvert:
				I.op = iUnsup
			default:
				I.op = iUnsup
			}
			if !pure {
				blk.pure = false
			}
			blk.ins = append(blk.ins, I)
		}
	}
	fn.nregs = len(regs)
	if f.Recover != nil {
		fn.recov = f.Recover.Index
	}
	// mark conditional chains
	for _, b := range fn.blocks {
		if len(b.ins) == 0 {
			continue
		}
		I := &b.ins[len(b.ins)-1]
		if I.op != iIf {
			continue
		}
		T, F := fn.blocks[I.succ[0].to], fn.blocks[I.succ[1].to]
		if ok, J := chainBlock(F); ok && J.op == iIf && J.succ[0].to == I.succ[0].to && J.succ[0].to != int32(F.idx) && samePhis(T, I.succ[0].pred, J.succ[0].pred) {
			I.orNext = true
		} else if ok, J := chainBlock(T); ok && J.op == iIf && J.succ[1].to == I.succ[1].to && J.succ[1].to != int32(T.idx) && samePhis(F, I.succ[1].pred, J.succ[1].pred) {
			I.andNext = true
		}
		I.diamond = isDiamond(fn, b, I)
	}
	return fn
}

func chainBlock(b *Block) (bool, *Instr) {
	if !b.pure || len(b.phis) > 0 || b.np != 1 || len(b.ins) == 0 {
		return false, nil
	}
	return true, &b.ins[len(b.ins)-1]
}

func sameOpd(a, b opd) bool {
	if a.reg != b.reg {
		return false
	}
	if a.reg >= 0 {
		return true
	}
	if a.v.n != b.v.n {
		return false
	}
	if s, ok := a.v.o.(string); ok {
		t, ok := b.v.o.(string)
		return ok && s == t
	}
	if a.v.o == nil || b.v.o == nil {
		return a.v.o == nil && b.v.o == nil
	}
	return sameRef(a.v.o, b.v.o)
}

func samePhis(b *Block, p, q int32) bool {
	for _, ph := range b.phis {
		if !sameOpd(ph.edges[p], ph.edges[q]) {
			return false
		}
	}
	return true
}

// isDiamond: both branches do only register work and meet in a block whose phis that
// differ are booleans.
func isDiamond(fn *Fn, b *Block, I *Instr) bool {
	j0, p0, ok0 := arm(fn, I.succ[0])
	j1, p1, ok1 := arm(fn, I.succ[1])
	var j, p, q int32
	switch {
	case ok0 && ok1 && j0 == j1:
		j, p, q = j0, p0, p1
	case ok0 && j0 == I.succ[1].to:
		j, p, q = j0, p0, I.succ[1].pred
	case ok1 && j1 == I.succ[0].to:
		j, p, q = j1, I.succ[0].pred, p1
	default:
		return false
	}
	J := fn.blocks[j]
	if len(J.phis) == 0 {
		return false
	}
	for _, ph := range J.phis {
		if ph.k.c != cBool && !sameOpd(ph.edges[p], ph.edges[q]) {
			return false
		}
	}
	return true
}

func arm(fn *Fn, s edge) (int32, int32, bool) {
	b := fn.blocks[s.to]
	if ok, J := chainBlock(b); ok && J.op == iJump {
		return J.succ[0].to, J.succ[0].pred, true
	}
	return 0, 0, false
}

func (e *Engine) funcVal(f *ssa.Function) *Closure {
	return &Closure{fn: f}
}

func (e *Engine) compileCall(I *Instr, c *ssa.CallCommon, op func(ssa.Value) opd) {
	I.sig = c.Signature()
	for _, a := range c.Args {
		I.args = append(I.args, op(a))
	}
	if c.IsInvoke() {
		I.invoke = c.Method
		I.a = op(c.Value)
		return
	}
	switch f := c.Value.(type) {
	case *ssa.Builtin:
		I.bi = f.Name()
		if len(c.Args) > 0 {
			I.typ2 = c.Args[0].Type()
		}
	case *ssa.Function:
		I.fn = f
		I.nat = e.nativeFor(f)
	default:
		I.a = op(c.Value)
	}
}

func nativeName(f *ssa.Function) string {
	if o := f.Origin(); o != nil {
		f = o
	}
	return f.String()
}

func (e *Engine) nativeFor(f *ssa.Function) native {
	name := nativeName(f)
	if n, ok := natives[name]; ok {
		return n
	}
	if f.Pkg == e.P.main || f.Origin() != nil && f.Origin().Pkg == e.P.main {
		n := f.Name()
		if o := f.Origin(); o != nil {
			n = o.Name()
		}
		if nn, ok := intrinsics[n]; ok {
			return nn
		}
	}
	return nil
}
