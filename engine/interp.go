package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math"
	"strconv"
	"unicode/utf8"
)

type native func(e *Engine, I *Instr, args []Value) Value

type goPanic struct{ v Value } // raised by natives and instructions: a Go panic in the program

func (e *Engine) rtPanic(msg string) {
	panic(goPanic{Value{o: &Iface{types.Typ[types.String], vStr("runtime error: " + msg)}}})
}

func (e *Engine) get(fr *Frame, o *opd) Value {
	if o.reg >= 0 {
		return fr.regs[o.reg]
	}
	return o.v
}

func (e *Engine) call(fn *Fn, args []Value, env []Value, dst int32) {
	if len(fn.params) != len(args) {
		panic(fmt.Errorf("call of %s with %d arguments", fn.name, len(args)))
	}
	fr := &Frame{fn: fn, parent: e.top, epoch: e.epoch, blk: fn.blocks[0], regs: make([]Value, fn.nregs), dst: dst}
	for i, p := range fn.params {
		fr.regs[p] = args[i]
	}
	for i, p := range fn.free {
		fr.regs[p] = env[i]
	}
	if e.top != nil {
		fr.depth = e.top.depth + 1
	}
	if fn.inrepo && !e.used[fn.f] {
		e.used[fn.f] = true
	}
	e.top = fr
}

func (e *Engine) jump(fr *Frame, s edge) {
	b := fr.fn.blocks[s.to]
	switch len(b.phis) {
	case 0:
	case 1:
		p := &b.phis[0]
		fr.regs[p.dst] = e.get(fr, &p.edges[s.pred])
	default:
		var buf [16]Value
		tmp := buf[:0]
		for i := range b.phis {
			tmp = append(tmp, e.get(fr, &b.phis[i].edges[s.pred]))
		}
		for i := range b.phis {
			fr.regs[b.phis[i].dst] = tmp[i]
		}
	}
	fr.blk = b
	fr.pc = 0
}

// run executes until the harness ends, fails or is dropped.
func (e *Engine) run() (st status, err error) {
	for {
		st, err = e.run1()
		if st != sRun || err != nil {
			return
		}
	}
}

type stopPath struct{ st status }

func (e *Engine) run1() (st status, err error) {
	defer func() {
		if r := recover(); r != nil {
			switch r := r.(type) {
			case goPanic:
				e.panicWhere = e.where()
				st = e.throw(r.v)
			case stopPath:
				st = r.st
			case unsupported:
				err = fmt.Errorf("%s at %s", r.msg, e.where())
			default:
				panic(r)
			}
		}
	}()
	for {
		fr := e.top
		I := &fr.blk.ins[fr.pc]
		e.pa.steps++
		if e.pa.steps > e.stepLimit {
			return sLimit, nil
		}
		switch I.op {
		case iIf:
			e.doIf(fr, I)
			continue
		case iJump:
			e.jump(fr, I.succ[0])
			continue
		case iReturn:
			var v Value
			switch len(I.args) {
			case 0:
			case 1:
				v = e.get(fr, &I.args[0])
			default:
				vs := make([]Value, len(I.args))
				for i := range I.args {
					vs[i] = e.get(fr, &I.args[i])
				}
				v = tuple(vs...)
			}
			if s := e.ret(v); s != sRun {
				return s, nil
			}
			continue
		case iCall:
			if e.doCall(fr, I) {
				continue
			}
		case iRunDefers:
			if fr.defers != nil {
				e.runDefer(fr)
				continue
			}
		case iPanic:
			v := e.get(fr, &I.a)
			e.panicWhere = e.where()
			if s := e.throw(v); s != sRun {
				return s, nil
			}
			continue
		default:
			v, w := e.exec(fr, I)
			if w {
				e.top.regs[I.dst] = v
			}
		}
		e.top.pc++
	}
}

func (e *Engine) ret(v Value) status {
	fr := e.top
	if fr.parent == nil {
		e.top = nil
		return sDone
	}
	p := fr.parent.thaw(e)
	e.top = p
	if fr.isdef {
		if p.panic != nil {
			return e.unwind()
		}
		return sRun // the RunDefers instruction runs again
	}
	if fr.dst >= 0 {
		p.regs[fr.dst] = v
	}
	p.pc++
	return sRun
}

func (e *Engine) throw(v Value) status {
	fr := e.top.thaw(e)
	e.top = fr
	fr.panic = &v
	fr.recvd = false
	return e.unwind()
}

func (e *Engine) unwind() status {
	for {
		fr := e.top
		if fr.recvd {
			fr.panic = nil
			fr.recvd = false
			if fr.defers != nil {
				// remaining deferred calls run normally from the recover block
			}
			if fr.fn.recov >= 0 {
				fr.blk = fr.fn.blocks[fr.fn.recov]
				fr.pc = 0
				return sRun
			}
			res := fr.fn.f.Signature.Results()
			var v Value
			if res.Len() == 1 {
				v = zero(res.At(0).Type())
			} else if res.Len() > 1 {
				v = zero(res)
			}
			return e.ret(v)
		}
		if fr.defers != nil {
			if !e.runDefer(fr) {
				continue
			}
			return sRun
		}
		if fr.parent == nil {
			e.panicVal = *fr.panic
			return sPanic
		}
		v := fr.panic
		p := fr.parent.thaw(e)
		p.panic = v
		p.recvd = false
		e.top = p
	}
}

// runDefer starts the next deferred call; false when it was a model and is already done.
func (e *Engine) runDefer(fr *Frame) bool {
	d := fr.defers
	fr.defers = d.next
	if d.nat != nil {
		d.nat(e, d.ins, d.args)
		return false
	}
	c := d.fn.o.(*Closure)
	nat, fn := e.target(c.fn)
	if nat != nil {
		nat(e, d.ins, d.args)
		return false
	}
	e.call(fn, d.args, c.env, -1)
	e.top.isdef = true
	return true
}

func (e *Engine) where() string {
	s := ""
	n := 0
	for fr := e.top; fr != nil && n < 12; fr = fr.parent {
		pos := ""
		if fr.pc < len(fr.blk.ins) {
			if p := fr.blk.ins[fr.pc].ssa.Pos(); p.IsValid() {
				ps := e.P.fset.Position(p)
				pos = fmt.Sprintf(":%d", ps.Line)
			}
		}
		if s != "" {
			s += " < "
		}
		s += fr.fn.f.Name() + pos
		n++
	}
	return s
}

func (e *Engine) doIf(fr *Frame, I *Instr) {
	c := e.get(fr, &I.a)
	if c.o == nil {
		e.jump(fr, I.succ[1-c.n&1])
		return
	}
	cond := c.o.(*Expr)
	if v, ok := e.decmap[cond]; ok {
		if v {
			e.jump(fr, I.succ[0])
		} else {
			e.jump(fr, I.succ[1])
		}
		return
	}
	t, f := I.succ[0], I.succ[1]
	cur := I
	for cur.orNext {
		b := fr.fn.blocks[cur.succ[1].to]
		J := e.pureBlock(fr, b)
		c2 := e.exprOf(e.get(fr, &J.a), 0)
		cond = e.x.or(cond, c2)
		t, f = J.succ[0], J.succ[1]
		cur = J
	}
	if cur == I {
		for cur.andNext {
			b := fr.fn.blocks[cur.succ[0].to]
			J := e.pureBlock(fr, b)
			c2 := e.exprOf(e.get(fr, &J.a), 0)
			cond = e.x.and(cond, c2)
			t, f = J.succ[0], J.succ[1]
			cur = J
		}
	}
	if cur.diamond && cond.op != OConst && e.H.merge {
		if _, ok := e.decmap[cond]; !ok && e.mergeDiamond(fr, cur, cond) {
			return
		}
	}
	if e.decide(cond) {
		e.jump(e.top, t)
	} else {
		e.jump(e.top, f)
	}
}

// pureBlock runs the register-only instructions of b and returns its terminator.
func (e *Engine) pureBlock(fr *Frame, b *Block) *Instr {
	n := len(b.ins) - 1
	for i := 0; i < n; i++ {
		I := &b.ins[i]
		v, w := e.exec(fr, I)
		if w {
			fr.regs[I.dst] = v
		}
	}
	return &b.ins[n]
}

func (e *Engine) mergeDiamond(fr *Frame, I *Instr, cond *Expr) bool {
	ed := [2]edge{}
	for i := 0; i < 2; i++ {
		if j, p, ok := arm(fr.fn, I.succ[i]); ok {
			other := I.succ[1-i].to
			if j2, _, ok2 := arm(fr.fn, I.succ[1-i]); j == other || ok2 && j2 == j {
				ed[i] = edge{j, p}
				e.pureBlock(fr, fr.fn.blocks[I.succ[i].to])
				continue
			}
		}
		ed[i] = I.succ[i]
	}
	if ed[0].to != ed[1].to {
		return false
	}
	b := fr.fn.blocks[ed[0].to]
	vals := make([]Value, len(b.phis))
	for i := range b.phis {
		p := &b.phis[i]
		x, y := e.get(fr, &p.edges[ed[0].pred]), e.get(fr, &p.edges[ed[1].pred])
		if p.k.c == cBool {
			vals[i] = ofExpr(e.x.ite(cond, e.exprOf(x, 0), e.exprOf(y, 0)))
		} else {
			vals[i] = x
		}
	}
	for i := range b.phis {
		fr.regs[b.phis[i].dst] = vals[i]
	}
	fr.blk = b
	fr.pc = 0
	e.st.Merges++
	return true
}

// doCall returns true when a frame was pushed (or popped) and the pc must not advance.
func (e *Engine) doCall(fr *Frame, I *Instr) bool {
	if I.bi != "" {
		v := e.builtin(fr, I)
		if I.dst >= 0 {
			e.top.regs[I.dst] = v
		}
		return false
	}
	args := make([]Value, 0, len(I.args)+1)
	var env []Value
	var fn *Fn
	nat := I.nat
	switch {
	case I.invoke != nil:
		r := e.get(fr, &I.a)
		ifc, _ := r.o.(*Iface)
		if ifc == nil {
			if op, ok := r.o.(*Opaque); ok {
				if e.initing {
					e.top.regs[I.dst] = r
					return false
				}
				panic(unsup("method call on %s", op.what))
			}
			e.rtPanic("invalid memory address or nil pointer dereference")
		}
		m := e.P.prog.LookupMethod(ifc.t, I.invoke.Pkg(), I.invoke.Name())
		if m == nil {
			panic(unsup("no method %s on %s", I.invoke.Name(), ifc.t))
		}
		args = append(args, ifc.v)
		nat, fn = e.target(m)
	case I.fn != nil:
		if nat == nil {
			if I.cfn == nil {
				nat, I.cfn = e.target(I.fn)
				if !e.initing {
					I.nat = nat
				}
			}
			fn = I.cfn
		}
	default:
		c, ok := e.get(fr, &I.a).o.(*Closure)
		if !ok {
			e.rtPanic("invalid memory address or nil pointer dereference")
		}
		env = c.env
		nat, fn = e.target(c.fn)
	}
	for i := range I.args {
		args = append(args, e.get(fr, &I.args[i]))
	}
	if nat != nil {
		v := nat(e, I, args)
		e.pa.pend = nil
		if I.dst >= 0 {
			e.top.regs[I.dst] = v
		}
		return false
	}
	if fr.depth > e.H.depthLimit {
		panic(stopPath{sLimit})
	}
	e.call(fn, args, env, I.dst)
	return true
}

func (e *Engine) nilDeref() {
	e.rtPanic("invalid memory address or nil pointer dereference")
}

func (e *Engine) ptr(v Value) *Value {
	p, ok := v.o.(*Value)
	if !ok {
		if v.o == nil {
			e.nilDeref()
		}
		panic(unsup("pointer %T", v.o))
	}
	return p
}

func (e *Engine) index(v Value, k tk, n int) int {
	if v.o == nil {
		i := v.n
		if k.signed {
			i = uint64(sx(v.n, k.w))
		}
		if i >= uint64(n) {
			e.rtPanic(fmt.Sprintf("index out of range [%d] with length %d", int64(i), n))
		}
		return int(i)
	}
	x := e.x.conv(v.o.(*Expr), 64, k.signed)
	if !e.decide(e.x.cmp(OUlt, x, e.x.konst(64, uint64(n)))) {
		e.rtPanic(fmt.Sprintf("index out of range with length %d", n))
	}
	return int(e.concretize(ofExpr(x), 64))
}

func (e *Engine) exec(fr *Frame, I *Instr) (Value, bool) {
	switch I.op {
	case iAlloc:
		p := new(Value)
		*p = zero(I.typ)
		return Value{o: p}, true
	case iLoad:
		p := e.ptr(e.get(fr, &I.a))
		v := *p
		switch o := v.o.(type) {
		case *Agg:
			return copyVal(v), true
		case *Opaque:
			if !e.initing && o.what != "symbolic float" {
				panic(unsup("use of %s", o.what))
			}
		}
		return v, true
	case iStore:
		p := e.ptr(e.get(fr, &I.a))
		e.store(p, e.get(fr, &I.b))
		return Value{}, false
	case iBinOp:
		return e.binop(fr, I), true
	case iUnOp:
		x := e.get(fr, &I.a)
		switch I.tok {
		case token.NOT:
			if x.o == nil {
				return Value{n: 1 - x.n}, true
			}
			return ofExpr(e.x.not(x.o.(*Expr))), true
		case token.SUB:
			if I.k.c == cFloat {
				return vFloat(-x.float()), true
			}
			if x.o == nil {
				return Value{n: (-x.n) & mask(I.k.w)}, true
			}
			return ofExpr(e.x.bin(OSub, e.x.konst(I.k.w, 0), x.o.(*Expr))), true
		case token.XOR:
			if x.o == nil {
				return Value{n: (^x.n) & mask(I.k.w)}, true
			}
			return ofExpr(e.x.bin(OBxor, x.o.(*Expr), e.x.konst(I.k.w, ^uint64(0)))), true
		}
		panic(unsup("unary %s", I.tok))
	case iChangeType:
		return e.get(fr, &I.a), true
	case iConvert:
		return e.convert(e.get(fr, &I.a), I), true
	case iMakeInterface:
		return Value{o: &Iface{I.typ2, e.get(fr, &I.a)}}, true
	case iTypeAssert:
		return e.typeAssert(fr, I), true
	case iExtract:
		t := e.get(fr, &I.a)
		return t.o.(*Agg).v[I.idx], true
	case iField:
		t := e.get(fr, &I.a)
		return t.o.(*Agg).v[I.idx], true
	case iFieldAddr:
		p := e.ptr(e.get(fr, &I.a))
		a, ok := p.o.(*Agg)
		if !ok {
			panic(unsup("field of %T", p.o))
		}
		return Value{o: &a.v[I.idx]}, true
	case iIndex:
		x := e.get(fr, &I.a)
		if I.k.c == cString {
			return e.strIndex(x, e.get(fr, &I.b), I.k2), true
		}
		a := x.o.(*Agg)
		return a.v[e.index(e.get(fr, &I.b), I.k2, len(a.v))], true
	case iIndexAddr:
		x := e.get(fr, &I.a)
		iv := e.get(fr, &I.b)
		switch o := x.o.(type) {
		case *Slice:
			return Value{o: &o.a[e.index(iv, I.k2, len(o.a))]}, true
		case *Value:
			a := o.o.(*Agg)
			return Value{o: &a.v[e.index(iv, I.k2, len(a.v))]}, true
		case nil:
			if _, ok := I.typ2.Underlying().(*types.Slice); ok {
				e.index(iv, I.k2, 0)
			}
			e.nilDeref()
		}
		panic(unsup("index of %T", x.o))
	case iLookup:
		x := e.get(fr, &I.a)
		k := e.get(fr, &I.b)
		if I.k.c == cString {
			return e.strIndex(x, k, I.k2), true
		}
		mt := I.typ2.Underlying().(*types.Map)
		m, _ := x.o.(*Map)
		ent := e.mapFind(m, k, mt.Key())
		var v Value
		if ent != nil {
			v = ent.v
		} else {
			v = zero(mt.Elem())
		}
		if I.commaOk {
			return tuple(v, vBool(ent != nil)), true
		}
		return v, true
	case iMakeClosure:
		c := &Closure{fn: I.fn, env: make([]Value, len(I.args))}
		for i := range I.args {
			c.env[i] = e.get(fr, &I.args[i])
		}
		return Value{o: c}, true
	case iMakeMap:
		return Value{o: &Map{idx: map[string]*mapEnt{}}}, true
	case iMakeSlice:
		n := int(int64(e.concretize(e.get(fr, &I.a), I.k.w)))
		c := int(int64(e.concretize(e.get(fr, &I.b), I.k.w)))
		if n < 0 || n > 1<<28 {
			e.rtPanic("makeslice: len out of range")
		}
		if c < n || c > 1<<28 {
			e.rtPanic("makeslice: cap out of range")
		}
		el := I.typ.Underlying().(*types.Slice).Elem()
		a := make([]Value, c)
		fillZero(a, el)
		return Value{o: &Slice{a[:n]}}, true
	case iMapUpdate:
		m, _ := e.get(fr, &I.a).o.(*Map)
		if m == nil {
			panic(goPanic{Value{o: &Iface{types.Typ[types.String], vStr("assignment to entry in nil map")}}})
		}
		e.mapSet(m, e.get(fr, &I.b), e.get(fr, &I.c), I.typ2.Underlying().(*types.Map).Key())
		return Value{}, false
	case iRange:
		x := e.get(fr, &I.a)
		if _, ok := I.typ2.Underlying().(*types.Map); ok {
			m, _ := x.o.(*Map)
			it := &Iter{m: m}
			if m != nil {
				it.ents = e.mapOrder(m)
			}
			e.pa.pend = nil
			return Value{o: it}, true
		}
		return Value{o: &Iter{str: x, isS: true}}, true
	case iNext:
		return e.next(e.get(fr, &I.a).o.(*Iter), I), true
	case iSlice:
		return e.slice(fr, I), true
	case iDefer:
		d := &deferred{next: fr.defers, ins: I}
		if I.bi != "" {
			panic(unsup("defer of builtin"))
		}
		if I.invoke != nil {
			ifc, _ := e.get(fr, &I.a).o.(*Iface)
			if ifc == nil {
				e.nilDeref()
			}
			m := e.P.prog.LookupMethod(ifc.t, I.invoke.Pkg(), I.invoke.Name())
			d.args = append(d.args, ifc.v)
			d.nat = e.nativeFor(m)
			d.fn = Value{o: e.funcVal(m)}
		} else if I.fn != nil {
			d.nat = I.nat
			d.fn = Value{o: e.funcVal(I.fn)}
		} else {
			d.fn = e.get(fr, &I.a)
		}
		for i := range I.args {
			d.args = append(d.args, e.get(fr, &I.args[i]))
		}
		fr.defers = d
		return Value{}, false
	}
	panic(unsup("instruction %T", I.ssa))
}

func fillZero(a []Value, t types.Type) {
	switch t.Underlying().(type) {
	case *types.Struct, *types.Array:
		for i := range a {
			a[i] = zero(t)
		}
	}
}

func (e *Engine) strIndex(x, iv Value, k tk) Value {
	i := e.index(iv, k, strLen(x))
	switch s := x.o.(type) {
	case string:
		return Value{n: uint64(s[i])}
	case *SStr:
		return ofExpr(s.b[i])
	}
	panic("strIndex")
}

func (e *Engine) binop(fr *Frame, I *Instr) Value {
	x, y := e.get(fr, &I.a), e.get(fr, &I.b)
	switch I.tok {
	case token.EQL:
		return ofExpr(e.eqAny(x, y, I))
	case token.NEQ:
		return ofExpr(e.x.not(e.eqAny(x, y, I)))
	}
	switch I.k.c {
	case cString:
		switch I.tok {
		case token.ADD:
			return e.concat(x, y)
		case token.LSS:
			return ofExpr(e.strLess(x, y))
		case token.GTR:
			return ofExpr(e.strLess(y, x))
		case token.LEQ:
			return ofExpr(e.x.not(e.strLess(y, x)))
		case token.GEQ:
			return ofExpr(e.x.not(e.strLess(x, y)))
		}
	case cFloat:
		if x.o != nil || y.o != nil {
			panic(unsup("arithmetic on a symbolic float"))
		}
		a, b := x.float(), y.float()
		var r float64
		switch I.tok {
		case token.ADD:
			r = a + b
		case token.SUB:
			r = a - b
		case token.MUL:
			r = a * b
		case token.QUO:
			r = a / b
		case token.LSS:
			return vBool(a < b)
		case token.LEQ:
			return vBool(a <= b)
		case token.GTR:
			return vBool(a > b)
		case token.GEQ:
			return vBool(a >= b)
		default:
			panic(unsup("float %s", I.tok))
		}
		if I.k.w == 32 {
			r = float64(float32(r))
		}
		return vFloat(r)
	case cInt:
		return e.intop(x, y, I)
	case cBool:
		a, b := e.exprOf(x, 0), e.exprOf(y, 0)
		switch I.tok {
		case token.AND, token.LAND:
			return ofExpr(e.x.and(a, b))
		case token.OR, token.LOR:
			return ofExpr(e.x.or(a, b))
		}
	}
	panic(unsup("operator %s", I.tok))
}

func (e *Engine) eqAny(x, y Value, I *Instr) *Expr {
	if I.k.c == cIface && I.k2.c != cIface || I.k.c != cIface && I.k2.c == cIface {
		// mixed comparison: the compiler converts; go/ssa makes both interfaces
		panic(unsup("mixed interface comparison"))
	}
	return e.equal(x, y, I.typ2)
}

func (e *Engine) intop(x, y Value, I *Instr) Value {
	w, s := I.k.w, I.k.signed
	var op Op
	switch I.tok {
	case token.ADD:
		op = OAdd
	case token.SUB:
		op = OSub
	case token.MUL:
		op = OMul
	case token.QUO:
		op = OUdiv
		if s {
			op = OSdiv
		}
	case token.REM:
		op = OUrem
		if s {
			op = OSrem
		}
	case token.AND:
		op = OBand
	case token.OR:
		op = OBor
	case token.XOR:
		op = OBxor
	case token.AND_NOT:
		if x.o == nil && y.o == nil {
			return Value{n: x.n &^ y.n}
		}
		ny := e.x.bin(OBxor, e.exprOf(y, w), e.x.konst(w, ^uint64(0)))
		return ofExpr(e.x.bin(OBand, e.exprOf(x, w), ny))
	case token.SHL, token.SHR:
		op = OShl
		if I.tok == token.SHR {
			op = OLshr
			if s {
				op = OAshr
			}
		}
		if I.k2.signed {
			neg := false
			if y.o == nil {
				neg = sx(y.n, I.k2.w) < 0
			} else {
				neg = e.decide(e.x.cmp(OSlt, y.o.(*Expr), e.x.konst(I.k2.w, 0)))
			}
			if neg {
				e.rtPanic("negative shift amount")
			}
		}
		if x.o == nil && y.o == nil {
			v, _ := foldBin(op, w, x.n, y.n)
			return Value{n: v}
		}
		ye := e.exprOf(y, I.k2.w)
		if ye.w > w {
			// saturate
			big := e.x.not(e.x.cmp(OUlt, ye, e.x.konst(ye.w, uint64(w))))
			ye = e.x.ite(big, e.x.konst(w, uint64(w)), e.x.conv(ye, w, false))
		} else {
			ye = e.x.conv(ye, w, false)
		}
		return ofExpr(e.x.bin(op, e.exprOf(x, w), ye))
	case token.LSS, token.LEQ, token.GTR, token.GEQ:
		if x.o == nil && y.o == nil {
			var lt, eq bool
			eq = x.n == y.n
			if s {
				lt = sx(x.n, w) < sx(y.n, w)
			} else {
				lt = x.n < y.n
			}
			switch I.tok {
			case token.LSS:
				return vBool(lt)
			case token.LEQ:
				return vBool(lt || eq)
			case token.GTR:
				return vBool(!lt && !eq)
			}
			return vBool(!lt)
		}
		a, b := e.exprOf(x, w), e.exprOf(y, w)
		lt, le := OUlt, OUle
		if s {
			lt, le = OSlt, OSle
		}
		switch I.tok {
		case token.LSS:
			return ofExpr(e.x.cmp(lt, a, b))
		case token.LEQ:
			return ofExpr(e.x.cmp(le, a, b))
		case token.GTR:
			return ofExpr(e.x.cmp(lt, b, a))
		}
		return ofExpr(e.x.cmp(le, b, a))
	default:
		panic(unsup("integer %s", I.tok))
	}
	if op == OUdiv || op == OSdiv || op == OUrem || op == OSrem {
		z := false
		if y.o == nil {
			z = y.n == 0
		} else {
			z = e.decide(e.x.eq(y.o.(*Expr), e.x.konst(w, 0)))
		}
		if z {
			e.rtPanic("integer divide by zero")
		}
	}
	if x.o == nil && y.o == nil {
		v, _ := foldBin(op, w, x.n, y.n)
		return Value{n: v}
	}
	return ofExpr(e.x.bin(op, e.exprOf(x, w), e.exprOf(y, w)))
}

func (e *Engine) convert(x Value, I *Instr) Value {
	k, k2 := I.k, I.k2
	switch {
	case k.c == cInt && k2.c == cInt:
		if x.o == nil {
			v := x.n
			if k.signed {
				v = uint64(sx(v, k.w))
			}
			return Value{n: v & mask(k2.w)}
		}
		return ofExpr(e.x.conv(x.o.(*Expr), k2.w, k.signed))
	case k.c == cInt && k2.c == cFloat:
		if x.o != nil {
			x = Value{n: e.concretize(x, k.w)}
		}
		var f float64
		if k.signed {
			f = float64(sx(x.n, k.w))
		} else {
			f = float64(x.n)
		}
		if k2.w == 32 {
			f = float64(float32(f))
		}
		return vFloat(f)
	case k.c == cFloat && k2.c == cInt:
		if x.o != nil {
			panic(unsup("conversion of a symbolic float"))
		}
		f := x.float()
		if k2.signed {
			return Value{n: uint64(int64(f)) & mask(k2.w)}
		}
		return Value{n: uint64(f) & mask(k2.w)}
	case k.c == cFloat && k2.c == cFloat:
		if k2.w == 32 && x.o == nil {
			return vFloat(float64(float32(x.float())))
		}
		return x
	case k.c == cString && k2.c == cString:
		return x
	case k.c == cInt && k2.c == cString:
		return e.runeStr(x, k)
	case k.c == cString:
		if sl, ok := I.typ.Underlying().(*types.Slice); ok {
			if tinfo(sl.Elem()).w == 8 {
				b := e.strBytes(x)
				a := make([]Value, len(b), max(len(b), 1))
				for i, c := range b {
					a[i] = ofExpr(c)
				}
				return Value{o: &Slice{a}}
			}
			a := []Value{}
			for i, n := 0, strLen(x); i < n; {
				r, sz := e.decodeRune(x, i)
				a = append(a, r)
				i += sz
			}
			return Value{o: &Slice{a}}
		}
	case k2.c == cString:
		if sl, ok := I.typ2.Underlying().(*types.Slice); ok {
			s, _ := x.o.(*Slice)
			if s == nil {
				return Value{}
			}
			if tinfo(sl.Elem()).w == 8 {
				return e.bytesStr(s.a)
			}
			r := Value{}
			for _, c := range s.a {
				r = e.concat(r, e.runeStr(c, tk{cInt, 32, true}))
			}
			return r
		}
	case k.c == cRef && k2.c == cRef:
		if b, ok := I.typ.Underlying().(*types.Basic); ok && b.Kind() == types.UnsafePointer {
			panic(unsup("unsafe.Pointer"))
		}
		return x
	}
	panic(unsup("conversion %s to %s", I.typ2, I.typ))
}

func (e *Engine) bytesStr(a []Value) Value {
	b := make([]*Expr, len(a))
	for i, c := range a {
		b[i] = e.exprOf(c, 8)
	}
	return mkStr(b)
}

// runeStr is string(r).
func (e *Engine) runeStr(x Value, k tk) Value {
	if x.o == nil {
		r := sx(x.n, k.w)
		if !k.signed && r < 0 || r > utf8.MaxRune || r < 0 {
			r = utf8.RuneError
		}
		return vStr(string(rune(r)))
	}
	xe := x.o.(*Expr)
	if xe.prov != nil {
		return mkStr(xe.prov)
	}
	w := xe.w
	in := xe
	if in.op == OZext && in.a[0].w == 8 {
		in = in.a[0]
	}
	if e.decide(e.x.cmp(OUlt, xe, e.x.konst(w, 0x80))) {
		if w == 8 {
			return mkStr([]*Expr{xe})
		}
		return mkStr([]*Expr{e.x.conv(in, 8, false)})
	}
	v := e.concretize(x, w)
	return e.runeStr(Value{n: v}, k)
}

// decodeRune decodes the rune of s at i (i < len).
func (e *Engine) decodeRune(s Value, i int) (Value, int) {
	if c, ok := s.o.(string); ok {
		r, sz := utf8.DecodeRuneInString(c[i:])
		return Value{n: uint64(uint32(r))}, sz
	}
	b := s.o.(*SStr).b
	x := e.x
	b0 := b[i]
	k8 := func(v int) *Expr { return x.konst(8, uint64(v)) }
	in := func(c *Expr, lo, hi int) *Expr {
		return x.and(x.cmp(OUle, k8(lo), c), x.cmp(OUle, c, k8(hi)))
	}
	bad := Value{n: utf8.RuneError}
	if e.decide(x.cmp(OUlt, b0, k8(0x80))) {
		return ofExpr(x.conv(b0, 32, false)), 1
	}
	if !e.decide(in(b0, 0xC2, 0xF4)) {
		return bad, 1
	}
	size := 2
	lo, hi := 0x80, 0xBF
	if e.decide(x.cmp(OUlt, b0, k8(0xE0))) {
		size = 2
	} else if e.decide(x.cmp(OUlt, b0, k8(0xF0))) {
		size = 3
		if e.decide(x.eq(b0, k8(0xE0))) {
			lo = 0xA0
		} else if e.decide(x.eq(b0, k8(0xED))) {
			hi = 0x9F
		}
	} else {
		size = 4
		if e.decide(x.eq(b0, k8(0xF0))) {
			lo = 0x90
		} else if e.decide(x.eq(b0, k8(0xF4))) {
			hi = 0x8F
		}
	}
	if i+size > len(b) {
		// Go reports one bad byte when the sequence is cut short
		return bad, 1
	}
	if !e.decide(in(b[i+1], lo, hi)) {
		return bad, 1
	}
	for j := 2; j < size; j++ {
		if !e.decide(in(b[i+j], 0x80, 0xBF)) {
			return bad, 1
		}
	}
	m := []uint64{0, 0, 0x1F, 0x0F, 0x07}[size]
	r := x.bin(OBand, x.conv(b0, 32, false), x.konst(32, m))
	for j := 1; j < size; j++ {
		r = x.bin(OBor, x.bin(OShl, r, x.konst(32, 6)), x.bin(OBand, x.conv(b[i+j], 32, false), x.konst(32, 0x3F)))
	}
	if r.op != OConst && r.prov == nil {
		r.prov = append([]*Expr{}, b[i:i+size]...)
	}
	return ofExpr(r), size
}

func (e *Engine) next(it *Iter, I *Instr) Value {
	if it.isS {
		p := int(it.pos.n)
		if p >= strLen(it.str) {
			return tuple(vBool(false), Value{}, Value{})
		}
		r, sz := e.decodeRune(it.str, p)
		e.set(&it.pos, vInt(p+sz))
		return tuple(vBool(true), vInt(p), r)
	}
	p := int(it.pos.n)
	for p < len(it.ents) && !it.ents[p].live {
		p++
	}
	e.set(&it.pos, vInt(p+1))
	if p >= len(it.ents) {
		return tuple(vBool(false), Value{}, Value{})
	}
	return tuple(vBool(true), it.ents[p].k, it.ents[p].v)
}

// mapOrder lists the live entries in the order this path iterates them.
func (e *Engine) mapOrder(m *Map) []*mapEnt {
	out := []*mapEnt{}
	for _, x := range m.ents {
		if x.live {
			out = append(out, x)
		}
	}
	n := len(out)
	if e.pa.mapord == 0 || n < 2 {
		return out
	}
	// choose one of: insertion order, every other permutation (n<=3), otherwise
	// the reversal, the rotation by one and each swap of neighbours
	var alts [][]int
	if n <= 3 {
		alts = perms(n)
	} else {
		id := make([]int, n)
		rev := make([]int, n)
		rot := make([]int, n)
		for i := range id {
			id[i] = i
			rev[i] = n - 1 - i
			rot[i] = (i + 1) % n
		}
		alts = append(alts, id, rev, rot)
		for i := 0; i+1 < n && i < 6; i++ {
			sw := append([]int{}, id...)
			sw[i], sw[i+1] = sw[i+1], sw[i]
			alts = append(alts, sw)
		}
	}
	if e.pa.pend == nil {
		v := e.newVar(8)
		c := e.x.cmp(OUlt, v, e.x.konst(8, uint64(len(alts))))
		e.assume(c)
		e.pa.pend = v
	}
	k := int(e.concretize(Value{o: e.pa.pend}, 8))
	if k != 0 {
		e.pa.mapord--
	}
	res := make([]*mapEnt, n)
	for i, j := range alts[k] {
		res[i] = out[j]
	}
	return res
}

func perms(n int) [][]int {
	if n == 1 {
		return [][]int{{0}}
	}
	var out [][]int
	var rec func(cur []int, used int)
	rec = func(cur []int, used int) {
		if len(cur) == n {
			out = append(out, append([]int{}, cur...))
			return
		}
		for i := 0; i < n; i++ {
			if used>>i&1 == 0 {
				rec(append(cur, i), used|1<<i)
			}
		}
	}
	rec(nil, 0)
	return out
}

func (e *Engine) typeAssert(fr *Frame, I *Instr) Value {
	x := e.get(fr, &I.a)
	ifc, _ := x.o.(*Iface)
	ok := false
	var v Value
	if ifc != nil {
		if it, isI := I.typ2.Underlying().(*types.Interface); isI {
			k := implKey{ifc.t, I.typ2}
			r, found := e.implc[k]
			if !found {
				r = types.Implements(ifc.t, it)
				e.implc[k] = r
			}
			if r {
				ok, v = true, x
			}
		} else if types.Identical(ifc.t, I.typ2) {
			ok, v = true, ifc.v
		}
	} else if o, isO := x.o.(*Opaque); isO {
		panic(unsup("type assertion on %s", o.what))
	}
	if I.commaOk {
		if !ok {
			v = zero(I.typ2)
		}
		return tuple(v, vBool(ok))
	}
	if !ok {
		e.rtPanic("interface conversion")
	}
	return v
}

func (e *Engine) bound(fr *Frame, o *opd) int {
	v := e.get(fr, o)
	if v.o != nil {
		return int(int64(e.concretize(v, v.o.(*Expr).w)))
	}
	return int(int64(v.n))
}

func (e *Engine) slice(fr *Frame, I *Instr) Value {
	x := e.get(fr, &I.a)
	switch u := I.typ2.Underlying().(type) {
	case *types.Basic:
		n := strLen(x)
		lo, hi := 0, n
		if I.idx&1 != 0 {
			lo = e.bound(fr, &I.b)
		}
		if I.idx&2 != 0 {
			hi = e.bound(fr, &I.c)
		}
		if hi < 0 || hi > n {
			e.rtPanic(fmt.Sprintf("slice bounds out of range [:%d] with length %d", hi, n))
		}
		if lo < 0 || lo > hi {
			e.rtPanic(fmt.Sprintf("slice bounds out of range [%d:%d]", lo, hi))
		}
		return subStr(x, lo, hi)
	case *types.Slice, *types.Pointer:
		var a []Value
		isnil := false
		if _, ok := u.(*types.Pointer); ok {
			a = e.ptr(x).o.(*Agg).v
		} else if s, ok := x.o.(*Slice); ok {
			a = s.a
		} else {
			isnil = true
		}
		lo, hi, mx := 0, len(a), cap(a)
		if I.idx&1 != 0 {
			lo = e.bound(fr, &I.b)
		}
		if I.idx&2 != 0 {
			hi = e.bound(fr, &I.c)
		}
		if I.idx&4 != 0 {
			mx = e.bound(fr, &I.d)
			if mx < 0 || mx > cap(a) {
				e.rtPanic(fmt.Sprintf("slice bounds out of range [::%d] with capacity %d", mx, cap(a)))
			}
		}
		if hi < 0 || hi > mx {
			e.rtPanic(fmt.Sprintf("slice bounds out of range [:%d] with capacity %d", hi, mx))
		}
		if lo < 0 || lo > hi {
			e.rtPanic(fmt.Sprintf("slice bounds out of range [%d:%d]", lo, hi))
		}
		if isnil {
			return Value{}
		}
		return Value{o: &Slice{a[lo:hi:mx]}}
	}
	panic(unsup("slice of %s", I.typ2))
}

// ---- maps ----

func (e *Engine) mapKey(v Value, t types.Type) (string, bool) {
	k := tinfo(t)
	switch k.c {
	case cInt, cBool:
		if v.o != nil {
			return "", false
		}
		return strconv.FormatUint(v.n, 16), true
	case cString:
		s, ok := v.str()
		return s, ok
	case cFloat:
		return strconv.FormatUint(math.Float64bits(v.float()), 16), v.o == nil
	case cIface:
		i, _ := v.o.(*Iface)
		if i == nil {
			return "nil", true
		}
		s, ok := e.mapKey(i.v, i.t)
		return i.t.String() + ":" + s, ok
	case cAgg:
		out := ""
		a := v.o.(*Agg)
		for i := range a.v {
			var ft types.Type
			switch u := t.Underlying().(type) {
			case *types.Struct:
				ft = u.Field(i).Type()
			case *types.Array:
				ft = u.Elem()
			}
			s, ok := e.mapKey(a.v[i], ft)
			if !ok {
				return "", false
			}
			out += strconv.Itoa(len(s)) + ":" + s
		}
		return out, true
	}
	return fmt.Sprintf("%p", v.o), true
}

func (e *Engine) mapFind(m *Map, k Value, t types.Type) *mapEnt {
	if m == nil || m.n == 0 {
		return nil
	}
	key, ok := e.mapKey(k, t)
	if ok {
		if x := m.idx[key]; x != nil && x.live {
			return x
		}
		if m.sym == 0 {
			return nil
		}
	}
	for _, x := range m.ents {
		if !x.live {
			continue
		}
		if ok {
			if _, c := e.mapKey(x.k, t); c {
				continue
			}
		}
		if e.decide(e.equal(k, x.k, t)) {
			return x
		}
	}
	return nil
}

func (e *Engine) mapSet(m *Map, k, v Value, t types.Type) {
	if x := e.mapFind(m, k, t); x != nil {
		old := x.v
		e.onUndo(func() { x.v = old })
		x.v = v
		return
	}
	key, ok := e.mapKey(k, t)
	x := &mapEnt{k: k, v: v, live: true}
	if ok {
		old := m.idx[key]
		m.idx[key] = x
		e.onUndo(func() {
			if old == nil {
				delete(m.idx, key)
			} else {
				m.idx[key] = old
			}
		})
	} else {
		m.sym++
		e.onUndo(func() { m.sym-- })
	}
	n := len(m.ents)
	m.ents = append(m.ents, x)
	m.n++
	e.onUndo(func() { m.ents = m.ents[:n]; m.n-- })
}

func (e *Engine) mapDelete(m *Map, k Value, t types.Type) {
	x := e.mapFind(m, k, t)
	if x == nil {
		return
	}
	_, conc := e.mapKey(x.k, t)
	x.live = false
	m.n--
	if !conc {
		m.sym--
	}
	e.onUndo(func() {
		x.live = true
		m.n++
		if !conc {
			m.sym++
		}
	})
}

// ---- builtins ----

var sizeClasses = []int{0, 8, 16, 24, 32, 48, 64, 80, 96, 112, 128, 144, 160, 176, 192, 208, 224, 240, 256, 288, 320, 352, 384, 416, 448, 480, 512, 576, 640, 704, 768, 896, 1024, 1152, 1280, 1408, 1536, 1792, 2048, 2304, 2688, 3072, 3200, 3456, 4096, 4864, 5120, 5376, 6144, 6528, 6784, 6912, 8192, 9472, 9728, 10240, 10880, 12288, 13568, 14336, 16384, 18432, 19072, 20480, 21760, 24576, 27264, 28672, 32768}

func growCap(old, need, elem int) int {
	nc := old
	dbl := nc + nc
	if need > dbl {
		nc = need
	} else if old < 256 {
		nc = dbl
	} else {
		for nc < need {
			nc += (nc + 3*256) / 4
		}
	}
	if elem == 0 {
		return need
	}
	b := nc * elem
	if b <= 32768 {
		for _, c := range sizeClasses {
			if c >= b {
				b = c
				break
			}
		}
	} else {
		b = (b + 8191) / 8192 * 8192
	}
	return b / elem
}

func (e *Engine) appendVals(s Value, add []Value, el types.Type) Value {
	var a []Value
	if x, ok := s.o.(*Slice); ok {
		a = x.a
	}
	if len(add) == 0 {
		return s
	}
	n := len(a) + len(add)
	if n <= cap(a) {
		r := a[:n]
		for i, v := range add {
			e.set(&r[len(a)+i], copyVal(v))
		}
		return Value{o: &Slice{r}}
	}
	c := growCap(cap(a), n, int(e.P.sizes.Sizeof(el)))
	if c < n {
		c = n
	}
	r := make([]Value, n, c)
	for i := range a {
		r[i] = copyVal(a[i])
	}
	for i, v := range add {
		r[len(a)+i] = copyVal(v)
	}
	switch el.Underlying().(type) {
	case *types.Struct, *types.Array:
		fillZero(r[n:c], el)
	}
	return Value{o: &Slice{r}}
}

func (e *Engine) builtin(fr *Frame, I *Instr) Value {
	arg := func(i int) Value { return e.get(fr, &I.args[i]) }
	switch I.bi {
	case "len":
		x := arg(0)
		switch o := x.o.(type) {
		case nil:
			return vInt(0)
		case string:
			return vInt(len(o))
		case *SStr:
			return vInt(len(o.b))
		case *Slice:
			return vInt(len(o.a))
		case *Map:
			return vInt(o.n)
		case *Agg:
			return vInt(len(o.v))
		case *Value:
			return vInt(len(o.o.(*Agg).v))
		}
	case "cap":
		switch o := arg(0).o.(type) {
		case nil:
			return vInt(0)
		case *Slice:
			return vInt(cap(o.a))
		}
	case "append":
		el := I.typ.Underlying().(*types.Slice).Elem()
		y := arg(1)
		switch o := y.o.(type) {
		case nil:
			return arg(0)
		case *Slice:
			return e.appendVals(arg(0), o.a, el)
		case string, *SStr:
			b := e.strBytes(y)
			add := make([]Value, len(b))
			for i, c := range b {
				add[i] = ofExpr(c)
			}
			return e.appendVals(arg(0), add, el)
		}
	case "copy":
		d, _ := arg(0).o.(*Slice)
		if d == nil {
			return vInt(0)
		}
		var src []Value
		y := arg(1)
		switch o := y.o.(type) {
		case nil:
		case *Slice:
			src = o.a
		default:
			for _, c := range e.strBytes(y) {
				src = append(src, ofExpr(c))
			}
		}
		n := min(len(d.a), len(src))
		tmp := make([]Value, n)
		for i := range tmp {
			tmp[i] = copyVal(src[i])
		}
		for i := range tmp {
			e.store(&d.a[i], tmp[i])
		}
		return vInt(n)
	case "delete":
		if m, ok := arg(0).o.(*Map); ok {
			e.mapDelete(m, arg(1), I.typ2.Underlying().(*types.Map).Key())
		}
		return Value{}
	case "clear":
		switch o := arg(0).o.(type) {
		case *Map:
			kt := I.typ2.Underlying().(*types.Map).Key()
			for _, x := range append([]*mapEnt{}, o.ents...) {
				if x.live {
					e.mapDelete(o, x.k, kt)
				}
			}
		case *Slice:
			el := I.typ2.Underlying().(*types.Slice).Elem()
			for i := range o.a {
				e.store(&o.a[i], zero(el))
			}
		}
		return Value{}
	case "min", "max":
		r := arg(0)
		for i := 1; i < len(I.args); i++ {
			y := arg(i)
			k := tinfo(I.typ2)
			var lt bool
			switch k.c {
			case cInt:
				op := OUlt
				if k.signed {
					op = OSlt
				}
				lt = e.decide(e.x.cmp(op, e.exprOf(y, k.w), e.exprOf(r, k.w)))
			case cString:
				lt = e.decide(e.strLess(y, r))
			case cFloat:
				lt = y.float() < r.float()
			}
			if lt == (I.bi == "min") {
				r = y
			}
		}
		return r
	case "print", "println":
		return Value{}
	case "recover":
		if fr.isdef && fr.parent != nil && fr.parent.panic != nil && !fr.parent.recvd {
			v := *fr.parent.panic
			p := fr.parent.thaw(e)
			p.recvd = true
			fr.parent = p
			return v
		}
		return Value{}
	case "ssa:wrapnilchk":
		x := arg(0)
		if x.o == nil {
			e.nilDeref()
		}
		return x
	}
	panic(unsup("builtin %s on %T", I.bi, arg(0).o))
}
