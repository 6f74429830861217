package main

import "fmt"

// intrinsics are the harness functions (package vxlisp, files under /verif/harness) that
// the engine implements; the same functions have native bodies for replays.
var intrinsics map[string]native

func (e *Engine) label(v Value) string {
	s, ok := v.str()
	if !ok {
		panic(unsup("symbolic label"))
	}
	return s
}

func init() {
	intrinsics = map[string]native{
		"vxSymbolic": func(e *Engine, I *Instr, a []Value) Value { return vBool(true) },
		"vxByte": func(e *Engine, I *Instr, a []Value) Value {
			v := e.newVar(8)
			e.pa.nond = append(e.pa.nond, nondet{e.label(a[0]), Value{o: v}, 8, 0})
			return Value{o: v}
		},
		"vxByteIn": func(e *Engine, I *Instr, a []Value) Value {
			// a byte among the characters of a concrete text
			name, set := e.label(a[0]), e.label(a[1])
			if len(set) == 1 {
				e.pa.nond = append(e.pa.nond, nondet{name, Value{n: uint64(set[0])}, 8, 0})
				return Value{n: uint64(set[0])}
			}
			v := e.newVar(8)
			c := e.x.false_
			var in [256]bool
			for i := 0; i < len(set); i++ {
				in[set[i]] = true
			}
			for i := 0; i < 256; i++ {
				if !in[i] {
					continue
				}
				j := i
				for j+1 < 256 && in[j+1] {
					j++
				}
				if i == j {
					c = e.x.or(c, e.x.eq(v, e.x.bytes[i]))
				} else {
					c = e.x.or(c, e.x.and(e.x.cmp(OUle, e.x.bytes[i], v), e.x.cmp(OUle, v, e.x.bytes[j])))
				}
				i = j
			}
			e.assume(c)
			e.pa.nond = append(e.pa.nond, nondet{name, Value{o: v}, 8, 0})
			return Value{o: v}
		},
		"vxInt": func(e *Engine, I *Instr, a []Value) Value {
			lo, hi := int64(a[1].n), int64(a[2].n)
			if hi < lo || hi-lo > 255 {
				panic(unsup("vxInt range"))
			}
			if lo == hi {
				e.pa.nond = append(e.pa.nond, nondet{e.label(a[0]), Value{}, 64, uint64(lo)})
				return Value{n: uint64(lo)}
			}
			v := e.newVar(8)
			e.assume(e.x.cmp(OUle, v, e.x.konst(8, uint64(hi-lo))))
			e.pa.nond = append(e.pa.nond, nondet{e.label(a[0]), Value{o: v}, 8, uint64(lo)})
			return ofExpr(e.x.bin(OAdd, e.x.conv(v, 64, false), e.x.konst(64, uint64(lo))))
		},
		"vxBool": func(e *Engine, I *Instr, a []Value) Value {
			v := e.newVar(8)
			e.assume(e.x.cmp(OUle, v, e.x.konst(8, 1)))
			e.pa.nond = append(e.pa.nond, nondet{e.label(a[0]), Value{o: v}, 8, 0})
			return ofExpr(e.x.eq(v, e.x.konst(8, 1)))
		},
		"vxChoice": func(e *Engine, I *Instr, a []Value) Value {
			n := int(int64(a[1].n))
			if n < 1 || n > 255 {
				panic(unsup("vxChoice range"))
			}
			name := e.label(a[0])
			if n == 1 {
				e.pa.nond = append(e.pa.nond, nondet{name, Value{}, 8, 0})
				return Value{}
			}
			if e.pa.pend == nil {
				v := e.newVar(8)
				e.assume(e.x.cmp(OUlt, v, e.x.konst(8, uint64(n))))
				e.pa.pend = v
			}
			v := e.pa.pend
			k := e.concretize(Value{o: v}, 8)
			e.pa.nond = append(e.pa.nond, nondet{name, Value{o: v}, 8, 0})
			return Value{n: k}
		},
		"vxAssume": func(e *Engine, I *Instr, a []Value) Value {
			if a[0].o == nil {
				if a[0].n == 0 {
					panic(stopPath{sDrop})
				}
				return Value{}
			}
			c := a[0].o.(*Expr)
			if !e.feasible(c) {
				panic(stopPath{sDrop})
			}
			e.assume(c)
			return Value{}
		},
		"vxAssert": func(e *Engine, I *Instr, a []Value) Value {
			e.pa.asserts++
			e.assertion(a[0], e.label(a[1]))
			return Value{}
		},
		"vxCover": func(e *Engine, I *Instr, a []Value) Value {
			e.pa.covers = append(e.pa.covers, e.label(a[0]))
			return Value{}
		},
		"vxObserve": func(e *Engine, I *Instr, a []Value) Value {
			e.pa.obs = append(e.pa.obs, obsv{e.label(a[0]), a[1]})
			return Value{}
		},
		"vxKnown": func(e *Engine, I *Instr, a []Value) Value {
			id := e.label(a[0])
			if e.decide(e.exprOf(a[1], 0)) {
				e.pa.known = id
			} else if e.pa.known == id {
				e.pa.known = ""
			}
			return Value{}
		},
		"vxMapOrder": func(e *Engine, I *Instr, a []Value) Value {
			e.pa.mapord = int(int64(a[0].n))
			return Value{}
		},
		"vxParam": func(e *Engine, I *Instr, a []Value) Value {
			name := e.label(a[0])
			n, ok := e.H.params[name]
			if !ok {
				panic(unsup("parameter %s is not set", name))
			}
			return vInt(n)
		},
		"vxTempDir": func(e *Engine, I *Instr, a []Value) Value { return vStr("/vxtmp") },
		// vxConcrete forks until the text is concrete
		"vxConcrete": func(e *Engine, I *Instr, a []Value) Value {
			b := e.strBytes(a[0])
			out := make([]*Expr, len(b))
			for i, c := range b {
				out[i] = e.x.bytes[byte(e.concretize(ofExpr(c), 8))]
			}
			return mkStr(out)
		},
		"vxParseInt": func(e *Engine, I *Instr, a []Value) Value {
			return e.parseInt(a[0], int(int64(e.concretize(a[1], 64))), int(int64(e.concretize(a[2], 64))))
		},
		"vxParseFloat": func(e *Engine, I *Instr, a []Value) Value {
			return e.parseFloat(a[0], int(e.concretize(a[1], 64)))
		},
		// vxSwap exchanges two elements of a slice held in an interface
		"vxSwap": func(e *Engine, I *Instr, a []Value) Value {
			sl := a[0].o.(*Iface).v
			x := elems(sl)
			i, j := int(int64(a[1].n)), int(int64(a[2].n))
			vi, vj := copyVal(x[i]), copyVal(x[j])
			e.store(&x[i], vj)
			e.store(&x[j], vi)
			return Value{}
		},
		"vxLen": func(e *Engine, I *Instr, a []Value) Value { return vInt(len(elems(a[0].o.(*Iface).v))) },
		"vxTrace": func(e *Engine, I *Instr, a []Value) Value {
			if e.H.trace {
				fmt.Println("trace:", e.render(a[0]))
			}
			return Value{}
		},
	}
}

// render shows a text with symbolic bytes as "?".
func (e *Engine) render(v Value) string {
	if s, ok := v.str(); ok {
		return s
	}
	b := []byte{}
	for _, x := range e.strBytes(v) {
		if x.op == OConst {
			b = append(b, byte(x.val))
		} else {
			b = append(b, '?')
		}
	}
	return string(b)
}

// assertion asks the solver whether the negation of the claim is possible on this path.
func (e *Engine) assertion(v Value, label string) {
	c := e.exprOf(v, 0)
	if c.isTrue() {
		e.st.AssertConst++
		return
	}
	bad := e.x.not(c)
	if !c.isFalse() {
		if val, ok := e.decmap[c]; ok && val {
			e.st.AssertConst++
			return
		}
		e.st.AssertQ++
		cs, _ := e.closure(bad)
		vd, _ := e.s.check(append(cs, bad), nil)
		if vd == vUnknown {
			panic(unsup("solver gave up on an assertion"))
		}
		if vd == vUnsat {
			return
		}
	}
	if e.violation("assert", label, bad) {
		// a known finding: go on with the inputs for which the claim holds
		if c.isFalse() || !e.feasible(c) {
			panic(stopPath{sDrop})
		}
		e.assume(c)
		return
	}
	panic(stopPath{sFail})
}
