package main

import (
	"fmt"
	"go/types"
	"math"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Value is one Go value.  Scalars are concrete in n, or symbolic with o=*Expr.
// Strings: o nil or "" is empty, o=string concrete, o=*SStr symbolic bytes.
// Pointers: o=*Value.  Structs and arrays: o=*Agg.  Slices: o=*Slice.  Maps: o=*Map.
// Interfaces: o=*Iface.  Functions: o=*Closure.  nil: o==nil.
type Value struct {
	n uint64
	o any
}

type Agg struct{ v []Value }
type Slice struct{ a []Value }
type SStr struct{ b []*Expr }
type Iface struct {
	t types.Type
	v Value
}
type Closure struct {
	fn  *ssa.Function
	env []Value
}
type Opaque struct{ what string }

type mapEnt struct {
	k, v Value
	live bool
}
type Map struct {
	ents []*mapEnt
	idx  map[string]*mapEnt // concrete keys
	sym  int                // number of live entries with a symbolic key
	n    int
}

type Iter struct {
	pos  Value
	str  Value
	isS  bool
	m    *Map
	ents []*mapEnt
}

type unsupported struct{ msg string }

func (u unsupported) Error() string { return u.msg }
func unsup(format string, a ...any) unsupported {
	return unsupported{fmt.Sprintf(format, a...)}
}

type cls uint8

const (
	cInt cls = iota
	cBool
	cString
	cFloat
	cComplex
	cRef
	cIface
	cAgg
	cTuple
)

type tk struct {
	c      cls
	w      uint8
	signed bool
}

func tinfo(t types.Type) tk {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch u.Kind() {
		case types.Bool, types.UntypedBool:
			return tk{c: cBool}
		case types.Int, types.Int64, types.UntypedInt:
			return tk{cInt, 64, true}
		case types.Int8:
			return tk{cInt, 8, true}
		case types.Int16:
			return tk{cInt, 16, true}
		case types.Int32, types.UntypedRune:
			return tk{cInt, 32, true}
		case types.Uint, types.Uint64, types.Uintptr:
			return tk{cInt, 64, false}
		case types.Uint8:
			return tk{cInt, 8, false}
		case types.Uint16:
			return tk{cInt, 16, false}
		case types.Uint32:
			return tk{cInt, 32, false}
		case types.String, types.UntypedString:
			return tk{c: cString}
		case types.Float32:
			return tk{c: cFloat, w: 32}
		case types.Float64, types.UntypedFloat:
			return tk{c: cFloat, w: 64}
		case types.Complex64, types.Complex128, types.UntypedComplex:
			return tk{c: cComplex}
		}
		return tk{c: cRef}
	case *types.Interface:
		return tk{c: cIface}
	case *types.Struct, *types.Array:
		return tk{c: cAgg}
	case *types.Tuple:
		return tk{c: cTuple}
	case *types.TypeParam:
		panic(unsup("type parameter value"))
	}
	return tk{c: cRef}
}

func zero(t types.Type) Value {
	switch u := t.Underlying().(type) {
	case *types.Struct:
		a := &Agg{make([]Value, u.NumFields())}
		for i := range a.v {
			switch tt := u.Field(i).Type().Underlying().(type) {
			case *types.Struct, *types.Array:
				a.v[i] = zero(tt)
			}
		}
		return Value{o: a}
	case *types.Array:
		a := &Agg{make([]Value, u.Len())}
		switch tt := u.Elem().Underlying().(type) {
		case *types.Struct, *types.Array:
			for i := range a.v {
				a.v[i] = zero(tt)
			}
		}
		return Value{o: a}
	case *types.Tuple:
		a := &Agg{make([]Value, u.Len())}
		for i := range a.v {
			a.v[i] = zero(u.At(i).Type())
		}
		return Value{o: a}
	}
	return Value{}
}

func copyVal(v Value) Value {
	if a, ok := v.o.(*Agg); ok {
		n := &Agg{make([]Value, len(a.v))}
		for i := range a.v {
			n.v[i] = copyVal(a.v[i])
		}
		return Value{o: n}
	}
	return v
}

func vInt(i int) Value { return Value{n: uint64(int64(i))} }
func vStr(s string) Value {
	if s == "" {
		return Value{}
	}
	return Value{o: s}
}
func vBool(b bool) Value {
	if b {
		return Value{n: 1}
	}
	return Value{}
}
func vFloat(f float64) Value   { return Value{n: math.Float64bits(f)} }
func (v Value) float() float64 { return math.Float64frombits(v.n) }
func tuple(vs ...Value) Value  { return Value{o: &Agg{vs}} }

// concrete string, if it is one
func (v Value) str() (string, bool) {
	switch s := v.o.(type) {
	case nil:
		return "", true
	case string:
		return s, true
	}
	return "", false
}

func strLen(v Value) int {
	switch s := v.o.(type) {
	case nil:
		return 0
	case string:
		return len(s)
	case *SStr:
		return len(s.b)
	}
	panic(unsup("length of %T", v.o))
}

func (e *Engine) strBytes(v Value) []*Expr {
	switch s := v.o.(type) {
	case nil:
		return nil
	case string:
		b := make([]*Expr, len(s))
		for i := 0; i < len(s); i++ {
			b[i] = e.x.bytes[s[i]]
		}
		return b
	case *SStr:
		return s.b
	}
	panic(unsup("string %T", v.o))
}

func mkStr(b []*Expr) Value {
	if len(b) == 0 {
		return Value{}
	}
	for _, x := range b {
		if x.op != OConst {
			return Value{o: &SStr{b}}
		}
	}
	var sb strings.Builder
	for _, x := range b {
		sb.WriteByte(byte(x.val))
	}
	return Value{o: sb.String()}
}

func subStr(v Value, lo, hi int) Value {
	if lo == hi {
		return Value{}
	}
	switch s := v.o.(type) {
	case string:
		return Value{o: s[lo:hi]}
	case *SStr:
		return mkStr(s.b[lo:hi:hi])
	}
	panic("substring")
}

func (e *Engine) concat(a, b Value) Value {
	if a.o == nil {
		return b
	}
	if b.o == nil {
		return a
	}
	s, ok1 := a.o.(string)
	t, ok2 := b.o.(string)
	if ok1 && ok2 {
		return Value{o: s + t}
	}
	x, y := e.strBytes(a), e.strBytes(b)
	r := make([]*Expr, 0, len(x)+len(y))
	r = append(append(r, x...), y...)
	return Value{o: &SStr{r}}
}

// exprOf returns the term of a scalar.
func (e *Engine) exprOf(v Value, w uint8) *Expr {
	if v.o != nil {
		if x, ok := v.o.(*Expr); ok {
			return x
		}
		panic(unsup("scalar %T", v.o))
	}
	return e.x.konst(w, v.n)
}

func ofExpr(x *Expr) Value {
	if x.op == OConst {
		return Value{n: x.val}
	}
	return Value{o: x}
}

func (e *Engine) strEq(a, b Value) *Expr {
	if strLen(a) != strLen(b) {
		return e.x.false_
	}
	s, ok1 := a.str()
	t, ok2 := b.str()
	if ok1 && ok2 {
		return e.x.boolean(s == t)
	}
	x, y := e.strBytes(a), e.strBytes(b)
	for i := range x { // a constant mismatch first
		if x[i].op == OConst && y[i].op == OConst && x[i] != y[i] {
			return e.x.false_
		}
	}
	r := e.x.true_
	for i := range x {
		r = e.x.and(r, e.x.eq(x[i], y[i]))
		if r.isFalse() {
			break
		}
	}
	return r
}

func (e *Engine) strLess(a, b Value) *Expr {
	s, ok1 := a.str()
	t, ok2 := b.str()
	if ok1 && ok2 {
		return e.x.boolean(s < t)
	}
	x, y := e.strBytes(a), e.strBytes(b)
	r := e.x.boolean(len(x) < len(y))
	for i := min(len(x), len(y)) - 1; i >= 0; i-- {
		r = e.x.ite(e.x.eq(x[i], y[i]), r, e.x.cmp(OUlt, x[i], y[i]))
	}
	return r
}

// equal gives the term for a == b at type t.
func (e *Engine) equal(a, b Value, t types.Type) *Expr {
	k := tinfo(t)
	switch k.c {
	case cInt, cBool:
		if a.o == nil && b.o == nil {
			return e.x.boolean(a.n == b.n)
		}
		w := k.w
		return e.x.eq(e.exprOf(a, w), e.exprOf(b, w))
	case cString:
		return e.strEq(a, b)
	case cFloat:
		if a.o != nil || b.o != nil {
			panic(unsup("comparison of a symbolic float"))
		}
		return e.x.boolean(a.float() == b.float())
	case cIface:
		x, _ := a.o.(*Iface)
		y, _ := b.o.(*Iface)
		if x == nil || y == nil {
			return e.x.boolean(x == nil && y == nil)
		}
		if !types.Identical(x.t, y.t) {
			return e.x.false_
		}
		return e.equal(x.v, y.v, x.t)
	case cAgg:
		x, y := a.o.(*Agg), b.o.(*Agg)
		r := e.x.true_
		switch u := t.Underlying().(type) {
		case *types.Struct:
			for i := range x.v {
				r = e.x.and(r, e.equal(x.v[i], y.v[i], u.Field(i).Type()))
			}
		case *types.Array:
			for i := range x.v {
				r = e.x.and(r, e.equal(x.v[i], y.v[i], u.Elem()))
			}
		}
		return r
	}
	// references: identity; slices, maps and functions are only compared with nil
	return e.x.boolean(sameRef(a.o, b.o))
}

func sameRef(a, b any) bool {
	if a == nil || b == nil {
		return a == nil && b == nil
	}
	switch x := a.(type) {
	case *Value:
		y, ok := b.(*Value)
		return ok && x == y
	case *Map:
		y, ok := b.(*Map)
		return ok && x == y
	case *Slice:
		y, ok := b.(*Slice)
		return ok && x == y
	case *Closure:
		y, ok := b.(*Closure)
		return ok && x == y
	}
	return a == b
}
