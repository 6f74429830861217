package main

import (
	"fmt"
	"math/bits"
	"strings"
)

// Expressions are hash-consed bit-vector and boolean terms.  Width 0 is boolean.

type Op uint8

const (
	OConst Op = iota
	OVar
	ONot // boolean
	OAnd // boolean
	OOr  // boolean
	OIte
	OEq
	OUlt
	OUle
	OSlt
	OSle
	OAdd
	OSub
	OMul
	OUdiv
	OSdiv
	OUrem
	OSrem
	OBand
	OBor
	OBxor
	OShl
	OLshr
	OAshr
	OZext
	OSext
	OTrunc
)

var opName = [...]string{"const", "var", "not", "and", "or", "ite", "=", "bvult", "bvule", "bvslt", "bvsle", "bvadd", "bvsub", "bvmul",
	"bvudiv", "bvsdiv", "bvurem", "bvsrem", "bvand", "bvor", "bvxor", "bvshl", "bvlshr", "bvashr", "zext", "sext", "trunc"}

const maxVars = 256

type varset [maxVars / 64]uint64

func (s varset) has(i int) bool { return s[i>>6]>>(uint(i)&63)&1 == 1 }
func (s varset) or(t varset) varset {
	for i := range s {
		s[i] |= t[i]
	}
	return s
}
func (s varset) meets(t varset) bool {
	for i := range s {
		if s[i]&t[i] != 0 {
			return true
		}
	}
	return false
}
func (s varset) count() int {
	n := 0
	for _, w := range s {
		n += bits.OnesCount64(w)
	}
	return n
}
func (s varset) first() int {
	for i, w := range s {
		if w != 0 {
			return i*64 + bits.TrailingZeros64(w)
		}
	}
	return -1
}

type Expr struct {
	op    Op
	w     uint8
	id    int32
	nvars int16 // number of distinct variables
	v0    int16 // the variable when nvars==1
	val   uint64
	a     [3]*Expr
	vars  *varset
	canon *Expr      // the term over variable 0 (single 8-bit variable terms only)
	tt    *[4]uint64 // truth table of a canonical boolean term
	prov  []*Expr    // bytes a decoded rune came from
	def   bool       // defined in the solver
}

type ekey struct {
	op      Op
	w       uint8
	val     uint64
	a, b, c int32
}

type Exprs struct {
	tab    map[ekey]*Expr
	next   int32
	bytes  [256]*Expr
	true_  *Expr
	false_ *Expr
	vars   []*Expr
}

func NewExprs() *Exprs {
	x := &Exprs{tab: map[ekey]*Expr{}}
	x.false_ = x.konst(0, 0)
	x.true_ = x.konst(0, 1)
	for i := range x.bytes {
		x.bytes[i] = x.konst(8, uint64(i))
	}
	return x
}

func mask(w uint8) uint64 {
	switch {
	case w == 0:
		return 1
	case w >= 64:
		return ^uint64(0)
	}
	return 1<<w - 1
}

func (x *Exprs) mk(op Op, w uint8, val uint64, a, b, c *Expr) *Expr {
	k := ekey{op: op, w: w, val: val, a: -1, b: -1, c: -1}
	if a != nil {
		k.a = a.id
	}
	if b != nil {
		k.b = b.id
	}
	if c != nil {
		k.c = c.id
	}
	if e, ok := x.tab[k]; ok {
		return e
	}
	e := &Expr{op: op, w: w, val: val, a: [3]*Expr{a, b, c}, id: x.next}
	x.next++
	var vs varset
	switch op {
	case OConst:
	case OVar:
		vs[val>>6] |= 1 << (val & 63)
	default:
		for _, s := range e.a {
			if s != nil && s.vars != nil {
				vs = vs.or(*s.vars)
			}
		}
	}
	n := vs.count()
	e.nvars = int16(n)
	if n > 0 {
		e.v0 = int16(vs.first())
		e.vars = &vs
	}
	x.tab[k] = e
	return e
}

func (x *Exprs) konst(w uint8, v uint64) *Expr { return x.mk(OConst, w, v&mask(w), nil, nil, nil) }
func (x *Exprs) boolean(b bool) *Expr {
	if b {
		return x.true_
	}
	return x.false_
}

// variable returns the i'th variable of width w.
func (x *Exprs) variable(i int, w uint8) *Expr {
	if i >= maxVars {
		panic(unsup("too many symbolic variables"))
	}
	return x.mk(OVar, w, uint64(i), nil, nil, nil)
}

func (e *Expr) isConst() bool { return e.op == OConst }
func (e *Expr) isTrue() bool  { return e.op == OConst && e.w == 0 && e.val == 1 }
func (e *Expr) isFalse() bool { return e.op == OConst && e.w == 0 && e.val == 0 }

func sx(v uint64, w uint8) int64 {
	if w >= 64 {
		return int64(v)
	}
	return int64(v<<(64-w)) >> (64 - w)
}

func (x *Exprs) not(a *Expr) *Expr {
	if a.op == OConst {
		return x.boolean(a.val == 0)
	}
	if a.op == ONot {
		return a.a[0]
	}
	return x.mk(ONot, 0, 0, a, nil, nil)
}

func (x *Exprs) and(a, b *Expr) *Expr {
	if a.op == OConst {
		if a.val == 0 {
			return a
		}
		return b
	}
	if b.op == OConst {
		if b.val == 0 {
			return b
		}
		return a
	}
	if a == b {
		return a
	}
	if a == x.not(b) {
		return x.false_
	}
	return x.mk(OAnd, 0, 0, a, b, nil)
}

func (x *Exprs) or(a, b *Expr) *Expr {
	if a.op == OConst {
		if a.val == 1 {
			return a
		}
		return b
	}
	if b.op == OConst {
		if b.val == 1 {
			return b
		}
		return a
	}
	if a == b {
		return a
	}
	if a == x.not(b) {
		return x.true_
	}
	return x.mk(OOr, 0, 0, a, b, nil)
}

func (x *Exprs) ite(c, a, b *Expr) *Expr {
	if c.op == OConst {
		if c.val == 1 {
			return a
		}
		return b
	}
	if a == b {
		return a
	}
	if a.w == 0 {
		if a.isTrue() {
			return x.or(c, b)
		}
		if a.isFalse() {
			return x.and(x.not(c), b)
		}
		if b.isTrue() {
			return x.or(x.not(c), a)
		}
		if b.isFalse() {
			return x.and(c, a)
		}
	}
	return x.mk(OIte, a.w, 0, c, a, b)
}

func (x *Exprs) eq(a, b *Expr) *Expr {
	if a == b {
		return x.true_
	}
	if a.op == OConst && b.op == OConst {
		return x.boolean(a.val == b.val)
	}
	if a.op == OConst {
		a, b = b, a
	}
	if a.w == 0 {
		if b.op == OConst {
			if b.val == 1 {
				return a
			}
			return x.not(a)
		}
		if a == x.not(b) {
			return x.false_
		}
		if a.id > b.id {
			a, b = b, a
		}
		return x.mk(OEq, 0, 0, a, b, nil)
	}
	if b.op == OConst {
		switch a.op {
		case OZext:
			in := a.a[0]
			if b.val > mask(in.w) {
				return x.false_
			}
			return x.eq(in, x.konst(in.w, b.val))
		case OSext:
			in := a.a[0]
			t := b.val & mask(in.w)
			if uint64(sx(t, in.w))&mask(a.w) != b.val {
				return x.false_
			}
			return x.eq(in, x.konst(in.w, t))
		case OAdd:
			if a.a[1].op == OConst {
				return x.eq(a.a[0], x.konst(a.w, b.val-a.a[1].val))
			}
		case OIte:
			t, f := a.a[1], a.a[2]
			if t.op == OConst || f.op == OConst {
				return x.ite(a.a[0], x.eq(t, b), x.eq(f, b))
			}
		}
	} else {
		if a.op == OZext && b.op == OZext && a.a[0].w == b.a[0].w {
			return x.eq(a.a[0], b.a[0])
		}
		if a.op == OSext && b.op == OSext && a.a[0].w == b.a[0].w {
			return x.eq(a.a[0], b.a[0])
		}
		if a.id > b.id {
			a, b = b, a
		}
	}
	return x.mk(OEq, 0, 0, a, b, nil)
}

// rangeOf gives an unsigned interval holding every value of e.
func rangeOf(e *Expr) (uint64, uint64) {
	switch e.op {
	case OConst:
		return e.val, e.val
	case OZext:
		return rangeOf(e.a[0])
	case OAdd:
		if e.a[1].op == OConst {
			lo, hi := rangeOf(e.a[0])
			c := e.a[1].val
			if hi+c >= hi && hi+c <= mask(e.w) {
				return lo + c, hi + c
			}
		}
	case OIte:
		l1, h1 := rangeOf(e.a[1])
		l2, h2 := rangeOf(e.a[2])
		return min(l1, l2), max(h1, h2)
	case OBand:
		_, h1 := rangeOf(e.a[0])
		_, h2 := rangeOf(e.a[1])
		return 0, min(h1, h2)
	}
	return 0, mask(e.w)
}

func (x *Exprs) cmp(op Op, a, b *Expr) *Expr {
	if a == b {
		return x.boolean(op == OUle || op == OSle)
	}
	if a.op == OConst && b.op == OConst {
		switch op {
		case OUlt:
			return x.boolean(a.val < b.val)
		case OUle:
			return x.boolean(a.val <= b.val)
		case OSlt:
			return x.boolean(sx(a.val, a.w) < sx(b.val, b.w))
		case OSle:
			return x.boolean(sx(a.val, a.w) <= sx(b.val, b.w))
		}
	}
	la, ha := rangeOf(a)
	lb, hb := rangeOf(b)
	half := mask(a.w) >> 1
	if op == OSlt || op == OSle {
		if ha <= half && hb <= half { // both non-negative: same as unsigned
			if op == OSlt {
				op = OUlt
			} else {
				op = OUle
			}
		} else if ha <= half && lb > half {
			return x.false_
		} else if la > half && hb <= half {
			return x.true_
		}
	}
	if op == OUlt {
		if ha < lb {
			return x.true_
		}
		if la >= hb {
			return x.false_
		}
	}
	if op == OUle {
		if ha <= lb {
			return x.true_
		}
		if la > hb {
			return x.false_
		}
	}
	if op == OUlt || op == OUle {
		if a.op == OZext && b.op == OConst && b.val <= mask(a.a[0].w) {
			return x.cmp(op, a.a[0], x.konst(a.a[0].w, b.val))
		}
		if b.op == OZext && a.op == OConst && a.val <= mask(b.a[0].w) {
			return x.cmp(op, x.konst(b.a[0].w, a.val), b.a[0])
		}
		if a.op == OZext && b.op == OZext && a.a[0].w == b.a[0].w {
			return x.cmp(op, a.a[0], b.a[0])
		}
	}
	return x.mk(op, 0, 0, a, b, nil)
}

func foldBin(op Op, w uint8, a, b uint64) (uint64, bool) {
	switch op {
	case OAdd:
		return (a + b) & mask(w), true
	case OSub:
		return (a - b) & mask(w), true
	case OMul:
		return (a * b) & mask(w), true
	case OUdiv:
		if b == 0 {
			return 0, false
		}
		return a / b, true
	case OUrem:
		if b == 0 {
			return 0, false
		}
		return a % b, true
	case OSdiv, OSrem:
		if b == 0 {
			return 0, false
		}
		p, q := sx(a, w), sx(b, w)
		if q == -1 {
			if op == OSdiv {
				return uint64(-p) & mask(w), true
			}
			return 0, true
		}
		if op == OSdiv {
			return uint64(p/q) & mask(w), true
		}
		return uint64(p%q) & mask(w), true
	case OBand:
		return a & b, true
	case OBor:
		return a | b, true
	case OBxor:
		return a ^ b, true
	case OShl:
		if b >= uint64(w) {
			return 0, true
		}
		return (a << b) & mask(w), true
	case OLshr:
		if b >= uint64(w) {
			return 0, true
		}
		return a >> b, true
	case OAshr:
		if b >= uint64(w) {
			b = uint64(w) - 1
		}
		return uint64(sx(a, w)>>b) & mask(w), true
	}
	return 0, false
}

func (x *Exprs) bin(op Op, a, b *Expr) *Expr {
	if a.op == OConst && b.op == OConst {
		if v, ok := foldBin(op, a.w, a.val, b.val); ok {
			return x.konst(a.w, v)
		}
	}
	switch op {
	case OAdd:
		if a.op == OConst {
			a, b = b, a
		}
		if b.op == OConst {
			if b.val == 0 {
				return a
			}
			if a.op == OAdd && a.a[1].op == OConst {
				return x.bin(OAdd, a.a[0], x.konst(a.w, a.a[1].val+b.val))
			}
			if a.op == OIte && (a.a[1].op == OConst || a.a[2].op == OConst) {
				return x.ite(a.a[0], x.bin(op, a.a[1], b), x.bin(op, a.a[2], b))
			}
		}
	case OSub:
		if b.op == OConst {
			return x.bin(OAdd, a, x.konst(a.w, -b.val))
		}
		if a == b {
			return x.konst(a.w, 0)
		}
	case OBand:
		if a == b {
			return a
		}
		if b.op == OConst && b.val == 0 {
			return b
		}
		if b.op == OConst && b.val == mask(a.w) {
			return a
		}
	case OBor, OBxor, OShl, OLshr, OAshr:
		if b.op == OConst && b.val == 0 {
			return a
		}
	case OMul:
		if b.op == OConst && b.val == 1 {
			return a
		}
	}
	return x.mk(op, a.w, 0, a, b, nil)
}

func (x *Exprs) conv(a *Expr, w uint8, signed bool) *Expr {
	switch {
	case w == a.w:
		return a
	case w < a.w:
		if a.op == OConst {
			return x.konst(w, a.val)
		}
		if a.op == OZext || a.op == OSext {
			in := a.a[0]
			if in.w == w {
				return in
			}
			if in.w > w {
				return x.conv(in, w, signed)
			}
			return x.conv(in, w, a.op == OSext)
		}
		if a.op == OIte {
			return x.ite(a.a[0], x.conv(a.a[1], w, signed), x.conv(a.a[2], w, signed))
		}
		return x.mk(OTrunc, w, 0, a, nil, nil)
	}
	if a.op == OConst {
		if signed {
			return x.konst(w, uint64(sx(a.val, a.w)))
		}
		return x.konst(w, a.val)
	}
	if a.op == OZext {
		return x.conv(a.a[0], w, false)
	}
	if a.op == OIte {
		return x.ite(a.a[0], x.conv(a.a[1], w, signed), x.conv(a.a[2], w, signed))
	}
	if signed {
		_, hi := rangeOf(a)
		if hi > mask(a.w)>>1 {
			return x.mk(OSext, w, 0, a, nil, nil)
		}
	}
	return x.mk(OZext, w, 0, a, nil, nil)
}

// eval evaluates e under an assignment of the variables.
func (e *Expr) eval(m func(v int) uint64) uint64 {
	memo := map[*Expr]uint64{}
	var ev func(e *Expr) uint64
	b2u := func(b bool) uint64 {
		if b {
			return 1
		}
		return 0
	}
	ev = func(e *Expr) uint64 {
		switch e.op {
		case OConst:
			return e.val
		case OVar:
			return m(int(e.val)) & mask(e.w)
		}
		if r, ok := memo[e]; ok {
			return r
		}
		var r uint64
		switch e.op {
		case ONot:
			r = 1 - ev(e.a[0])
		case OAnd:
			r = ev(e.a[0]) & ev(e.a[1])
		case OOr:
			r = ev(e.a[0]) | ev(e.a[1])
		case OIte:
			if ev(e.a[0]) == 1 {
				r = ev(e.a[1])
			} else {
				r = ev(e.a[2])
			}
		case OEq:
			r = b2u(ev(e.a[0]) == ev(e.a[1]))
		case OUlt:
			r = b2u(ev(e.a[0]) < ev(e.a[1]))
		case OUle:
			r = b2u(ev(e.a[0]) <= ev(e.a[1]))
		case OSlt:
			r = b2u(sx(ev(e.a[0]), e.a[0].w) < sx(ev(e.a[1]), e.a[1].w))
		case OSle:
			r = b2u(sx(ev(e.a[0]), e.a[0].w) <= sx(ev(e.a[1]), e.a[1].w))
		case OZext:
			r = ev(e.a[0])
		case OSext:
			r = uint64(sx(ev(e.a[0]), e.a[0].w)) & mask(e.w)
		case OTrunc:
			r = ev(e.a[0]) & mask(e.w)
		default:
			v, ok := foldBin(e.op, e.w, ev(e.a[0]), ev(e.a[1]))
			if !ok { // division by zero, as SMT-LIB defines it
				if e.op == OUdiv {
					v = mask(e.w)
				} else {
					v = ev(e.a[0])
				}
			}
			r = v
		}
		memo[e] = r
		return r
	}
	return ev(e)
}

// canonical returns the term with its only (8-bit) variable replaced by variable 0.
func (x *Exprs) canonical(e *Expr) *Expr {
	if e.canon != nil {
		return e.canon
	}
	var r *Expr
	switch e.op {
	case OConst:
		r = e
	case OVar:
		r = x.variable(0, e.w)
	default:
		var a [3]*Expr
		for i, s := range e.a {
			if s != nil {
				a[i] = x.canonical(s)
			}
		}
		r = x.mk(e.op, e.w, e.val, a[0], a[1], a[2])
	}
	e.canon = r
	r.canon = r
	return r
}

func (x *Exprs) table(e *Expr) *[4]uint64 {
	c := x.canonical(e)
	if c.tt == nil {
		var t [4]uint64
		for i := 0; i < 256; i++ {
			if c.eval(func(int) uint64 { return uint64(i) }) == 1 {
				t[i>>6] |= 1 << (uint(i) & 63)
			}
		}
		c.tt = &t
	}
	return c.tt
}

// inSet says that variable 0 is one of the bytes of the set.
func (x *Exprs) inSet(s [4]uint64) *Expr {
	has := func(i int) bool { return s[i>>6]>>(uint(i)&63)&1 == 1 }
	v := x.variable(0, 8)
	r := x.false_
	for i := 0; i < 256; i++ {
		if !has(i) {
			continue
		}
		j := i
		for j+1 < 256 && has(j+1) {
			j++
		}
		if i == j {
			r = x.or(r, x.eq(v, x.bytes[i]))
		} else if i == 0 && j == 255 {
			return x.true_
		} else {
			r = x.or(r, x.and(x.cmp(OUle, x.bytes[i], v), x.cmp(OUle, v, x.bytes[j])))
		}
		i = j
	}
	return r
}

func byteVarOnly(e *Expr) bool {
	// single variable terms whose variable is 8 bits wide
	if e.nvars != 1 {
		return false
	}
	var find func(e *Expr) uint8
	find = func(e *Expr) uint8 {
		if e.op == OVar {
			return e.w
		}
		for _, s := range e.a {
			if s != nil && s.nvars > 0 {
				return find(s)
			}
		}
		return 0
	}
	return find(e) == 8
}

// ---- SMT-LIB text ----

func sortName(w uint8) string {
	if w == 0 {
		return "Bool"
	}
	return fmt.Sprintf("(_ BitVec %d)", w)
}

func (e *Expr) ref() string {
	switch e.op {
	case OConst:
		if e.w == 0 {
			if e.val == 1 {
				return "true"
			}
			return "false"
		}
		return fmt.Sprintf("(_ bv%d %d)", e.val, e.w)
	case OVar:
		return fmt.Sprintf("v%d_%d", e.val, e.w)
	}
	return fmt.Sprintf("e%d", e.id)
}

// define appends the definitions e needs to sb (once per solver session).
func (e *Expr) define(sb *strings.Builder, done map[*Expr]bool) {
	if e.op == OConst || done[e] {
		return
	}
	done[e] = true
	if e.op == OVar {
		fmt.Fprintf(sb, "(declare-const %s %s)\n", e.ref(), sortName(e.w))
		return
	}
	for _, s := range e.a {
		if s != nil {
			s.define(sb, done)
		}
	}
	fmt.Fprintf(sb, "(define-fun %s () %s ", e.ref(), sortName(e.w))
	switch e.op {
	case OZext:
		fmt.Fprintf(sb, "((_ zero_extend %d) %s)", e.w-e.a[0].w, e.a[0].ref())
	case OSext:
		fmt.Fprintf(sb, "((_ sign_extend %d) %s)", e.w-e.a[0].w, e.a[0].ref())
	case OTrunc:
		fmt.Fprintf(sb, "((_ extract %d 0) %s)", e.w-1, e.a[0].ref())
	default:
		sb.WriteString("(" + opName[e.op])
		for _, s := range e.a {
			if s != nil {
				sb.WriteString(" " + s.ref())
			}
		}
		sb.WriteString(")")
	}
	sb.WriteString(")\n")
}
