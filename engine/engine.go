package main

import (
	"fmt"
	"go/types"
	"hash/maphash"
	"math/rand"

	"golang.org/x/tools/go/ssa"
)

// ---- trail: undo log of memory writes ----

type tent struct {
	p    *Value
	old  Value
	undo func()
}

type nondet struct {
	name string
	v    Value // 8-bit or 64-bit term, or concrete choice
	w    uint8
	add  uint64
}

type fact struct {
	c   *Expr
	val bool
}

type canonKey struct {
	set [4]uint64
	id  int32
}

type dom struct {
	set  [4]uint64
	cons []*Expr // constraints on this variable only
}

// path is the part of the state that is neither frames nor memory.
type path struct {
	nvars   int
	nond    []nondet
	facts   []*Expr // the path condition, in order
	mv      []*Expr // constraints over several variables or wide variables
	covers  []string
	obs     []obsv
	steps   int64
	known   string
	decs    []bool // decisions taken at real forks
	mapord  int    // remaining map-order deviations
	pend    *Expr  // variable made by the instruction being executed
	asserts int
}

type obsv struct {
	label string
	v     Value
}

type choice struct {
	top   *Frame
	trail int
	p     path
	cond  *Expr // to be assumed when resumed
	dead  bool  // given away to another worker
}

type status uint8

const (
	sRun status = iota
	sDone
	sDrop // assumption failed
	sPanic
	sLimit
	sFail // assertion
)

type Stats struct {
	Paths, Dropped, Forks, Merges int64
	Steps                         int64
	AssertQ, AssertConst          int64
	FeasQ, FeasCached             int64
	PathQ                         int64
}

type Engine struct {
	P          *Program
	x          *Exprs
	s          *Solver
	glob       map[*ssa.Global]*Value
	fns        map[*ssa.Function]*Fn
	top        *Frame
	epoch      int64
	trail      []tent
	stack      []choice
	pa         path
	doms       []dom
	decmap     map[*Expr]bool
	prefix     []bool // decisions to follow
	pfx        int
	done       bool // harness finished
	st         Stats
	used       map[*ssa.Function]bool
	canonQ     map[canonKey]bool
	mvQ        map[string]verdict
	hs         maphash.Seed
	rng        *rand.Rand
	H          *Run
	fs         *VFS
	implc      map[implKey]bool
	thor       bool
	callDepth  int
	curInstr   *Instr
	initing    bool
	panicVal   Value
	panicWhere string
	stepLimit  int64
	errCache   map[string]Value
	typeCache  map[string]types.Type
}

type implKey struct {
	t types.Type
	i types.Type
}

func NewEngine(P *Program, run *Run) (*Engine, error) {
	s, err := NewSolver(run.solver)
	if err != nil {
		return nil, err
	}
	e := &Engine{P: P, x: NewExprs(), s: s, glob: map[*ssa.Global]*Value{}, fns: map[*ssa.Function]*Fn{},
		decmap: map[*Expr]bool{}, used: map[*ssa.Function]bool{}, canonQ: map[canonKey]bool{}, mvQ: map[string]verdict{},
		H: run, implc: map[implKey]bool{}, stepLimit: run.stepLimit}
	e.fs = newVFS()
	return e, nil
}

func (e *Engine) set(p *Value, v Value) {
	if len(e.stack) > 0 {
		e.trail = append(e.trail, tent{p: p, old: *p})
	}
	*p = v
}

func (e *Engine) onUndo(f func()) {
	if len(e.stack) > 0 {
		e.trail = append(e.trail, tent{undo: f})
	}
}

func (e *Engine) store(p *Value, v Value) {
	if a, ok := v.o.(*Agg); ok {
		d, ok := p.o.(*Agg)
		if !ok {
			e.set(p, copyVal(v))
			return
		}
		if d == a {
			return
		}
		for i := range a.v {
			e.store(&d.v[i], a.v[i])
		}
		return
	}
	e.set(p, v)
}

func (e *Engine) undoTo(n int) {
	for i := len(e.trail) - 1; i >= n; i-- {
		t := &e.trail[i]
		if t.undo != nil {
			t.undo()
		} else {
			*t.p = t.old
		}
		*t = tent{}
	}
	e.trail = e.trail[:n]
}

// ---- variables and path condition ----

func (e *Engine) newVar(w uint8) *Expr {
	i := e.pa.nvars
	e.pa.nvars++
	for len(e.doms) <= i {
		e.doms = append(e.doms, dom{})
	}
	e.doms[i] = dom{set: [4]uint64{^uint64(0), ^uint64(0), ^uint64(0), ^uint64(0)}}
	return e.x.variable(i, w)
}

// assume adds c to the path condition (it must be known feasible).
func (e *Engine) assume(c *Expr) {
	if c.isTrue() {
		return
	}
	if _, ok := e.decmap[c]; ok {
		return
	}
	e.pa.facts = append(e.pa.facts, c)
	e.decmap[c] = true
	n := e.x.not(c)
	e.decmap[n] = false
	e.onUndo(func() { delete(e.decmap, c); delete(e.decmap, n) })
	e.assume1(c)
}

func (e *Engine) assume1(c *Expr) {
	if c.op == OAnd {
		e.assume1(c.a[0])
		e.assume1(c.a[1])
		return
	}
	if c.op == ONot && c.a[0].op == OOr {
		e.assume1(e.x.not(c.a[0].a[0]))
		e.assume1(e.x.not(c.a[0].a[1]))
		return
	}
	if _, ok := e.decmap[c]; !ok {
		n := e.x.not(c)
		e.decmap[c] = true
		e.decmap[n] = false
		e.onUndo(func() { delete(e.decmap, c); delete(e.decmap, n) })
	}
	if byteVarOnly(c) {
		d := &e.doms[c.v0]
		old := *d
		vi := int(c.v0)
		e.onUndo(func() { e.doms[vi] = old })
		t := e.x.table(c)
		for i := range d.set {
			d.set[i] &= t[i]
		}
		d.cons = append(d.cons[:len(d.cons):len(d.cons)], c)
		return
	}
	e.pa.mv = append(e.pa.mv, c)
}

// closure gives the constraints on the path that bear on c.
func (e *Engine) closure(c *Expr) ([]*Expr, bool) {
	vs := *c.vars
	used := make([]bool, len(e.pa.mv))
	out := []*Expr{}
	entangled := false
	for changed := true; changed; {
		changed = false
		for i, m := range e.pa.mv {
			if !used[i] && m.vars.meets(vs) && !e.implied(m) {
				used[i] = true
				vs = vs.or(*m.vars)
				out = append(out, m)
				changed = true
				entangled = true
			}
		}
	}
	for i := 0; i < e.pa.nvars; i++ {
		if vs.has(i) {
			out = append(out, e.doms[i].cons...)
		}
	}
	return out, entangled
}

// implied: a disjunction one of whose one-byte members always holds in that byte's domain.
func (e *Engine) implied(m *Expr) bool {
	switch m.op {
	case OOr:
		return e.implied(m.a[0]) || e.implied(m.a[1])
	case ONot:
		if n := m.a[0]; n.op == OAnd {
			return e.implied(e.x.not(n.a[0])) || e.implied(e.x.not(n.a[1]))
		}
	}
	if !byteVarOnly(m) {
		return false
	}
	d := &e.doms[m.v0]
	t := e.x.table(m)
	for i := range t {
		if d.set[i]&^t[i] != 0 {
			return false
		}
	}
	return true
}

// feasible asks whether the path condition and c can hold together.
func (e *Engine) feasible(c *Expr) bool {
	if c.op == OConst {
		return c.val == 1
	}
	if v, ok := e.decmap[c]; ok {
		return v
	}
	if byteVarOnly(c) {
		d := &e.doms[c.v0]
		t := e.x.table(c)
		sat := false
		for i := range d.set {
			if d.set[i]&t[i] != 0 {
				sat = true
				break
			}
		}
		ent := false
		for _, m := range e.pa.mv {
			if m.vars.has(int(c.v0)) && !e.implied(m) {
				ent = true
				break
			}
		}
		if !ent || !sat {
			// decided on the 256 values of one byte; the solver confirms every distinct question once
			k := canonKey{d.set, e.x.canonical(c).id}
			if _, ok := e.canonQ[k]; ok {
				e.st.FeasCached++
			} else {
				v, _ := e.s.check([]*Expr{e.x.inSet(d.set), e.x.canonical(c)}, nil)
				e.st.FeasQ++
				if v == vUnknown {
					panic(unsup("solver gave up on a feasibility query"))
				}
				if (v == vSat) != sat {
					panic(fmt.Errorf("solver and truth table disagree"))
				}
				e.canonQ[k] = sat
			}
			return sat
		}
	}
	cs, _ := e.closure(c)
	cs = append(cs, c)
	key := qkey(cs)
	if v, ok := e.mvQ[key]; ok {
		e.st.FeasCached++
		return v == vSat
	}
	v, _ := e.s.check(cs, nil)
	e.st.FeasQ++
	if v == vUnknown {
		panic(unsup("solver gave up on a feasibility query"))
	}
	e.mvQ[key] = v
	return v == vSat
}

func qkey(cs []*Expr) string {
	b := make([]byte, 0, len(cs)*4)
	for _, c := range cs {
		b = append(b, byte(c.id), byte(c.id>>8), byte(c.id>>16), byte(c.id>>24))
	}
	return string(b)
}

// decide resolves a boolean term on this path, forking when both values are possible.
// A fork resumes at the start of the current instruction, so nothing may be changed
// before the last decision of an instruction.
func (e *Engine) decide(c *Expr) bool {
	if c.op == OConst {
		return c.val == 1
	}
	if v, ok := e.decmap[c]; ok {
		return v
	}
	if e.initing {
		panic(unsup("symbolic value during initialisation"))
	}
	t := e.feasible(c)
	n := e.x.not(c)
	f := e.feasible(n)
	switch {
	case t && f:
		e.fork(c, n)
		return e.decmap[c]
	case t:
		e.assume(c)
		return true
	case f:
		e.assume(n)
		return false
	}
	panic(fmt.Errorf("infeasible path"))
}

func (e *Engine) fork(c, n *Expr) {
	if e.pfx < len(e.prefix) {
		d := e.prefix[e.pfx]
		e.pfx++
		e.pa.decs = append(e.pa.decs[:len(e.pa.decs):len(e.pa.decs)], d)
		if d {
			e.assume(c)
		} else {
			e.assume(n)
		}
		return
	}
	e.st.Forks++
	e.pushChoice(n)
	e.pa.decs = append(e.pa.decs[:len(e.pa.decs):len(e.pa.decs)], true)
	e.assume(c)
	if e.H.hungry() {
		e.giveAway()
	}
}

func (e *Engine) pushChoice(alt *Expr) {
	e.top.freezeAt(e)
	ch := choice{top: e.top, trail: len(e.trail), cond: alt, p: e.pa}
	// slices in path are append-only along a path; cap them so that siblings do not share tails
	ch.p.nond = ch.p.nond[:len(ch.p.nond):len(ch.p.nond)]
	ch.p.facts = ch.p.facts[:len(ch.p.facts):len(ch.p.facts)]
	ch.p.mv = ch.p.mv[:len(ch.p.mv):len(ch.p.mv)]
	ch.p.covers = ch.p.covers[:len(ch.p.covers):len(ch.p.covers)]
	ch.p.obs = ch.p.obs[:len(ch.p.obs):len(ch.p.obs)]
	e.stack = append(e.stack, ch)
	e.pa.nond = ch.p.nond
	e.pa.facts = ch.p.facts
	e.pa.mv = ch.p.mv
	e.pa.covers = ch.p.covers
	e.pa.obs = ch.p.obs
	e.epoch++
	// the running frame was frozen: continue on a copy
	e.top = e.top.thaw(e)
}

// giveAway hands the shallowest open alternative to an idle worker.
func (e *Engine) giveAway() {
	for i := range e.stack {
		ch := &e.stack[i]
		if !ch.dead {
			pre := append(append([]bool{}, ch.p.decs...), false)
			if e.H.offer(pre) {
				ch.dead = true
			}
			return
		}
	}
}

// backtrack resumes the most recent open alternative; false when none is left.
func (e *Engine) backtrack() bool {
	for len(e.stack) > 0 {
		ch := e.stack[len(e.stack)-1]
		e.undoTo(ch.trail)
		e.stack = e.stack[:len(e.stack)-1]
		if ch.dead {
			continue
		}
		e.top = ch.top
		e.pa = ch.p
		e.pa.decs = append(ch.p.decs[:len(ch.p.decs):len(ch.p.decs)], false)
		e.epoch++
		e.top = e.top.thaw(e)
		e.assume(ch.cond)
		return true
	}
	return false
}

// concretize forks over the feasible values of a scalar.
func (e *Engine) concretize(v Value, w uint8) uint64 {
	if v.o == nil {
		return v.n
	}
	x, ok := v.o.(*Expr)
	if !ok {
		panic(unsup("cannot concretize %T", v.o))
	}
	if x.nvars == 1 && x.op != OVar || x.op == OVar && x.w == 8 {
		if byteVarOnly(x) {
			cx := e.x.canonical(x)
			seen := map[uint64]bool{}
			d := e.doms[x.v0]
			for i := 0; i < 256; i++ {
				if d.set[i>>6]>>(uint(i)&63)&1 == 0 {
					continue
				}
				val := cx.eval(func(int) uint64 { return uint64(i) })
				if seen[val] {
					continue
				}
				seen[val] = true
				if e.decide(e.x.eq(x, e.x.konst(x.w, val))) {
					return val
				}
			}
			panic(fmt.Errorf("no value to concretize"))
		}
	}
	if lo, hi := rangeOf(x); hi-lo <= 600 {
		for val := lo; val <= hi; val++ {
			if e.decide(e.x.eq(x, e.x.konst(x.w, val))) {
				return val
			}
		}
		panic(fmt.Errorf("no value to concretize"))
	}
	// the smallest feasible values first, so that every worker meets the same order
	for n := 0; n < 300; n++ {
		val := e.minValue(x)
		if e.decide(e.x.eq(x, e.x.konst(x.w, val))) {
			return val
		}
	}
	panic(unsup("a symbolic integer has too many values"))
}

func (e *Engine) minValue(x *Expr) uint64 {
	cs, _ := e.closure(x)
	val := uint64(0)
	for b := int(x.w) - 1; b >= 0; b-- {
		// can the value be at most val + 2^b - 1 ?
		q := e.x.cmp(OUle, x, e.x.konst(x.w, val+(1<<uint(b)-1)))
		ok := false
		if q.op == OConst {
			ok = q.val == 1
		} else {
			vd, _ := e.s.check(append(cs[:len(cs):len(cs)], q), nil)
			e.st.FeasQ++
			if vd == vUnknown {
				panic(unsup("solver gave up on a value query"))
			}
			ok = vd == vSat
		}
		if !ok {
			val += 1 << uint(b)
		}
	}
	return val
}

// model gives a value for every variable of the path.
func (e *Engine) model(extra *Expr) map[int]uint64 {
	cs := append([]*Expr{}, e.pa.facts...)
	if extra != nil {
		cs = append(cs, extra)
	}
	vars := []*Expr{}
	seen := map[int]bool{}
	for _, n := range e.pa.nond {
		if x, ok := n.v.o.(*Expr); ok && x.op == OVar && !seen[int(x.val)] {
			seen[int(x.val)] = true
			vars = append(vars, x)
		}
	}
	v, m := e.s.check(cs, vars)
	e.st.PathQ++
	if v == vUnknown {
		panic(unsup("solver gave up on a path"))
	}
	if v == vUnsat {
		return nil
	}
	if m == nil {
		m = map[int]uint64{}
	}
	return m
}
