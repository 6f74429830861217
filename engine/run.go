package main

import (
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"golang.org/x/tools/go/ssa"
)

// nval is one recorded choice of a run.
type nval struct {
	Name string `json:"name"`
	Val  int64  `json:"val"`
}

// testcase is what a replay needs: the harness, its bounds and the values it draws.
type testcase struct {
	Property string         `json:"property,omitempty"`
	Fn       string         `json:"fn"`
	Params   map[string]int `json:"params"`
	Vals     []nval         `json:"vals"`
	Repeat   int            `json:"repeat,omitempty"`
	Kind     string         `json:"kind,omitempty"`
	Label    string         `json:"label,omitempty"`
	Where    string         `json:"where,omitempty"`
	Note     string         `json:"note,omitempty"`

	obs    []string
	covers []string
	known  string
}

// outcome is what the native run printed.
type outcome struct {
	Status string   `json:"status"` // ok, fail, panic, assume, drift, timeout
	Label  string   `json:"label"`
	Obs    []string `json:"obs"`
	Covers []string `json:"covers"`
}

// Run is the exploration of one harness by several workers.
type Run struct {
	solver     string
	stepLimit  int64
	depthLimit int
	merge      bool
	trace      bool
	params     map[string]int
	fn         string
	prop       string
	workers    int
	deadline   time.Time
	mapord     bool

	mu     sync.Mutex
	cond   *sync.Cond
	queue  [][]bool
	idle   int32
	qlen   int32
	active int32
	stop   int32

	covers   map[string]int64
	viol     []*testcase
	knownHit map[string]*testcase
	samples  []*testcase
	npaths   int64
	errs     []string
	maxSteps int64
	known    map[string]bool
	rng      *rand.Rand
	confirm  func(tc *testcase) (bool, string)
}

const maxSamples = 48

func (r *Run) hungry() bool {
	return atomic.LoadInt32(&r.idle) > atomic.LoadInt32(&r.qlen)
}

func (r *Run) offer(pre []bool) bool {
	r.mu.Lock()
	defer r.mu.Unlock()
	if int32(len(r.queue)) >= r.idle {
		return false
	}
	r.queue = append(r.queue, pre)
	atomic.StoreInt32(&r.qlen, int32(len(r.queue)))
	r.cond.Signal()
	return true
}

func (r *Run) stopped() bool { return atomic.LoadInt32(&r.stop) != 0 }

func (r *Run) halt() {
	atomic.StoreInt32(&r.stop, 1)
	r.mu.Lock()
	r.cond.Broadcast()
	r.mu.Unlock()
}

func (r *Run) fail(msg string) {
	r.mu.Lock()
	r.errs = append(r.errs, msg)
	r.mu.Unlock()
	r.halt()
}

// next gives a worker its next job; nil when the exploration is over.
func (r *Run) next() ([]bool, bool) {
	r.mu.Lock()
	defer r.mu.Unlock()
	atomic.AddInt32(&r.idle, 1)
	for {
		if r.stopped() {
			return nil, false
		}
		if n := len(r.queue); n > 0 {
			j := r.queue[0]
			r.queue = r.queue[1:]
			atomic.StoreInt32(&r.qlen, int32(len(r.queue)))
			atomic.AddInt32(&r.idle, -1)
			r.active++
			return j, true
		}
		if r.active == 0 {
			r.cond.Broadcast()
			return nil, false
		}
		r.cond.Wait()
	}
}

func (r *Run) jobDone() {
	r.mu.Lock()
	r.active--
	if r.active == 0 && len(r.queue) == 0 {
		r.cond.Broadcast()
	}
	r.mu.Unlock()
}

// target resolves a function to a model or a compiled body.
func (e *Engine) target(f *ssa.Function) (native, *Fn) {
	if n := e.nativeFor(f); n != nil {
		return n, nil
	}
	if r := redirects[nativeName(f)]; r != "" {
		if g, _ := e.P.main.Members[r].(*ssa.Function); g != nil {
			return nil, e.compile(g)
		}
		panic(unsup("model %s of %s missing", r, f))
	}
	fn := e.compile(f)
	if fn == nil {
		if f.Synthetic == "package initializer" || strings.HasPrefix(f.Name(), "init") && f.Signature.Recv() == nil && f.Signature.Params().Len() == 0 {
			return func(e *Engine, I *Instr, a []Value) Value { return Value{} }, nil
		}
		if e.initing {
			return func(e *Engine, I *Instr, a []Value) Value { return Value{o: &Opaque{"result of " + f.String()}} }, nil
		}
		panic(unsup("call of external %s", f))
	}
	return nil, fn
}

func (e *Engine) initProgram() error {
	e.initing = true
	e.stepLimit = 1 << 40
	f := e.P.main.Func("init")
	e.call(e.compile(f), nil, nil, -1)
	st, err := e.run()
	e.initing = false
	if err != nil {
		return fmt.Errorf("initialisation: %v", err)
	}
	if st != sDone {
		return fmt.Errorf("initialisation ended with %d %s", st, e.panicText())
	}
	return nil
}

func (e *Engine) panicText() string {
	defer func() { recover() }()
	return e.render(e.show(e.panicVal))
}

// reset prepares the engine for another harness.
func (e *Engine) reset(r *Run) error {
	e.H = r
	e.x = NewExprs()
	e.canonQ = map[canonKey]bool{}
	e.mvQ = map[string]verdict{}
	e.decmap = map[*Expr]bool{}
	e.doms = nil
	e.st = Stats{}
	e.stepLimit = r.stepLimit
	if e.s != nil {
		e.s.Close()
	}
	s, err := NewSolver(r.solver)
	e.s = s
	return err
}

func (e *Engine) values(m map[int]uint64) []nval {
	out := make([]nval, len(e.pa.nond))
	for i, n := range e.pa.nond {
		v := n.v.n
		if x, ok := n.v.o.(*Expr); ok {
			v = x.eval(func(v int) uint64 { return m[v] })
		}
		out[i] = nval{n.name, int64(v + n.add)}
	}
	return out
}

func (e *Engine) evalStr(v Value, m map[int]uint64) string {
	b := []byte{}
	for _, x := range e.strBytes(v) {
		b = append(b, byte(x.eval(func(v int) uint64 { return m[v] })))
	}
	return string(b)
}

// violation records a counterexample; true when it is a listed finding and the path may go on.
func (e *Engine) violation(kind, label string, extra *Expr) bool {
	r := e.H
	known := e.pa.known
	if known != "" && r.known[known] {
		r.mu.Lock()
		_, seen := r.knownHit[known]
		r.mu.Unlock()
		if seen {
			return true
		}
	}
	m := e.model(extra)
	if m == nil {
		panic(unsup("violation without a model"))
	}
	tc := &testcase{Property: r.prop, Fn: r.fn, Params: r.params, Vals: e.values(m), Kind: kind, Label: label, Where: e.where(), known: known}
	if kind == "panic" {
		tc.Where = e.panicWhere
	}
	if known != "" && r.known[known] {
		r.mu.Lock()
		r.knownHit[known] = tc
		r.mu.Unlock()
		return true
	}
	r.mu.Lock()
	r.viol = append(r.viol, tc)
	r.mu.Unlock()
	r.halt()
	return false
}

func (e *Engine) sample() {
	r := e.H
	m := e.model(nil)
	if m == nil {
		panic(fmt.Errorf("completed path is infeasible"))
	}
	tc := &testcase{Fn: r.fn, Params: r.params, Vals: e.values(m), known: e.pa.known}
	for _, o := range e.pa.obs {
		tc.obs = append(tc.obs, strconv.QuoteToASCII(o.label+"="+e.evalStr(o.v, m)))
	}
	tc.covers = append(tc.covers, e.pa.covers...)
	r.mu.Lock()
	if len(r.samples) < maxSamples {
		r.samples = append(r.samples, tc)
	} else {
		r.samples[r.rng.Intn(maxSamples)] = tc
	}
	r.mu.Unlock()
}

// explore runs one job: every path that starts with the given decisions.
func (e *Engine) explore(prefix []bool) (err error) {
	defer func() {
		if x := recover(); x != nil {
			if u, ok := x.(unsupported); ok {
				err = fmt.Errorf("%s at %s", u.msg, e.where())
			} else {
				err = fmt.Errorf("engine: %v at %s", x, e.where())
				if os.Getenv("VXDEBUG") != "" {
					panic(x)
				}
			}
		}
		e.undoTo(0)
		e.stack = nil
	}()
	f := e.P.main.Func(e.H.fn)
	if f == nil {
		return fmt.Errorf("harness %s not found", e.H.fn)
	}
	e.trail = e.trail[:0]
	e.stack = append(e.stack[:0], choice{dead: true})
	e.pa = path{}
	e.prefix, e.pfx = prefix, 0
	e.epoch++
	e.top = nil
	e.call(e.compile(f), nil, nil, -1)
	n := 0
	for {
		s0 := e.pa.steps
		st, err := e.run()
		e.st.Steps += e.pa.steps - s0
		if err != nil {
			return err
		}
		switch st {
		case sDone, sPanic:
			if st == sPanic {
				if !e.violation("panic", e.panicText(), nil) {
					return nil
				}
				break
			}
			e.st.Paths++
			np := atomic.AddInt64(&e.H.npaths, 1)
			e.H.mu.Lock()
			for _, c := range e.pa.covers {
				e.H.covers[c]++
			}
			if e.pa.steps > e.H.maxSteps {
				e.H.maxSteps = e.pa.steps
			}
			take := np <= maxSamples/2 || e.H.rng.Int63n(np) < maxSamples/4
			e.H.mu.Unlock()
			if take && !e.H.mapord {
				e.sample()
			}
		case sDrop:
			e.st.Dropped++
		case sLimit:
			if !e.violation("limit", "no end after the step or depth limit", nil) {
				return nil
			}
		case sFail:
			return nil
		}
		n++
		if e.H.stopped() {
			return nil
		}
		if n&15 == 0 && time.Now().After(e.H.deadline) {
			return fmt.Errorf("time budget used up after %d paths", atomic.LoadInt64(&e.H.npaths))
		}
		if !e.backtrack() {
			return nil
		}
	}
}

func (r *Run) work(e *Engine) {
	for {
		j, ok := r.next()
		if !ok {
			return
		}
		err := e.explore(j)
		if err != nil {
			r.fail(err.Error())
		}
		r.jobDone()
		if err != nil {
			return
		}
	}
}

// ---- native replays ----

type Replayer struct{ bin, dir string }

func (rp *Replayer) run(cases []*testcase, timeout time.Duration) ([]outcome, error) {
	f := filepath.Join(rp.dir, fmt.Sprintf("cases-%d.json", os.Getpid()))
	b, err := json.Marshal(cases)
	if err != nil {
		return nil, err
	}
	if err := os.WriteFile(f, b, 0o644); err != nil {
		return nil, err
	}
	defer os.Remove(f)
	cmd := exec.Command(rp.bin, f)
	cmd.Dir = rp.dir
	var so, se strings.Builder
	cmd.Stdout, cmd.Stderr = &so, &se
	if err := cmd.Start(); err != nil {
		return nil, err
	}
	done := make(chan error, 1)
	go func() { done <- cmd.Wait() }()
	select {
	case err = <-done:
	case <-time.After(timeout):
		cmd.Process.Kill()
		<-done
		err = fmt.Errorf("timeout")
	}
	var outs []outcome
	for _, l := range strings.Split(so.String(), "\n") {
		if l = strings.TrimPrefix(l, "@@"); strings.HasPrefix(l, "{\"status\"") {
			var o outcome
			if json.Unmarshal([]byte(l), &o) == nil {
				outs = append(outs, o)
			}
		}
	}
	if len(outs) < len(cases) {
		if err != nil && err.Error() == "timeout" {
			outs = append(outs, outcome{Status: "timeout"})
		} else {
			msg := se.String()
			if len(msg) > 300 {
				msg = msg[:300]
			}
			outs = append(outs, outcome{Status: "fatal", Label: fmt.Sprint(err) + ": " + msg})
		}
	}
	return outs, nil
}

func sortedKeys[V any](m map[string]V) []string {
	ks := []string{}
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}
