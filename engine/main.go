package main

import (
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

// vxsym decides the properties of /verif/properties.jsonl by symbolic execution of the
// current sources of /repo and an SMT solver.
//
//	vxsym check C01 quick|thorough
//	vxsym replay FILE
//	vxsym explore HARNESS [name=value ...]

var (
	verifDir = "/verif"
	repoSrc  = "/repo/src"
	cacheDir = "/verif/.cache"
)

type harnessCfg struct {
	Fn       string         `json:"fn"`
	Quick    map[string]int `json:"quick"`
	Thorough map[string]int `json:"thorough"`
	Covers   []string       `json:"covers"`
	Bound    string         `json:"bound"`
	MapOrder bool           `json:"maporder"`
	Only     string         `json:"only"` // tier
}

type checkCfg struct {
	Harnesses []harnessCfg `json:"harnesses"`
	Assume    []string     `json:"assumptions"`
	Outside   string       `json:"outside"`
}

func die(format string, a ...any) {
	fmt.Fprintf(os.Stderr, "check error: "+format+"\n", a...)
	os.Exit(2)
}

// overlay lists the harness files as files of the package under check.
func overlay(prop string) string {
	rep := map[string]string{}
	fs, _ := filepath.Glob(filepath.Join(verifDir, "harness", "*.go"))
	for _, f := range fs {
		b := filepath.Base(f)
		if b == "main.go" {
			rep[filepath.Join(repoSrc, "zzverif", "main.go")] = f
			continue
		}
		n := strings.TrimSuffix(b, ".go")
		if strings.HasPrefix(n, "c") && len(n) == 3 && prop != "" && !strings.EqualFold(n, prop) {
			continue
		}
		rep[filepath.Join(repoSrc, "vxlisp", "zzverif_"+b)] = f
	}
	b, _ := json.Marshal(map[string]any{"Replace": rep})
	p := filepath.Join(cacheDir, "overlay-"+prop+".json")
	if err := os.WriteFile(p, b, 0o644); err != nil {
		die("%v", err)
	}
	return p
}

func buildReplayer(ov, prop string) (*Replayer, error) {
	bin := filepath.Join(cacheDir, "replay-"+prop)
	cmd := exec.Command("go", "build", "-overlay", ov, "-o", bin, "./zzverif")
	cmd.Dir = repoSrc
	cmd.Env = goEnv()
	out, err := cmd.CombinedOutput()
	if err != nil {
		return nil, fmt.Errorf("building the replay program: %v\n%s", err, out)
	}
	dir := filepath.Join(cacheDir, "run")
	os.MkdirAll(dir, 0o755)
	return &Replayer{bin, dir}, nil
}

func knownIDs() (map[string]bool, map[string]string) {
	ids, text := map[string]bool{}, map[string]string{}
	b, _ := os.ReadFile(filepath.Join(verifDir, "known-findings.txt"))
	for _, l := range strings.Split(string(b), "\n") {
		if strings.HasPrefix(l, "known: ") {
			// known: property=C01 id=NAME what fails
			fs := strings.Fields(l)
			if len(fs) > 3 && strings.HasPrefix(fs[2], "id=") {
				id := fs[2][3:]
				ids[id] = true
				text[id] = strings.Join(fs[3:], " ")
			}
		}
	}
	return ids, text
}

type pool struct {
	P       *Program
	engines []*Engine
}

func newPool(P *Program, n int) *pool {
	p := &pool{P: P, engines: make([]*Engine, n)}
	var wg sync.WaitGroup
	errs := make([]error, n)
	for i := range p.engines {
		wg.Add(1)
		go func() {
			defer wg.Done()
			e, err := NewEngine(P, &Run{solver: "z3-new", stepLimit: 1 << 40, depthLimit: 1 << 20})
			if err == nil {
				err = e.initProgram()
				e.used = map[*ssaFunction]bool{}
			}
			p.engines[i], errs[i] = e, err
		}()
	}
	wg.Wait()
	for _, err := range errs {
		if err != nil {
			die("%v", err)
		}
	}
	return p
}

type summary struct {
	Fn       string           `json:"harness"`
	Params   map[string]int   `json:"bounds"`
	Bound    string           `json:"bound_text,omitempty"`
	Paths    int64            `json:"paths"`
	Dropped  int64            `json:"paths_outside_assumptions"`
	Forks    int64            `json:"forks"`
	Steps    int64            `json:"instructions"`
	AssertQ  int64            `json:"assertions_decided_by_query"`
	AssertC  int64            `json:"assertions_constant_on_path"`
	Queries  int              `json:"solver_queries"`
	Sat      int              `json:"sat"`
	Unsat    int              `json:"unsat"`
	Unknown  int              `json:"unknown"`
	SolverS  float64          `json:"solver_s"`
	WallS    float64          `json:"wall_s"`
	Covers   map[string]int64 `json:"reached"`
	Solver   string           `json:"solver"`
	MaxSteps int64            `json:"longest_path_instructions"`
	Valid    int              `json:"paths_replayed_natively"`
	fns      map[string]bool
}

func (p *pool) run(r *Run) *summary {
	r.cond = sync.NewCond(&r.mu)
	r.covers = map[string]int64{}
	r.knownHit = map[string]*testcase{}
	r.queue = [][]bool{nil}
	r.qlen = 1
	t0 := time.Now()
	var wg sync.WaitGroup
	for _, e := range p.engines {
		if err := e.reset(r); err != nil {
			die("%v", err)
		}
	}
	for _, e := range p.engines {
		wg.Add(1)
		go func() {
			defer wg.Done()
			r.work(e)
		}()
	}
	wg.Wait()
	s := &summary{Fn: r.fn, Params: r.params, Covers: r.covers, Solver: r.solver, MaxSteps: r.maxSteps, fns: map[string]bool{}}
	for _, e := range p.engines {
		s.Paths += e.st.Paths
		s.Dropped += e.st.Dropped
		s.Forks += e.st.Forks
		s.Steps += e.st.Steps
		s.AssertQ += e.st.AssertQ
		s.AssertC += e.st.AssertConst
		s.Queries += e.s.queries
		s.Sat += e.s.sat
		s.Unsat += e.s.unsat
		s.Unknown += e.s.unknown
		s.SolverS += e.s.time.Seconds()
		for f := range e.used {
			n := f.Name()
			if strings.HasPrefix(n, "vh") || strings.HasPrefix(n, "vx") || strings.HasPrefix(n, "init") {
				continue
			}
			if f.Parent() != nil || f.Synthetic != "" {
				continue
			}
			if strings.Contains(p.P.fset.Position(f.Pos()).Filename, "zzverif_") {
				continue
			}
			s.fns[f.String()] = true
		}
		e.used = map[*ssaFunction]bool{}
	}
	s.WallS = time.Since(t0).Seconds()
	return s
}

func sameList(a, b []string) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func main() {
	if len(os.Args) < 3 {
		die("usage: vxsym check ID TIER | replay FILE | explore FN [k=v]")
	}
	os.MkdirAll(cacheDir, 0o755)
	switch os.Args[1] {
	case "check":
		tier := "quick"
		if len(os.Args) > 3 {
			tier = os.Args[3]
		} else if t := os.Getenv("VERIF_TIER"); t != "" {
			tier = t
		}
		check(os.Args[2], tier)
	case "explore":
		explore(os.Args[2], os.Args[3:])
	case "replay":
		replay(os.Args[2])
	case "all":
		all(os.Args[2])
	default:
		die("unknown command %s", os.Args[1])
	}
}

func newRun(fn string, params map[string]int) *Run {
	return &Run{solver: "z3-new", stepLimit: 40_000_000, depthLimit: 2000, merge: os.Getenv("VXNOMERGE") == "", fn: fn, params: params,
		deadline: time.Now().Add(840 * time.Second), rng: rand.New(rand.NewSource(seed())), known: map[string]bool{}}
}

func seed() int64 {
	n, err := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	if err != nil {
		return 1
	}
	return n
}

func explore(fn string, args []string) {
	prop := ""
	if strings.HasPrefix(fn, "vhC") && len(fn) >= 5 {
		prop = fn[2:5]
	}
	ov := overlay(prop)
	P, err := load(repoSrc, ov, "./vxlisp", "vxlisp/vxlisp")
	if err != nil {
		die("%v", err)
	}
	r := newRun(fn, map[string]int{})
	n := runtime.NumCPU()
	for _, a := range args {
		kv := strings.SplitN(a, "=", 2)
		if a == "-trace" {
			r.trace = true
			n = 1
			continue
		}
		if kv[0] == "-j" {
			n, _ = strconv.Atoi(kv[1])
			continue
		}
		if kv[0] == "-solver" {
			r.solver = kv[1]
			continue
		}
		r.params[kv[0]], _ = strconv.Atoi(kv[1])
	}
	ids, _ := knownIDs()
	r.known = ids
	p := newPool(P, n)
	s := p.run(r)
	b, _ := json.MarshalIndent(s, "", " ")
	fmt.Println(string(b))
	for _, er := range r.errs {
		fmt.Println("ERROR:", er)
	}
	rp, err := buildReplayer(ov, prop)
	if err != nil {
		fmt.Println(err)
		return
	}
	for id, tc := range r.knownHit {
		fmt.Println("KNOWN", id, tc.Label, tc.Where, showVals(tc.Vals))
	}
	for _, tc := range r.viol {
		fmt.Println("VIOLATION:", tc.Kind, tc.Label, "\n  at", tc.Where, "\n ", showVals(tc.Vals))
		o, err := rp.run([]*testcase{tc}, 20*time.Second)
		fmt.Println("  native:", o, err)
	}
	if len(r.viol) == 0 && len(r.errs) == 0 {
		fmt.Println(validate(rp, r))
	}
}

func showVals(vs []nval) string {
	s := []string{}
	for i := 0; i < len(vs); {
		// consecutive bytes of one text
		j := i
		txt := []byte{}
		for j < len(vs) && vs[j].Name == vs[i].Name && vs[j].Val >= 0 && vs[j].Val < 256 {
			txt = append(txt, byte(vs[j].Val))
			j++
		}
		if j-i > 1 || strings.HasSuffix(vs[i].Name, "$") {
			s = append(s, fmt.Sprintf("%s=%q", vs[i].Name, txt))
			i = j
			continue
		}
		s = append(s, fmt.Sprintf("%s=%d", vs[i].Name, vs[i].Val))
		i++
	}
	return strings.Join(s, " ")
}

// validate replays sampled paths in the real program and compares what was observed.
func validate(rp *Replayer, r *Run) (int, string) {
	cases := []*testcase{}
	for _, c := range r.samples {
		if c.known == "" {
			cases = append(cases, c)
		}
	}
	if len(cases) == 0 {
		return 0, ""
	}
	outs, err := rp.run(cases, 300*time.Second)
	if err != nil {
		return 0, err.Error()
	}
	for i, o := range outs {
		if i >= len(cases) {
			break
		}
		if o.Status != "ok" || !sameList(o.Obs, cases[i].obs) || !sameList(o.Covers, cases[i].covers) {
			return i, fmt.Sprintf("a replayed path differs from the encoding: %s\n native %s %s %q %v\n engine %q %v", showVals(cases[i].Vals), o.Status, o.Label, o.Obs, o.Covers, cases[i].obs, cases[i].covers)
		}
	}
	if len(outs) < len(cases) {
		return len(outs), "replay program stopped early"
	}
	return len(cases), ""
}

func loadCfg(prop string) checkCfg {
	b, err := os.ReadFile(filepath.Join(verifDir, "harness", "checks.json"))
	if err != nil {
		die("%v", err)
	}
	all := map[string]checkCfg{}
	if err := json.Unmarshal(b, &all); err != nil {
		die("checks.json: %v", err)
	}
	c, ok := all[prop]
	if !ok {
		die("no check for %s", prop)
	}
	return c
}

func check(prop, tier string) {
	t0 := time.Now()
	cfg := loadCfg(prop)
	deadline := t0.Add(820 * time.Second)
	ov := overlay(prop)
	type rb struct {
		rp  *Replayer
		err error
	}
	rch := make(chan rb, 1)
	go func() {
		rp, err := buildReplayer(ov, prop)
		rch <- rb{rp, err}
	}()
	P, err := load(repoSrc, ov, "./vxlisp", "vxlisp/vxlisp")
	if err != nil {
		die("%v", err)
	}
	p := newPool(P, min(runtime.NumCPU(), 8))
	b := <-rch
	if b.err != nil {
		die("%v", b.err)
	}
	rp := b.rp
	ids, text := knownIDs()
	var sums []*summary
	fns := map[string]bool{}
	var bad *testcase
	var native outcome
	problems := []string{}
	samples := []any{}
	validated := 0
	knownSeen := map[string]bool{}
	for _, h := range cfg.Harnesses {
		if h.Only != "" && h.Only != tier {
			continue
		}
		params := h.Quick
		if tier == "thorough" && h.Thorough != nil {
			params = h.Thorough
		}
		if params == nil {
			params = map[string]int{}
		}
		r := newRun(h.Fn, params)
		r.prop = prop
		r.known = ids
		r.deadline = deadline
		r.mapord = h.MapOrder
		s := p.run(r)
		s.Bound = h.Bound
		sums = append(sums, s)
		for f := range s.fns {
			fns[f] = true
		}
		for id, tc := range r.knownHit {
			o, err := rp.run([]*testcase{tc}, 60*time.Second)
			if err != nil || len(o) == 0 || !isBad(o[0]) {
				problems = append(problems, fmt.Sprintf("%s: known finding %s does not replay: %v %v", h.Fn, id, o, err))
				continue
			}
			if !knownSeen[id] {
				knownSeen[id] = true
				fmt.Printf("KNOWN-FINDING: property=%s %s\n", prop, text[id])
			}
		}
		for _, tc := range r.viol {
			if h.MapOrder {
				tc.Repeat = 400
			}
			o, err := rp.run([]*testcase{tc}, 100*time.Second)
			if err == nil && len(o) > 0 && isBad(o[0]) {
				bad = tc
				native = o[0]
				break
			}
			problems = append(problems, fmt.Sprintf("%s: counterexample does not replay: %s %q at %s with %s: native %v %v", h.Fn, tc.Kind, tc.Label, tc.Where, showVals(tc.Vals), o, err))
		}
		if bad != nil {
			break
		}
		for _, er := range r.errs {
			problems = append(problems, h.Fn+": "+er)
		}
		if len(r.viol) > 0 || len(r.errs) > 0 {
			continue
		}
		n, msg := validate(rp, r)
		validated += n
		s.Valid = n
		if msg != "" {
			problems = append(problems, h.Fn+": "+msg)
		}
		for i, c := range r.samples {
			if i < 3 {
				samples = append(samples, map[string]any{"harness": h.Fn, "input": showVals(c.Vals), "observed": clip(c.obs), "reached": c.covers})
			}
		}
		for _, c := range h.Covers {
			if s.Covers[c] == 0 {
				problems = append(problems, fmt.Sprintf("%s: nothing reached %q", h.Fn, c))
			}
		}
		if s.Paths == 0 {
			problems = append(problems, h.Fn+": no path was completed")
		}
	}
	if bad == nil && len(problems) == 0 && tier == "thorough" {
		// second solver on the quick bounds
		for _, h := range cfg.Harnesses {
			if h.Only == "thorough" {
				continue
			}
			params := h.Quick
			if params == nil {
				params = map[string]int{}
			}
			r := newRun(h.Fn, params)
			r.prop, r.known, r.deadline, r.mapord, r.solver = prop, ids, deadline, h.MapOrder, "cvc5"
			s := p.run(r)
			s.Bound = "second solver, quick bounds"
			sums = append(sums, s)
			for _, er := range r.errs {
				problems = append(problems, h.Fn+" (cvc5): "+er)
			}
			for _, tc := range r.viol {
				problems = append(problems, fmt.Sprintf("%s (cvc5): %s %s", h.Fn, tc.Label, showVals(tc.Vals)))
			}
		}
	}
	for _, e := range p.engines {
		e.s.Close()
	}
	ev := evidence(prop, tier, cfg, sums, fns, samples, validated, bad, problems, time.Since(t0).Seconds())
	edir := filepath.Join(verifDir, "evidence")
	os.MkdirAll(edir, 0o755)
	eb, _ := json.MarshalIndent(ev, "", " ")
	if err := os.WriteFile(filepath.Join(edir, prop+".json"), append(eb, '\n'), 0o644); err != nil {
		die("%v", err)
	}
	if bad != nil {
		bad.Note = fmt.Sprintf("%s: %s; native run: %s %s; input %s", bad.Kind, bad.Label, native.Status, native.Label, showVals(bad.Vals))
		rdir := filepath.Join(edir, "replay")
		os.MkdirAll(rdir, 0o755)
		rf := filepath.Join(rdir, prop+".json")
		rbs, _ := json.MarshalIndent(bad, "", " ")
		os.WriteFile(rf, append(rbs, '\n'), 0o644)
		fmt.Println(bad.Note)
		fmt.Println("at", bad.Where)
		fmt.Printf("VIOLATION property=%s replay=%s\n", prop, rf)
		os.Exit(1)
	}
	if len(problems) > 0 {
		die("%s", strings.Join(problems, "\n"))
	}
	var paths, steps int64
	q := 0
	for _, s := range sums {
		paths += s.Paths
		steps += s.Steps
		q += s.Queries
	}
	fmt.Printf("%s held: %d paths, %d instructions, %d solver queries, %d functions encoded, %d paths replayed natively, %.1f s\n", prop, paths, steps, q, len(fns), validated, time.Since(t0).Seconds())
}

func clip(obs []string) []string {
	out := []string{}
	for _, o := range obs {
		if len(o) > 300 {
			o = o[:300] + "..."
		}
		out = append(out, o)
	}
	return out
}

func isBad(o outcome) bool {
	switch o.Status {
	case "fail", "panic", "timeout", "fatal":
		return true
	}
	return false
}

func evidence(prop, tier string, cfg checkCfg, sums []*summary, fns map[string]bool, samples []any, validated int, bad *testcase, problems []string, wall float64) map[string]any {
	var paths, steps, forks, aq, ac int64
	var queries, sat, unsat, unknown int
	var st float64
	for _, s := range sums {
		paths += s.Paths
		steps += s.Steps
		forks += s.Forks
		aq += s.AssertQ
		ac += s.AssertC
		queries += s.Queries
		sat += s.Sat
		unsat += s.Unsat
		unknown += s.Unknown
		st += s.SolverS
	}
	names := []string{}
	for f := range fns {
		names = append(names, f)
	}
	sort.Strings(names)
	v := 0
	if bad != nil {
		v = 1
	}
	cov := map[string]any{
		"states":                        forks + paths,
		"transitions":                   steps,
		"traces_validated_against_impl": validated,
		"samples":                       samples,
		"paths_completed":               paths,
		"functions_encoded":             len(names),
		"function_names":                names,
		"solver_queries":                queries,
		"solver_sat":                    sat,
		"solver_unsat":                  unsat,
		"solver_unknown":                unknown,
		"solver_seconds":                st,
		"assertions_decided_by_query":   aq,
		"assertions_constant_on_path":   ac,
		"harnesses":                     sums,
		"outside_the_bounds":            cfg.Outside,
	}
	if len(problems) > 0 {
		cov["problems"] = problems
	}
	return map[string]any{"property": prop, "tier": tier, "seed": seed(), "level": "model_checking", "coverage": cov,
		"wall_s": wall, "assumptions": cfg.Assume, "violations": v}
}

func replay(file string) {
	b, err := os.ReadFile(file)
	if err != nil {
		die("%v", err)
	}
	tc := &testcase{}
	if err := json.Unmarshal(b, tc); err != nil {
		die("%v", err)
	}
	ov := overlay(tc.Property)
	rp, err := buildReplayer(ov, tc.Property)
	if err != nil {
		die("%v", err)
	}
	o, err := rp.run([]*testcase{tc}, 100*time.Second)
	fmt.Println(showVals(tc.Vals))
	fmt.Println(o, err)
	if len(o) > 0 && isBad(o[0]) {
		os.Exit(1)
	}
}

func all(tier string) {
	die("use /verif/check.sh")
}

var _ = atomic.AddInt32
