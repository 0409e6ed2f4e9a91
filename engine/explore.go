package main

import (
	"fmt"
	"go/types"
	"os"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"golang.org/x/tools/go/ssa"
)

// Runner holds what all workers share while one harness is explored.
type Runner struct {
	P         *Program
	repl      map[string]*ssa.Function
	rtErrType types.Type
	maxDepth  int
	maxSteps  int
	permMax   int
	solverBin string
	solverMS  int
	perPath   map[string]bool // packages whose globals are re-initialised on every path

	implMu sync.RWMutex
	implC  map[implKey]bool
	methMu sync.RWMutex
	methC  map[methKey]*ssa.Function
}

type implKey struct {
	t  types.Type
	it *types.Interface
}
type methKey struct {
	t  types.Type
	id string
}

func (R *Runner) implements(t types.Type, it *types.Interface) bool {
	k := implKey{canon(t), it}
	R.implMu.RLock()
	v, ok := R.implC[k]
	R.implMu.RUnlock()
	if ok {
		return v
	}
	v = types.Implements(t, it)
	R.implMu.Lock()
	R.implC[k] = v
	R.implMu.Unlock()
	return v
}

func (R *Runner) lookupMethod(t types.Type, m *types.Func) *ssa.Function {
	k := methKey{canon(t), m.Id()}
	R.methMu.RLock()
	f, ok := R.methC[k]
	R.methMu.RUnlock()
	if ok {
		return f
	}
	func() {
		defer func() {
			if r := recover(); r != nil {
				f = nil
			}
		}()
		f = R.P.prog.LookupMethod(t, m.Pkg(), m.Name())
	}()
	R.methMu.Lock()
	R.methC[k] = f
	R.methMu.Unlock()
	return f
}

func (R *Runner) methodByName(t types.Type, name string) *ssa.Function {
	ms := R.P.prog.MethodSets.MethodSet(t)
	for i := 0; i < ms.Len(); i++ {
		if ms.At(i).Obj().Name() == name {
			return R.P.prog.MethodValue(ms.At(i))
		}
	}
	return nil
}

func (R *Runner) lookupFunc(pkg, name string) *ssa.Function {
	p := R.P.pkgs[pkg]
	if p == nil || p.ssa == nil {
		return nil
	}
	R.P.ensureBuilt(p.ssa)
	return p.ssa.Func(name)
}

// Decision is one recorded choice on a path.
type Decision struct {
	Kind   uint8 // 0 branch, 1 concretise, 2 pick
	B      bool
	Forced bool
	V      uint64
}

type workItem struct {
	prefix []Decision
	model  Model
}

// Input is one nondeterministic input consumed by a path.
type Input struct {
	Kind string // bool,int,string,pick,...
	Name string
	term *Term
	str  []Value
	pick int
	sgn  bool
}

type Candidate struct {
	Harness string
	Label   string
	Detail  string
	Inputs  []ReplayVal
	Labels  []string
	Kind    string // assert, panic, race, steps, deadlock
	Extra   map[string]string
}

type ReplayVal struct {
	Kind string `json:"kind"`
	Name string `json:"name"`
	I    int64  `json:"i"`
	S    string `json:"s"` // hex
}

type Sample struct {
	Inputs []ReplayVal
	Notes  []string
	Reach  []string
}

type Stats struct {
	Paths       int
	Infeasible  int
	Incomplete  map[string]int
	StepBound   int
	Branches    int64
	Forks       int64
	Asserts     int64
	AssertConst int64
	Queries     int
	SatN        int
	UnsatN      int
	UnkN        int
	Errs        int
	SolverTime  time.Duration
	Steps       int64
	Reached     map[string]int
	AssertSeen  map[string]int
	Funcs       map[string]bool
	Exhausted   bool
	MaxVars     int
}

// Explorer explores one harness function.
type Explorer struct {
	R        *Runner
	harness  *ssa.Function
	hname    string
	deadline time.Time
	maxPaths int

	mu      sync.Mutex
	cond    *sync.Cond
	queue   []workItem
	busy    int
	stop    bool
	stats   Stats
	cands   map[string][]*Candidate
	samples []Sample
	nsample int
	// take samples evenly, to test the harnesses
	everySample bool
	onCand  func(*Candidate)
	paths64 int64
	candMax int
}

type Worker struct {
	E       *Explorer
	R       *Runner
	c       *TermCtx
	sol     *Solver
	globals map[*ssa.Global]*Value
	inited  map[*ssa.Package]int
	funcs   map[*fnInfo]bool
	regex   map[string]Value
}

// Exec is the state of one path.
type Exec struct {
	R          *Runner
	E          *Explorer
	w          *Worker
	c          *TermCtx
	globals    map[*ssa.Global]*Value
	pc         []*Term
	model      Model
	prefix     []Decision
	pos        int
	taken      []Decision
	vars       []*Term
	inputs     []Input
	steps      int
	funcs      map[*fnInfo]bool
	mapOrders  bool
	mapSeq     int
	acc        *accessRec
	thread     int
	locks      map[*Value]*lockState
	coros      []*coro // waiting for the baton
	cur        *coro
	mainCo     *coro
	ncoro      int
	coPanic    interface{}
	gone       chan struct{}
	wg         map[*Value]int
	reached    map[string]bool
	notes      []noteVal
	nbranch    int64
	nforks     int64
	nassert    int64
	nconst     int64
	assertSeen map[string]bool
	onceDone   map[*Value]bool
	files      map[string]interface{}
	permMax    int
	blockedLbl string
	printed    Value // what the program printed, nil if not of interest
}

type noteVal struct {
	label string
	v     Value
}

func (ex *Exec) addPC(t *Term) {
	if t == True {
		return
	}
	ex.pc = append(ex.pc, t)
}

func (ex *Exec) eval(t *Term) uint64 {
	ex.c.newEval()
	return ex.c.Eval(t, ex.model)
}

func (ex *Exec) check(extra *Term) (SatRes, Model) {
	return ex.w.sol.Check(ex.pc, extra, ex.vars)
}

func cloneModel(m Model) Model {
	n := make(Model, len(m)+8)
	for k, v := range m {
		n[k] = v
	}
	return n
}

func (ex *Exec) push(d Decision, m Model) {
	pre := make([]Decision, len(ex.taken)+1)
	copy(pre, ex.taken)
	pre[len(ex.taken)] = d
	ex.nforks++
	E := ex.E
	E.mu.Lock()
	E.queue = append(E.queue, workItem{pre, m})
	E.mu.Unlock()
	E.cond.Signal()
}

// branch decides a symbolic condition, forking the path when both sides are feasible.
func (ex *Exec) branch(cond *Term) bool {
	if cond.op == OpConst {
		return cond.k != 0
	}
	ex.nbranch++
	if ex.pos < len(ex.prefix) {
		d := ex.prefix[ex.pos]
		ex.pos++
		if d.Kind != 0 {
			panic(unsup("replay mismatch (branch)"))
		}
		ex.taken = append(ex.taken, d)
		if !d.Forced {
			if d.B {
				ex.addPC(cond)
			} else {
				ex.addPC(ex.c.Not(cond))
			}
		}
		return d.B
	}
	s := ex.eval(cond) != 0
	var other, this *Term
	if s {
		this, other = cond, ex.c.Not(cond)
	} else {
		this, other = ex.c.Not(cond), cond
	}
	res, m := ex.check(other)
	d := Decision{B: s}
	switch res {
	case Sat:
		ex.push(Decision{B: !s}, m)
		ex.addPC(this)
	case Unsat:
		d.Forced = true
	default:
		ex.incomplete("solver gave no answer for one side of a branch")
		ex.addPC(this)
	}
	ex.taken = append(ex.taken, d)
	return s
}

// concretize fixes a term to one value, exploring every other feasible value too.
func (ex *Exec) concretize(t *Term) uint64 {
	for {
		if t.op == OpConst {
			return t.k
		}
		if ex.pos < len(ex.prefix) {
			d := ex.prefix[ex.pos]
			ex.pos++
			if d.Kind != 1 {
				panic(unsup("replay mismatch (concretise)"))
			}
			ex.taken = append(ex.taken, d)
			eq := ex.c.Eq(t, mkConst(t.w, d.V))
			if d.B {
				if !d.Forced {
					ex.addPC(eq)
				}
				return d.V
			}
			if !d.Forced {
				ex.addPC(ex.c.Not(eq))
			}
			continue
		}
		v := ex.eval(t)
		eq := ex.c.Eq(t, mkConst(t.w, v))
		if eq == True {
			return v
		}
		res, m := ex.check(ex.c.Not(eq))
		d := Decision{Kind: 1, V: v, B: true}
		switch res {
		case Sat:
			ex.push(Decision{Kind: 1, V: v, B: false}, m)
			ex.addPC(eq)
		case Unsat:
			d.Forced = true
		default:
			ex.incomplete("solver gave no answer while fixing a value")
			ex.addPC(eq)
		}
		ex.taken = append(ex.taken, d)
		return v
	}
}

// pick explores every choice in [0,n).
func (ex *Exec) pick(n int, name string) int {
	v := 0
	if n > 1 {
		if ex.pos < len(ex.prefix) {
			d := ex.prefix[ex.pos]
			ex.pos++
			if d.Kind != 2 {
				panic(unsup("replay mismatch (pick)"))
			}
			v = int(d.V)
			ex.taken = append(ex.taken, d)
		} else {
			for i := n - 1; i > 0; i-- {
				ex.push(Decision{Kind: 2, V: uint64(i)}, ex.model)
			}
			ex.taken = append(ex.taken, Decision{Kind: 2})
		}
	}
	return v
}

// newVar creates a fresh input variable; init is its value in the current model.
func (ex *Exec) newVar(w uint8, init uint64) *Term {
	t := ex.c.Var(len(ex.vars), w)
	ex.vars = append(ex.vars, t)
	if ex.pos >= len(ex.prefix) || ex.model == nil {
		if _, ok := ex.model[t.k]; !ok {
			ex.model = cloneModel(ex.model)
			ex.model[t.k] = init
		}
	} else if _, ok := ex.model[t.k]; !ok {
		ex.model = cloneModel(ex.model)
		ex.model[t.k] = init
	}
	return t
}

func (ex *Exec) assume(c *Term) {
	if c.op == OpConst {
		if c.k == 0 {
			panic(&pathEnd{"infeasible"})
		}
		return
	}
	if ex.pos < len(ex.prefix) {
		ex.addPC(c)
		return
	}
	if ex.eval(c) == 0 {
		res, m := ex.check(c)
		switch res {
		case Sat:
			ex.model = m
		case Unsat:
			panic(&pathEnd{"infeasible"})
		default:
			ex.incomplete("solver gave no answer for an assumption")
			panic(&pathEnd{"unknown assumption"})
		}
	}
	ex.addPC(c)
}

func (ex *Exec) incomplete(why string) {
	E := ex.E
	E.mu.Lock()
	E.stats.Incomplete[why]++
	E.mu.Unlock()
}

func (ex *Exec) assert(c *Term, label string) {
	ex.nassert++
	ex.assertSeen[label] = true
	if c.op == OpConst {
		ex.nconst++
		if c.k == 0 {
			if ex.pos < len(ex.prefix) {
				// already reported by the run that created this prefix
				panic(&pathEnd{"violated"})
			}
			ex.report("assert", label, "", ex.model)
			panic(&pathEnd{"violated"})
		}
		return
	}
	if ex.pos < len(ex.prefix) {
		ex.addPC(c)
		return
	}
	if ex.eval(c) == 0 {
		ex.report("assert", label, "", ex.model)
		// continue on the side where it holds
		res, m := ex.check(c)
		if res != Sat {
			panic(&pathEnd{"violated"})
		}
		ex.model = m
		ex.addPC(c)
		return
	}
	res, m := ex.check(ex.c.Not(c))
	switch res {
	case Sat:
		ex.report("assert", label, "", m)
		ex.addPC(c)
	case Unsat:
	default:
		ex.incomplete("solver gave no answer for assertion " + label)
		ex.addPC(c)
	}
}

func (ex *Exec) concInputs(m Model) []ReplayVal {
	ex.c.newEval()
	var out []ReplayVal
	for _, in := range ex.inputs {
		rv := ReplayVal{Kind: in.Kind, Name: in.Name}
		switch in.Kind {
		case "pick":
			rv.I = int64(in.pick)
		case "string":
			var b []byte
			for _, x := range in.str {
				b = append(b, byte(ex.c.Eval(x.(*Term), m)))
			}
			rv.S = fmt.Sprintf("%x", b)
		default:
			v := ex.c.Eval(in.term, m)
			if in.sgn && in.term.w > 0 {
				rv.I = sx(v, in.term.w)
			} else {
				rv.I = int64(v)
			}
		}
		out = append(out, rv)
	}
	return out
}

func (ex *Exec) report(kind, label, detail string, m Model) {
	c := &Candidate{Harness: ex.E.hname, Label: label, Detail: detail, Kind: kind, Inputs: ex.concInputs(m)}
	E := ex.E
	E.mu.Lock()
	n := len(E.cands[label])
	if n < E.candMax {
		E.cands[label] = append(E.cands[label], c)
	}
	E.mu.Unlock()
	if n < E.candMax && E.onCand != nil {
		E.onCand(c)
	}
}

// ---- globals ----

func (ex *Exec) globalAddr(g *ssa.Global) *Value {
	path := ""
	if g.Pkg != nil {
		path = g.Pkg.Pkg.Path()
	}
	if ex.R.isPerPath(path) {
		if p, ok := ex.globals[g]; ok {
			return p
		}
		p := new(Value)
		*p = zero(g.Type().Underlying().(*types.Pointer).Elem())
		ex.globals[g] = p
		return p
	}
	w := ex.w
	if p, ok := w.globals[g]; ok {
		return p
	}
	p := new(Value)
	*p = zero(g.Type().Underlying().(*types.Pointer).Elem())
	w.globals[g] = p
	if g.Pkg != nil && !strings.HasPrefix(g.Name(), "init$") && w.inited[g.Pkg] == 0 {
		w.inited[g.Pkg] = 1
		ex.initExternal(g.Pkg)
		w.inited[g.Pkg] = 2
	}
	return p
}

func (R *Runner) isPerPath(path string) bool {
	lp := R.P.pkgs[path]
	return lp != nil && (lp.inMod || R.perPath[path])
}

// initExternal runs the variable initialisers of a package outside the module.
func (ex *Exec) initExternal(pkg *ssa.Package) {
	lp := ex.R.P.pkgs[pkg.Pkg.Path()]
	if lp == nil {
		return
	}
	if lp.noBody {
		// poison everything that has an initialiser
		for _, in := range lp.info.InitOrder {
			for _, v := range in.Lhs {
				if g, ok := pkg.Members[v.Name()].(*ssa.Global); ok {
					if f, ok := globalStandins[pkg.Pkg.Path()+"."+v.Name()]; ok {
						p := ex.w.globals[g]
						if p == nil {
							p = new(Value)
							ex.w.globals[g] = p
						}
						*p = f(ex, g)
						continue
					}
					p := ex.w.globals[g]
					if p == nil {
						p = new(Value)
						ex.w.globals[g] = p
					}
					*p = Poison{"variable of an uninterpreted package: " + g.String()}
				}
			}
		}
		return
	}
	ex.R.P.ensureBuilt(pkg)
	init := pkg.Func("init")
	if init == nil || len(init.Blocks) == 0 {
		return
	}
	save := ex.steps
	acc := ex.acc
	ex.acc = nil
	ex.runTolerant(init)
	ex.acc = acc
	ex.steps = save
}

func (ex *Exec) runTolerant(fn *ssa.Function) {
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(*unsupErr); ok {
				return
			}
			if _, ok := r.(*goPanic); ok {
				return
			}
			panic(r)
		}
	}()
	fi := ex.R.compileCached(fn)
	fr := &Frame{ex: ex, fi: fi, regs: make([]Value, fi.nslots), depth: 1, prev: -1, tolerant: true}
	fr.run()
}

func (R *Runner) compileCached(fn *ssa.Function) *fnInfo { return R.info(fn) }

// ---- one path ----

func (w *Worker) runPath(item workItem) {
	E := w.E
	if len(w.c.tab) > 400000 {
		w.c = newTermCtx()
		w.sol.stop()
	}
	ex := &Exec{R: w.R, E: E, w: w, c: w.c, globals: map[*ssa.Global]*Value{}, model: item.model, prefix: item.prefix,
		funcs: w.funcs, locks: map[*Value]*lockState{}, reached: map[string]bool{}, assertSeen: map[string]bool{}, onceDone: map[*Value]bool{}, thread: 1,
		files: map[string]interface{}{}}
	if ex.model == nil {
		ex.model = Model{}
	}
	status := "ok"
	ex.gone = make(chan struct{})
	func() {
		defer ex.bury()
		defer func() {
			r := recover()
			if r == nil {
				return
			}
			switch x := r.(type) {
			case *unsupErr:
				status = "unsupported: " + x.msg
				if os.Getenv("GOSYM_DEBUG") != "" {
					fmt.Fprintf(os.Stderr, "UNSUPPORTED %s\n", x.msg)
				}
			case *pathEnd:
				status = x.why
			case *goPanic:
				status = "panic"
				msg := x.rt
				if msg == "" {
					msg = ex.panicText(x.v)
				}
				if ex.pos >= len(ex.prefix) {
					lbl := "panic"
					if strings.HasPrefix(msg, "stack overflow") {
						lbl = "stack overflow"
					}
					ex.report("panic", lbl, msg+" at "+x.where, ex.model)
				}
			default:
				status = fmt.Sprintf("unsupported: engine failure: %v", r)
				if os.Getenv("GOSYM_DEBUG") != "" {
					fmt.Fprintf(os.Stderr, "ENGINE %v\n%s\n", r, debug.Stack())
				}
			}
		}()
		w.initModule(ex)
		ex.callFn(nil, E.harness, nil, nil)
		ex.drain() // what is still blocked then stays so
	}()
	n := atomic.AddInt64(&E.paths64, 1)
	var smp *Sample
	if status == "ok" || status == "exit" {
		if E.wantSample(int(n)) {
			smp = ex.sample()
		}
	}
	E.mu.Lock()
	defer E.mu.Unlock()
	st := &E.stats
	st.Paths++
	st.Branches += ex.nbranch
	st.Forks += ex.nforks
	st.Asserts += ex.nassert
	st.AssertConst += ex.nconst
	st.Steps += int64(ex.steps)
	if len(ex.vars) > st.MaxVars {
		st.MaxVars = len(ex.vars)
	}
	for l := range ex.reached {
		st.Reached[l]++
	}
	for l := range ex.assertSeen {
		st.AssertSeen[l]++
	}
	switch {
	case status == "infeasible":
		st.Infeasible++
	case status == "step bound":
		st.StepBound++
		st.Incomplete["step bound reached"]++
	case strings.HasPrefix(status, "unsupported: "):
		st.Incomplete[strings.TrimPrefix(status, "unsupported: ")]++
	case strings.HasPrefix(status, "blocked"), strings.HasPrefix(status, "unknown"):
		st.Incomplete[status]++
	}
	if smp != nil {
		E.samples = append(E.samples, *smp)
	}
}

func (ex *Exec) panicText(v Value) string {
	i, ok := v.(Iface)
	if !ok {
		return fmt.Sprintf("%v", v)
	}
	if i.t == nil {
		return "nil"
	}
	switch x := i.v.(type) {
	case string:
		return x
	case *SymStr:
		return "<symbolic string>"
	}
	return "value of type " + i.t.String()
}

func (E *Explorer) wantSample(n int) bool {
	// first path, then exponentially spaced ones
	if n == 1 {
		return true
	}
	E.mu.Lock()
	defer E.mu.Unlock()
	if len(E.samples) >= E.nsample {
		return false
	}
	return n&(n-1) == 0 || n%97 == 0 || E.everySample && n%7 == 0
}

func (ex *Exec) sample() *Sample {
	s := &Sample{Inputs: ex.concInputs(ex.model)}
	for l := range ex.reached {
		s.Reach = append(s.Reach, l)
	}
	sort.Strings(s.Reach)
	ex.c.newEval()
	for _, n := range ex.notes {
		s.Notes = append(s.Notes, n.label+"="+ex.noteText(n.v))
	}
	return s
}

func (ex *Exec) noteText(v Value) string {
	switch x := v.(type) {
	case *Term:
		k := ex.c.Eval(x, ex.model)
		if x.w == 0 {
			return fmt.Sprint(k != 0)
		}
		return fmt.Sprint(sx(k, x.w))
	case string:
		return fmt.Sprintf("%x", x)
	case *SymStr:
		var b []byte
		for _, y := range x.b {
			t, ok := y.(*Term)
			if !ok {
				return "<encoded>"
			}
			b = append(b, byte(ex.c.Eval(t, ex.model)))
		}
		return fmt.Sprintf("%x", b)
	}
	return fmt.Sprintf("<%T>", v)
}

// initModule runs package initialisation of the module packages for this path.
func (w *Worker) initModule(ex *Exec) {
	pkg := w.E.harness.Pkg
	w.R.P.ensureBuilt(pkg)
	ex.runTolerant(pkg.Func("init"))
	ex.steps = 0
}

func (E *Explorer) run(nworkers int) {
	E.cond = sync.NewCond(&E.mu)
	E.stats.Incomplete = map[string]int{}
	E.stats.Reached = map[string]int{}
	E.stats.AssertSeen = map[string]int{}
	E.stats.Funcs = map[string]bool{}
	E.cands = map[string][]*Candidate{}
	if E.candMax == 0 {
		E.candMax = 3
	}
	E.queue = []workItem{{}}
	var wg sync.WaitGroup
	stopTimer := time.AfterFunc(time.Until(E.deadline), func() {
		E.mu.Lock()
		if !E.stop {
			E.stop = true
			E.stats.Incomplete["time budget reached with paths left"]++
		}
		E.mu.Unlock()
		E.cond.Broadcast()
	})
	for i := 0; i < nworkers; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			w := &Worker{E: E, R: E.R, c: newTermCtx(), sol: newSolver(E.R.solverBin, E.R.solverMS), globals: map[*ssa.Global]*Value{},
				inited: map[*ssa.Package]int{}, funcs: map[*fnInfo]bool{}, regex: map[string]Value{}}
			defer func() {
				w.sol.stop()
				E.mu.Lock()
				st := &E.stats
				st.Queries += w.sol.Queries
				st.SatN += w.sol.SatN
				st.UnsatN += w.sol.UnsatN
				st.UnkN += w.sol.UnkN
				st.Errs += w.sol.Errs
				st.SolverTime += w.sol.Time
				for f := range w.funcs {
					st.Funcs[f.name] = true
				}
				E.mu.Unlock()
			}()
			for {
				E.mu.Lock()
				for len(E.queue) == 0 && E.busy > 0 && !E.stop {
					E.cond.Wait()
				}
				if E.stop || len(E.queue) == 0 {
					E.mu.Unlock()
					E.cond.Broadcast()
					return
				}
				it := E.queue[len(E.queue)-1]
				E.queue = E.queue[:len(E.queue)-1]
				E.busy++
				if E.maxPaths > 0 && E.stats.Paths >= E.maxPaths {
					E.stop = true
					E.stats.Incomplete["path budget reached with paths left"]++
				}
				E.mu.Unlock()
				w.runPath(it)
				E.mu.Lock()
				E.busy--
				if E.busy == 0 && len(E.queue) == 0 {
					E.cond.Broadcast()
				}
				E.mu.Unlock()
			}
		}()
	}
	wg.Wait()
	stopTimer.Stop()
	E.mu.Lock()
	E.stats.Exhausted = len(E.queue) == 0 && !E.stop
	E.mu.Unlock()
}
