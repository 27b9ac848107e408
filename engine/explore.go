package main

import (
	"fmt"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"go/types"

	"golang.org/x/tools/go/ssa"
)

// Decision is one recorded nondeterministic choice of a path.
type Decision struct {
	dir bool
	val uint64 // for concretization: the value compared with
	cc  bool
	at  int64 // step counter when it was taken: a replayed prefix must meet it at the same step
}

// Task is an unexplored path prefix.
type Task struct {
	h      *Harness
	prefix []Decision
	model  map[string]uint64 // optional starting model by variable name (single use hint)
	wid    int
	m      *Model
}

// Input is one symbolic input created by the harness on this path.
type Input struct {
	name string
	kind string // "int","bytes","big","choose"
	e    *Expr  // int value / length
	by   []*Expr
	uf   uint64
	fill *Expr
}

type Obs struct {
	label string
	vals  []Value
}

// Path is the state of the exploration of one path.
type Path struct {
	h         *Harness
	conds     []*Expr
	set       map[*Expr]bool
	vs        *VarSet
	prefix    []Decision
	pos       int
	dec       []Decision
	model     *Model
	inputs    []Input
	names     map[string]int
	obs       []Obs
	reach     []string
	mapOrder  bool
	threads   bool
	race      bool
	sched     []int // thread schedule (for reports)
	asserts   int
	startM    *Model
	unknown   bool
	clock     [2]*Expr
	usesClock bool
	trace     []string
	dom       domains
}

func (p *Path) has(e *Expr) bool { return p.set[e] }

func (in *Interp) addCond(e *Expr) {
	p := in.path
	if e.IsTrue() || p.set[e] {
		return
	}
	if e.op == OAnd {
		p.set[e] = true
		in.addCond(e.a)
		in.addCond(e.b)
		return
	}
	if e.op == ONot && e.a.op == OOr {
		p.set[e] = true
		in.addCond(in.c.Not(e.a.a))
		in.addCond(in.c.Not(e.a.b))
		return
	}
	p.set[e] = true
	p.conds = append(p.conds, e)
	p.vs.add(e)
	in.domAdd(e)
}

func (in *Interp) evalBool(e *Expr) bool {
	in.c.BeginEval()
	return in.c.Eval(e, in.path.model) == 1
}

func (in *Interp) check(extra ...*Expr) (SatResult, *Model) {
	for _, e := range extra {
		if e.IsFalse() {
			return Unsat, nil
		}
	}
	if in.eng.stopped.Load() || in.eng.expired() {
		panic(pathEnd{"deadline", ""})
	}
	return in.solver.Check(in.path.conds, extra, in.path.vs, true)
}

// endOfPrefix establishes a model when the recorded prefix is consumed.
func (in *Interp) endOfPrefix() {
	p := in.path
	if p.startM != nil {
		p.model = p.startM
		return
	}
	r, m := in.check()
	switch r {
	case Sat:
		p.model = m
	case Unsat:
		panic(pathEnd{"infeasible", ""})
	default:
		panic(pathEnd{"unknown", "solver gave no answer for a path prefix"})
	}
}

// branch decides a boolean term, forking when both outcomes are possible.
func (in *Interp) branch(cond *Expr) bool {
	if cond.op == OConst {
		return cond.k == 1
	}
	if in.merging != nil {
		return in.merging.branch(in, cond)
	}
	p := in.path
	if p == nil {
		in.unsupported("symbolic branch outside a path")
	}
	if p.set[cond] {
		return true
	}
	neg := in.c.Not(cond)
	if p.set[neg] {
		return false
	}
	if v, ok := in.quick(cond); ok {
		return v
	}
	if p.pos < len(p.prefix) {
		d := p.prefix[p.pos]
		if d.cc || d.at != in.steps {
			panic(pathEnd{"unknown", fmt.Sprintf("path prefix could not be replayed %v %d (pos %d of %d)", d, in.steps, p.pos, len(p.prefix))})
		}
		p.pos++
		p.dec = append(p.dec, d)
		if d.dir {
			in.addCond(cond)
		} else {
			in.addCond(neg)
		}
		if p.pos == len(p.prefix) {
			in.endOfPrefix()
		}
		return d.dir
	}
	dir := in.evalBool(cond)
	take, alt := cond, neg
	if !dir {
		take, alt = neg, cond
	}
	in.fork(Decision{dir: !dir, at: in.steps}, alt)
	p.dec = append(p.dec, Decision{dir: dir, at: in.steps})
	in.addCond(take)
	return dir
}

// quick: cheap syntactic implications.
func (in *Interp) quick(cond *Expr) (bool, bool) {
	p := in.path
	switch cond.op {
	case OAnd:
		if p.set[in.c.Not(cond.a)] || p.set[in.c.Not(cond.b)] {
			return false, true
		}
		if p.set[cond.a] && p.set[cond.b] {
			return true, true
		}
	case OOr:
		if p.set[cond.a] || p.set[cond.b] {
			return true, true
		}
		if p.set[in.c.Not(cond.a)] && p.set[in.c.Not(cond.b)] {
			return false, true
		}
	case ONot:
		v, ok := in.quick(cond.a)
		return !v, ok
	}
	return false, false
}

// fork checks the alternative branch and queues it when feasible.
func (in *Interp) fork(d Decision, alt *Expr) {
	p := in.path
	r, m, ok := in.domCheck(alt)
	if ok {
		in.eng.st.domQ.Add(1)
	} else {
		r, m = in.check(alt)
		in.eng.st.branchQ.Add(1)
	}
	if r == Unsat {
		return
	}
	pre := make([]Decision, len(p.dec)+1)
	copy(pre, p.dec)
	pre[len(p.dec)] = d
	t := &Task{h: p.h, prefix: pre, wid: in.eng.widOf(in)}
	if r == Sat {
		t.m = m
	} else {
		p.unknown = true
	}
	in.eng.push(in, t)
}

// concretize forks over the feasible values of e and returns the chosen one.
func (in *Interp) concretize(e *Expr) uint64 {
	if e.op == OConst {
		return e.k
	}
	if in.merging != nil {
		panic(mergeFail{})
	}
	p := in.path
	if p == nil {
		in.unsupported("concretize outside a path")
	}
	for n := 0; ; n++ {
		if p.pos < len(p.prefix) {
			d := p.prefix[p.pos]
			if !d.cc || d.at != in.steps {
				panic(pathEnd{"unknown", fmt.Sprintf("path prefix could not be replayed %v %d (pos %d of %d)", d, in.steps, p.pos, len(p.prefix))})
			}
			eq := in.c.Eq(e, in.c.Const(d.val, e.w))
			p.pos++
			p.dec = append(p.dec, d)
			if d.dir {
				in.addCond(eq)
			} else {
				in.addCond(in.c.Not(eq))
			}
			if p.pos == len(p.prefix) {
				in.endOfPrefix()
			}
			if d.dir {
				return d.val
			}
			continue
		}
		if n > 4096 {
			in.unsupported("too many values to enumerate")
		}
		in.c.BeginEval()
		v := in.c.Eval(e, p.model)
		eq := in.c.Eq(e, in.c.Const(v, e.w))
		if !p.set[eq] && !eq.IsTrue() {
			in.fork(Decision{dir: false, val: v, cc: true, at: in.steps}, in.c.Not(eq))
		}
		p.dec = append(p.dec, Decision{dir: true, val: v, cc: true, at: in.steps})
		in.addCond(eq)
		return v
	}
}

func (in *Interp) uniqName(name string) string {
	p := in.path
	k := p.names[name]
	p.names[name]++
	if k == 0 {
		return name
	}
	return fmt.Sprintf("%s#%d", name, k)
}

// choose is an n-way nondeterministic choice, recorded as an input.
func (in *Interp) choose(name string, n int) uint64 {
	if n <= 1 {
		return 0
	}
	nm := in.uniqName(name)
	v := in.c.Var(nm, 64, 0, uint64(n-1))
	in.path.inputs = append(in.path.inputs, Input{name: nm, kind: "int", e: v})
	return in.concretize(v)
}

func (in *Interp) assume(cond *Expr) {
	if cond.IsTrue() {
		return
	}
	if cond.IsFalse() {
		panic(pathEnd{"assume", ""})
	}
	p := in.path
	if p.set[cond] {
		return
	}
	if p.pos < len(p.prefix) {
		in.addCond(cond)
		return
	}
	if p.model != nil && in.evalBool(cond) {
		in.addCond(cond)
		return
	}
	r, m := in.check(cond)
	switch r {
	case Sat:
		in.addCond(cond)
		p.model = m
	case Unsat:
		panic(pathEnd{"assume", ""})
	default:
		panic(pathEnd{"unknown", "solver gave no answer for an assumption"})
	}
}

// assert decides a property obligation.
func (in *Interp) assert(cond *Expr, label string) {
	p := in.path
	if p.pos < len(p.prefix) {
		in.addCond(cond)
		return
	}
	in.eng.st.asserts.Add(1)
	p.asserts++
	if cond.IsTrue() || p.set[cond] {
		in.eng.st.assertsTriv.Add(1)
		return
	}
	r, m := in.check(in.c.Not(cond))
	switch r {
	case Unsat:
		in.eng.st.assertsUnsat.Add(1)
		in.addCond(cond)
	case Sat:
		in.eng.violation(in, label, m)
		// continue on the side where it holds, if any
		if cond.IsFalse() {
			panic(pathEnd{"violation", label})
		}
		if in.evalBool(cond) {
			in.addCond(cond)
			return
		}
		r2, m2 := in.check(cond)
		if r2 != Sat {
			panic(pathEnd{"violation", label})
		}
		in.addCond(cond)
		p.model = m2
	default:
		in.eng.st.assertsUnk.Add(1)
		in.eng.note("solver gave no answer for assertion " + label)
		in.eng.fallback(in, "assert-unknown:"+label)
		in.addCond(cond)
		if !in.evalBool(cond) {
			panic(pathEnd{"unknown", label})
		}
	}
}

// ---- merging of small pure boolean functions into one term

type mergeFail struct{}

type mergeState struct {
	prefix []bool
	pos    int
	conds  []*Expr
	local  map[*Expr]bool
	leaves int
}

func (ms *mergeState) branch(in *Interp, cond *Expr) bool {
	neg := in.c.Not(cond)
	if v, ok := ms.local[cond]; ok {
		return v
	}
	if v, ok := ms.local[neg]; ok {
		return !v
	}
	if in.path.set[cond] {
		return true
	}
	if in.path.set[neg] {
		return false
	}
	var dir bool
	if ms.pos < len(ms.prefix) {
		dir = ms.prefix[ms.pos]
		ms.conds[ms.pos] = cond
	} else {
		dir = true
		ms.prefix = append(ms.prefix, true)
		ms.conds = append(ms.conds, cond)
	}
	ms.pos++
	ms.local[cond] = dir
	if len(ms.prefix) > 64 {
		panic(mergeFail{})
	}
	return dir
}

func (in *Interp) mergeCall(caller *frame, cf *cfunc, args []Value, env []Value) (res Value, ok bool) {
	// only worthwhile when some argument is symbolic
	ms := &mergeState{}
	depth := in.depth
	nundo := len(in.undo)
	defer func() {
		in.merging = nil
		if r := recover(); r != nil {
			switch x := r.(type) {
			case mergeFail:
			case targetPanic:
			case pathEnd:
				if x.kind != "unsupported" && x.kind != "steps" {
					panic(r)
				}
			default:
				panic(r)
			}
			in.depth = depth
			// undo local effects
			for i := len(in.undo) - 1; i >= nundo; i-- {
				u := &in.undo[i]
				if u.p != nil {
					*u.p = u.old
				} else if u.arr != nil {
					u.arr.sp = u.snap
				} else if u.m != nil {
					u.m.e = u.me
					u.m.reindex()
				}
			}
			in.undo = in.undo[:nundo]
			res, ok = nil, false
		}
	}()
	in.merging = ms
	// binary tree exploration
	type pend struct {
		cond *Expr
		t    *Expr
	}
	var stack []pend
	for {
		ms.pos = 0
		ms.local = map[*Expr]bool{}
		ms.leaves++
		if ms.leaves > 160 {
			panic(mergeFail{})
		}
		v := in.run(caller, cf, args, env)
		leaf, isE := v.(*Expr)
		if !isE {
			panic(mergeFail{})
		}
		// fold completed subtrees
		for len(stack) < len(ms.prefix) {
			stack = append(stack, pend{})
		}
		for {
			n := len(ms.prefix)
			if n == 0 {
				in.eng.st.merges.Add(1)
				return leaf, true
			}
			if ms.prefix[n-1] {
				stack[n-1] = pend{ms.conds[n-1], leaf}
				ms.prefix[n-1] = false
				break
			}
			leaf = in.c.Ite(stack[n-1].cond, stack[n-1].t, leaf)
			ms.prefix = ms.prefix[:n-1]
			ms.conds = ms.conds[:n-1]
			stack = stack[:n-1]
		}
	}
}

// mergeable: small functions returning one bool, with no effects (static check).
func (e *Engine) mergeable(in *Interp, cf *cfunc) bool {
	if cf.pure != 0 {
		return cf.pure == 1
	}
	cf.pure = 2
	fn := cf.fn
	if fn.Signature.Results().Len() != 1 {
		return false
	}
	b, ok := fn.Signature.Results().At(0).Type().Underlying().(*types.Basic)
	if !ok || b.Kind() != types.Bool {
		return false
	}
	if e.effectFree(fn, map[*ssa.Function]bool{}) {
		cf.pure = 1
		return true
	}
	return false
}

func (e *Engine) effectFree(fn *ssa.Function, seen map[*ssa.Function]bool) bool {
	if seen[fn] {
		return false // recursion
	}
	seen[fn] = true
	defer delete(seen, fn)
	if _, ok := lookupIntrinsic(fn, fn.RelString(nil)); ok {
		return pureIntrinsics[fn.RelString(nil)]
	}
	if len(fn.Blocks) == 0 {
		return false
	}
	for _, b := range fn.Blocks {
		for _, i := range b.Instrs {
			switch x := i.(type) {
			case *ssa.Store:
				// stores to local allocations only
				if !localAddr(x.Addr) {
					return false
				}
			case *ssa.MapUpdate, *ssa.Send, *ssa.Go, *ssa.Defer, *ssa.Select, *ssa.MakeChan, *ssa.Panic, *ssa.Next, *ssa.MakeClosure:
				return false
			case *ssa.Call:
				if bi, ok := x.Call.Value.(*ssa.Builtin); ok {
					switch bi.Name() {
					case "len", "cap":
						continue
					}
					return false
				}
				cal := x.Call.StaticCallee()
				if cal == nil || !e.effectFree(cal, seen) {
					return false
				}
			}
		}
	}
	return true
}

func localAddr(v ssa.Value) bool {
	switch x := v.(type) {
	case *ssa.Alloc:
		return true
	case *ssa.FieldAddr:
		return localAddr(x.X)
	case *ssa.IndexAddr:
		return localAddr(x.X)
	}
	return false
}

// ---- engine

type Harness struct {
	name string
	fn   *ssa.Function
	// statistics
	paths, infeasible atomic.Int64
	reach             sync.Map
	incomplete        sync.Map
	queue             []*Task       // tasks no worker holds
	used              time.Duration // time spent on its paths by all workers
}

type Stats struct {
	paths, steps, branchQ, domQ, asserts, assertsTriv, assertsUnsat, assertsUnk, merges, assumeEnds, infeasible atomic.Int64
	incompletePaths                                                                                             atomic.Int64
	panicsModeled                                                                                               atomic.Int64
}

type Violation struct {
	Harness string
	Label   string
	Replay  *Replay
}

type Engine struct {
	prog      *ssa.Program
	rtErrType types.Type
	maxSteps  int64
	permMax   int
	raceOnce  sync.Once
	raceBin   string
	raceErr   error
	buildRace func() (string, error)
	tier      string
	seed      int64
	deadline  time.Time
	st        Stats
	mu        sync.Mutex
	cond      *sync.Cond
	harnesses []*Harness
	stopped   atomic.Bool // enough violations are confirmed
	queued    int         // tasks no worker holds
	idle      int
	nworkers  int
	done      bool
	workers   []*Worker
	notes     map[string]int
	bounds    map[string]string
	violKeys  map[string]int
	fallbacks []Violation
	samples   []Sample
	sampleCnt map[string]int
	stopAt    int
	native    *Native
	nativeI   *Native
	confirmed []Violation
	unconf    []Violation
	known     []KnownFinding
	knownHit  map[string]int
	prop      string
	debug     bool
	dump      bool
	mcache    sync.Map
	funcs     map[string]int
	cuts      map[string]string
	reached   map[string]int64
}

type Worker struct {
	id    int
	in    *Interp
	local []*Task
	since time.Time // when the worker last looked for a harness that fell behind
}

type Sample struct {
	Harness string
	Replay  *Replay
	Obs     []string
	MapOrd  bool
	Threads bool
}

func (e *Engine) expired() bool { return time.Now().After(e.deadline) }

func (e *Engine) widOf(in *Interp) int {
	for _, w := range e.workers {
		if w.in == in {
			return w.id
		}
	}
	return -1
}

func (e *Engine) note(s string) {
	e.mu.Lock()
	e.notes[s]++
	e.mu.Unlock()
}

func (e *Engine) noteInit(pkg, msg string) {
	e.note("package initialiser of " + pkg + " stopped: " + msg)
}

func (e *Engine) method(t types.Type, m *types.Func) *ssa.Function {
	type key struct {
		t types.Type
		n string
	}
	k := key{t, m.Id()}
	if v, ok := e.mcache.Load(k); ok {
		return v.(*ssa.Function)
	}
	e.mu.Lock()
	defer e.mu.Unlock()
	fn := e.prog.LookupMethod(t, m.Pkg(), m.Name())
	e.mcache.Store(k, fn)
	return fn
}

func (e *Engine) push(in *Interp, t *Task) {
	w := e.workers[t.wid]
	e.mu.Lock()
	if e.idle > 0 {
		t.m = nil
		t.wid = -1
		e.give(t)
		e.mu.Unlock()
		return
	}
	e.mu.Unlock()
	w.local = append(w.local, t)
}

// give puts a task where other workers find it. e.mu is held.
func (e *Engine) give(t *Task) {
	t.m, t.wid = nil, -1
	t.h.queue = append(t.h.queue, t)
	e.queued++
	e.cond.Signal()
}

// behind is the harness with waiting tasks on which the least time was spent. e.mu is held.
func (e *Engine) behind() *Harness {
	var least *Harness
	for _, h := range e.harnesses {
		if len(h.queue) > 0 && (least == nil || h.used < least.used) {
			least = h
		}
	}
	return least
}

// yield lets go of the tasks of a worker if another harness got much less time than the one it works on, so that
// one harness whose paths explode does not keep the others from being explored.
func (e *Engine) yield(w *Worker) {
	if now := time.Now(); now.Sub(w.since) > 300*time.Millisecond {
		w.since = now
		e.mu.Lock()
		if h := e.behind(); h != nil && h.used+time.Second < w.local[0].h.used {
			for _, t := range w.local {
				e.give(t)
			}
			w.local = nil
		}
		e.mu.Unlock()
	}
}

func (e *Engine) next(w *Worker) *Task {
	if len(w.local) > 0 {
		e.yield(w)
	}
	if n := len(w.local); n > 0 {
		t := w.local[n-1]
		w.local = w.local[:n-1]
		// donate the oldest task when somebody waits
		if n > 1 {
			e.mu.Lock()
			if e.idle > e.queued {
				d := w.local[0]
				w.local = w.local[1:]
				e.give(d)
			}
			e.mu.Unlock()
		}
		return t
	}
	e.mu.Lock()
	defer e.mu.Unlock()
	for {
		if e.done {
			return nil
		}
		if h := e.behind(); h != nil {
			n := len(h.queue)
			t := h.queue[n-1]
			h.queue = h.queue[:n-1]
			e.queued--
			return t
		}
		e.idle++
		if e.idle == e.nworkers {
			e.done = true
			e.cond.Broadcast()
			return nil
		}
		e.cond.Wait()
		e.idle--
	}
}

func (e *Engine) runWorker(w *Worker) {
	for {
		if e.expired() {
			e.mu.Lock()
			if !e.done {
				e.done = true
				e.notes["deadline reached before the path space was exhausted"]++
			}
			e.cond.Broadcast()
			e.mu.Unlock()
			return
		}
		t := e.next(w)
		if t == nil {
			return
		}
		start := time.Now()
		w.in.runPath(t)
		e.mu.Lock()
		t.h.used += time.Since(start)
		stop := len(e.confirmed) >= e.stopAt
		if stop {
			e.stopped.Store(true)
			e.done = true
			e.cond.Broadcast()
		}
		e.mu.Unlock()
		if stop {
			return
		}
	}
}

// runPath executes one task from the start of its harness.
func (in *Interp) runPath(t *Task) {
	e := in.eng
	p := &Path{h: t.h, set: map[*Expr]bool{}, vs: NewVarSet(), prefix: t.prefix, names: map[string]int{}}
	if t.wid >= 0 && t.wid == e.widOf(in) {
		p.startM = t.m
	}
	in.path = p
	in.journal = true
	in.steps, in.depth = 0, 0
	in.merging, in.sched, in.cur = nil, nil, nil
	in.mutexes, in.track = nil, nil
	if len(p.prefix) == 0 {
		p.model = &Model{v: make([]uint64, len(in.c.vars)), uf: map[ufKey]uint64{}, ud: make([]uint64, len(in.c.ufs))}
		for i, v := range in.c.vars {
			p.model.v[i] = v.lo
		}
	}
	end := in.protect(func() { in.call(nil, t.h.fn, nil) })
	in.stopThreads()
	e.st.steps.Add(in.steps)
	switch end.kind {
	case "":
		e.st.paths.Add(1)
		t.h.paths.Add(1)
		in.eng.finish(in)
	case "assume":
		e.st.assumeEnds.Add(1)
	case "infeasible":
		e.st.infeasible.Add(1)
	case "violation":
		e.st.paths.Add(1)
		t.h.paths.Add(1)
	case "deadline":
	case "panic":
		e.st.paths.Add(1)
		t.h.paths.Add(1)
	default: // unsupported, steps, unknown
		if dbgTrace {
			fmt.Println("TRACE", end.msg, len(t.prefix), strings.Join(p.trace, "\n"))
		}
		e.st.incompletePaths.Add(1)
		e.note("incomplete path (" + t.h.name + "): " + end.kind + " " + end.msg)
		if in.path.model != nil && in.path.pos >= len(in.path.prefix) {
			e.fallback(in, end.kind+":"+end.msg)
		}
	}
	e.mu.Lock()
	for _, r := range p.reach {
		e.reached[t.h.name+"/"+r]++
	}
	e.mu.Unlock()
	in.path = nil
	in.journal = false
	in.rollback()
	if len(in.c.tab) > 3000000 {
		in.eng.note("term table reset")
		in.reset()
	}
}

// protect runs f and converts its abnormal ends.
func (in *Interp) protect(f func()) (end pathEnd) {
	defer func() {
		if r := recover(); r != nil {
			switch x := r.(type) {
			case pathEnd:
				end = x
			case targetPanic:
				// an uncaught panic of the program under test
				end = pathEnd{kind: "panic", msg: x.rt}
				if in.path.pos >= len(in.path.prefix) {
					in.eng.st.asserts.Add(1)
					in.eng.violation(in, "uncaught panic: "+x.rt, in.path.model)
				}
			case error:
				// Go runtime error inside the engine: an unmodelled situation
				end = pathEnd{"unsupported", "engine: " + firstLine(x.Error())}
				if in.eng.debug {
					panic(r)
				}
			case string:
				end = pathEnd{"unsupported", "engine: " + x}
				if in.eng.debug {
					panic(r)
				}
			default:
				end = pathEnd{"unsupported", fmt.Sprint("engine: ", r)}
			}
		}
	}()
	f()
	return pathEnd{}
}

func firstLine(s string) string {
	if i := strings.IndexByte(s, '\n'); i >= 0 {
		return s[:i]
	}
	return s
}

// finish: a completed path; keep some as differential samples.
func (e *Engine) finish(in *Interp) {
	p := in.path
	if p.model == nil || p.pos < len(p.prefix) {
		return
	}
	e.mu.Lock()
	n := e.sampleCnt[p.h.name]
	e.sampleCnt[p.h.name]++
	take := n < e.sampleMax() || n%e.sampleEvery() == 0 && len(e.samples) < 6000
	e.mu.Unlock()
	if !take {
		return
	}
	// make sure the model satisfies the whole path (it does by construction)
	r := in.replayOf(p.model)
	in.c.BeginEval()
	var obs []string
	for _, o := range p.obs {
		obs = append(obs, o.label+"="+in.renderObs(o.vals, p.model))
	}
	e.mu.Lock()
	e.samples = append(e.samples, Sample{p.h.name, r, obs, p.mapOrder, p.threads})
	e.mu.Unlock()
}

func (e *Engine) sampleMax() int {
	if e.tier == "quick" {
		return 12
	}
	return 40
}
func (e *Engine) sampleEvery() int {
	if e.tier == "quick" {
		return 97
	}
	return 41
}

// violation replays a counterexample natively and files it when it reproduces.
func (e *Engine) violation(in *Interp, label string, m *Model) {
	r := in.replayOf(m)
	r.Label = label
	key := in.path.h.name + "|" + label
	e.mu.Lock()
	e.violKeys[key]++
	n := e.violKeys[key]
	e.mu.Unlock()
	if n > 12 {
		return
	}
	r.Found = "solver counterexample"
	res, ok := e.confirm(r)
	v := Violation{in.path.h.name, label, r}
	if !ok {
		e.mu.Lock()
		e.unconf = append(e.unconf, v)
		e.notes["counterexample not reproduced natively ("+in.path.h.name+"): "+label+"; native: "+res.Status]++
		e.mu.Unlock()
		return
	}
	v.Label = res.Label
	r.Label = res.Label
	e.report(v)
}

// fallback keeps the concrete inputs of a path that could not be finished symbolically; they are
// run natively afterwards (never counted as proof).
func (e *Engine) fallback(in *Interp, why string) {
	if in.path.model == nil {
		return
	}
	r := in.replayOf(in.path.model)
	r.Label = why
	e.mu.Lock()
	defer e.mu.Unlock()
	key := "fb|" + in.path.h.name + "|" + why
	e.violKeys[key]++
	if e.violKeys[key] > 25 {
		return
	}
	e.fallbacks = append(e.fallbacks, Violation{in.path.h.name, why, r})
}

func (e *Engine) Run(hs []*Harness) {
	e.cond = sync.NewCond(&e.mu)
	e.harnesses = hs
	for _, h := range hs {
		e.give(&Task{h: h})
	}
	var wg sync.WaitGroup
	for _, w := range e.workers {
		wg.Add(1)
		go func(w *Worker) {
			defer wg.Done()
			e.runWorker(w)
		}(w)
	}
	wg.Wait()
}
