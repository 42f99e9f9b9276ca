package engine

import (
	"fmt"
	"sort"
)

// Limits bound one path.
type Limits struct {
	MaxSteps  int
	MaxBytes  int
	GCCheck   bool // flag heap pointers stored where the GC cannot see them
	CheckPtr  bool // unsafe.Slice ranges must lie inside one object
	MapOrder  bool // explore map iteration orders
	MaxConc   int  // values per concretisation
	MaxPaths  int
	MaxSwitch int // preemptive context switches per path
	RealFmt   bool // execute fmt from source instead of using placeholders
	Race      bool // report data races between goroutines
}

func DefaultLimits() Limits {
	return Limits{MaxSteps: 30_000_000, MaxBytes: 1 << 30, CheckPtr: true, MaxConc: 600, MaxPaths: 2_000_000, MaxSwitch: 1 << 30}
}

type endKind uint8

const (
	endOK endKind = iota
	endAssume
	endInfeasible
	endBound
	endUnsupported
	endViolation
	endKilled
)

type pathEnd struct {
	kind endKind
	msg  string
}

// Decision is one recorded choice of a path.
type Decision struct {
	Kind    byte // 'b' branch, 'c' concretisation
	Implied bool // the other side was infeasible
	Val     uint64
}

// Input is one symbolic input created by the harness.
type Input struct {
	Name string
	W    uint8
	E    *Expr
}

type thread struct {
	id      int
	cur     *Frame
	stack   []V
	top     int
	chunks  []chunk
	wake    chan bool
	waiting func() bool // nil: runnable
	done    bool
}

// State is one execution path.
type State struct {
	P   *Program
	b   *Builder
	sol *Solver
	lim *Limits
	id  uint32
	w   *worker

	objs     []*Obj
	baseN    int
	lovl     map[uint32]*Obj
	ovl      map[uint32]*Obj
	maps     map[uint64]*MapObj
	baseMaps map[uint64]*MapObj
	pools    map[uint64][][2]V
	iters    []*iter
	native   map[uint64]any // per-path native payloads of intrinsics

	pc     []*Expr
	model  []uint64
	prefix []Decision
	pos    int
	trail  []Decision

	inputs  []Input
	chooseN int
	undefN  int
	obs     []Obs
	reached map[string]bool

	cur        *Frame
	stack      []V
	top        int
	chunks     []chunk
	tmp        []V
	steps      int
	allocBytes int
	boot       bool
	params     map[string]int64

	threads []*thread
	th      *thread
	panicIn any
	switchN int
	race    *raceState
	symTags int
	mainWake chan bool

	asserts     int64
	unknownBr   int64
	assertUnk   int64
	violations  []*Violation
	hashSeen    bool
}

// Obs is one observation recorded by the harness.
type Obs struct {
	Tag  string
	Vals []V
	W    []uint8
}

// Violation is a candidate property violation with its witness.
type Violation struct {
	Harness string
	Kind    string // assert, panic, memory, deadlock, steps
	Msg     string
	Trace   string
	Inputs  []uint64
	Names   []string
	// filled in by replay
	Replayed bool
	Replay   string
}

func (st *State) end(k endKind, msg string) {
	if k == endUnsupported || k == endBound {
		msg += "\n" + st.trace()
	}
	panic(&pathEnd{k, msg})
}

func (st *State) eval(e *Expr) uint64 {
	st.b.NewEval()
	return st.b.Eval(e, st.model)
}

// slice returns the path constraints sharing variables (transitively) with e.
func (st *State) slice(e *Expr) []*Expr {
	out := []*Expr{e}
	vs := e.vars
	used := make([]bool, len(st.pc))
	for changed := true; changed; {
		changed = false
		for i, c := range st.pc {
			if !used[i] && intersects(c.vars, vs) {
				used[i] = true
				out = append(out, c)
				n := unionVars(vs, c.vars)
				if n != vs {
					vs = n
					changed = true
				}
			}
		}
	}
	return out
}

func (st *State) mergeModel(vars []int, vals []uint64) []uint64 {
	m := append([]uint64(nil), st.model...)
	for i, v := range vars {
		for len(m) <= v {
			m = append(m, 0)
		}
		m[v] = vals[i]
	}
	return m
}

func (st *State) addPC(e *Expr) {
	if e != st.b.T {
		st.pc = append(st.pc, e)
	}
}

func (st *State) nextDecision() (Decision, bool) {
	if st.pos < len(st.prefix) {
		d := st.prefix[st.pos]
		st.pos++
		st.trail = append(st.trail, d)
		return d, true
	}
	return Decision{}, false
}

// branch decides a condition, forking when both outcomes are feasible.
func (st *State) branch(v V) bool {
	if v.e == nil {
		return v.c != 0
	}
	if v.e.W != 0 {
		panic("branch on non-boolean")
	}
	if d, ok := st.nextDecision(); ok {
		if d.Kind != 'b' {
			panic("replay divergence: expected branch")
		}
		if !d.Implied {
			if d.Val != 0 {
				st.addPC(v.e)
			} else {
				st.addPC(st.b.BNot(v.e))
			}
		}
		return d.Val != 0
	}
	dir := st.eval(v.e) != 0
	other := v.e
	if dir {
		other = st.b.BNot(v.e)
	}
	r, vars, vals := st.sol.Check(st.slice(other), false)
	d := Decision{Kind: 'b'}
	if dir {
		d.Val = 1
	}
	switch r {
	case Unsat:
		d.Implied = true
	case Sat, Unknown:
		alt := append(append([]Decision(nil), st.trail...), Decision{Kind: 'b', Val: 1 - d.Val})
		m := st.model
		if r == Sat {
			m = st.mergeModel(vars, vals)
		} else {
			st.unknownBr++
		}
		if r == Sat {
			st.w.push(alt, m)
		}
		if dir {
			st.addPC(v.e)
		} else {
			st.addPC(st.b.BNot(v.e))
		}
	}
	st.trail = append(st.trail, d)
	return dir
}

// conc returns a concrete value for v, forking over all feasible values.
func (st *State) conc(v V, w uint8, what string) uint64 {
	if v.e == nil {
		return v.c
	}
	e := v.e
	if e.W == 0 {
		if st.branch(v) {
			return 1
		}
		return 0
	}
	if d, ok := st.nextDecision(); ok {
		if d.Kind != 'c' {
			panic("replay divergence: expected concretisation")
		}
		if !d.Implied {
			st.addPC(st.b.Cmp(OEq, e, st.b.Const(d.Val, e.W)))
		}
		return d.Val
	}
	v0 := st.eval(e)
	excl := st.b.BNot(st.b.Cmp(OEq, e, st.b.Const(v0, e.W)))
	n := 0
	for {
		r, vars, vals := st.sol.Check(st.slice(excl), false)
		if r == Unsat {
			break
		}
		if r == Unknown {
			st.unknownBr++
			break
		}
		n++
		if n > st.lim.MaxConc {
			st.end(endBound, "too many values while concretising "+what)
		}
		m := st.mergeModel(vars, vals)
		st.b.NewEval()
		x := st.b.Eval(e, m)
		st.w.push(append(append([]Decision(nil), st.trail...), Decision{Kind: 'c', Val: x}), m)
		excl = st.b.BAnd(excl, st.b.BNot(st.b.Cmp(OEq, e, st.b.Const(x, e.W))))
	}
	d := Decision{Kind: 'c', Val: v0, Implied: n == 0}
	st.trail = append(st.trail, d)
	if n > 0 {
		st.addPC(st.b.Cmp(OEq, e, st.b.Const(v0, e.W)))
	}
	return v0
}

// choose makes an internal nondeterministic choice in [0,n).
func (st *State) choose(what string, n int) uint64 {
	if n <= 1 {
		return 0
	}
	st.chooseN++
	e := st.b.Var(fmt.Sprintf("ch%d", st.chooseN), 8)
	if d, ok := st.nextDecision(); ok {
		st.addPC(st.b.Cmp(OEq, e, st.b.Const(d.Val, 8)))
		return d.Val
	}
	for k := 1; k < n; k++ {
		st.w.push(append(append([]Decision(nil), st.trail...), Decision{Kind: 'c', Val: uint64(k)}), st.withVar(e, uint64(k)))
	}
	st.model = st.withVar(e, 0)
	st.trail = append(st.trail, Decision{Kind: 'c', Val: 0})
	st.addPC(st.b.Cmp(OEq, e, st.b.Const(0, 8)))
	return 0
}

func (st *State) withVar(e *Expr, v uint64) []uint64 {
	m := append([]uint64(nil), st.model...)
	for len(m) <= int(e.Val) {
		m = append(m, 0)
	}
	m[e.Val] = v
	return m
}

// input creates (in order) the next symbolic input of the harness.
func (st *State) input(w uint8) V {
	if st.boot {
		st.end(endUnsupported, "symbolic input during setup")
	}
	name := fmt.Sprintf("in%d_%d", len(st.inputs), w)
	e := st.b.Var(name, w)
	st.inputs = append(st.inputs, Input{name, w, e})
	return V{e: e}
}

func (st *State) assume(v V) {
	if v.e == nil {
		if v.c == 0 {
			st.end(endAssume, "")
		}
		return
	}
	if d, ok := st.nextDecision(); ok {
		if !d.Implied {
			st.addPC(v.e)
		}
		return
	}
	d := Decision{Kind: 'b', Val: 1}
	if st.eval(v.e) == 0 {
		r, vars, vals := st.sol.Check(st.slice(v.e), false)
		if r != Sat {
			if r == Unknown {
				st.unknownBr++
			}
			st.end(endAssume, "")
		}
		st.model = st.mergeModel(vars, vals)
	}
	st.addPC(v.e)
	st.trail = append(st.trail, d)
}

// assert checks a property assertion with the solver.
func (st *State) assert(v V, msg string) {
	st.asserts++
	if v.e == nil {
		if v.c == 0 {
			st.violate("assert", msg)
			st.end(endViolation, msg)
		}
		return
	}
	if d, ok := st.nextDecision(); ok {
		if !d.Implied {
			st.addPC(v.e)
		}
		return
	}
	neg := st.b.BNot(v.e)
	r, vars, vals := st.sol.Check(st.slice(neg), true)
	d := Decision{Kind: 'b', Val: 1, Implied: true}
	switch r {
	case Sat:
		save := st.model
		st.model = st.mergeModel(vars, vals)
		st.violate("assert", msg)
		st.model = save
		// continue under the assertion if possible
		if st.eval(v.e) == 0 {
			r, vars, vals := st.sol.Check(st.slice(v.e), false)
			if r != Sat {
				st.end(endViolation, msg)
			}
			st.model = st.mergeModel(vars, vals)
		}
		d.Implied = false
		st.addPC(v.e)
	case Unknown:
		st.assertUnk++
	}
	st.trail = append(st.trail, d)
}

func (st *State) violate(kind, msg string) {
	v := &Violation{Kind: kind, Msg: msg, Trace: st.trace()}
	st.b.NewEval()
	for _, in := range st.inputs {
		v.Inputs = append(v.Inputs, st.b.Eval(in.E, st.model))
		v.Names = append(v.Names, in.Name)
	}
	st.violations = append(st.violations, v)
}

func (st *State) memFault(msg string) {
	st.violate("memory", msg)
	panic(&pathEnd{endViolation, "memory fault: " + msg})
}

func (st *State) stackOverflow() {
	st.violate("stack", "unbounded recursion (stack overflow)")
	panic(&pathEnd{endViolation, "stack overflow"})
}

func (st *State) inputValues() []uint64 {
	st.b.NewEval()
	out := make([]uint64, len(st.inputs))
	for i, in := range st.inputs {
		out[i] = st.b.Eval(in.E, st.model)
	}
	return out
}

// ---- threads (deterministic interleaving of goroutines) ----

func (st *State) spawn(fr *Frame, body func()) {
	if st.th == nil {
		st.th = &thread{wake: make(chan bool)}
		st.threads = []*thread{st.th}
	}
	st.raceSpawn()
	t := &thread{id: len(st.threads), wake: make(chan bool)}
	st.threads = append(st.threads, t)
	go func() {
		if !<-t.wake {
			return
		}
		defer func() {
			r := recover()
			if pe, ok := r.(*pathEnd); ok && pe.kind == endKilled {
				return
			}
			t.done = true
			if r != nil {
				if st.panicIn == nil {
					st.panicIn = r
				}
				st.handTo(st.threads[0]) // main re-raises
				return
			}
			st.exitThread()
		}()
		body()
	}()
	st.sched()
}

func (st *State) saveTo(t *thread) {
	t.cur, t.stack, t.top, t.chunks = st.cur, st.stack, st.top, st.chunks
}
func (st *State) loadFrom(t *thread) {
	st.cur, st.stack, st.top, st.chunks = t.cur, t.stack, t.top, t.chunks
	st.tmp = nil
	st.th = t
}

func (st *State) handTo(t *thread) {
	st.loadFrom(t)
	t.wake <- true
}

func (st *State) switchTo(t *thread) {
	me := st.th
	if t == me {
		return
	}
	st.saveTo(me)
	st.loadFrom(t)
	t.wake <- true
	if !<-me.wake {
		panic(&pathEnd{kind: endKilled})
	}
	if me.id == 0 && st.panicIn != nil {
		r := st.panicIn
		st.panicIn = nil
		panic(r)
	}
}

func (st *State) runnable() []*thread {
	var out []*thread
	for _, t := range st.threads {
		if t.done {
			continue
		}
		if t.waiting != nil && !t.waiting() {
			continue
		}
		out = append(out, t)
	}
	return out
}

// sched is a scheduling point: any runnable thread may go next.
func (st *State) sched() {
	if len(st.threads) < 2 {
		return
	}
	rs := st.runnable()
	if len(rs) == 0 {
		st.violate("deadlock", "all goroutines are blocked")
		panic(&pathEnd{endViolation, "deadlock"})
	}
	meRun := false
	for _, t := range rs {
		meRun = meRun || t == st.th
	}
	if meRun && st.switchN >= st.lim.MaxSwitch {
		return
	}
	// current thread first so that choice 0 means "continue"
	sort.SliceStable(rs, func(i, j int) bool { return rs[i] == st.th && rs[j] != st.th })
	k := st.choose("schedule", len(rs))
	if rs[k] != st.th && meRun {
		st.switchN++
	}
	st.switchTo(rs[k])
}

func (st *State) blockUntil(cond func() bool) {
	if cond() {
		return
	}
	if st.th == nil {
		st.violate("deadlock", "all goroutines are blocked")
		panic(&pathEnd{endViolation, "deadlock"})
	}
	me := st.th
	me.waiting = cond
	st.sched()
	me.waiting = nil
}

// exitThread passes control on when a goroutine finishes.
func (st *State) exitThread() {
	func() {
		defer func() {
			if r := recover(); r != nil {
				if st.panicIn == nil {
					st.panicIn = r
				}
				st.handTo(st.threads[0])
			}
		}()
		rs := st.runnable()
		if len(rs) == 0 {
			st.violate("deadlock", "all goroutines are blocked")
			panic(&pathEnd{endViolation, "deadlock"})
		}
		k := st.choose("schedule", len(rs))
		st.handTo(rs[k])
	}()
}

func (st *State) killThreads() {
	for _, t := range st.threads {
		if t.id != 0 && !t.done {
			select {
			case t.wake <- false:
			default:
				t := t
				go func() { t.wake <- false }()
			}
		}
	}
}

