package engine

import (
	"fmt"
	"runtime"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

type item struct {
	prefix []Decision
	model  []uint64
}

// Sample is the witness of one explored path, used to validate the executor
// against the natively compiled code.
type Sample struct {
	Harness string   `json:"harness"`
	Inputs  []uint64 `json:"inputs"`
	Obs     []string `json:"obs"`
	End     string   `json:"end"`
}

// Report summarises the exploration of one harness.
type Report struct {
	Harness     string
	Paths       map[string]int64
	Pending     int
	TimedOut    bool
	Steps       int64
	Asserts     int64
	UnknownBr   int64
	AssertUnk   int64
	Forks       int64
	Notes       map[string]int64 // bound / unsupported reasons
	Reached     map[string]int64
	Solver      SolverStats
	Violations  []*Violation
	Hangs       []*Violation
	Samples     []Sample
	Wall        time.Duration
	MaxInputs   int
	Choices     int64
}

type worker struct {
	x   *explorer
	b   *Builder
	sol *Solver
}

type explorer struct {
	p      *Program
	fn     *Fn
	opt    Options
	mu     sync.Mutex
	cond   *sync.Cond
	stack  []item
	active int
	stop   atomic.Bool
	vt     *VarTable
	rep    *Report
	vseen  map[string]int
	nv     int
	nsamp  int
}

// Options configures one exploration.
type Options struct {
	Harness   string
	Lim       Limits
	Params    map[string]int64
	Workers   int
	Deadline  time.Time
	Main      []string
	Cross     []string
	TimeoutMS int
	Samples   int
	MaxViol   int
}

func (w *worker) push(prefix []Decision, model []uint64) {
	x := w.x
	x.mu.Lock()
	x.rep.Forks++
	x.stack = append(x.stack, item{prefix, model})
	x.mu.Unlock()
	x.cond.Signal()
}

// Explore runs the harness over all its paths.
func (p *Program) Explore(pkg, fn string, opt Options) (*Report, error) {
	sp := p.Pkgs[pkg]
	if sp == nil || sp.Func(fn) == nil {
		return nil, fmt.Errorf("no harness %s.%s", pkg, fn)
	}
	x := &explorer{p: p, fn: p.fn(sp.Func(fn)), opt: opt, vt: NewVarTable(), vseen: map[string]int{}}
	x.cond = sync.NewCond(&x.mu)
	x.rep = &Report{Harness: opt.Harness, Paths: map[string]int64{}, Notes: map[string]int64{}, Reached: map[string]int64{}}
	x.stack = []item{{}}
	if opt.Workers <= 0 {
		opt.Workers = runtime.NumCPU()
	}
	t0 := time.Now()
	var wg sync.WaitGroup
	for i := 0; i < opt.Workers; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			w := &worker{x: x}
			w.reset()
			w.loop()
			w.sol.Close()
			x.mu.Lock()
			x.rep.Solver.add(&w.sol.Stats)
			x.mu.Unlock()
		}()
	}
	wg.Wait()
	x.rep.Pending = len(x.stack)
	x.rep.Wall = time.Since(t0)
	return x.rep, nil
}

func (w *worker) reset() {
	w.b = NewBuilder(w.x.vt)
	if w.sol == nil {
		w.sol = NewSolver(w.b, w.x.opt.Main, w.x.opt.Cross, w.x.opt.TimeoutMS)
	} else {
		w.sol.b = w.b
		w.sol.cache = map[string]cacheEnt{}
	}
}

func (w *worker) loop() {
	x := w.x
	for {
		x.mu.Lock()
		for len(x.stack) == 0 && x.active > 0 && !x.stop.Load() {
			x.cond.Wait()
		}
		if x.stop.Load() || len(x.stack) == 0 {
			x.mu.Unlock()
			x.cond.Broadcast()
			return
		}
		if !x.opt.Deadline.IsZero() && time.Now().After(x.opt.Deadline) {
			x.rep.TimedOut = true
			x.stop.Store(true)
			x.mu.Unlock()
			x.cond.Broadcast()
			return
		}
		it := x.stack[len(x.stack)-1]
		x.stack = x.stack[:len(x.stack)-1]
		x.active++
		x.mu.Unlock()
		if w.b.Size() > 1_500_000 {
			w.reset()
		}
		w.run(it)
		x.mu.Lock()
		x.active--
		x.mu.Unlock()
		x.cond.Broadcast()
	}
}

var endNames = [...]string{"ok", "assume", "infeasible", "bound", "unsupported", "violation", "killed"}

func (w *worker) run(it item) {
	x := w.x
	st := x.p.newState(w.b, w.sol)
	st.w = w
	lim := x.opt.Lim
	st.lim = &lim
	st.params = x.opt.Params
	st.prefix, st.model = it.prefix, it.model
	kind, msg := endOK, ""
	func() {
		defer func() {
			r := recover()
			if r == nil {
				return
			}
			switch r := r.(type) {
			case *pathEnd:
				kind, msg = r.kind, r.msg
			case *targetPanic:
				st.cur = nil
				v := &Violation{Kind: "panic", Msg: "uncaught panic: " + r.msg, Trace: r.trace}
				st.fillInputs(v)
				st.violations = append(st.violations, v)
				kind, msg = endViolation, v.Msg
			default:
				buf := make([]byte, 6000)
				buf = buf[:runtime.Stack(buf, false)]
				kind, msg = endUnsupported, fmt.Sprintf("internal: %v\n%s\n%s", r, st.trace(), buf)
			}
		}()
		st.call(nil, x.fn, nil, 0, nil)
	}()
	st.killThreads()
	var samp *Sample
	if kind == endOK && st.undefN == 0 && (st.chooseN == 0 || st.race != nil) && len(st.violations) == 0 {
		samp = st.sample()
	}
	x.mu.Lock()
	defer x.mu.Unlock()
	r := x.rep
	r.Paths[endNames[kind]]++
	r.Steps += int64(st.steps)
	r.Asserts += st.asserts
	r.UnknownBr += st.unknownBr
	r.AssertUnk += st.assertUnk
	r.Choices += int64(st.chooseN)
	if len(st.inputs) > r.MaxInputs {
		r.MaxInputs = len(st.inputs)
	}
	if kind == endBound || kind == endUnsupported {
		r.Notes[endNames[kind]+": "+msg]++
		if strings.HasPrefix(msg, "step bound") || strings.HasPrefix(msg, "memory bound") {
			if len(r.Hangs) < 3 {
				k := "steps"
				if msg[0] == 'm' {
					k = "alloc"
				}
				v := &Violation{Harness: x.opt.Harness, Kind: k, Msg: strings.SplitN(msg, "\n", 2)[0], Trace: msg}
				st.fillInputs(v)
				r.Hangs = append(r.Hangs, v)
			}
		}
	}
	for t := range st.reached {
		r.Reached[t]++
	}
	for _, v := range st.violations {
		v.Harness = x.opt.Harness
		key := v.Kind + "|" + v.Msg
		x.vseen[key]++
		x.nv++
		if x.vseen[key] <= 4 && len(r.Violations) < 60 {
			r.Violations = append(r.Violations, v)
		}
	}
	maxV := x.opt.MaxViol
	if maxV == 0 {
		maxV = 400
	}
	if x.nv > maxV {
		x.rep.TimedOut = true
		x.stop.Store(true)
	}
	if x.opt.Lim.MaxPaths > 0 {
		n := int64(0)
		for _, k := range r.Paths {
			n += k
		}
		if n > int64(x.opt.Lim.MaxPaths) {
			r.TimedOut = true
			x.stop.Store(true)
		}
	}
	if samp != nil {
		samp.Harness = x.opt.Harness
		x.nsamp++
		n := x.opt.Samples
		if len(r.Samples) < n {
			r.Samples = append(r.Samples, *samp)
		} else if n > 0 {
			// deterministic thinning: overwrite in a strided pattern
			if h := uint64(x.nsamp) * 0x9E3779B97F4A7C15 >> 33; h%uint64(x.nsamp) < uint64(n) {
				r.Samples[h%uint64(n)] = *samp
			}
		}
	}
}

func (st *State) fillInputs(v *Violation) {
	st.b.NewEval()
	for _, in := range st.inputs {
		v.Inputs = append(v.Inputs, st.b.Eval(in.E, st.model))
		v.Names = append(v.Names, in.Name)
	}
}

func (st *State) sample() *Sample {
	s := &Sample{End: "ok"}
	st.b.NewEval()
	for _, in := range st.inputs {
		s.Inputs = append(s.Inputs, st.b.Eval(in.E, st.model))
	}
	for _, o := range st.obs {
		var sb strings.Builder
		sb.WriteString(o.Tag)
		sb.WriteByte('=')
		for i, v := range o.Vals {
			if i > 0 {
				sb.WriteByte(',')
			}
			c := v.c
			if v.e != nil {
				c = st.b.Eval(v.e, st.model)
			}
			fmt.Fprintf(&sb, "%x", c)
		}
		s.Obs = append(s.Obs, sb.String())
	}
	return s
}

// TopNotes lists the most frequent incompleteness reasons.
func (r *Report) TopNotes(n int) []string {
	type kv struct {
		k string
		v int64
	}
	var a []kv
	for k, v := range r.Notes {
		a = append(a, kv{k, v})
	}
	sort.Slice(a, func(i, j int) bool { return a[i].v > a[j].v })
	var out []string
	for i, e := range a {
		if i >= n {
			break
		}
		out = append(out, fmt.Sprintf("%d x %s", e.v, e.k))
	}
	return out
}
