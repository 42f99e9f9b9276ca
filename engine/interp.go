package engine

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math"
	"sort"
	"strings"
	"sync"

	"golang.org/x/tools/go/ssa"
)

// V is one machine scalar: concrete (e == nil) or symbolic.
type V struct {
	c uint64
	e *Expr
}

type opnd struct {
	slot int32
	n    int32
	c    []V
}

type Frame struct {
	fn      *Fn
	r       []V
	st      *State
	caller  *Frame
	defers  []func()
	pan     *targetPanic // currently propagating panic (while running defers)
	recov   bool
	results []V
	ret     bool
	pos     token.Pos
	depth   int
}

type targetPanic struct {
	val   [2]V // interface{} words
	msg   string
	trace string
	rt    bool
}

type instr func(fr *Frame)

type move struct {
	dst int32
	src opnd
}

type Block struct {
	ins   []instr
	term  func(fr *Frame) int // next block index, -1 to return
	succs []int
	moves [][]move // per successor edge
}

// Fn is a compiled function.
type Fn struct {
	P       *Program
	F       *ssa.Function
	Name    string
	nslots  int
	npar    int
	nfree   int
	freeTI  []*TInfo
	blocks  []*Block
	results *TInfo
	intr    Intrinsic
	once    sync.Once
	hasDef  bool
	recover *Block
	namedR  []opnd // addresses of named results for the recover block
	InScope bool
	code    uint64
	static  uint64
	Hits    int64
	real    *Fn
	noIntr  bool
}

// Intrinsic implements a function natively. args are the flattened arguments.
type Intrinsic func(st *State, fr *Frame, fn *Fn, args []V, dst []V)

type compiler struct {
	p     *Program
	f     *Fn
	slots map[ssa.Value]opnd
	n     int
}

func (p *Program) fn(f *ssa.Function) *Fn {
	p.fnMu.RLock()
	x := p.fns[f]
	p.fnMu.RUnlock()
	if x != nil {
		return x
	}
	p.fnMu.Lock()
	defer p.fnMu.Unlock()
	if x := p.fns[f]; x != nil {
		return x
	}
	x = &Fn{P: p, F: f, Name: f.String()}
	x.code = codeBase + uint64(len(p.codes)+1)*16
	p.codes = append(p.codes, x)
	p.fns[f] = x
	if pk := fnPkg(f); pk != nil {
		x.InScope = p.InScope(pk.Path())
	}
	return x
}

func fnPkg(f *ssa.Function) *types.Package {
	if f.Pkg != nil {
		return f.Pkg.Pkg
	}
	if o := f.Origin(); o != nil && o.Pkg != nil {
		return o.Pkg.Pkg
	}
	if f.Parent() != nil {
		return fnPkg(f.Parent())
	}
	if f.Object() != nil {
		return f.Object().Pkg()
	}
	return nil
}

func (p *Program) fnAtCode(code uint64) *Fn {
	i := (code - codeBase) / 16
	p.fnMu.RLock()
	defer p.fnMu.RUnlock()
	if code <= codeBase || i == 0 || i > uint64(len(p.codes)) {
		return nil
	}
	return p.codes[i-1]
}

// staticClosure returns the address of the closure object of a plain function.
func (p *Program) staticClosure(f *Fn) uint64 {
	p.fnMu.Lock()
	defer p.fnMu.Unlock()
	if f.static == 0 {
		d := make([]byte, 8)
		for i := 0; i < 8; i++ {
			d[i] = byte(f.code >> (8 * i))
		}
		f.static = p.newShared(d, "func "+f.Name, true).Base
	}
	return f.static
}

func (f *Fn) compile() {
	f.once.Do(func() {
		f.P.ssaMu.Lock()
		defer f.P.ssaMu.Unlock()
		f.doCompile()
	})
}

func (f *Fn) doCompile() {
	p := f.P
	sf := f.F
	sig := sf.Signature
	f.results = p.layout.get(sig.Results())
	if !f.noIntr {
		f.intr = p.lookupIntrinsic(f)
	}
	if f.intr != nil {
		n := 0
		for _, pr := range sf.Params {
			n += p.layout.get(pr.Type()).N
		}
		if len(sf.Params) == 0 {
			if sig.Recv() != nil {
				n += p.layout.get(sig.Recv().Type()).N
			}
			for i := 0; i < sig.Params().Len(); i++ {
				n += p.layout.get(sig.Params().At(i).Type()).N
			}
		}
		f.npar = n
		f.nslots = n
		return
	}
	if sf.Blocks == nil {
		return
	}
	c := &compiler{p: p, f: f, slots: map[ssa.Value]opnd{}}
	newSlot := func(v ssa.Value) {
		n := p.layout.get(v.Type()).N
		if p.layout.get(v.Type()).big {
			n = 0
		}
		c.slots[v] = opnd{slot: int32(c.n), n: int32(n)}
		c.n += n
	}
	for _, v := range sf.Params {
		newSlot(v)
	}
	f.npar = c.n
	for _, v := range sf.FreeVars {
		newSlot(v)
		f.freeTI = append(f.freeTI, p.layout.get(v.Type()))
	}
	f.nfree = c.n - f.npar
	for _, b := range sf.Blocks {
		for _, in := range b.Instrs {
			if v, ok := in.(ssa.Value); ok {
				newSlot(v)
			}
			if _, ok := in.(*ssa.Defer); ok {
				f.hasDef = true
			}
		}
	}
	f.blocks = make([]*Block, len(sf.Blocks))
	for i := range f.blocks {
		f.blocks[i] = &Block{}
	}
	for i, b := range sf.Blocks {
		c.block(b, f.blocks[i])
	}
	if sf.Recover != nil {
		f.recover = f.blocks[sf.Recover.Index]
		f.hasDef = true
	}
	f.nslots = c.n
}

func (c *compiler) val(v ssa.Value) opnd {
	if o, ok := c.slots[v]; ok {
		return o
	}
	ti := c.p.layout.get(v.Type())
	switch v := v.(type) {
	case *ssa.Const:
		return opnd{slot: -1, n: int32(ti.N), c: c.p.constVal(v, ti)}
	case *ssa.Global:
		return opnd{slot: -1, n: 1, c: []V{{c: c.p.globalAddr(v)}}}
	case *ssa.Function:
		fn := c.p.fn(v)
		return opnd{slot: -1, n: 1, c: []V{{c: c.p.staticClosure(fn)}}}
	case *ssa.Builtin:
		return opnd{slot: -1}
	}
	panic(fmt.Sprintf("val %T", v))
}

func (fr *Frame) get1(o *opnd) V {
	if o.slot >= 0 {
		return fr.r[o.slot]
	}
	return o.c[0]
}

func (fr *Frame) get(o *opnd) []V {
	if o.slot >= 0 {
		return fr.r[o.slot : o.slot+o.n]
	}
	return o.c
}

func (p *Program) strConst(s string) []V {
	if s == "" {
		return []V{{}, {}}
	}
	p.strMu.Lock()
	defer p.strMu.Unlock()
	a, ok := p.strs[s]
	if !ok {
		a = p.newShared([]byte(s), "string const", true).Base
		p.strs[s] = a
	}
	return []V{{c: a}, {c: uint64(len(s))}}
}

func (p *Program) constVal(k *ssa.Const, ti *TInfo) []V {
	if k.Value == nil {
		return make([]V, ti.N)
	}
	b, ok := ti.U.(*types.Basic)
	if !ok {
		// type-parameterised constants are instantiated to basic types
		panic("const of type " + ti.T.String())
	}
	switch {
	case b.Info()&types.IsString != 0:
		if k.Value.Kind() == constant.String {
			return p.strConst(constant.StringVal(k.Value))
		}
		return p.strConst(string(rune(k.Int64())))
	case b.Info()&types.IsBoolean != 0:
		if constant.BoolVal(k.Value) {
			return []V{{c: 1}}
		}
		return []V{{}}
	case b.Info()&types.IsInteger != 0:
		m := mask(uint8(ti.Size * 8))
		if b.Info()&types.IsUnsigned != 0 {
			return []V{{c: k.Uint64() & m}}
		}
		return []V{{c: uint64(k.Int64()) & m}}
	case b.Info()&types.IsFloat != 0:
		if ti.Size == 4 {
			f, _ := constant.Float32Val(k.Value)
			return []V{{c: uint64(math.Float32bits(f))}}
		}
		return []V{{c: math.Float64bits(k.Float64())}}
	case b.Info()&types.IsComplex != 0:
		cv := k.Complex128()
		if ti.Size == 8 {
			return []V{{c: uint64(math.Float32bits(float32(real(cv))))}, {c: uint64(math.Float32bits(float32(imag(cv))))}}
		}
		return []V{{c: math.Float64bits(real(cv))}, {c: math.Float64bits(imag(cv))}}
	case b.Kind() == types.UnsafePointer:
		return []V{{c: k.Uint64()}}
	}
	panic("const of type " + ti.T.String())
}

func (p *Program) globalAddr(g *ssa.Global) uint64 {
	p.gMu.Lock()
	defer p.gMu.Unlock()
	if a, ok := p.globals[g]; ok {
		return a
	}
	et := g.Type().Underlying().(*types.Pointer).Elem()
	ti := p.layout.get(et)
	o := p.newShared(make([]byte, ti.Size), g.String(), false)
	if ti.Ptr {
		o.PtrT = ti
	}
	o.NoInit = skipInit(g.Pkg.Pkg.Path()) && g.Name() != "init$guard" && p.initSets(g)
	p.globals[g] = o.Base
	return o.Base
}

func (c *compiler) block(b *ssa.BasicBlock, out *Block) {
	for _, s := range b.Succs {
		out.succs = append(out.succs, s.Index)
		// phi moves for the edge b -> s
		var ms []move
		for pi, pr := range s.Preds {
			if pr != b {
				continue
			}
			for _, in := range s.Instrs {
				phi, ok := in.(*ssa.Phi)
				if !ok {
					break
				}
				d := c.slots[phi]
				if d.n == 0 {
					continue
				}
				ms = append(ms, move{d.slot, c.val(phi.Edges[pi])})
			}
			break
		}
		out.moves = append(out.moves, ms)
	}
	for _, in := range b.Instrs {
		switch in := in.(type) {
		case *ssa.Phi, *ssa.DebugRef:
		case *ssa.Jump:
			out.term = func(fr *Frame) int { fr.edge(out, 0); return out.succs[0] }
		case *ssa.If:
			cnd := c.val(in.Cond)
			out.term = func(fr *Frame) int {
				v := fr.get1(&cnd)
				k := 1
				if v.e == nil {
					if v.c != 0 {
						k = 0
					}
				} else if fr.st.branch(v) {
					k = 0
				}
				fr.edge(out, k)
				return out.succs[k]
			}
		case *ssa.Return:
			var os []opnd
			for _, r := range in.Results {
				os = append(os, c.val(r))
			}
			out.term = func(fr *Frame) int {
				k := 0
				for i := range os {
					k += copy(fr.results[k:], fr.get(&os[i]))
				}
				return -1
			}
		case *ssa.Panic:
			x := c.val(in.X)
			out.term = func(fr *Frame) int {
				v := fr.get(&x)
				fr.st.doPanic([2]V{v[0], v[1]}, "")
				return -1
			}
		default:
			i := c.instr(in)
			if i == nil {
				panic(fmt.Sprintf("cannot compile %T in %s", in, c.f.Name))
			}
			pos := in.Pos()
			if mayFault(in) && pos != token.NoPos {
				j := i
				i = func(fr *Frame) { fr.pos = pos; j(fr) }
			}
			out.ins = append(out.ins, i)
		}
	}
}

func mayFault(in ssa.Instruction) bool {
	switch in.(type) {
	case *ssa.Extract, *ssa.MakeInterface, *ssa.ChangeType, *ssa.Field, *ssa.MakeClosure:
		return false
	}
	return true
}

func (fr *Frame) edge(b *Block, k int) {
	ms := b.moves[k]
	switch len(ms) {
	case 0:
		return
	case 1:
		m := &ms[0]
		copy(fr.r[m.dst:], fr.get(&m.src))
		return
	}
	tmp := fr.st.tmp[:0]
	for i := range ms {
		tmp = append(tmp, fr.get(&ms[i].src)...)
	}
	fr.st.tmp = tmp
	k = 0
	for i := range ms {
		n := int(ms[i].src.n)
		copy(fr.r[ms[i].dst:int(ms[i].dst)+n], tmp[k:k+n])
		k += n
	}
}

const maxDepth = 20000

func (st *State) call(caller *Frame, fn *Fn, args []V, clo uint64, dst []V) {
	fn.compile()
	if fn.intr != nil {
		fn.intr(st, caller, fn, args, dst)
		return
	}
	if fn.blocks == nil {
		st.end(endUnsupported, "function without body: "+fn.Name)
	}
	if fn.InScope && fn.Hits == 0 {
		st.P.hit(fn)
	}
	fr := &Frame{fn: fn, st: st, caller: caller}
	if caller != nil {
		fr.depth = caller.depth + 1
		if fr.depth > maxDepth {
			st.stackOverflow()
		}
	}
	fr.r = st.regs(fn.nslots)
	copy(fr.r, args)
	if fn.nfree > 0 {
		k := fn.npar
		off := uint64(8)
		for _, ti := range fn.freeTI {
			st.load(V{c: clo + off}, ti, fr.r[k:k+ti.N])
			k += ti.N
			off += uint64(ti.Size+7) &^ 7
		}
	}
	save, nd := st.top, len(fr.r)
	fr.results = make([]V, fn.results.N)
	prev := st.cur
	st.cur = fr
	if fn.hasDef {
		fr.runDefers()
	} else {
		fr.run(fn.blocks[0])
	}
	st.cur = prev
	_ = save
	st.freeRegs(nd)
	copy(dst, fr.results)
}

func (st *State) regs(n int) []V {
	if st.top+n > len(st.stack) {
		sz := 1 << 14
		if n > sz {
			sz = n
		}
		// start a new chunk; old frames keep their slices
		st.chunks = append(st.chunks, chunk{st.stack, st.top})
		st.stack = make([]V, sz)
		st.top = 0
	}
	r := st.stack[st.top : st.top+n : st.top+n]
	st.top += n
	return r
}

type chunk struct {
	s   []V
	top int
}

func (st *State) freeRegs(n int) {
	st.top -= n
	if st.top == 0 && len(st.chunks) > 0 {
		c := st.chunks[len(st.chunks)-1]
		if len(c.s) > 0 {
			st.chunks = st.chunks[:len(st.chunks)-1]
			st.stack, st.top = c.s, c.top
		}
	}
}

func (fr *Frame) run(b *Block) {
	st := fr.st
	blocks := fr.fn.blocks
	for {
		st.steps += len(b.ins) + 1
		if st.steps > st.lim.MaxSteps {
			st.end(endBound, "step bound exceeded")
		}
		for _, in := range b.ins {
			in(fr)
		}
		k := b.term(fr)
		if k < 0 {
			return
		}
		b = blocks[k]
	}
}

// runDefers runs a function that has defer statements.
func (fr *Frame) runDefers() {
	st := fr.st
	func() {
		top, stack, chunks := st.top, st.stack, len(st.chunks)
		defer func() {
			r := recover()
			if r == nil {
				return
			}
			tp, ok := r.(*targetPanic)
			if !ok {
				panic(r)
			}
			st.top, st.stack, st.chunks = top, stack, st.chunks[:chunks]
			st.cur = fr
			fr.pan = tp
			fr.popDefers()
			if fr.pan != nil {
				panic(fr.pan)
			}
			// recovered
			if fr.fn.recover != nil {
				fr.run(fr.fn.recover)
			}
		}()
		fr.run(fr.fn.blocks[0])
	}()
}

// popDefers runs pending deferred calls in LIFO order.
func (fr *Frame) popDefers() {
	for len(fr.defers) > 0 {
		d := fr.defers[len(fr.defers)-1]
		fr.defers = fr.defers[:len(fr.defers)-1]
		func() {
			st := fr.st
			top, stack, chunks := st.top, st.stack, len(st.chunks)
			defer func() {
				if r := recover(); r != nil {
					tp, ok := r.(*targetPanic)
					if !ok {
						panic(r)
					}
					st.top, st.stack, st.chunks = top, stack, st.chunks[:chunks]
					st.cur = fr
					fr.pan = tp
				}
			}()
			d()
		}()
	}
}

func (st *State) doPanic(v [2]V, msg string) {
	if msg == "" {
		msg = st.panicText(v)
	}
	panic(&targetPanic{val: v, msg: msg, trace: st.trace()})
}

// rtPanic raises a Go run-time panic (runtime.Error).
func (st *State) rtPanic(msg string) {
	tn := st.P.rtErrorType
	s := st.newString(strings.TrimPrefix(msg, "runtime error: "))
	var v [2]V
	if tn != nil {
		o := st.alloc(16, true)
		ti := st.P.layout.get(tn)
		st.store(V{c: o.Base}, ti, s[:])
		v = [2]V{{c: st.P.rtype(tn).Addr}, {c: o.Base}}
	} else {
		rt := st.P.rtype(types.Typ[types.String])
		o := st.alloc(16, true)
		st.store(V{c: o.Base}, st.P.layout.get(types.Typ[types.String]), s[:])
		v = [2]V{{c: rt.Addr}, {c: o.Base}}
	}
	panic(&targetPanic{val: v, msg: msg, trace: st.trace(), rt: true})
}

func (st *State) trace() string {
	var sb strings.Builder
	n := 0
	for fr := st.cur; fr != nil && n < 12; fr = fr.caller {
		pos := st.P.Prog.Fset.Position(fr.pos)
		fmt.Fprintf(&sb, "%s (%s:%d)\n", fr.fn.Name, pos.Filename, pos.Line)
		n++
	}
	return sb.String()
}

// panicText renders a panic value for reports.
func (st *State) panicText(v [2]V) string {
	if v[0].e != nil {
		return "panic"
	}
	rt := st.P.typeOfWord(v[0].c)
	if rt == nil {
		return "panic(nil)"
	}
	if b, ok := rt.T.Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
		var s [2]V
		st.load(v[1], st.P.layout.get(rt.T), s[:])
		if s[0].e == nil && s[1].e == nil {
			if t, ok := st.goString(s[0], s[1]); ok {
				return t
			}
		}
	}
	return "panic of type " + rt.T.String()
}

func (st *State) expr(v V, w uint8) *Expr {
	if v.e != nil {
		return v.e
	}
	return st.b.Const(v.c, w)
}

func (st *State) boolExpr(v V) *Expr {
	if v.e != nil {
		return v.e
	}
	return st.b.Bool(v.c != 0)
}

func (st *State) mkV(e *Expr) V {
	if e.Op == OConst {
		return V{c: e.Val}
	}
	if e.Op == OTrue {
		return V{c: 1}
	}
	if e.Op == OFalse {
		return V{}
	}
	return V{e: e}
}

func (st *State) mkBool(e *Expr) V { return st.mkV(e) }

func sortedKeys[T any](m map[string]T) []string {
	ks := make([]string, 0, len(m))
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}
