package engine

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// allowReal lists functions of otherwise modelled packages that are executed
// from their source.
func allowReal(path, name string, f *ssa.Function) bool {
	switch path {
	case "reflect":
		switch f.Name() {
		case "String", "Lookup", "Get", "IsExported", "Error", "RuntimeError":
			r := f.Signature.Recv()
			if r == nil {
				return false
			}
			n := typeString(r.Type())
			return n != "reflect.Value" && n != "*reflect.rtype"
		}
		return false
	case "runtime":
		return f.Signature.Recv() != nil && (f.Name() == "Error" || f.Name() == "RuntimeError")
	case "os", "syscall", "time", "net", "internal/reflectlite", "internal/poll", "os/exec":
		return false
	}
	return true
}

func unsupportedIntrinsic(name string) Intrinsic {
	return func(st *State, fr *Frame, fn *Fn, a, d []V) {
		st.end(endUnsupported, "unmodelled function "+name)
	}
}

func (p *Program) realFn(fn *Fn) *Fn {
	p.fnMu.Lock()
	defer p.fnMu.Unlock()
	if fn.real == nil {
		fn.real = &Fn{P: p, F: fn.F, Name: fn.Name, InScope: fn.InScope, noIntr: true, code: fn.code}
	}
	return fn.real
}

func (st *State) noop(d []V) {
	for i := range d {
		d[i] = V{}
	}
}

func mutexLock(st *State, fr *Frame, fn *Fn, a, d []V) {
	st.sched()
	p := a[0].c
	st.blockUntil(func() bool { return st.word(p, 4) == 0 })
	if st.word(p, 4) != 0 {
		st.blockUntil(func() bool { return st.word(p, 4) == 0 })
	}
	st.setWord(p, 4, 1)
	st.acquire(p)
}

func mutexUnlock(st *State, fr *Frame, fn *Fn, a, d []V) {
	p := a[0].c
	if st.word(p, 4) == 0 {
		st.violate("fatal", "unlock of unlocked mutex")
		panic(&pathEnd{endViolation, "unlock of unlocked mutex"})
	}
	st.release(p)
	st.setWord(p, 4, 0)
	st.sched()
}

func (st *State) word(p uint64, n int) uint64 {
	var o *Obj
	var off uint64
	st.quietly(func() { o, off = st.objFor(p, n, false) })
	return st.conc(st.loadBits(o, off, uint8(n)), uint8(n*8), "sync word")
}

func (st *State) setWord(p uint64, n int, v uint64) {
	var o *Obj
	var off uint64
	st.quietly(func() { o, off = st.objFor(p, n, true) })
	st.storeBits(o, off, uint8(n), V{c: v})
}

// placeholderErr builds an error value whose text is the format string; a %w
// operand stays reachable through Unwrap.
func (st *State) placeholderErr(format string, args V, n int) [2]V {
	p := st.P
	errT := types.Universe.Lookup("error").Type()
	var wrapped [2]V
	has := false
	if strings.Contains(format, "%w") {
		for i := 0; i < n; i++ {
			var w [2]V
			st.load(V{c: args.c + uint64(16*i)}, p.layout.get(emptyIface), w[:])
			t := st.dynType(w[0])
			if t != nil && p.implements(t, errT.Underlying().(*types.Interface)) {
				wrapped = [2]V{{c: p.ifaceWord(errT, t)}, w[1]}
				has = true
			}
		}
	}
	s := st.newString(format)
	if has {
		t := p.Pkgs["fmt"].Type("wrapError").Type()
		pt := types.NewPointer(t)
		ti := p.layout.get(t)
		a := st.allocT(ti, 1)
		st.store(V{c: a}, ti, []V{s[0], s[1], wrapped[0], wrapped[1]})
		return st.makeIface(errT, pt, p.layout.get(pt), []V{{c: a}})
	}
	t := p.Pkgs["errors"].Type("errorString").Type()
	pt := types.NewPointer(t)
	ti := p.layout.get(t)
	a := st.allocT(ti, 1)
	st.store(V{c: a}, ti, s[:])
	return st.makeIface(errT, pt, p.layout.get(pt), []V{{c: a}})
}

func (st *State) anySymArgs(args V, n int) bool {
	p := st.P
	for i := 0; i < n; i++ {
		var w [2]V
		st.load(V{c: args.c + uint64(16*i)}, p.layout.get(emptyIface), w[:])
		if w[0].e != nil || w[1].e != nil {
			return true
		}
		t := st.dynType(w[0])
		if t == nil || pointerShaped(t.T) {
			continue
		}
		ti := p.layout.get(t.T)
		v := make([]V, ti.N)
		st.load(w[1], ti, v)
		for _, x := range v {
			if x.e != nil {
				return true
			}
		}
	}
	return false
}

func (st *State) iteChain(x *Expr, w uint8, f func(bit int) uint64, zero uint64, high bool) V {
	b := st.b
	r := b.Const(zero, 64)
	for k := 0; k < int(w); k++ {
		bit := k
		if !high {
			bit = int(w) - 1 - k
		}
		c := b.Cmp(OEq, b.Extract(x, uint8(bit), uint8(bit)), b.Const(1, 1))
		r = b.Ite(c, b.Const(f(bit), 64), r)
	}
	return st.mkV(r)
}

func init() {
	reg := func(name string, f Intrinsic) { intrinsics[name] = f }
	nop := func(st *State, fr *Frame, fn *Fn, a, d []V) { st.noop(d) }

	// ---- runtime ----
	for _, n := range []string{"runtime.KeepAlive", "runtime.GC", "runtime.SetFinalizer", "runtime.Callers",
		"runtime.Caller", "runtime.LockOSThread", "runtime.UnlockOSThread", "runtime/debug.SetGCPercent", "runtime/debug.FreeOSMemory",
		"internal/race.Acquire", "internal/race.Release", "internal/race.ReleaseMerge", "runtime.AddCleanup",
		"log.Printf", "log.Println", "log.Print", "log.SetFlags", "log.SetPrefix"} {
		reg(n, nop)
	}
	reg("runtime.Gosched", func(st *State, fr *Frame, fn *Fn, a, d []V) { st.sched() })
	reg("runtime.GOMAXPROCS", func(st *State, fr *Frame, fn *Fn, a, d []V) { d[0] = V{c: 8} })
	reg("runtime.NumCPU", func(st *State, fr *Frame, fn *Fn, a, d []V) { d[0] = V{c: 8} })
	malloc := func(st *State, fr *Frame, fn *Fn, a, d []V) {
		n := st.conc(a[0], 64, "allocation size")
		if n > uint64(st.lim.MaxBytes) {
			st.end(endBound, "memory bound exceeded")
		}
		typ := st.conc(a[1], 64, "allocation type")
		zero := st.conc(a[2], 8, "needzero") != 0
		if n == 0 {
			d[0] = V{c: st.zeroBase()}
			return
		}
		o := st.alloc(int(n), zero || typ != 0)
		if typ == 0 {
			o.NoScan = true
		} else {
			t := st.P.rtypeAt(typ)
			if t == nil {
				st.memFault("mallocgc with an invalid type")
			}
			ti := st.P.layout.get(t.T)
			if ti.Ptr {
				o.PtrT = ti
			} else {
				o.NoScan = true
				if !zero {
					st.undefAll(o)
				}
			}
		}
		o.Name = "mallocgc"
		d[0] = V{c: o.Base}
	}
	reg("linkname:runtime.mallocgc", malloc)
	reg("linkname:runtime.memmove", func(st *State, fr *Frame, fn *Fn, a, d []V) {
		n := int(st.conc(a[2], 64, "memmove"))
		st.copyMem(st.conc(a[0], 64, "ptr"), st.conc(a[1], 64, "ptr"), n)
	})
	reg("linkname:runtime.memclrNoHeapPointers", func(st *State, fr *Frame, fn *Fn, a, d []V) {
		st.zeroMem(st.conc(a[0], 64, "ptr"), int(st.conc(a[1], 64, "memclr")))
	})

	// ---- sync ----
	reg("(*sync.Mutex).Lock", mutexLock)
	reg("(*sync.Mutex).Unlock", mutexUnlock)
	reg("(*sync.Mutex).TryLock", func(st *State, fr *Frame, fn *Fn, a, d []V) {
		st.sched()
		if st.word(a[0].c, 4) != 0 {
			d[0] = V{}
			return
		}
		st.setWord(a[0].c, 4, 1)
		st.acquire(a[0].c)
		d[0] = V{c: 1}
	})
	reg("(*sync.RWMutex).Lock", func(st *State, fr *Frame, fn *Fn, a, d []V) {
		st.sched()
		p := a[0].c
		st.blockUntil(func() bool { return st.word(p, 4) == 0 && st.word(p+8, 4) == 0 })
		st.setWord(p, 4, 1)
		st.acquire(p)
		st.acquire(p + 8)
	})
	reg("(*sync.RWMutex).Unlock", mutexUnlock)
	reg("(*sync.RWMutex).RLock", func(st *State, fr *Frame, fn *Fn, a, d []V) {
		st.sched()
		p := a[0].c
		st.blockUntil(func() bool { return st.word(p, 4) == 0 })
		st.setWord(p+8, 4, st.word(p+8, 4)+1)
		st.acquire(p)
	})
	reg("(*sync.RWMutex).RUnlock", func(st *State, fr *Frame, fn *Fn, a, d []V) {
		p := a[0].c
		if st.word(p+8, 4) == 0 {
			st.violate("fatal", "RUnlock of unlocked RWMutex")
			panic(&pathEnd{endViolation, "RUnlock of unlocked RWMutex"})
		}
		st.release(p + 8)
		st.setWord(p+8, 4, st.word(p+8, 4)-1)
		st.sched()
	})
	reg("(*sync.WaitGroup).Add", func(st *State, fr *Frame, fn *Fn, a, d []V) {
		st.sched()
		st.release(a[0].c)
		st.setWord(a[0].c, 8, st.word(a[0].c, 8)+st.conc(a[1], 64, "delta"))
	})
	reg("(*sync.WaitGroup).Done", func(st *State, fr *Frame, fn *Fn, a, d []V) {
		st.sched()
		st.release(a[0].c)
		st.setWord(a[0].c, 8, st.word(a[0].c, 8)-1)
	})
	reg("(*sync.WaitGroup).Wait", func(st *State, fr *Frame, fn *Fn, a, d []V) {
		st.sched()
		p := a[0].c
		st.blockUntil(func() bool { return st.word(p, 8) == 0 })
		st.acquire(p)
	})
	reg("(*sync.Pool).Put", func(st *State, fr *Frame, fn *Fn, a, d []V) {
		st.sched()
		p := a[0].c
		if a[1].e == nil && a[1].c == 0 {
			return
		}
		st.release(p)
		st.pools[p] = append(st.pools[p], [2]V{a[1], a[2]})
	})
	reg("(*sync.Pool).Get", func(st *State, fr *Frame, fn *Fn, a, d []V) {
		st.sched()
		p := a[0].c
		if l := st.pools[p]; len(l) > 0 {
			x := l[len(l)-1]
			st.pools[p] = l[:len(l)-1]
			st.acquire(p)
			d[0], d[1] = x[0], x[1]
			return
		}
		pt := fn.F.Params[0].Type().Underlying().(*types.Pointer).Elem()
		s := pt.Underlying().(*types.Struct)
		for i := 0; i < s.NumFields(); i++ {
			if s.Field(i).Name() == "New" {
				var v [1]V
				st.load(V{c: p + fieldOffset(s, i)}, st.P.layout.get(s.Field(i).Type()), v[:])
				if v[0].e == nil && v[0].c == 0 {
					break
				}
				f, clo := st.funcValue(v[0])
				st.call(fr, f, nil, clo, d)
				return
			}
		}
		d[0], d[1] = V{}, V{}
	})

	// ---- atomics ----
	type aw struct {
		n string
		w int
	}
	for _, t := range []aw{{"Int32", 4}, {"Int64", 8}, {"Uint32", 4}, {"Uint64", 8}, {"Uintptr", 8}, {"Pointer", 8}} {
		w := uint8(t.w)
		ld := func(st *State, p uint64) V {
			var o *Obj
			var off uint64
			st.atomically(func() { o, off = st.objFor(p, int(w), false) })
			return st.loadBits(o, off, w)
		}
		sto := func(st *State, p uint64, v V, ptr bool) {
			var o *Obj
			var off uint64
			st.atomically(func() { o, off = st.objFor(p, int(w), true) })
			if ptr && st.lim.GCCheck {
				st.gcCheckStore(o, off, v)
			}
			st.storeBits(o, off, w, v)
		}
		isP := t.n == "Pointer"
		reg("sync/atomic.Load"+t.n, func(st *State, fr *Frame, fn *Fn, a, d []V) {
			st.sched()
			p := st.conc(a[0], 64, "ptr")
			st.acquire(p)
			d[0] = ld(st, p)
		})
		reg("sync/atomic.Store"+t.n, func(st *State, fr *Frame, fn *Fn, a, d []V) {
			st.sched()
			p := st.conc(a[0], 64, "ptr")
			st.release(p)
			sto(st, p, a[1], isP)
		})
		reg("sync/atomic.Swap"+t.n, func(st *State, fr *Frame, fn *Fn, a, d []V) {
			st.sched()
			p := st.conc(a[0], 64, "ptr")
			st.acquire(p)
			st.release(p)
			old := ld(st, p)
			sto(st, p, a[1], isP)
			d[0] = old
		})
		reg("sync/atomic.Add"+t.n, func(st *State, fr *Frame, fn *Fn, a, d []V) {
			st.sched()
			p := st.conc(a[0], 64, "ptr")
			st.acquire(p)
			st.release(p)
			old := ld(st, p)
			n := st.mkV(st.b.Bin(OAdd, st.expr(old, w*8), st.expr(a[1], w*8)))
			sto(st, p, n, false)
			d[0] = n
		})
		for _, op := range []string{"And", "Or"} {
			o := OAnd
			if op == "Or" {
				o = OOr
			}
			reg("sync/atomic."+op+t.n, func(st *State, fr *Frame, fn *Fn, a, d []V) {
				st.sched()
				p := st.conc(a[0], 64, "ptr")
				st.acquire(p)
				st.release(p)
				old := ld(st, p)
				sto(st, p, st.mkV(st.b.Bin(o, st.expr(old, w*8), st.expr(a[1], w*8))), false)
				d[0] = old
			})
		}
		reg("sync/atomic.CompareAndSwap"+t.n, func(st *State, fr *Frame, fn *Fn, a, d []V) {
			st.sched()
			p := st.conc(a[0], 64, "ptr")
			st.acquire(p)
			old := ld(st, p)
			eq := st.b.Cmp(OEq, st.expr(old, w*8), st.expr(a[1], w*8))
			if st.branch(st.mkV(eq)) {
				st.release(p)
				sto(st, p, a[2], isP)
				d[0] = V{c: 1}
			} else {
				d[0] = V{}
			}
		})
	}
	reg("(*sync/atomic.Value).Load", func(st *State, fr *Frame, fn *Fn, a, d []V) {
		st.sched()
		p := st.conc(a[0], 64, "ptr")
		st.acquire(p)
		st.atomically(func() { st.load(V{c: p}, st.P.layout.get(emptyIface), d) })
	})
	reg("(*sync/atomic.Value).Store", func(st *State, fr *Frame, fn *Fn, a, d []V) {
		st.sched()
		p := st.conc(a[0], 64, "ptr")
		st.release(p)
		st.atomically(func() { st.store(V{c: p}, st.P.layout.get(emptyIface), a[1:3]) })
	})

	// ---- math/bits ----
	lens := func(w uint8) Intrinsic {
		return func(st *State, fr *Frame, fn *Fn, a, d []V) {
			x := st.expr(a[0], w)
			d[0] = st.iteChain(x, w, func(b int) uint64 { return uint64(b + 1) }, 0, true)
		}
	}
	lz := func(w uint8) Intrinsic {
		return func(st *State, fr *Frame, fn *Fn, a, d []V) {
			d[0] = st.iteChain(st.expr(a[0], w), w, func(b int) uint64 { return uint64(int(w) - 1 - b) }, uint64(w), true)
		}
	}
	tz := func(w uint8) Intrinsic {
		return func(st *State, fr *Frame, fn *Fn, a, d []V) {
			d[0] = st.iteChain(st.expr(a[0], w), w, func(b int) uint64 { return uint64(b) }, uint64(w), false)
		}
	}
	for n, w := range map[string]uint8{"8": 8, "16": 16, "32": 32, "64": 64, "": 64} {
		reg("math/bits.Len"+n, lens(w))
		reg("math/bits.LeadingZeros"+n, lz(w))
		reg("math/bits.TrailingZeros"+n, tz(w))
	}

	// ---- bytealg ----
	idxByte := func(st *State, bs []V, c V) uint64 {
		for i, x := range bs {
			if st.branch(st.mkV(st.b.Cmp(OEq, st.expr(x, 8), st.expr(c, 8)))) {
				return uint64(i)
			}
		}
		return ^uint64(0)
	}
	sb := func(st *State, p, n V) []V {
		l := int(st.conc(n, 64, "length"))
		if l == 0 {
			return nil
		}
		return st.bytesAt(st.conc(p, 64, "pointer"), l)
	}
	reg("internal/bytealg.IndexByte", func(st *State, fr *Frame, fn *Fn, a, d []V) { d[0] = V{c: idxByte(st, sb(st, a[0], a[1]), a[3])} })
	reg("internal/bytealg.IndexByteString", func(st *State, fr *Frame, fn *Fn, a, d []V) { d[0] = V{c: idxByte(st, sb(st, a[0], a[1]), a[2])} })
	count := func(st *State, bs []V, c V) V {
		r := st.b.Const(0, 64)
		for _, x := range bs {
			eq := st.b.Cmp(OEq, st.expr(x, 8), st.expr(c, 8))
			r = st.b.Bin(OAdd, r, st.b.Ite(eq, st.b.Const(1, 64), st.b.Const(0, 64)))
		}
		return st.mkV(r)
	}
	reg("internal/bytealg.Count", func(st *State, fr *Frame, fn *Fn, a, d []V) { d[0] = count(st, sb(st, a[0], a[1]), a[3]) })
	reg("internal/bytealg.CountString", func(st *State, fr *Frame, fn *Fn, a, d []V) { d[0] = count(st, sb(st, a[0], a[1]), a[2]) })
	eqB := func(st *State, x, y []V) V {
		if len(x) != len(y) {
			return V{}
		}
		r := st.b.T
		for i := range x {
			r = st.b.BAnd(r, st.b.Cmp(OEq, st.expr(x[i], 8), st.expr(y[i], 8)))
		}
		return st.mkV(r)
	}
	reg("internal/bytealg.Equal", func(st *State, fr *Frame, fn *Fn, a, d []V) { d[0] = eqB(st, sb(st, a[0], a[1]), sb(st, a[3], a[4])) })
	reg("bytes.Equal", intrinsics["internal/bytealg.Equal"])
	cmpB := func(st *State, x, y []V) V {
		for i := 0; i < len(x) && i < len(y); i++ {
			p, q := st.expr(x[i], 8), st.expr(y[i], 8)
			if st.branch(st.mkV(st.b.Cmp(OEq, p, q))) {
				continue
			}
			if st.branch(st.mkV(st.b.Cmp(OUlt, p, q))) {
				return V{c: ^uint64(0)}
			}
			return V{c: 1}
		}
		switch {
		case len(x) < len(y):
			return V{c: ^uint64(0)}
		case len(x) > len(y):
			return V{c: 1}
		}
		return V{}
	}
	reg("internal/bytealg.Compare", func(st *State, fr *Frame, fn *Fn, a, d []V) { d[0] = cmpB(st, sb(st, a[0], a[1]), sb(st, a[3], a[4])) })
	reg("internal/bytealg.CompareString", func(st *State, fr *Frame, fn *Fn, a, d []V) { d[0] = cmpB(st, sb(st, a[0], a[1]), sb(st, a[2], a[3])) })
	for _, n := range []string{"strings.Compare", "internal/stringslite.Compare", "cmp.Compare[string]", "runtime.cmpstring"} {
		reg(n, intrinsics["internal/bytealg.CompareString"])
	}
	index := func(st *State, x, y []V) V {
		for i := 0; i+len(y) <= len(x); i++ {
			if st.branch(eqB(st, x[i:i+len(y)], y)) {
				return V{c: uint64(i)}
			}
		}
		return V{c: ^uint64(0)}
	}
	for _, n := range []string{"internal/bytealg.IndexString", "strings.Index", "internal/stringslite.Index"} {
		reg(n, func(st *State, fr *Frame, fn *Fn, a, d []V) { d[0] = index(st, sb(st, a[0], a[1]), sb(st, a[2], a[3])) })
	}
	for _, n := range []string{"internal/bytealg.Index", "bytes.Index"} {
		reg(n, func(st *State, fr *Frame, fn *Fn, a, d []V) { d[0] = index(st, sb(st, a[0], a[1]), sb(st, a[3], a[4])) })
	}
	reg("strings.LastIndex", func(st *State, fr *Frame, fn *Fn, a, d []V) {
		x, y := sb(st, a[0], a[1]), sb(st, a[2], a[3])
		d[0] = V{c: ^uint64(0)}
		for i := len(x) - len(y); i >= 0; i-- {
			if st.branch(eqB(st, x[i:i+len(y)], y)) {
				d[0] = V{c: uint64(i)}
				return
			}
		}
	})
	reg("strings.Count", func(st *State, fr *Frame, fn *Fn, a, d []V) {
		if st.word2(a[3]) == 1 {
			d[0] = count(st, sb(st, a[0], a[1]), sb(st, a[2], a[3])[0])
			return
		}
		st.call(fr, st.P.realFn(fn), a, 0, d)
	})
	reg("internal/bytealg.MakeNoZero", func(st *State, fr *Frame, fn *Fn, a, d []V) {
		n := st.conc(a[0], 64, "length")
		if n > uint64(st.lim.MaxBytes) {
			st.end(endBound, "memory bound exceeded")
		}
		if n == 0 {
			d[0], d[1], d[2] = V{c: st.zeroBase()}, V{}, V{}
			return
		}
		c := roundSize(int(n))
		o := st.alloc(c, true)
		o.NoScan = true
		d[0], d[1], d[2] = V{c: o.Base}, V{c: n}, V{c: uint64(c)}
	})

	// ---- fmt / errors ----
	reg("fmt.Errorf", func(st *State, fr *Frame, fn *Fn, a, d []V) {
		n := int(st.conc(a[3], 64, "nargs"))
		if st.lim.RealFmt && !st.anySymArgs(a[2], n) {
			st.call(fr, st.P.realFn(fn), a, 0, d)
			return
		}
		f, _ := st.goString(a[0], a[1])
		r := st.placeholderErr(f, a[2], n)
		d[0], d[1] = r[0], r[1]
	})
	reg("fmt.Sprintf", func(st *State, fr *Frame, fn *Fn, a, d []V) {
		n := int(st.conc(a[3], 64, "nargs"))
		if !st.lim.RealFmt {
			f, _ := st.goString(a[0], a[1])
			_ = n
			r := st.newString(f)
			d[0], d[1] = r[0], r[1]
			return
		}
		st.call(fr, st.P.realFn(fn), a, 0, d)
	})
	// only reached with os.Stdout and os.Stderr: output is dropped
	for _, n := range []string{"(*os.File).Write", "(*os.File).WriteString"} {
		reg(n, func(st *State, fr *Frame, fn *Fn, a, d []V) { d[0], d[1], d[2] = a[2], V{}, V{} })
	}
	for _, n := range []string{"fmt.Println", "fmt.Printf", "fmt.Print"} {
		reg(n, nop)
	}
	reg("errors.Is", func(st *State, fr *Frame, fn *Fn, a, d []V) { st.callHelper(fr, "errorsIs", a, d) })
	reg("sort.Slice", func(st *State, fr *Frame, fn *Fn, a, d []V) { st.sortSlice(fr, a) })
	reg("sort.SliceStable", func(st *State, fr *Frame, fn *Fn, a, d []V) { st.sortSlice(fr, a) })
	for n, h := range map[string]string{"os.Stat": "osStat", "os.Open": "osOpen", "(*os.File).Read": "fileRead", "(*os.File).Stat": "fileStat",
		"(*os.File).Close": "fileClose", "os.WriteFile": "osWriteFile", "os.ReadFile": "osReadFile", "os.MkdirAll": "osMkdirAll"} {
		h := h
		reg(n, func(st *State, fr *Frame, fn *Fn, a, d []V) { st.callHelper(fr, h, a, d) })
	}
	reg("os.Getwd", func(st *State, fr *Frame, fn *Fn, a, d []V) {
		r := st.placeholderErr("no working directory", V{}, 0)
		d[0], d[1], d[2], d[3] = V{}, V{}, r[0], r[1]
	})
	// The lexer of prutalgen caches transitions per character. For a symbolic
	// character the cache is bypassed, as the lexer itself does for characters
	// outside the cached range; cached and computed transitions are the same.
	for _, n := range []string{"getExistingTargetState", "addDFAEdge"} {
		reg("(*github.com/cloudwego/prutal/prutalgen/internal/antlr.LexerATNSimulator)."+n, func(st *State, fr *Frame, fn *Fn, a, d []V) {
			if len(a) > 2 && a[2].e != nil {
				a = append([]V(nil), a...)
				a[2] = V{c: 1 << 20}
			}
			st.call(fr, st.P.realFn(fn), a, 0, d)
		})
	}
	reg("os.Exit", func(st *State, fr *Frame, fn *Fn, a, d []V) {
		st.reached["os.Exit"] = true
		panic(&pathEnd{endOK, "exit"})
	})
	for _, n := range []string{"log.Fatal", "log.Fatalf", "log.Fatalln"} {
		reg(n, intrinsics["os.Exit"])
	}
}

func (st *State) word2(v V) uint64 { return st.conc(v, 64, "length") }

func (st *State) undefAll(o *Obj) {
	o.Sym = make([]symb, len(o.Data))
	for k := range o.Sym {
		o.Sym[k] = symb{undefExpr, 0}
	}
}

// sortSlice is a stable insertion sort through the comparison callback.
func (st *State) sortSlice(fr *Frame, a []V) {
	t := st.dynType(a[0])
	s, ok := t.T.Underlying().(*types.Slice)
	if !ok {
		st.panicStr("sort.Slice of non-slice")
	}
	var h [3]V
	st.load(a[1], st.P.layout.get(t.T), h[:])
	n := int(st.conc(h[1], 64, "length"))
	et := st.P.layout.get(s.Elem())
	f, clo := st.funcValue(a[2])
	tmp1, tmp2 := make([]V, et.N), make([]V, et.N)
	for i := 1; i < n; i++ {
		for j := i; j > 0; j-- {
			var r [1]V
			st.call(fr, f, []V{{c: uint64(j)}, {c: uint64(j - 1)}}, clo, r[:])
			if !st.branch(r[0]) {
				break
			}
			pa, pb := V{c: h[0].c + uint64(j*et.Size)}, V{c: h[0].c + uint64((j-1)*et.Size)}
			st.load(pa, et, tmp1)
			st.load(pb, et, tmp2)
			st.store(pa, et, tmp2)
			st.store(pb, et, tmp1)
		}
	}
}

var _ = fmt.Sprint
