package engine

import (
	"encoding/binary"
	"fmt"
	"sync/atomic"
)

// Address space: every object occupies one or more 1 MiB slots, so that
// out-of-object accesses by unsafe code never land in a neighbour.
const (
	slotShift  = 20
	localBase  = uint64(0xc000000000)
	sharedBase = uint64(0x700000000000)
	codeBase   = uint64(0x400000000000)
)

type symb struct {
	e *Expr
	i uint8
}

// Obj is a block of memory.
type Obj struct {
	Base   uint64
	Data   []byte
	Sym    []symb // nil when fully concrete
	RO     bool
	NoScan bool   // the garbage collector does not scan it
	PtrT   *TInfo // element layout for GC scanning (nil: unknown / conservative)
	Name   string
	NoInit bool // initial value unknown: the package initialiser is not run
	owner  uint32
	zeroCh uint32
}

var undefExpr = &Expr{Op: OVar, W: 8}

func (o *Obj) clone(owner uint32) *Obj {
	n := *o
	n.Data = append([]byte(nil), o.Data...)
	if o.Sym != nil {
		n.Sym = append([]symb(nil), o.Sym...)
	}
	n.owner = owner
	return &n
}

type sharedMem struct {
	objs []*Obj
	n    atomic.Int64
}

// newShared allocates a process-lifetime object visible to all paths.
// Callers hold a lock that serialises allocation, or shMu is taken here.
func (p *Program) newShared(data []byte, name string, ro bool) *Obj {
	p.shMu.Lock()
	defer p.shMu.Unlock()
	i := p.shared.n.Load()
	slots := int64(len(data)>>slotShift) + 1
	if int(i+slots) >= len(p.shared.objs) {
		panic("shared object table full")
	}
	o := &Obj{Data: data, Name: name, RO: ro}
	o.Base = sharedBase + uint64(i)<<slotShift + uint64(i%509)*64
	if len(data) > 1<<19 {
		o.Base = sharedBase + uint64(i)<<slotShift
	}
	for k := int64(0); k < slots; k++ {
		p.shared.objs[i+k] = o
	}
	p.shared.n.Add(slots)
	return o
}

func (st *State) alloc(size int, zero bool) *Obj {
	slots := size>>slotShift + 1
	i := len(st.objs) + st.baseN
	o := &Obj{Data: make([]byte, size), owner: st.id}
	o.Base = localBase + uint64(i)<<slotShift
	if !zero {
		o.Sym = make([]symb, size)
		for k := range o.Sym {
			o.Sym[k] = symb{undefExpr, 0}
		}
	}
	for k := 0; k < slots; k++ {
		st.objs = append(st.objs, o)
	}
	st.allocBytes += size
	if st.allocBytes > st.lim.MaxBytes {
		st.end(endBound, "memory bound exceeded")
	}
	return o
}

func (st *State) zeroBase() uint64 { return st.P.zeroObj.Base }

// find returns the object containing addr, or nil.
func (st *State) find(addr uint64) *Obj {
	if addr >= sharedBase {
		i := (addr - sharedBase) >> slotShift
		if i >= uint64(st.P.shared.n.Load()) {
			return nil
		}
		if o := st.ovl[uint32(i)]; o != nil {
			return o
		}
		return st.P.shared.objs[i]
	}
	if addr >= localBase {
		i := (addr - localBase) >> slotShift
		if i < uint64(st.baseN) {
			if o := st.lovl[uint32(i)]; o != nil {
				return o
			}
			return st.P.baseObjs[i]
		}
		i -= uint64(st.baseN)
		if i < uint64(len(st.objs)) {
			return st.objs[i]
		}
	}
	return nil
}

// own returns a writable version of o.
func (st *State) own(o *Obj) *Obj {
	if o.owner == st.id {
		return o
	}
	n := o.clone(st.id)
	slots := len(o.Data)>>slotShift + 1
	if o.Base >= sharedBase {
		i := (o.Base - sharedBase) >> slotShift
		for k := 0; k < slots; k++ {
			st.ovl[uint32(i)+uint32(k)] = n
		}
	} else {
		i := (o.Base - localBase) >> slotShift
		for k := 0; k < slots; k++ {
			if j := i + uint64(k); j < uint64(st.baseN) {
				st.lovl[uint32(j)] = n
			} else {
				st.objs[j-uint64(st.baseN)] = n
			}
		}
	}
	return n
}

func (st *State) objFor(addr uint64, n int, write bool) (*Obj, uint64) {
	o := st.find(addr)
	if o != nil {
		off := addr - o.Base
		if off <= uint64(len(o.Data)) && off+uint64(n) <= uint64(len(o.Data)) {
			if st.race != nil {
				st.raceAccess(o, off, n, write)
			}
			if write {
				if o.RO {
					st.memFault(fmt.Sprintf("write to read-only memory (%s)", o.Name))
				}
				if o.owner != st.id {
					o = st.own(o)
				}
				o.NoInit = false
			} else if o.NoInit {
				st.end(endUnsupported, "the initial value of "+o.Name+" is not modelled")
			}
			return o, off
		}
	}
	if n == 0 {
		return o, 0
	}
	if addr < 4096 {
		st.rtPanic("runtime error: invalid memory address or nil pointer dereference")
	}
	what := "read"
	if write {
		what = "write"
	}
	if o != nil {
		st.memFault(fmt.Sprintf("out-of-bounds %s of %d bytes at offset %d of object %q size %d", what, n, int64(addr-o.Base), o.Name, len(o.Data)))
	}
	st.memFault(fmt.Sprintf("wild %s at %#x", what, addr))
	return nil, 0
}

func (st *State) undefByte(o *Obj, off uint64) *Expr {
	st.undefN++
	e := st.b.Var(fmt.Sprintf("undef%d", st.undefN), 8)
	w := st.own(o)
	w.Sym[off] = symb{e, 0}
	return e
}

// byteExpr returns the expression of the byte at off, or nil when concrete.
func (st *State) byteExpr(o *Obj, off uint64) *Expr {
	if o.Sym == nil {
		return nil
	}
	s := o.Sym[off]
	if s.e == nil {
		return nil
	}
	if s.e == undefExpr {
		return st.undefByte(o, off)
	}
	if s.e.W == 8 {
		return s.e
	}
	return st.b.Extract(s.e, s.i*8+7, s.i*8)
}

func (st *State) loadBits(o *Obj, off uint64, size uint8) V {
	if o.Sym != nil {
		s0 := o.Sym[off]
		anySym := false
		if s0.e != nil && s0.i == 0 && s0.e.W == size*8 && s0.e != undefExpr {
			ok := true
			for k := uint8(1); k < size; k++ {
				if s := o.Sym[off+uint64(k)]; s.e != s0.e || s.i != k {
					ok = false
					break
				}
			}
			if ok {
				return V{e: s0.e}
			}
			anySym = true
		} else {
			for k := uint8(0); k < size; k++ {
				if o.Sym[off+uint64(k)].e != nil {
					anySym = true
					break
				}
			}
		}
		if anySym {
			var r *Expr
			for k := int(size) - 1; k >= 0; k-- {
				e := st.byteExpr(o, off+uint64(k))
				if oo := st.find(o.Base); oo != nil {
					o = oo // undefByte may have cloned
				}
				if e == nil {
					e = st.b.Const(uint64(o.Data[off+uint64(k)]), 8)
				}
				if r == nil {
					r = e
				} else {
					r = st.b.Concat(r, e)
				}
			}
			if r.isC() {
				return V{c: r.Val}
			}
			return V{e: r}
		}
	}
	d := o.Data[off:]
	switch size {
	case 1:
		return V{c: uint64(d[0])}
	case 2:
		return V{c: uint64(binary.LittleEndian.Uint16(d))}
	case 4:
		return V{c: uint64(binary.LittleEndian.Uint32(d))}
	case 8:
		return V{c: binary.LittleEndian.Uint64(d)}
	}
	panic("loadBits")
}

func (st *State) storeBits(o *Obj, off uint64, size uint8, v V) {
	if v.e != nil {
		if o.Sym == nil {
			o.Sym = make([]symb, len(o.Data))
		}
		for k := uint8(0); k < size; k++ {
			o.Sym[off+uint64(k)] = symb{v.e, k}
		}
		return
	}
	if o.Sym != nil {
		for k := uint8(0); k < size; k++ {
			o.Sym[off+uint64(k)] = symb{}
		}
	}
	d := o.Data[off:]
	switch size {
	case 1:
		d[0] = byte(v.c)
	case 2:
		binary.LittleEndian.PutUint16(d, uint16(v.c))
	case 4:
		binary.LittleEndian.PutUint32(d, uint32(v.c))
	case 8:
		binary.LittleEndian.PutUint64(d, v.c)
	}
}

func (st *State) loadLeaf(o *Obj, off uint64, lf *Leaf) V {
	v := st.loadBits(o, off, lf.Size)
	if lf.Kind == LBool {
		if v.e == nil {
			if v.c > 1 {
				st.memFault(fmt.Sprintf("invalid bool representation %#x", v.c))
			}
			return v
		}
		return st.boolFromByte(v.e)
	}
	return v
}

func (st *State) boolFromByte(e *Expr) V {
	if umax(e) > 1 {
		ok := st.b.Cmp(OUle, e, st.b.Const(1, 8))
		if !st.branch(V{e: ok}) {
			st.memFault("invalid bool representation (byte other than 0 or 1)")
		}
	}
	return st.mkBool(st.b.Cmp(OEq, e, st.b.Const(1, 8)))
}

func (st *State) storeLeaf(o *Obj, off uint64, lf *Leaf, v V) {
	if v.e != nil && lf.Kind == LBool {
		v = V{e: st.b.Ite(v.e, st.b.Const(1, 8), st.b.Const(0, 8))}
	}
	if lf.Kind == LPtr && st.lim.GCCheck {
		st.gcCheckStore(o, off, v)
	}
	st.storeBits(o, off, lf.Size, v)
}

// gcCheckStore reports a heap pointer stored where the collector would not see it.
func (st *State) gcCheckStore(o *Obj, off uint64, v V) {
	if v.e != nil || v.c < localBase || (!o.NoScan && o.PtrT == nil) {
		return
	}
	if v.c >= codeBase { // not heap
		return
	}
	if o.NoScan {
		st.memFault("heap pointer stored into memory the garbage collector does not scan")
	}
	if o.PtrT.Size > 0 {
		rel := uint32(off % uint64(o.PtrT.Size))
		for i := range o.PtrT.Leaves {
			if lf := &o.PtrT.Leaves[i]; lf.Off == rel && lf.Kind == LPtr {
				return
			}
		}
		st.memFault("heap pointer stored at a word the garbage collector treats as non-pointer")
	}
}

// Load reads a flattened value.
func (st *State) load(addr V, ti *TInfo, dst []V) {
	if addr.e != nil {
		st.loadSym(addr, ti, dst)
		return
	}
	if ti.Size == 0 {
		if addr.c < 4096 {
			st.rtPanic("runtime error: invalid memory address or nil pointer dereference")
		}
		return
	}
	if ti.big {
		st.end(endUnsupported, "load of huge array value")
	}
	o, off := st.objFor(addr.c, ti.Size, false)
	for i := range ti.Leaves {
		lf := &ti.Leaves[i]
		dst[i] = st.loadLeaf(o, off+uint64(lf.Off), lf)
		if o.Sym != nil {
			o = st.find(o.Base)
		}
	}
}

func (st *State) store(addr V, ti *TInfo, src []V) {
	a := addr.c
	if addr.e != nil {
		a = st.concAddr(addr, ti.Size)
	}
	if ti.Size == 0 {
		if a < 4096 {
			st.rtPanic("runtime error: invalid memory address or nil pointer dereference")
		}
		return
	}
	o, off := st.objFor(a, ti.Size, true)
	for i := range ti.Leaves {
		lf := &ti.Leaves[i]
		st.storeLeaf(o, off+uint64(lf.Off), lf, src[i])
	}
}

// concAddr concretises an address by forking over its feasible values.
func (st *State) concAddr(addr V, n int) uint64 {
	return st.conc(addr, 64, "address")
}

func (st *State) loadSym(addr V, ti *TInfo, dst []V) {
	e := addr.e
	// pick the object by the current model; fork if others are possible
	v := st.eval(e)
	o := st.find(v)
	if o == nil {
		st.conc(addr, 64, "address")
		st.memFault(fmt.Sprintf("wild read at %#x (symbolic address)", v))
	}
	n := uint64(ti.Size)
	if n == 0 {
		return
	}
	if uint64(len(o.Data)) < n {
		st.memFault("read past end of object (symbolic address)")
	}
	rel := st.b.Bin(OSub, e, st.b.Const(o.Base, 64))
	lim := uint64(len(o.Data)) - n
	if umax(rel) > lim {
		in := st.b.Cmp(OUle, rel, st.b.Const(lim, 64))
		if !st.branch(V{e: in}) {
			// address outside this object on this path: re-resolve
			nv := st.eval(e)
			if no := st.find(nv); no == nil || no == o {
				st.memFault(fmt.Sprintf("out-of-bounds read of %d bytes at offset %d of object %q size %d (symbolic address)", n, int64(nv-o.Base), o.Name, len(o.Data)))
			}
			st.loadSym(addr, ti, dst)
			return
		}
	}
	if rel.isC() {
		st.load(V{c: o.Base + rel.Val}, ti, dst)
		return
	}
	// candidate offsets
	stride := uint64(1)
	for stride < 4096 && rel.kz&stride != 0 {
		stride <<= 1
	}
	hi := umax(rel)
	if hi > lim {
		hi = lim
	}
	if es, ok := mulStride(rel); ok && es > stride {
		stride = es
	}
	if (ti.N != 1) || hi/stride > 70000 {
		a := st.conc(addr, 64, "address")
		st.load(V{c: a}, ti, dst)
		return
	}
	lf := &ti.Leaves[0]
	type grp struct {
		v    V
		cond *Expr
	}
	var groups []grp
	idx := map[V]int{}
	b := st.b
	// runs of equal values become range conditions
	var runStart, prev uint64
	var runV V
	have := false
	flush := func(end uint64) {
		if !have {
			return
		}
		var c *Expr
		if runStart == end {
			c = b.Cmp(OEq, rel, b.Const(runStart, 64))
		} else {
			c = b.BAnd(b.Cmp(OUle, b.Const(runStart, 64), rel), b.Cmp(OUle, rel, b.Const(end, 64)))
		}
		if c == b.F {
			return
		}
		if i, ok := idx[runV]; ok {
			groups[i].cond = b.BOr(groups[i].cond, c)
		} else {
			idx[runV] = len(groups)
			groups = append(groups, grp{runV, c})
		}
	}
	for off := uint64(0); off <= hi; off += stride {
		if off&rel.kz != 0 || rel.ko&^off != 0 {
			continue
		}
		x := st.loadBits(o, off+uint64(lf.Off), lf.Size)
		if have && x == runV {
			prev = off
			continue
		}
		flush(prev)
		runStart, runV, have, prev = off, x, true, off
	}
	flush(prev)
	if len(groups) == 0 {
		st.end(endInfeasible, "no candidate offset")
	}
	if lf.Kind == LPtr {
		for i, g := range groups {
			if i == len(groups)-1 || st.branch(V{e: g.cond}) {
				dst[0] = g.v
				return
			}
		}
	}
	w := lf.Size * 8
	// largest group last (as the default)
	var r *Expr
	for i := len(groups) - 1; i >= 0; i-- {
		ve := st.expr(groups[i].v, w)
		if r == nil {
			r = ve
		} else {
			r = b.Ite(groups[i].cond, ve, r)
		}
	}
	if lf.Kind == LBool {
		dst[0] = st.boolFromByte(r)
		return
	}
	dst[0] = st.mkV(r)
}

// mulStride recognises x*c (+k multiple of c).
func mulStride(e *Expr) (uint64, bool) {
	switch e.Op {
	case OMul:
		if e.B.isC() {
			return e.B.Val, true
		}
	case OShl:
		if e.B.isC() && e.B.Val < 32 {
			return 1 << e.B.Val, true
		}
	}
	return 0, false
}

// copyMem is memmove.
func (st *State) copyMem(dst, src uint64, n int) {
	if n == 0 || dst == src {
		return
	}
	so, soff := st.objFor(src, n, false)
	do, doff := st.objFor(dst, n, true)
	if so.Base == do.Base {
		so = do
	}
	if st.lim.GCCheck && (do.NoScan || do.PtrT != nil) && !so.NoScan {
		for k := uint64(0); k+8 <= uint64(n); k++ {
			if (doff+k)%8 == 0 && so.Sym == nil {
				w := binary.LittleEndian.Uint64(so.Data[soff+k:])
				if w >= localBase && w < codeBase && st.find(w) != nil && (so.PtrT != nil) {
					st.gcCheckStore(do, doff+k, V{c: w})
				}
			}
		}
	}
	if so.Sym != nil || do.Sym != nil {
		if do.Sym == nil {
			do.Sym = make([]symb, len(do.Data))
		}
		if so.Sym != nil {
			copy(do.Sym[doff:doff+uint64(n)], so.Sym[soff:soff+uint64(n)])
		} else {
			clear(do.Sym[doff : doff+uint64(n)])
		}
	}
	copy(do.Data[doff:doff+uint64(n)], so.Data[soff:soff+uint64(n)])
}

func (st *State) zeroMem(dst uint64, n int) {
	if n == 0 {
		return
	}
	o, off := st.objFor(dst, n, true)
	clear(o.Data[off : off+uint64(n)])
	if o.Sym != nil {
		clear(o.Sym[off : off+uint64(n)])
	}
}

// bytesAt reads n bytes as values.
func (st *State) bytesAt(addr uint64, n int) []V {
	if n == 0 {
		return nil
	}
	o, off := st.objFor(addr, n, false)
	out := make([]V, n)
	for i := range out {
		if o.Sym != nil {
			o = st.find(o.Base)
		}
		out[i] = st.loadBits(o, off+uint64(i), 1)
	}
	return out
}

func (st *State) newBytes(bs []V) uint64 {
	if len(bs) == 0 {
		return st.zeroBase()
	}
	o := st.alloc(len(bs), true)
	o.NoScan = true
	for i, v := range bs {
		st.storeBits(o, uint64(i), 1, v)
	}
	return o.Base
}

func (st *State) goString(ptr, n V) (string, bool) {
	l := int(st.conc(n, 64, "string length"))
	if l == 0 {
		return "", true
	}
	p := st.conc(ptr, 64, "string pointer")
	o, off := st.objFor(p, l, false)
	if o.Sym != nil {
		for i := 0; i < l; i++ {
			if o.Sym[off+uint64(i)].e != nil {
				return "", false
			}
		}
	}
	return string(o.Data[off : off+uint64(l)]), true
}

func (st *State) newString(s string) [2]V {
	if s == "" {
		return [2]V{}
	}
	o := st.alloc(len(s), true)
	copy(o.Data, s)
	o.RO = true
	o.Name = "string"
	return [2]V{{c: o.Base}, {c: uint64(len(s))}}
}
