// Package engine is a symbolic executor for Go programs in SSA form
// (golang.org/x/tools/go/ssa), with an SMT solver deciding every branch and
// every assertion over symbolic inputs.
package engine

import (
	"fmt"
	"math/bits"
	"strings"
	"sync"
)

type Op uint8

const (
	OConst Op = iota
	OVar
	OAdd
	OSub
	OMul
	OUDiv
	OURem
	OSDiv
	OSRem
	OAnd
	OOr
	OXor
	ONot
	OShl
	OLShr
	OAShr
	OConcat
	OExtract // a, hi=val>>8, lo=val&0xff
	OZExt
	OSExt
	OIte // a ? b : c
	// boolean valued (w == 0)
	OTrue
	OFalse
	OBVar
	OEq // over bit-vectors
	OUlt
	OUle
	OSlt
	OSle
	OBNot
	OBAnd
	OBOr
)

// Expr is a hash-consed bit-vector (W>0) or boolean (W==0) term.
type Expr struct {
	Op      Op
	W       uint8
	Val     uint64 // constant value / extract bounds / var id
	A, B, C *Expr
	id      uint32
	kz, ko  uint64 // known zero / known one bits (bit-vectors)
	vars    *varset
	size    uint32 // approximate dag size (capped)

	evGen uint32
	evVal uint64
}

type varset struct {
	ids []uint64 // bitset
}

func (v *varset) has(i int) bool {
	return v != nil && i>>6 < len(v.ids) && v.ids[i>>6]&(1<<(uint(i)&63)) != 0
}

func unionVars(a, b *varset) *varset {
	if a == nil || a == b {
		return b
	}
	if b == nil {
		return a
	}
	if len(a.ids) < len(b.ids) {
		a, b = b, a
	}
	sub := true
	for i, x := range b.ids {
		if x&^a.ids[i] != 0 {
			sub = false
			break
		}
	}
	if sub {
		return a
	}
	r := &varset{ids: append([]uint64(nil), a.ids...)}
	for i, x := range b.ids {
		r.ids[i] |= x
	}
	return r
}

func intersects(a, b *varset) bool {
	if a == nil || b == nil {
		return false
	}
	n := len(a.ids)
	if len(b.ids) < n {
		n = len(b.ids)
	}
	for i := 0; i < n; i++ {
		if a.ids[i]&b.ids[i] != 0 {
			return true
		}
	}
	return false
}

type exprKey struct {
	op      Op
	w       uint8
	val     uint64
	a, b, c uint32
}

// Builder creates hash-consed expressions. Not safe for concurrent use.
type Builder struct {
	tab    map[exprKey]*Expr
	nextID uint32
	vt     *VarTable
	byName map[string]*Expr
	T, F   *Expr
	evGen  uint32
}

// VarTable numbers variables consistently across builders.
type VarTable struct {
	mu    sync.Mutex
	ids   map[string]int
	names []string
	ws    []uint8
}

func NewVarTable() *VarTable { return &VarTable{ids: map[string]int{}} }

func (t *VarTable) id(name string, w uint8) int {
	t.mu.Lock()
	defer t.mu.Unlock()
	if i, ok := t.ids[name]; ok {
		return i
	}
	i := len(t.names)
	t.ids[name] = i
	t.names = append(t.names, name)
	t.ws = append(t.ws, w)
	return i
}

func (t *VarTable) width(id int) uint8 {
	t.mu.Lock()
	defer t.mu.Unlock()
	return t.ws[id]
}

func NewBuilder(vt *VarTable) *Builder {
	b := &Builder{tab: map[exprKey]*Expr{}, byName: map[string]*Expr{}, nextID: 1, vt: vt}
	b.T = b.mk(OTrue, 0, 0, nil, nil, nil)
	b.F = b.mk(OFalse, 0, 0, nil, nil, nil)
	return b
}

func eid(e *Expr) uint32 {
	if e == nil {
		return 0
	}
	return e.id
}

func mask(w uint8) uint64 {
	if w >= 64 {
		return ^uint64(0)
	}
	return (1 << w) - 1
}

func (b *Builder) mk(op Op, w uint8, val uint64, x, y, z *Expr) *Expr {
	k := exprKey{op, w, val, eid(x), eid(y), eid(z)}
	if e := b.tab[k]; e != nil {
		return e
	}
	e := &Expr{Op: op, W: w, Val: val, A: x, B: y, C: z, id: b.nextID}
	b.nextID++
	sz := uint64(1)
	for _, c := range []*Expr{x, y, z} {
		if c != nil {
			e.vars = unionVars(e.vars, c.vars)
			sz += uint64(c.size)
		}
	}
	if sz > 1<<30 {
		sz = 1 << 30
	}
	e.size = uint32(sz)
	if w > 0 {
		b.known(e)
	}
	b.tab[k] = e
	return e
}

func (b *Builder) known(e *Expr) {
	m := mask(e.W)
	switch e.Op {
	case OConst:
		e.ko = e.Val
		e.kz = ^e.Val
	case OAnd:
		e.ko = e.A.ko & e.B.ko
		e.kz = e.A.kz | e.B.kz
	case OOr:
		e.ko = e.A.ko | e.B.ko
		e.kz = e.A.kz & e.B.kz
	case OXor:
		k := (e.A.kz | e.A.ko) & (e.B.kz | e.B.ko)
		v := e.A.ko ^ e.B.ko
		e.ko = k & v
		e.kz = k &^ v
	case ONot:
		e.ko = e.A.kz & m
		e.kz = e.A.ko
	case OShl:
		if e.B.Op == OConst {
			s := e.B.Val
			if s < 64 {
				e.ko = e.A.ko << s
				e.kz = e.A.kz<<s | (1<<s - 1)
			}
		}
	case OLShr:
		if e.B.Op == OConst {
			s := e.B.Val
			if s < 64 {
				e.ko = (e.A.ko & m) >> s
				e.kz = (e.A.kz|^m)>>s | ^(^uint64(0) >> s)
			}
		}
	case OConcat:
		e.ko = e.A.ko<<e.B.W | e.B.ko
		e.kz = (e.A.kz&mask(e.A.W))<<e.B.W | (e.B.kz & mask(e.B.W))
	case OExtract:
		lo := e.Val & 0xff
		e.ko = e.A.ko >> lo
		e.kz = e.A.kz >> lo
	case OZExt:
		e.ko = e.A.ko
		e.kz = e.A.kz | ^mask(e.A.W)
	case OSExt:
		sb := uint64(1) << (e.A.W - 1)
		e.ko = e.A.ko
		e.kz = e.A.kz & mask(e.A.W)
		if e.A.ko&sb != 0 {
			e.ko |= ^mask(e.A.W)
		} else if e.A.kz&sb != 0 {
			e.kz |= ^mask(e.A.W)
		}
	case OIte:
		e.ko = e.B.ko & e.C.ko
		e.kz = e.B.kz & e.C.kz
	case OAdd:
		// low bits known on both sides
		n := bits.TrailingZeros64(^((e.A.kz | e.A.ko) & (e.B.kz | e.B.ko)))
		lm := mask(uint8(n))
		if n == 0 {
			lm = 0
		}
		v := (e.A.ko + e.B.ko) & lm
		e.ko = v
		e.kz = ^v & lm
		// upper bound
		ua, ub := umax(e.A), umax(e.B)
		s, c := bits.Add64(ua, ub, 0)
		if c == 0 && s <= m {
			e.kz |= ^mask(uint8(bits.Len64(s)))
			if bits.Len64(s) == 0 {
				e.kz = ^uint64(0)
			}
		}
	case OMul:
		hi, lo := bits.Mul64(umax(e.A), umax(e.B))
		if hi == 0 && lo <= m {
			if l := bits.Len64(lo); l < 64 {
				e.kz |= ^mask0(l)
			}
		}
		tz := bits.TrailingZeros64(^(e.A.kz)) + bits.TrailingZeros64(^(e.B.kz))
		if tz > 64 {
			tz = 64
		}
		e.kz |= mask0(tz)
	case OUDiv:
		if e.B.Op == OConst && e.B.Val > 0 {
			e.kz |= ^mask0(bits.Len64(umax(e.A) / e.B.Val))
		}
	case OURem:
		if e.B.Op == OConst && e.B.Val > 0 {
			e.kz |= ^mask0(bits.Len64(e.B.Val - 1))
		}
	}
	e.ko &= m
	e.kz |= ^m
}

func mask0(n int) uint64 {
	if n <= 0 {
		return 0
	}
	return mask(uint8(n))
}

func umax(e *Expr) uint64 { return ^e.kz }
func umin(e *Expr) uint64 { return e.ko }

func (b *Builder) Const(v uint64, w uint8) *Expr {
	return b.mk(OConst, w, v&mask(w), nil, nil, nil)
}

func (b *Builder) Bool(v bool) *Expr {
	if v {
		return b.T
	}
	return b.F
}

// Var returns the variable with the given name (w==0: boolean).
func (b *Builder) Var(name string, w uint8) *Expr {
	if e := b.byName[name]; e != nil {
		if e.W != w {
			panic("var width mismatch " + name)
		}
		return e
	}
	id := b.vt.id(name, w)
	op := OVar
	if w == 0 {
		op = OBVar
	}
	e := b.mk(op, w, uint64(id), nil, nil, nil)
	e.vars = &varset{ids: make([]uint64, id/64+1)}
	e.vars.ids[id>>6] |= 1 << (uint(id) & 63)
	b.byName[name] = e
	return e
}

func (e *Expr) isC() bool { return e.Op == OConst }

func sext(v uint64, w uint8) int64 {
	if w >= 64 {
		return int64(v)
	}
	s := 64 - w
	return int64(v<<s) >> s
}

func evalBin(op Op, w uint8, x, y uint64) uint64 {
	m := mask(w)
	switch op {
	case OAdd:
		return (x + y) & m
	case OSub:
		return (x - y) & m
	case OMul:
		return (x * y) & m
	case OUDiv:
		if y == 0 {
			return m
		}
		return x / y
	case OURem:
		if y == 0 {
			return x
		}
		return x % y
	case OSDiv:
		sx, sy := sext(x, w), sext(y, w)
		if sy == 0 {
			if sx >= 0 {
				return m
			}
			return 1
		}
		if sy == -1 {
			return uint64(-sx) & m
		}
		return uint64(sx/sy) & m
	case OSRem:
		sx, sy := sext(x, w), sext(y, w)
		if sy == 0 {
			return x
		}
		if sy == -1 {
			return 0
		}
		return uint64(sx%sy) & m
	case OAnd:
		return x & y
	case OOr:
		return x | y
	case OXor:
		return x ^ y
	case OShl:
		if y >= uint64(w) {
			return 0
		}
		return (x << y) & m
	case OLShr:
		if y >= uint64(w) {
			return 0
		}
		return x >> y
	case OAShr:
		s := y
		if s >= uint64(w) {
			s = uint64(w) - 1
		}
		return uint64(sext(x, w)>>s) & m
	}
	panic("evalBin")
}

func evalCmp(op Op, w uint8, x, y uint64) bool {
	switch op {
	case OEq:
		return x == y
	case OUlt:
		return x < y
	case OUle:
		return x <= y
	case OSlt:
		return sext(x, w) < sext(y, w)
	case OSle:
		return sext(x, w) <= sext(y, w)
	}
	panic("evalCmp")
}

// Bin builds a binary bit-vector operation.
func (b *Builder) Bin(op Op, x, y *Expr) *Expr {
	if x.W != y.W {
		panic(fmt.Sprintf("Bin width mismatch op=%d %d %d", op, x.W, y.W))
	}
	w := x.W
	if x.isC() && y.isC() {
		return b.Const(evalBin(op, w, x.Val, y.Val), w)
	}
	switch op {
	case OAdd, OMul, OAnd, OOr, OXor:
		if x.isC() || (!y.isC() && x.id > y.id) { // constants to the right
			x, y = y, x
		}
	}
	m := mask(w)
	switch op {
	case OAdd:
		if y.isC() {
			if y.Val == 0 {
				return x
			}
			if x.Op == OAdd && x.B.isC() {
				return b.Bin(OAdd, x.A, b.Const(x.B.Val+y.Val, w))
			}
		} else {
			// float constants outward: (a+c)+b -> (a+b)+c
			if x.Op == OAdd && x.B.isC() {
				return b.Bin(OAdd, b.Bin(OAdd, x.A, y), x.B)
			}
			if y.Op == OAdd && y.B.isC() {
				return b.Bin(OAdd, b.Bin(OAdd, x, y.A), y.B)
			}
			if umax(x)&umax(y) == 0 { // disjoint bits
				return b.Bin(OOr, x, y)
			}
		}
	case OSub:
		if y.isC() {
			return b.Bin(OAdd, x, b.Const(-y.Val, w))
		}
		if x == y {
			return b.Const(0, w)
		}
		if x.Op == OAdd && x.B.isC() && !y.isC() {
			return b.Bin(OAdd, b.Bin(OSub, x.A, y), x.B)
		}
		if x.Op == OAdd && x.A == y {
			return x.B
		}
		if x.Op == OAdd && x.B == y {
			return x.A
		}
		if y.Op == OAdd && y.B.isC() {
			return b.Bin(OAdd, b.Bin(OSub, x, y.A), b.Const(-y.B.Val, w))
		}
	case OMul:
		if y.isC() {
			switch {
			case y.Val == 0:
				return y
			case y.Val == 1:
				return x
			case bits.OnesCount64(y.Val) == 1:
				return b.Bin(OShl, x, b.Const(uint64(bits.TrailingZeros64(y.Val)), w))
			}
		}
	case OUDiv:
		if y.isC() && y.Val == 1 {
			return x
		}
		if y.isC() && bits.OnesCount64(y.Val) == 1 {
			return b.Bin(OLShr, x, b.Const(uint64(bits.TrailingZeros64(y.Val)), w))
		}
		if y.isC() && y.Val != 0 && umax(x) < y.Val {
			return b.Const(0, w)
		}
	case OURem:
		if y.isC() && bits.OnesCount64(y.Val) == 1 {
			return b.Bin(OAnd, x, b.Const(y.Val-1, w))
		}
		if y.isC() && y.Val != 0 && umax(x) < y.Val {
			return x
		}
	case OSDiv, OSRem:
		sb := uint64(1) << (w - 1)
		if x.kz&sb != 0 && y.kz&sb != 0 {
			if op == OSDiv {
				return b.Bin(OUDiv, x, y)
			}
			return b.Bin(OURem, x, y)
		}
	case OAnd:
		if x == y {
			return x
		}
		if y.isC() {
			if y.Val == 0 {
				return y
			}
			if (^x.kz)&^y.Val == 0 { // mask keeps every possibly-set bit
				return x
			}
			if x.Op == OAnd && x.B.isC() {
				return b.Bin(OAnd, x.A, b.Const(x.B.Val&y.Val, w))
			}
			if x.Op == OOr { // drop irrelevant side
				if umax(x.A)&y.Val == 0 {
					return b.Bin(OAnd, x.B, y)
				}
				if umax(x.B)&y.Val == 0 {
					return b.Bin(OAnd, x.A, y)
				}
			}
			if x.Op == OZExt {
				return b.ZExt(b.Bin(OAnd, x.A, b.Const(y.Val&mask(x.A.W), x.A.W)), w)
			}
			if x.Op == OConcat {
				return b.Concat(b.Bin(OAnd, x.A, b.Const(y.Val>>x.B.W, x.A.W)), b.Bin(OAnd, x.B, b.Const(y.Val, x.B.W)))
			}
		}
	case OOr:
		if x == y {
			return x
		}
		if y.isC() {
			if y.Val == 0 {
				return x
			}
			if y.Val == m {
				return y
			}
			if x.Op == OOr && x.B.isC() {
				return b.Bin(OOr, x.A, b.Const(x.B.Val|y.Val, w))
			}
			if y.Val&^x.ko == 0 {
				return x
			}
		} else if x.Op == OOr && x.B.isC() {
			return b.Bin(OOr, b.Bin(OOr, x.A, y), x.B)
		}
	case OXor:
		if x == y {
			return b.Const(0, w)
		}
		if y.isC() {
			if y.Val == 0 {
				return x
			}
			if y.Val == m {
				return b.Not(x)
			}
			if x.Op == OXor && x.B.isC() {
				return b.Bin(OXor, x.A, b.Const(x.B.Val^y.Val, w))
			}
		}
	case OShl, OLShr, OAShr:
		if y.isC() {
			if y.Val == 0 {
				return x
			}
			if op == OAShr && x.kz&(1<<(w-1)) != 0 {
				return b.Bin(OLShr, x, y)
			}
			if y.Val >= uint64(w) && op != OAShr {
				return b.Const(0, w)
			}
			if op == OLShr {
				if umax(x)>>y.Val == 0 {
					return b.Const(0, w)
				}
				if x.Op == OLShr && x.B.isC() {
					return b.Bin(OLShr, x.A, b.Const(satAdd(x.B.Val, y.Val), w))
				}
				if x.Op == OShl && x.B.isC() && x.B.Val == y.Val {
					return b.Bin(OAnd, x.A, b.Const(m>>y.Val, w))
				}
				if x.Op == OConcat && y.Val >= uint64(x.B.W) {
					return b.ZExt(b.Bin(OLShr, x.A, b.Const(y.Val-uint64(x.B.W), x.A.W)), w)
				}
				if x.Op == OZExt && y.Val < uint64(x.A.W) {
					return b.ZExt(b.Bin(OLShr, x.A, b.Const(y.Val, x.A.W)), w)
				}
			}
			if op == OShl {
				if x.Op == OShl && x.B.isC() {
					return b.Bin(OShl, x.A, b.Const(satAdd(x.B.Val, y.Val), w))
				}
				if (umax(x)<<y.Val)&m == 0 {
					return b.Const(0, w)
				}
			}
		}
	}
	if x.isC() && x.Val == 0 {
		switch op {
		case OShl, OLShr, OAShr, OURem, OSRem:
			if op != OURem && op != OSRem {
				return x
			}
		}
	}
	// push constants into ite of constants
	if y.isC() && x.Op == OIte && x.B.isC() && x.C.isC() {
		return b.Ite(x.A, b.Const(evalBin(op, w, x.B.Val, y.Val), w), b.Const(evalBin(op, w, x.C.Val, y.Val), w))
	}
	e := b.mk(op, w, 0, x, y, nil)
	if e.kz|e.ko == ^uint64(0) {
		return b.Const(e.ko, w)
	}
	return e
}

func satAdd(a, b uint64) uint64 {
	s := a + b
	if s < a || s > 200 {
		return 200
	}
	return s
}

func (b *Builder) Not(x *Expr) *Expr {
	if x.isC() {
		return b.Const(^x.Val, x.W)
	}
	if x.Op == ONot {
		return x.A
	}
	return b.mk(ONot, x.W, 0, x, nil, nil)
}

func (b *Builder) Extract(x *Expr, hi, lo uint8) *Expr {
	w := hi - lo + 1
	if w == x.W {
		return x
	}
	if x.isC() {
		return b.Const(x.Val>>lo, w)
	}
	switch x.Op {
	case OExtract:
		l := uint8(x.Val & 0xff)
		return b.Extract(x.A, hi+l, lo+l)
	case OConcat:
		bw := x.B.W
		if lo >= bw {
			return b.Extract(x.A, hi-bw, lo-bw)
		}
		if hi < bw {
			return b.Extract(x.B, hi, lo)
		}
		return b.Concat(b.Extract(x.A, hi-bw, 0), b.Extract(x.B, bw-1, lo))
	case OZExt:
		aw := x.A.W
		if lo >= aw {
			return b.Const(0, w)
		}
		if hi < aw {
			return b.Extract(x.A, hi, lo)
		}
		return b.ZExt(b.Extract(x.A, aw-1, lo), w)
	case OSExt:
		if hi < x.A.W {
			return b.Extract(x.A, hi, lo)
		}
		if lo == 0 {
			return b.SExt(x.A, w)
		}
	case OAnd, OOr, OXor:
		return b.Bin(x.Op, b.Extract(x.A, hi, lo), b.Extract(x.B, hi, lo))
	case ONot:
		return b.Not(b.Extract(x.A, hi, lo))
	case OLShr:
		if x.B.isC() && uint64(hi)+x.B.Val < uint64(x.W) {
			s := uint8(x.B.Val)
			return b.Extract(x.A, hi+s, lo+s)
		}
	case OShl:
		if x.B.isC() && x.B.Val <= uint64(lo) {
			s := uint8(x.B.Val)
			return b.Extract(x.A, hi-s, lo-s)
		}
		if x.B.isC() && lo == 0 {
			return b.Bin(OShl, b.Extract(x.A, hi, 0), b.Const(min(x.B.Val, 200), w))
		}
	case OAdd, OSub, OMul:
		if lo == 0 {
			return b.Bin(x.Op, b.Extract(x.A, hi, 0), b.Extract(x.B, hi, 0))
		}
	case OIte:
		if x.B.isC() || x.C.isC() {
			return b.Ite(x.A, b.Extract(x.B, hi, lo), b.Extract(x.C, hi, lo))
		}
	}
	e := b.mk(OExtract, w, uint64(hi)<<8|uint64(lo), x, nil, nil)
	if e.kz|e.ko == ^uint64(0) {
		return b.Const(e.ko, w)
	}
	return e
}

// Concat builds hi:lo.
func (b *Builder) Concat(hi, lo *Expr) *Expr {
	w := hi.W + lo.W
	if w > 64 {
		panic("concat too wide")
	}
	if hi.isC() && lo.isC() {
		return b.Const(hi.Val<<lo.W|lo.Val, w)
	}
	if hi.isC() && hi.Val == 0 {
		return b.ZExt(lo, w)
	}
	if hi.Op == OExtract && lo.Op == OExtract && hi.A == lo.A {
		if uint8(hi.Val&0xff) == uint8(lo.Val>>8)+1 {
			return b.Extract(hi.A, uint8(hi.Val>>8), uint8(lo.Val&0xff))
		}
	}
	if lo.Op == OConcat && hi.Op == OExtract && lo.A.Op == OExtract && lo.A.A == hi.A && uint8(hi.Val&0xff) == uint8(lo.A.Val>>8)+1 {
		return b.Concat(b.Extract(hi.A, uint8(hi.Val>>8), uint8(lo.A.Val&0xff)), lo.B)
	}
	if hi.Op == OZExt {
		return b.ZExt(b.Concat(hi.A, lo), w)
	}
	return b.mk(OConcat, w, 0, hi, lo, nil)
}

func (b *Builder) ZExt(x *Expr, w uint8) *Expr {
	if x.W == w {
		return x
	}
	if x.isC() {
		return b.Const(x.Val, w)
	}
	if x.Op == OZExt {
		x = x.A
	}
	if x.Op == OIte && x.B.isC() && x.C.isC() {
		return b.Ite(x.A, b.Const(x.B.Val, w), b.Const(x.C.Val, w))
	}
	return b.mk(OZExt, w, 0, x, nil, nil)
}

func (b *Builder) SExt(x *Expr, w uint8) *Expr {
	if x.W == w {
		return x
	}
	if x.isC() {
		return b.Const(uint64(sext(x.Val, x.W)), w)
	}
	if x.kz&(1<<(x.W-1)) != 0 {
		return b.ZExt(x, w)
	}
	if x.Op == OSExt {
		x = x.A
	}
	return b.mk(OSExt, w, 0, x, nil, nil)
}

func (b *Builder) Ite(c, x, y *Expr) *Expr {
	if c == b.T {
		return x
	}
	if c == b.F {
		return y
	}
	if x == y {
		return x
	}
	if x.W == 0 {
		return b.BOr(b.BAnd(c, x), b.BAnd(b.BNot(c), y))
	}
	if c.Op == OBNot {
		return b.Ite(c.A, y, x)
	}
	if x.Op == OIte && x.A == c {
		x = x.B
	}
	if y.Op == OIte && y.A == c {
		y = y.C
	}
	if x == y {
		return x
	}
	return b.mk(OIte, x.W, 0, c, x, y)
}

// Cmp builds a comparison.
func (b *Builder) Cmp(op Op, x, y *Expr) *Expr {
	if x.W != y.W {
		panic(fmt.Sprintf("Cmp width mismatch op=%d %d %d", op, x.W, y.W))
	}
	w := x.W
	if x.isC() && y.isC() {
		return b.Bool(evalCmp(op, w, x.Val, y.Val))
	}
	if x == y {
		return b.Bool(op == OEq || op == OUle || op == OSle)
	}
	if op == OSlt || op == OSle {
		sb := uint64(1) << (w - 1)
		if x.kz&sb != 0 && y.kz&sb != 0 {
			if op == OSlt {
				op = OUlt
			} else {
				op = OUle
			}
		} else if x.kz&sb != 0 && y.ko&sb != 0 {
			return b.F
		} else if x.ko&sb != 0 && y.kz&sb != 0 {
			return b.T
		}
	}
	switch op {
	case OEq:
		if x.isC() || (!y.isC() && x.id > y.id) {
			x, y = y, x
		}
		if x.ko&y.kz != 0 || x.kz&y.ko != 0 {
			return b.F
		}
		if y.isC() {
			switch x.Op {
			case OIte:
				if x.B.isC() && x.C.isC() {
					if x.B.Val == y.Val {
						return x.A // x.C differs (b != c)
					}
					if x.C.Val == y.Val {
						return b.BNot(x.A)
					}
					return b.F
				}
				if x.B.isC() {
					if x.B.Val == y.Val {
						return b.BOr(x.A, b.Cmp(OEq, x.C, y))
					}
					return b.BAnd(b.BNot(x.A), b.Cmp(OEq, x.C, y))
				}
				if x.C.isC() {
					if x.C.Val == y.Val {
						return b.BOr(b.BNot(x.A), b.Cmp(OEq, x.B, y))
					}
					return b.BAnd(x.A, b.Cmp(OEq, x.B, y))
				}
			case OZExt:
				return b.Cmp(OEq, x.A, b.Const(y.Val, x.A.W))
			case OSExt:
				// ko/kz clash already excluded; compare low part only if the sign fits
				if uint64(sext(y.Val&mask(x.A.W), x.A.W))&mask(w) == y.Val {
					return b.Cmp(OEq, x.A, b.Const(y.Val, x.A.W))
				}
				return b.F
			case OAdd:
				if x.B.isC() {
					return b.Cmp(OEq, x.A, b.Const(y.Val-x.B.Val, w))
				}
			case OXor:
				if x.B.isC() {
					return b.Cmp(OEq, x.A, b.Const(y.Val^x.B.Val, w))
				}
			case ONot:
				return b.Cmp(OEq, x.A, b.Const(^y.Val, w))
			case OConcat:
				return b.BAnd(b.Cmp(OEq, x.A, b.Const(y.Val>>x.B.W, x.A.W)), b.Cmp(OEq, x.B, b.Const(y.Val, x.B.W)))
			case OOr:
				if x.B.isC() {
					// x.A | c == y : bits of c are set in y (else clash) -> (x.A & ~c) == y & ~c
					return b.Cmp(OEq, b.Bin(OAnd, x.A, b.Const(^x.B.Val, w)), b.Const(y.Val&^x.B.Val, w))
				}
			case OShl:
				if x.B.isC() && x.B.Val < uint64(w) {
					k := uint8(x.B.Val)
					if y.Val&mask0(int(k)) != 0 {
						return b.F
					}
					return b.Cmp(OEq, b.Extract(x.A, w-1-k, 0), b.Const(y.Val>>k, w-k))
				}
			}
		} else {
			if x.Op == OZExt && y.Op == OZExt && x.A.W == y.A.W {
				return b.Cmp(OEq, x.A, y.A)
			}
			if x.Op == OSExt && y.Op == OSExt && x.A.W == y.A.W {
				return b.Cmp(OEq, x.A, y.A)
			}
			if x.Op == OAdd && y.Op == OAdd && x.B.isC() && y.B.isC() && x.B == y.B {
				return b.Cmp(OEq, x.A, y.A)
			}
		}
	case OUlt:
		if umax(x) < umin(y) {
			return b.T
		}
		if umin(x) >= umax(y) {
			return b.F
		}
		if y.isC() && y.Val == 1 {
			return b.Cmp(OEq, x, b.Const(0, w))
		}
		if x.isC() && x.Val == 0 {
			return b.BNot(b.Cmp(OEq, y, x))
		}
		if x.Op == OZExt && y.Op == OZExt && x.A.W == y.A.W {
			return b.Cmp(op, x.A, y.A)
		}
		if x.Op == OZExt && y.isC() {
			if y.Val <= mask(x.A.W) {
				return b.Cmp(op, x.A, b.Const(y.Val, x.A.W))
			}
			return b.T
		}
		if y.Op == OZExt && x.isC() {
			if x.Val <= mask(y.A.W) {
				return b.Cmp(op, b.Const(x.Val, y.A.W), y.A)
			}
			return b.F
		}
	case OUle:
		return b.BNot(b.Cmp(OUlt, y, x))
	case OSle:
		return b.BNot(b.Cmp(OSlt, y, x))
	case OSlt:
		if x.Op == OSExt && y.Op == OSExt && x.A.W == y.A.W {
			return b.Cmp(op, x.A, y.A)
		}
	}
	if x.Op == OIte && y.isC() && x.B.isC() && x.C.isC() {
		return b.Ite(x.A, b.Bool(evalCmp(op, w, x.B.Val, y.Val)), b.Bool(evalCmp(op, w, x.C.Val, y.Val)))
	}
	return b.mk(op, 0, 0, x, y, nil)
}

func (b *Builder) BNot(x *Expr) *Expr {
	switch x.Op {
	case OTrue:
		return b.F
	case OFalse:
		return b.T
	case OBNot:
		return x.A
	}
	return b.mk(OBNot, 0, 0, x, nil, nil)
}

func (b *Builder) BAnd(x, y *Expr) *Expr {
	if x == b.F || y == b.F {
		return b.F
	}
	if x == b.T || x == y {
		return y
	}
	if y == b.T {
		return x
	}
	if (x.Op == OBNot && x.A == y) || (y.Op == OBNot && y.A == x) {
		return b.F
	}
	if x.id > y.id {
		x, y = y, x
	}
	return b.mk(OBAnd, 0, 0, x, y, nil)
}

func (b *Builder) BOr(x, y *Expr) *Expr {
	if x == b.T || y == b.T {
		return b.T
	}
	if x == b.F || x == y {
		return y
	}
	if y == b.F {
		return x
	}
	if (x.Op == OBNot && x.A == y) || (y.Op == OBNot && y.A == x) {
		return b.T
	}
	if x.id > y.id {
		x, y = y, x
	}
	return b.mk(OBOr, 0, 0, x, y, nil)
}

// Eval evaluates e under the model (var id -> value); booleans are 0/1.
// NewEval must be called whenever the model changes.
func (b *Builder) NewEval() { b.evGen++ }

func (b *Builder) Eval(e *Expr, m []uint64) uint64 {
	switch e.Op {
	case OConst:
		return e.Val
	case OTrue:
		return 1
	case OFalse:
		return 0
	case OVar, OBVar:
		if int(e.Val) < len(m) {
			return m[e.Val]
		}
		return 0
	}
	if e.evGen == b.evGen {
		return e.evVal
	}
	var r uint64
	switch e.Op {
	case ONot:
		r = ^b.Eval(e.A, m) & mask(e.W)
	case OConcat:
		r = b.Eval(e.A, m)<<e.B.W | b.Eval(e.B, m)
	case OExtract:
		r = (b.Eval(e.A, m) >> (e.Val & 0xff)) & mask(e.W)
	case OZExt:
		r = b.Eval(e.A, m)
	case OSExt:
		r = uint64(sext(b.Eval(e.A, m), e.A.W)) & mask(e.W)
	case OIte:
		if b.Eval(e.A, m) != 0 {
			r = b.Eval(e.B, m)
		} else {
			r = b.Eval(e.C, m)
		}
	case OEq, OUlt, OUle, OSlt, OSle:
		if evalCmp(e.Op, e.A.W, b.Eval(e.A, m), b.Eval(e.B, m)) {
			r = 1
		}
	case OBNot:
		r = 1 - b.Eval(e.A, m)
	case OBAnd:
		r = b.Eval(e.A, m)
		if r != 0 {
			r = b.Eval(e.B, m)
		}
	case OBOr:
		r = b.Eval(e.A, m)
		if r == 0 {
			r = b.Eval(e.B, m)
		}
	default:
		r = evalBin(e.Op, e.W, b.Eval(e.A, m), b.Eval(e.B, m))
	}
	e.evGen, e.evVal = b.evGen, r
	return r
}

var smtNames = map[Op]string{
	OAdd: "bvadd", OSub: "bvsub", OMul: "bvmul", OUDiv: "bvudiv", OURem: "bvurem",
	OSDiv: "bvsdiv", OSRem: "bvsrem", OAnd: "bvand", OOr: "bvor", OXor: "bvxor",
	ONot: "bvnot", OShl: "bvshl", OLShr: "bvlshr", OAShr: "bvashr", OConcat: "concat",
	OIte: "ite", OEq: "=", OUlt: "bvult", OUle: "bvule", OSlt: "bvslt", OSle: "bvsle",
	OBNot: "not", OBAnd: "and", OBOr: "or",
}

// SMT renders e as an SMT-LIB2 term with let-bound shared subterms.
func (b *Builder) SMT(sb *strings.Builder, e *Expr) {
	cnt := map[*Expr]int{}
	var order []*Expr
	var walk func(x *Expr)
	walk = func(x *Expr) {
		if x == nil || x.A == nil {
			return
		}
		cnt[x]++
		if cnt[x] > 1 {
			return
		}
		walk(x.A)
		walk(x.B)
		walk(x.C)
		order = append(order, x)
	}
	walk(e)
	named := map[*Expr]string{}
	var put func(x *Expr, top bool)
	put = func(x *Expr, top bool) {
		if !top {
			if n, ok := named[x]; ok {
				sb.WriteString(n)
				return
			}
		}
		switch x.Op {
		case OConst:
			fmt.Fprintf(sb, "(_ bv%d %d)", x.Val, x.W)
		case OVar, OBVar:
			sb.WriteString(b.smtVar(int(x.Val)))
		case OTrue:
			sb.WriteString("true")
		case OFalse:
			sb.WriteString("false")
		case OExtract:
			fmt.Fprintf(sb, "((_ extract %d %d) ", x.Val>>8, x.Val&0xff)
			put(x.A, false)
			sb.WriteByte(')')
		case OZExt, OSExt:
			n := "zero_extend"
			if x.Op == OSExt {
				n = "sign_extend"
			}
			fmt.Fprintf(sb, "((_ %s %d) ", n, x.W-x.A.W)
			put(x.A, false)
			sb.WriteByte(')')
		default:
			sb.WriteByte('(')
			sb.WriteString(smtNames[x.Op])
			for _, c := range []*Expr{x.A, x.B, x.C} {
				if c != nil {
					sb.WriteByte(' ')
					put(c, false)
				}
			}
			sb.WriteByte(')')
		}
	}
	lets := 0
	for _, x := range order {
		if cnt[x] > 1 && x != e {
			fmt.Fprintf(sb, "(let ((s%d ", x.id)
			put(x, true)
			sb.WriteString(")) ")
			named[x] = fmt.Sprintf("s%d", x.id)
			lets++
		}
	}
	put(e, false)
	for i := 0; i < lets; i++ {
		sb.WriteByte(')')
	}
}

func (b *Builder) smtVar(id int) string { return fmt.Sprintf("v%d", id) }

// Size is the number of live nodes.
func (b *Builder) Size() int { return int(b.nextID) }
