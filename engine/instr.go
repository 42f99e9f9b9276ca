package engine

import (
	"fmt"
	"go/token"
	"go/types"
	"math"

	"golang.org/x/tools/go/ssa"
)

func (c *compiler) instr(in ssa.Instruction) instr {
	p := c.p
	var d opnd
	if v, ok := in.(ssa.Value); ok {
		d = c.slots[v]
	}
	ds := d.slot
	switch in := in.(type) {
	case *ssa.Alloc:
		ti := p.layout.get(in.Type().Underlying().(*types.Pointer).Elem())
		return func(fr *Frame) {
			fr.r[ds] = V{c: fr.st.allocT(ti, 1)}
		}
	case *ssa.BinOp:
		return c.binop(in, ds)
	case *ssa.UnOp:
		return c.unop(in, d)
	case *ssa.ChangeType:
		x := c.val(in.X)
		return func(fr *Frame) { copy(fr.r[ds:], fr.get(&x)) }
	case *ssa.ChangeInterface:
		x := c.val(in.X)
		it := in.Type()
		return func(fr *Frame) {
			v := fr.get(&x)
			a, b := v[0], v[1]
			if t := fr.st.dynType(a); t != nil {
				a = V{c: p.ifaceWord(it, t)}
			} else {
				a = V{}
			}
			fr.r[ds], fr.r[ds+1] = a, b
		}
	case *ssa.Convert:
		return c.convert(in.X, in.X.Type(), in.Type(), d)
	case *ssa.MultiConvert:
		return c.convert(in.X, in.X.Type(), in.Type(), d)
	case *ssa.MakeInterface:
		x := c.val(in.X)
		ti := p.layout.get(in.X.Type())
		it := in.Type()
		xt := in.X.Type()
		return func(fr *Frame) {
			w := fr.st.makeIface(it, xt, ti, fr.get(&x))
			fr.r[ds], fr.r[ds+1] = w[0], w[1]
		}
	case *ssa.Extract:
		t := c.slots[in.Tuple]
		tup := in.Tuple.Type().(*types.Tuple)
		off := 0
		for i := 0; i < in.Index; i++ {
			off += p.layout.get(tup.At(i).Type()).N
		}
		src := t.slot + int32(off)
		n := d.n
		return func(fr *Frame) { copy(fr.r[ds:ds+n], fr.r[src:src+n]) }
	case *ssa.Field:
		x := c.val(in.X)
		off := fieldLeafOff(p, in.X.Type(), in.Field)
		n := int(d.n)
		return func(fr *Frame) { copy(fr.r[ds:], fr.get(&x)[off:off+n]) }
	case *ssa.FieldAddr:
		x := c.val(in.X)
		st := in.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Struct)
		off := fieldOffset(st, in.Field)
		return func(fr *Frame) {
			v := fr.get1(&x)
			if v.e == nil {
				if v.c < 4096 {
					fr.st.rtPanic("runtime error: invalid memory address or nil pointer dereference")
				}
				fr.r[ds] = V{c: v.c + off}
				return
			}
			fr.r[ds] = fr.st.addC(v, off)
		}
	case *ssa.Index:
		return c.index(in, d)
	case *ssa.IndexAddr:
		return c.indexAddr(in, ds)
	case *ssa.Slice:
		return c.slice(in, ds)
	case *ssa.SliceToArrayPointer:
		x := c.val(in.X)
		n := uint64(in.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len())
		return func(fr *Frame) {
			v := fr.get(&x)
			l := fr.st.conc(v[1], 64, "slice length")
			if l < n {
				fr.st.rtPanic("runtime error: cannot convert slice to array pointer: length too short")
			}
			fr.r[ds] = v[0]
		}
	case *ssa.Lookup:
		return c.lookup(in, d)
	case *ssa.MapUpdate:
		m, k, v := c.val(in.Map), c.val(in.Key), c.val(in.Value)
		mt := in.Map.Type().Underlying().(*types.Map)
		kt, vt := p.layout.get(mt.Key()), p.layout.get(mt.Elem())
		return func(fr *Frame) {
			st := fr.st
			a := st.conc(fr.get1(&m), 64, "map")
			if a == 0 {
				st.doPanic(st.strIface("assignment to entry in nil map"), "assignment to entry in nil map")
			}
			va := st.mapAssign(a, kt, vt, fr.get(&k))
			st.store(V{c: va}, vt, fr.get(&v))
		}
	case *ssa.MakeMap:
		mt := in.Type().Underlying().(*types.Map)
		return func(fr *Frame) { fr.r[ds] = V{c: fr.st.newMap(mt)} }
	case *ssa.MakeSlice:
		l, cp := c.val(in.Len), c.val(in.Cap)
		et := p.layout.get(in.Type().Underlying().(*types.Slice).Elem())
		lw := uint8(p.layout.get(in.Len.Type()).Size * 8)
		lsg := p.layout.get(in.Len.Type()).Leaves[0].Signed
		cw := uint8(p.layout.get(in.Cap.Type()).Size * 8)
		return func(fr *Frame) {
			st := fr.st
			n := st.conc(fr.get1(&l), lw, "make length")
			m := st.conc(fr.get1(&cp), cw, "make capacity")
			if lsg {
				n, m = uint64(sext(n, lw)), uint64(sext(m, cw))
			}
			if int64(n) < 0 || n > 1<<40 {
				st.rtPanic("runtime error: makeslice: len out of range")
			}
			if m < n || m > 1<<40 {
				st.rtPanic("runtime error: makeslice: cap out of range")
			}
			fr.r[ds] = V{c: st.allocT(et, int(m))}
			fr.r[ds+1], fr.r[ds+2] = V{c: n}, V{c: m}
		}
	case *ssa.MakeClosure:
		fn := p.fn(in.Fn.(*ssa.Function))
		var bs []opnd
		var tis []*TInfo
		sz := 8
		for _, b := range in.Bindings {
			bs = append(bs, c.val(b))
			ti := p.layout.get(b.Type())
			tis = append(tis, ti)
			sz += (ti.Size + 7) &^ 7
		}
		return func(fr *Frame) {
			st := fr.st
			o := st.alloc(sz, true)
			o.Name = "closure"
			st.storeBits(o, 0, 8, V{c: fn.code})
			off := uint64(8)
			for i := range bs {
				st.store(V{c: o.Base + off}, tis[i], fr.get(&bs[i]))
				off += uint64(tis[i].Size+7) &^ 7
			}
			fr.r[ds] = V{c: o.Base}
		}
	case *ssa.TypeAssert:
		return c.typeAssert(in, d)
	case *ssa.Store:
		a, v := c.val(in.Addr), c.val(in.Val)
		ti := p.layout.get(in.Val.Type())
		return func(fr *Frame) { fr.st.store(fr.get1(&a), ti, fr.get(&v)) }
	case *ssa.Call:
		return c.callInstr(in.Common(), d)
	case *ssa.Defer:
		f := c.deferred(in.Common())
		return func(fr *Frame) { fr.defers = append(fr.defers, f(fr)) }
	case *ssa.RunDefers:
		return func(fr *Frame) {
			fr.popDefers()
			if fr.pan != nil {
				panic(fr.pan)
			}
		}
	case *ssa.Go:
		f := c.deferred(in.Common())
		return func(fr *Frame) { fr.st.spawn(fr, f(fr)) }
	case *ssa.Range:
		return c.rangeInstr(in, ds)
	case *ssa.Next:
		return c.next(in, d)
	case *ssa.Select, *ssa.Send, *ssa.MakeChan:
		return func(fr *Frame) { fr.st.end(endUnsupported, fmt.Sprintf("%T", in)) }
	}
	return nil
}

func fieldOffset(s *types.Struct, i int) uint64 {
	fs := make([]*types.Var, s.NumFields())
	for k := range fs {
		fs[k] = s.Field(k)
	}
	return uint64(sizes.Offsetsof(fs)[i])
}

func fieldLeafOff(p *Program, t types.Type, i int) int {
	s := t.Underlying().(*types.Struct)
	n := 0
	for k := 0; k < i; k++ {
		n += p.layout.get(s.Field(k).Type()).N
	}
	return n
}

func (st *State) addC(v V, off uint64) V {
	if v.e == nil {
		return V{c: v.c + off}
	}
	return st.mkV(st.b.Bin(OAdd, v.e, st.b.Const(off, 64)))
}

// allocT allocates n zeroed elements of a type.
func (st *State) allocT(ti *TInfo, n int) uint64 {
	if ti.Size*n == 0 {
		return st.zeroBase()
	}
	if ti.Size*n > st.lim.MaxBytes {
		st.end(endBound, "memory bound exceeded")
	}
	o := st.alloc(ti.Size*n, true)
	if ti.Ptr {
		o.PtrT = ti
	} else {
		o.NoScan = true
	}
	return o.Base
}

func (st *State) dynType(w V) *RType {
	a := w.c
	if w.e != nil {
		a = st.conc(w, 64, "interface type")
	}
	if a == 0 {
		return nil
	}
	t := st.P.typeOfWord(a)
	if t == nil {
		st.memFault(fmt.Sprintf("invalid interface type word %#x", a))
	}
	return t
}

func (st *State) makeIface(it, xt types.Type, ti *TInfo, x []V) [2]V {
	rt := st.P.rtype(xt)
	w := V{c: st.P.ifaceWord(it, rt)}
	if pointerShaped(xt) {
		return [2]V{w, x[0]}
	}
	if ti.Size == 0 {
		return [2]V{w, {c: st.zeroBase()}}
	}
	a := st.allocT(ti, 1)
	st.store(V{c: a}, ti, x)
	return [2]V{w, {c: a}}
}

func (st *State) strIface(s string) [2]V {
	t := types.Typ[types.String]
	v := st.newString(s)
	return st.makeIface(emptyIface, t, st.P.layout.get(t), v[:])
}

var emptyIface = types.NewInterfaceType(nil, nil)

// ---- unary ----

func (c *compiler) unop(in *ssa.UnOp, d opnd) instr {
	x := c.val(in.X)
	ds := d.slot
	ti := c.p.layout.get(in.Type())
	switch in.Op {
	case token.MUL:
		n := d.n
		if ti.big {
			return func(fr *Frame) { fr.st.end(endUnsupported, "huge array value") }
		}
		if ti.N == 1 {
			lf := ti.Leaves[0]
			return func(fr *Frame) {
				a := fr.get1(&x)
				if a.e != nil {
					fr.st.load(a, ti, fr.r[ds:ds+1])
					return
				}
				o, off := fr.st.objFor(a.c, ti.Size, false)
				fr.r[ds] = fr.st.loadLeaf(o, off+uint64(lf.Off), &lf)
			}
		}
		return func(fr *Frame) { fr.st.load(fr.get1(&x), ti, fr.r[ds:ds+n]) }
	case token.NOT:
		return func(fr *Frame) {
			v := fr.get1(&x)
			if v.e == nil {
				fr.r[ds] = V{c: v.c ^ 1}
				return
			}
			fr.r[ds] = fr.st.mkV(fr.st.b.BNot(v.e))
		}
	case token.SUB:
		w := uint8(ti.Size * 8)
		if ti.N == 1 && ti.Leaves[0].Kind == LFloat {
			return func(fr *Frame) {
				v := fr.get1(&x)
				sb := uint64(1) << (w - 1)
				if v.e == nil {
					fr.r[ds] = V{c: v.c ^ sb}
					return
				}
				fr.r[ds] = fr.st.mkV(fr.st.b.Bin(OXor, v.e, fr.st.b.Const(sb, w)))
			}
		}
		return func(fr *Frame) {
			v := fr.get1(&x)
			if v.e == nil {
				fr.r[ds] = V{c: -v.c & mask(w)}
				return
			}
			fr.r[ds] = fr.st.mkV(fr.st.b.Bin(OSub, fr.st.b.Const(0, w), v.e))
		}
	case token.XOR:
		w := uint8(ti.Size * 8)
		return func(fr *Frame) {
			v := fr.get1(&x)
			if v.e == nil {
				fr.r[ds] = V{c: ^v.c & mask(w)}
				return
			}
			fr.r[ds] = fr.st.mkV(fr.st.b.Not(v.e))
		}
	case token.ARROW:
		return func(fr *Frame) { fr.st.end(endUnsupported, "channel receive") }
	}
	panic("unop " + in.Op.String())
}

// ---- binary ----

func (c *compiler) binop(in *ssa.BinOp, ds int32) instr {
	x, y := c.val(in.X), c.val(in.Y)
	xt := in.X.Type()
	ti := c.p.layout.get(xt)
	if in.Op == token.EQL || in.Op == token.NEQ {
		neg := in.Op == token.NEQ
		xT, yT := in.X.Type(), in.Y.Type()
		_, xi := xT.Underlying().(*types.Interface)
		_, yi := yT.Underlying().(*types.Interface)
		if xi != yi { // mixed comparison cannot occur in ssa except via nil
			if k, ok := in.Y.(*ssa.Const); !(ok && k.Value == nil) {
				if k, ok := in.X.(*ssa.Const); !(ok && k.Value == nil) {
					panic("mixed interface comparison")
				}
			}
		}
		if k, ok := in.X.(*ssa.Const); ok && k.Value == nil && ti.N != c.p.layout.get(yT).N {
			x = opnd{slot: -1, c: make([]V, c.p.layout.get(yT).N)}
			xT = yT
		}
		if k, ok := in.Y.(*ssa.Const); ok && k.Value == nil && ti.N != c.p.layout.get(yT).N {
			y = opnd{slot: -1, c: make([]V, ti.N)}
		}
		if ti.N == 1 && ti.Leaves[0].Kind != LFloat {
			return func(fr *Frame) {
				a, b := fr.get1(&x), fr.get1(&y)
				if a.e == nil && b.e == nil {
					r := uint64(0)
					if (a.c == b.c) != neg {
						r = 1
					}
					fr.r[ds] = V{c: r}
					return
				}
				r := fr.st.eqScalar(a, b, ti)
				if neg {
					r = fr.st.b.BNot(r)
				}
				fr.r[ds] = fr.st.mkV(r)
			}
		}
		return func(fr *Frame) {
			r := fr.st.eqVals(xT, fr.get(&x), fr.get(&y))
			if neg {
				r = fr.st.b.BNot(r)
			}
			fr.r[ds] = fr.st.mkV(r)
		}
	}
	bt, ok := ti.U.(*types.Basic)
	if !ok {
		panic("binop on " + xt.String())
	}
	info := bt.Info()
	switch {
	case info&types.IsString != 0:
		return c.strOp(in.Op, x, y, ds)
	case info&types.IsFloat != 0:
		return c.floatOp(in.Op, x, y, ds, ti.Size)
	case info&types.IsComplex != 0:
		return func(fr *Frame) { fr.st.end(endUnsupported, "complex arithmetic") }
	}
	w := uint8(ti.Size * 8)
	signed := info&types.IsUnsigned == 0
	m := mask(w)
	if info&types.IsBoolean != 0 {
		op := in.Op
		return func(fr *Frame) {
			a, b := fr.st.boolExpr(fr.get1(&x)), fr.st.boolExpr(fr.get1(&y))
			switch op {
			case token.AND, token.LAND:
				fr.r[ds] = fr.st.mkV(fr.st.b.BAnd(a, b))
			case token.OR, token.LOR:
				fr.r[ds] = fr.st.mkV(fr.st.b.BOr(a, b))
			default:
				panic("bool op")
			}
		}
	}
	bin := func(op Op) instr {
		return func(fr *Frame) {
			a, b := fr.get1(&x), fr.get1(&y)
			if a.e == nil && b.e == nil {
				fr.r[ds] = V{c: evalBin(op, w, a.c, b.c)}
				return
			}
			st := fr.st
			fr.r[ds] = st.mkV(st.b.Bin(op, st.expr(a, w), st.expr(b, w)))
		}
	}
	cmp := func(op Op, swap bool) instr {
		return func(fr *Frame) {
			a, b := fr.get1(&x), fr.get1(&y)
			if swap {
				a, b = b, a
			}
			if a.e == nil && b.e == nil {
				r := uint64(0)
				if evalCmp(op, w, a.c, b.c) {
					r = 1
				}
				fr.r[ds] = V{c: r}
				return
			}
			st := fr.st
			fr.r[ds] = st.mkV(st.b.Cmp(op, st.expr(a, w), st.expr(b, w)))
		}
	}
	lt, le := OUlt, OUle
	if signed {
		lt, le = OSlt, OSle
	}
	switch in.Op {
	case token.ADD:
		return func(fr *Frame) {
			a, b := fr.get1(&x), fr.get1(&y)
			if a.e == nil && b.e == nil {
				fr.r[ds] = V{c: (a.c + b.c) & m}
				return
			}
			st := fr.st
			fr.r[ds] = st.mkV(st.b.Bin(OAdd, st.expr(a, w), st.expr(b, w)))
		}
	case token.SUB:
		return bin(OSub)
	case token.MUL:
		return bin(OMul)
	case token.AND:
		return bin(OAnd)
	case token.OR:
		return bin(OOr)
	case token.XOR:
		return bin(OXor)
	case token.AND_NOT:
		return func(fr *Frame) {
			a, b := fr.get1(&x), fr.get1(&y)
			if a.e == nil && b.e == nil {
				fr.r[ds] = V{c: a.c &^ b.c}
				return
			}
			st := fr.st
			fr.r[ds] = st.mkV(st.b.Bin(OAnd, st.expr(a, w), st.b.Not(st.expr(b, w))))
		}
	case token.QUO, token.REM:
		op := OUDiv
		switch {
		case in.Op == token.QUO && signed:
			op = OSDiv
		case in.Op == token.REM && signed:
			op = OSRem
		case in.Op == token.REM:
			op = OURem
		}
		f := bin(op)
		return func(fr *Frame) {
			b := fr.get1(&y)
			z := b.c == 0
			if b.e != nil {
				z = fr.st.branch(fr.st.mkV(fr.st.b.Cmp(OEq, b.e, fr.st.b.Const(0, w))))
			}
			if z {
				fr.st.rtPanic("runtime error: integer divide by zero")
			}
			f(fr)
		}
	case token.LSS:
		return cmp(lt, false)
	case token.LEQ:
		return cmp(le, false)
	case token.GTR:
		return cmp(lt, true)
	case token.GEQ:
		return cmp(le, true)
	case token.SHL, token.SHR:
		yi := c.p.layout.get(in.Y.Type())
		yw := uint8(yi.Size * 8)
		ysg := yi.Leaves[0].Signed
		op := OShl
		if in.Op == token.SHR {
			op = OLShr
			if signed {
				op = OAShr
			}
		}
		return func(fr *Frame) {
			a, b := fr.get1(&x), fr.get1(&y)
			st := fr.st
			if b.e == nil && ysg && sext(b.c, yw) < 0 {
				st.rtPanic("runtime error: negative shift amount")
			}
			if a.e == nil && b.e == nil {
				fr.r[ds] = V{c: evalBin(op, w, a.c, b.c)}
				return
			}
			if b.e == nil {
				s := b.c
				if s > uint64(w) {
					s = uint64(w)
				}
				fr.r[ds] = st.mkV(st.b.Bin(op, st.expr(a, w), st.b.Const(s, w)))
				return
			}
			be := st.expr(b, yw)
			if ysg {
				if st.branch(st.mkV(st.b.Cmp(OSlt, be, st.b.Const(0, yw)))) {
					st.rtPanic("runtime error: negative shift amount")
				}
			}
			ae := st.expr(a, w)
			if yw <= w {
				fr.r[ds] = st.mkV(st.b.Bin(op, ae, st.b.ZExt(be, w)))
				return
			}
			in := st.b.Cmp(OUlt, be, st.b.Const(uint64(w), yw))
			sh := st.b.Bin(op, ae, st.b.Extract(be, w-1, 0))
			var def *Expr
			if op == OAShr {
				def = st.b.Bin(OAShr, ae, st.b.Const(uint64(w-1), w))
			} else {
				def = st.b.Const(0, w)
			}
			fr.r[ds] = st.mkV(st.b.Ite(in, sh, def))
		}
	}
	panic("binop " + in.Op.String())
}

func (st *State) eqScalar(a, b V, ti *TInfo) *Expr {
	if a.e == nil && b.e == nil {
		return st.b.Bool(a.c == b.c)
	}
	lf := &ti.Leaves[0]
	switch lf.Kind {
	case LBool:
		x, y := st.boolExpr(a), st.boolExpr(b)
		return st.b.BOr(st.b.BAnd(x, y), st.b.BAnd(st.b.BNot(x), st.b.BNot(y)))
	case LFloat:
		w := lf.Size * 8
		return st.floatEq(st.expr(a, w), st.expr(b, w), w)
	}
	w := lf.Size * 8
	return st.b.Cmp(OEq, st.expr(a, w), st.expr(b, w))
}

func floatParts(w uint8) (expMask, manMask uint64) {
	if w == 32 {
		return 0x7f800000, 0x7fffff
	}
	return 0x7ff0000000000000, 0xfffffffffffff
}

func (st *State) isNaN(x *Expr, w uint8) *Expr {
	em, mm := floatParts(w)
	b := st.b
	return b.BAnd(b.Cmp(OEq, b.Bin(OAnd, x, b.Const(em, w)), b.Const(em, w)),
		b.BNot(b.Cmp(OEq, b.Bin(OAnd, x, b.Const(mm, w)), b.Const(0, w))))
}

func (st *State) floatEq(x, y *Expr, w uint8) *Expr {
	b := st.b
	abs := uint64(mask(w) >> 1)
	bothZero := b.Cmp(OEq, b.Bin(OAnd, b.Bin(OOr, x, y), b.Const(abs, w)), b.Const(0, w))
	ord := b.BAnd(b.BNot(st.isNaN(x, w)), b.BNot(st.isNaN(y, w)))
	return b.BAnd(ord, b.BOr(bothZero, b.Cmp(OEq, x, y)))
}

// eqVals is Go's == on values of type t.
func (st *State) eqVals(t types.Type, x, y []V) *Expr {
	p := st.P
	ti := p.layout.get(t)
	switch u := ti.U.(type) {
	case *types.Basic:
		if u.Info()&types.IsString != 0 {
			return st.strEq(x, y)
		}
		if u.Info()&types.IsComplex != 0 {
			st.end(endUnsupported, "complex comparison")
		}
		return st.eqScalar(x[0], y[0], ti)
	case *types.Interface:
		a, b := st.dynType(x[0]), st.dynType(y[0])
		if a == nil || b == nil {
			return st.b.Bool(a == b)
		}
		if a != b {
			return st.b.F
		}
		if pointerShaped(a.T) {
			return st.eqScalar(x[1], y[1], &ptrTI)
		}
		at := p.layout.get(a.T)
		if !types.Comparable(a.T) {
			st.rtPanic("runtime error: comparing uncomparable type " + a.T.String())
		}
		vx, vy := make([]V, at.N), make([]V, at.N)
		st.load(x[1], at, vx)
		st.load(y[1], at, vy)
		return st.eqVals(a.T, vx, vy)
	case *types.Struct:
		r := st.b.T
		k := 0
		for i := 0; i < u.NumFields(); i++ {
			n := p.layout.get(u.Field(i).Type()).N
			if u.Field(i).Name() != "_" {
				r = st.b.BAnd(r, st.eqVals(u.Field(i).Type(), x[k:k+n], y[k:k+n]))
			}
			k += n
		}
		return r
	case *types.Array:
		r := st.b.T
		n := p.layout.get(u.Elem()).N
		for i := 0; i < int(u.Len()); i++ {
			r = st.b.BAnd(r, st.eqVals(u.Elem(), x[i*n:(i+1)*n], y[i*n:(i+1)*n]))
		}
		return r
	case *types.Slice, *types.Map, *types.Signature:
		return st.eqScalar(x[0], y[0], &ptrTI) // only against nil
	}
	return st.eqScalar(x[0], y[0], ti)
}

var ptrTI = TInfo{Size: 8, N: 1, Leaves: []Leaf{{0, 8, LPtr, false}}}

func (st *State) strEq(x, y []V) *Expr {
	lx, ly := x[1], y[1]
	if lx.e != nil || ly.e != nil {
		le := st.b.Cmp(OEq, st.expr(lx, 64), st.expr(ly, 64))
		if !st.branch(st.mkV(le)) {
			return st.b.F
		}
		n := st.conc(lx, 64, "string length")
		lx, ly = V{c: n}, V{c: n}
	}
	if lx.c != ly.c {
		return st.b.F
	}
	if lx.c == 0 || (x[0].e == nil && x[0] == y[0]) {
		return st.b.T
	}
	px, py := st.conc(x[0], 64, "string ptr"), st.conc(y[0], 64, "string ptr")
	n := int(lx.c)
	ox, fx := st.objFor(px, n, false)
	oy, fy := st.objFor(py, n, false)
	if ox.Sym == nil && oy.Sym == nil {
		return st.b.Bool(string(ox.Data[fx:fx+uint64(n)]) == string(oy.Data[fy:fy+uint64(n)]))
	}
	return st.bytesEq(st.bytesAt(px, n), st.bytesAt(py, n))
}

func (st *State) bytesEq(a, b []V) *Expr {
	r := st.b.T
	for i := range a {
		if a[i].e == nil && b[i].e == nil {
			if a[i].c != b[i].c {
				return st.b.F
			}
			continue
		}
		r = st.b.BAnd(r, st.b.Cmp(OEq, st.expr(a[i], 8), st.expr(b[i], 8)))
		if r == st.b.F {
			return r
		}
	}
	return r
}

// bytesLess returns (a<b, a==b) lexicographically.
func (st *State) bytesLess(a, b []V) *Expr {
	n := min(len(a), len(b))
	r := st.b.Bool(len(a) < len(b))
	for i := n - 1; i >= 0; i-- {
		x, y := st.expr(a[i], 8), st.expr(b[i], 8)
		lt := st.b.Cmp(OUlt, x, y)
		eq := st.b.Cmp(OEq, x, y)
		r = st.b.BOr(lt, st.b.BAnd(eq, r))
	}
	return r
}

func (st *State) strBytes(v []V) []V {
	n := int(st.conc(v[1], 64, "string length"))
	if n == 0 {
		return nil
	}
	return st.bytesAt(st.conc(v[0], 64, "string ptr"), n)
}

func (c *compiler) strOp(op token.Token, x, y opnd, ds int32) instr {
	switch op {
	case token.ADD:
		return func(fr *Frame) {
			st := fr.st
			a, b := fr.get(&x), fr.get(&y)
			la, lb := int(st.conc(a[1], 64, "string length")), int(st.conc(b[1], 64, "string length"))
			if la == 0 {
				fr.r[ds], fr.r[ds+1] = b[0], V{c: uint64(lb)}
				return
			}
			if lb == 0 {
				fr.r[ds], fr.r[ds+1] = a[0], V{c: uint64(la)}
				return
			}
			o := st.alloc(la+lb, true)
			o.NoScan = true
			st.copyMem(o.Base, st.conc(a[0], 64, "ptr"), la)
			st.copyMem(o.Base+uint64(la), st.conc(b[0], 64, "ptr"), lb)
			o.RO = true
			fr.r[ds], fr.r[ds+1] = V{c: o.Base}, V{c: uint64(la + lb)}
		}
	case token.LSS, token.GTR, token.LEQ, token.GEQ:
		return func(fr *Frame) {
			st := fr.st
			a, b := st.strBytes(fr.get(&x)), st.strBytes(fr.get(&y))
			var r *Expr
			switch op {
			case token.LSS:
				r = st.bytesLess(a, b)
			case token.GTR:
				r = st.bytesLess(b, a)
			case token.LEQ:
				r = st.b.BNot(st.bytesLess(b, a))
			case token.GEQ:
				r = st.b.BNot(st.bytesLess(a, b))
			}
			fr.r[ds] = st.mkV(r)
		}
	}
	panic("string op " + op.String())
}

func toF(v uint64, size int) float64 {
	if size == 4 {
		return float64(math.Float32frombits(uint32(v)))
	}
	return math.Float64frombits(v)
}

func fromF(f float64, size int) uint64 {
	if size == 4 {
		return uint64(math.Float32bits(float32(f)))
	}
	return math.Float64bits(f)
}

func (c *compiler) floatOp(op token.Token, x, y opnd, ds int32, size int) instr {
	return func(fr *Frame) {
		a, b := fr.get1(&x), fr.get1(&y)
		if a.e != nil || b.e != nil {
			fr.st.end(endUnsupported, "symbolic floating point arithmetic")
		}
		fa, fb := toF(a.c, size), toF(b.c, size)
		var r float64
		bl := false
		isb := false
		switch op {
		case token.ADD:
			r = fa + fb
		case token.SUB:
			r = fa - fb
		case token.MUL:
			r = fa * fb
		case token.QUO:
			r = fa / fb
		case token.LSS:
			bl, isb = fa < fb, true
		case token.LEQ:
			bl, isb = fa <= fb, true
		case token.GTR:
			bl, isb = fa > fb, true
		case token.GEQ:
			bl, isb = fa >= fb, true
		}
		if isb {
			fr.r[ds] = V{}
			if bl {
				fr.r[ds] = V{c: 1}
			}
			return
		}
		fr.r[ds] = V{c: fromF(r, size)}
	}
}

// ---- conversions ----

func (c *compiler) convert(xv ssa.Value, from, to types.Type, d opnd) instr {
	x := c.val(xv)
	ds := d.slot
	fi, ti := c.p.layout.get(from), c.p.layout.get(to)
	fb, _ := fi.U.(*types.Basic)
	tb, _ := ti.U.(*types.Basic)
	isStr := func(b *types.Basic) bool { return b != nil && b.Info()&types.IsString != 0 }
	if isStr(tb) {
		if s, ok := fi.U.(*types.Slice); ok {
			if s.Elem().Underlying().(*types.Basic).Kind() == types.Uint8 {
				return func(fr *Frame) {
					st := fr.st
					v := fr.get(&x)
					n := int(st.conc(v[1], 64, "slice length"))
					if n == 0 {
						fr.r[ds], fr.r[ds+1] = V{}, V{}
						return
					}
					o := st.alloc(n, true)
					o.NoScan = true
					st.copyMem(o.Base, st.conc(v[0], 64, "ptr"), n)
					o.RO = true
					fr.r[ds], fr.r[ds+1] = V{c: o.Base}, V{c: uint64(n)}
				}
			}
			return c.viaHelper("runesToString", x, d)
		}
		if isStr(fb) {
			return func(fr *Frame) { copy(fr.r[ds:], fr.get(&x)) }
		}
		if fb != nil && fb.Info()&types.IsInteger != 0 {
			fw := uint8(fi.Size * 8)
			sg := fi.Leaves[0].Signed
			return func(fr *Frame) {
				st := fr.st
				v := fr.get1(&x)
				if v.e == nil {
					var r rune
					sv := sext(v.c, fw)
					if !sg {
						sv = int64(v.c)
					}
					if sv < 0 || sv > 0x10ffff {
						r = 0xfffd
					} else {
						r = rune(sv)
					}
					s := st.newString(string(r))
					fr.r[ds], fr.r[ds+1] = s[0], s[1]
					return
				}
				var e *Expr
				if fw < 32 {
					if sg {
						e = st.b.SExt(v.e, 32)
					} else {
						e = st.b.ZExt(v.e, 32)
					}
				} else if fw > 32 {
					big := st.b.Cmp(OUlt, st.b.Const(0x10ffff, fw), v.e)
					e = st.b.Ite(big, st.b.Const(0xfffd, 32), st.b.Extract(v.e, 31, 0))
				} else {
					e = v.e
				}
				st.callHelper(fr, "runeToString", []V{st.mkV(e)}, fr.r[ds:ds+2])
			}
		}
	}
	if sl, ok := ti.U.(*types.Slice); ok && isStr(fb) {
		if sl.Elem().Underlying().(*types.Basic).Kind() == types.Uint8 {
			return func(fr *Frame) {
				st := fr.st
				v := fr.get(&x)
				n := int(st.conc(v[1], 64, "string length"))
				a := st.zeroBase()
				if n > 0 {
					o := st.alloc(n, true)
					o.NoScan = true
					st.copyMem(o.Base, st.conc(v[0], 64, "ptr"), n)
					a = o.Base
				}
				fr.r[ds], fr.r[ds+1], fr.r[ds+2] = V{c: a}, V{c: uint64(n)}, V{c: uint64(n)}
			}
		}
		return c.viaHelper("stringToRunes", x, d)
	}
	if fi.N == 1 && ti.N == 1 {
		fl, tl := fi.Leaves[0], ti.Leaves[0]
		switch {
		case fl.Kind != LFloat && tl.Kind != LFloat:
			fw, tw := fl.Size*8, tl.Size*8
			sg := fl.Signed
			if fw == tw {
				return func(fr *Frame) { fr.r[ds] = fr.get1(&x) }
			}
			return func(fr *Frame) {
				v := fr.get1(&x)
				if v.e == nil {
					if tw > fw && sg {
						fr.r[ds] = V{c: uint64(sext(v.c, fw)) & mask(tw)}
					} else {
						fr.r[ds] = V{c: v.c & mask(tw)}
					}
					return
				}
				b := fr.st.b
				switch {
				case tw < fw:
					fr.r[ds] = fr.st.mkV(b.Extract(v.e, tw-1, 0))
				case sg:
					fr.r[ds] = fr.st.mkV(b.SExt(v.e, tw))
				default:
					fr.r[ds] = fr.st.mkV(b.ZExt(v.e, tw))
				}
			}
		default:
			return func(fr *Frame) {
				v := fr.get1(&x)
				if v.e != nil {
					if fl == tl {
						fr.r[ds] = v
						return
					}
					fr.st.end(endUnsupported, "symbolic float conversion")
				}
				switch {
				case fl.Kind == LFloat && tl.Kind == LFloat:
					fr.r[ds] = V{c: fromF(toF(v.c, int(fl.Size)), int(tl.Size))}
				case fl.Kind == LFloat:
					f := toF(v.c, int(fl.Size))
					var r uint64
					if tl.Signed {
						r = uint64(int64(f))
					} else {
						r = uint64(f)
					}
					fr.r[ds] = V{c: r & mask(tl.Size*8)}
				default:
					var f float64
					if fl.Signed {
						f = float64(sext(v.c, fl.Size*8))
					} else {
						f = float64(v.c)
					}
					if tl.Size == 4 {
						if fl.Signed {
							f = float64(float32(sext(v.c, fl.Size*8)))
						} else {
							f = float64(float32(v.c))
						}
					}
					fr.r[ds] = V{c: fromF(f, int(tl.Size))}
				}
			}
		}
	}
	if fi.N == ti.N {
		return func(fr *Frame) { copy(fr.r[ds:], fr.get(&x)) }
	}
	panic(fmt.Sprintf("convert %s to %s", from, to))
}

// viaHelper performs a conversion by calling a function of the support package.
func (c *compiler) viaHelper(name string, x opnd, d opnd) instr {
	return func(fr *Frame) {
		fr.st.callHelper(fr, name, fr.get(&x), fr.r[d.slot:d.slot+d.n])
	}
}

func (st *State) callHelper(fr *Frame, name string, args []V, dst []V) {
	f := st.P.helper(name)
	if f == nil {
		st.end(endUnsupported, "helper "+name)
	}
	st.call(fr, f, append([]V(nil), args...), 0, dst)
}

// ---- indexing ----

func (st *State) boundsCheck(idx V, w uint8, signed bool, n V, what string) V {
	// returns idx widened to 64 bits
	if idx.e == nil {
		if signed {
			idx.c = uint64(sext(idx.c, w))
		}
		if n.e == nil {
			if idx.c >= n.c {
				st.rtPanic(fmt.Sprintf("runtime error: index out of range [%d] with length %d", int64(idx.c), n.c))
			}
			return idx
		}
	}
	var e *Expr
	if idx.e == nil {
		e = st.b.Const(idx.c, 64)
	} else if signed {
		e = st.b.SExt(idx.e, 64)
	} else {
		e = st.b.ZExt(idx.e, 64)
	}
	ok := st.b.Cmp(OUlt, e, st.expr(n, 64))
	if !st.branch(st.mkV(ok)) {
		st.rtPanic("runtime error: index out of range")
	}
	return st.mkV(e)
}

func (st *State) addMul(base V, idx V, sz uint64) V {
	if base.e == nil && idx.e == nil {
		return V{c: base.c + idx.c*sz}
	}
	off := st.b.Bin(OMul, st.expr(idx, 64), st.b.Const(sz, 64))
	return st.mkV(st.b.Bin(OAdd, off, st.expr(base, 64)))
}

func (c *compiler) indexAddr(in *ssa.IndexAddr, ds int32) instr {
	x, idx := c.val(in.X), c.val(in.Index)
	ii := c.p.layout.get(in.Index.Type())
	iw, isg := uint8(ii.Size*8), ii.Leaves[0].Signed
	switch u := in.X.Type().Underlying().(type) {
	case *types.Slice:
		sz := uint64(c.p.layout.get(u.Elem()).Size)
		return func(fr *Frame) {
			v := fr.get(&x)
			i := fr.get1(&idx)
			if i.e == nil && v[1].e == nil && v[0].e == nil && i.c < v[1].c {
				fr.r[ds] = V{c: v[0].c + i.c*sz}
				return
			}
			k := fr.st.boundsCheck(i, iw, isg, v[1], "slice")
			fr.r[ds] = fr.st.addMul(v[0], k, sz)
		}
	case *types.Pointer:
		at := u.Elem().Underlying().(*types.Array)
		sz := uint64(c.p.layout.get(at.Elem()).Size)
		n := V{c: uint64(at.Len())}
		return func(fr *Frame) {
			v := fr.get1(&x)
			if v.e == nil && v.c < 4096 {
				fr.st.rtPanic("runtime error: invalid memory address or nil pointer dereference")
			}
			k := fr.st.boundsCheck(fr.get1(&idx), iw, isg, n, "array")
			fr.r[ds] = fr.st.addMul(v, k, sz)
		}
	}
	panic("indexaddr")
}

func (c *compiler) index(in *ssa.Index, d opnd) instr {
	x, idx := c.val(in.X), c.val(in.Index)
	ii := c.p.layout.get(in.Index.Type())
	iw, isg := uint8(ii.Size*8), ii.Leaves[0].Signed
	ds, n := d.slot, int(d.n)
	switch u := in.X.Type().Underlying().(type) {
	case *types.Array:
		ln := V{c: uint64(u.Len())}
		return func(fr *Frame) {
			v := fr.get(&x)
			k := fr.st.boundsCheck(fr.get1(&idx), iw, isg, ln, "array")
			i := int(fr.st.conc(k, 64, "array index"))
			copy(fr.r[ds:], v[i*n:(i+1)*n])
		}
	case *types.Basic: // string
		ti := c.p.layout.get(types.Typ[types.Uint8])
		return func(fr *Frame) {
			v := fr.get(&x)
			k := fr.st.boundsCheck(fr.get1(&idx), iw, isg, v[1], "string")
			fr.st.load(fr.st.addMul(v[0], k, 1), ti, fr.r[ds:ds+1])
		}
	}
	panic("index " + in.X.Type().String())
}

func (c *compiler) slice(in *ssa.Slice, ds int32) instr {
	x := c.val(in.X)
	var lo, hi, mx opnd
	wOf := func(v ssa.Value) (uint8, bool) {
		ti := c.p.layout.get(v.Type())
		return uint8(ti.Size * 8), ti.Leaves[0].Signed
	}
	type bound struct {
		o  opnd
		w  uint8
		sg bool
		ok bool
	}
	mk := func(v ssa.Value) bound {
		if v == nil {
			return bound{}
		}
		w, sg := wOf(v)
		return bound{c.val(v), w, sg, true}
	}
	_, _, _ = lo, hi, mx
	bl, bh, bm := mk(in.Low), mk(in.High), mk(in.Max)
	get := func(fr *Frame, b *bound) V {
		v := fr.get1(&b.o)
		if v.e == nil {
			if b.sg {
				v.c = uint64(sext(v.c, b.w))
			}
			return v
		}
		if b.sg {
			return fr.st.mkV(fr.st.b.SExt(v.e, 64))
		}
		return fr.st.mkV(fr.st.b.ZExt(v.e, 64))
	}
	var esz uint64
	isStr := false
	var arrLen uint64
	isArr := false
	switch u := in.X.Type().Underlying().(type) {
	case *types.Slice:
		esz = uint64(c.p.layout.get(u.Elem()).Size)
	case *types.Basic:
		isStr, esz = true, 1
	case *types.Pointer:
		a := u.Elem().Underlying().(*types.Array)
		isArr, arrLen = true, uint64(a.Len())
		esz = uint64(c.p.layout.get(a.Elem()).Size)
	}
	return func(fr *Frame) {
		st := fr.st
		v := fr.get(&x)
		var ptr, ln, cp V
		switch {
		case isArr:
			ptr, ln, cp = v[0], V{c: arrLen}, V{c: arrLen}
			if ptr.e == nil && ptr.c < 4096 {
				st.rtPanic("runtime error: invalid memory address or nil pointer dereference")
			}
		case isStr:
			ptr, ln, cp = v[0], v[1], v[1]
		default:
			ptr, ln, cp = v[0], v[1], v[2]
		}
		l, h, m := V{}, ln, cp
		if bl.ok {
			l = get(fr, &bl)
		}
		if bh.ok {
			h = get(fr, &bh)
		}
		if bm.ok {
			m = get(fr, &bm)
		}
		le := func(a, b V) {
			if a.e == nil && b.e == nil {
				if a.c > b.c {
					st.rtPanic(fmt.Sprintf("runtime error: slice bounds out of range [%d:%d]", int64(a.c), int64(b.c)))
				}
				return
			}
			if !st.branch(st.mkV(st.b.Cmp(OUle, st.expr(a, 64), st.expr(b, 64)))) {
				st.rtPanic("runtime error: slice bounds out of range")
			}
		}
		le(m, cp)
		le(h, m)
		le(l, h)
		lc := st.conc(l, 64, "slice bound")
		hc := st.conc(h, 64, "slice bound")
		mc := st.conc(m, 64, "slice bound")
		np := ptr
		if mc-lc != 0 && !(isStr && hc == lc) {
			np = st.addC(ptr, lc*esz)
		}
		fr.r[ds] = np
		fr.r[ds+1] = V{c: hc - lc}
		if !isStr {
			fr.r[ds+2] = V{c: mc - lc}
		}
	}
}

func (c *compiler) lookup(in *ssa.Lookup, d opnd) instr {
	x, k := c.val(in.X), c.val(in.Index)
	ds := d.slot
	if _, ok := in.X.Type().Underlying().(*types.Basic); ok { // string index
		ii := c.p.layout.get(in.Index.Type())
		iw, isg := uint8(ii.Size*8), ii.Leaves[0].Signed
		ti := c.p.layout.get(types.Typ[types.Uint8])
		return func(fr *Frame) {
			v := fr.get(&x)
			i := fr.st.boundsCheck(fr.get1(&k), iw, isg, v[1], "string")
			fr.st.load(fr.st.addMul(v[0], i, 1), ti, fr.r[ds:ds+1])
		}
	}
	mt := in.X.Type().Underlying().(*types.Map)
	kt, vt := c.p.layout.get(mt.Key()), c.p.layout.get(mt.Elem())
	return func(fr *Frame) {
		st := fr.st
		a := st.conc(fr.get1(&x), 64, "map")
		var va uint64
		if a != 0 {
			va = st.mapFind(a, kt, vt, fr.get(&k))
		}
		if va != 0 {
			st.load(V{c: va}, vt, fr.r[ds:ds+int32(vt.N)])
		} else {
			clear(fr.r[ds : ds+int32(vt.N)])
		}
		if in.CommaOk {
			ok := uint64(0)
			if va != 0 {
				ok = 1
			}
			fr.r[ds+int32(vt.N)] = V{c: ok}
		}
	}
}

func (c *compiler) typeAssert(in *ssa.TypeAssert, d opnd) instr {
	p := c.p
	x := c.val(in.X)
	at := in.AssertedType
	ti := p.layout.get(at)
	ds := d.slot
	it, isIface := at.Underlying().(*types.Interface)
	return func(fr *Frame) {
		st := fr.st
		v := fr.get(&x)
		t := st.dynType(v[0])
		data := v[1]
		ok := false
		if t != nil {
			if isIface {
				ok = p.implements(t, it)
			} else {
				ok = p.rtype(at) == t
			}
		}
		if !ok && !in.CommaOk {
			tn := "nil"
			if t != nil {
				tn = t.T.String()
			}
			st.rtPanic("interface conversion: interface is " + tn + ", not " + at.String())
		}
		if ok {
			if isIface {
				fr.r[ds], fr.r[ds+1] = V{c: p.ifaceWord(at, t)}, data
			} else if pointerShaped(at) {
				fr.r[ds] = data
			} else {
				st.load(data, ti, fr.r[ds:ds+int32(ti.N)])
			}
		} else {
			clear(fr.r[ds : ds+int32(ti.N)])
		}
		if in.CommaOk {
			fr.r[ds+int32(ti.N)] = V{}
			if ok {
				fr.r[ds+int32(ti.N)] = V{c: 1}
			}
		}
	}
}

func (p *Program) implements(t *RType, it *types.Interface) bool {
	p.ssaMu.Lock()
	defer p.ssaMu.Unlock()
	return types.Implements(t.T, it)
}

// ---- calls ----

func (c *compiler) callInstr(cc *ssa.CallCommon, d opnd) instr {
	p := c.p
	var args []opnd
	n := 0
	for _, a := range cc.Args {
		o := c.val(a)
		args = append(args, o)
		n += int(p.layout.get(a.Type()).N)
	}
	gather := func(fr *Frame, buf []V) []V {
		for i := range args {
			buf = append(buf, fr.get(&args[i])...)
		}
		return buf
	}
	ds, dn := d.slot, d.n
	if cc.IsInvoke() {
		recv := c.val(cc.Value)
		name := cc.Method.Name()
		pkg := cc.Method.Pkg()
		return func(fr *Frame) {
			st := fr.st
			v := fr.get(&recv)
			fn, ra := st.invoke(v, pkg, name)
			buf := make([]V, 0, n+len(ra))
			buf = append(buf, ra...)
			buf = gather(fr, buf)
			st.call(fr, fn, buf, 0, fr.r[ds:ds+dn])
		}
	}
	switch f := cc.Value.(type) {
	case *ssa.Builtin:
		return c.builtin(f, cc, args, d)
	case *ssa.Function:
		if c.f.F.Synthetic == "package initializer" && f.Synthetic == "package initializer" {
			return func(fr *Frame) {} // Boot orders package initialisation
		}
		fn := p.fn(f)
		return func(fr *Frame) {
			var arr [12]V
			buf := gather(fr, arr[:0])
			fr.st.call(fr, fn, buf, 0, fr.r[ds:ds+dn])
		}
	}
	fv := c.val(cc.Value)
	return func(fr *Frame) {
		st := fr.st
		fn, clo := st.funcValue(fr.get1(&fv))
		var arr [12]V
		buf := gather(fr, arr[:0])
		st.call(fr, fn, buf, clo, fr.r[ds:ds+dn])
	}
}

func (st *State) funcValue(v V) (*Fn, uint64) {
	a := st.conc(v, 64, "function value")
	if a < 4096 {
		st.rtPanic("runtime error: invalid memory address or nil pointer dereference")
	}
	o, off := st.objFor(a, 8, false)
	w := st.loadBits(o, off, 8)
	fn := st.P.fnAtCode(w.c)
	if w.e != nil || fn == nil {
		st.memFault("call through corrupted function value")
	}
	return fn, a
}

// invoke resolves an interface method call; returns the receiver leaves.
func (st *State) invoke(v []V, pkg *types.Package, name string) (*Fn, []V) {
	t := st.dynType(v[0])
	if t == nil {
		st.rtPanic("runtime error: invalid memory address or nil pointer dereference")
	}
	m := st.P.method(t, pkg, name)
	if m == nil {
		st.memFault("no method " + name + " on " + t.T.String())
	}
	fn := st.P.fn(m)
	if pointerShaped(t.T) {
		return fn, []V{v[1]}
	}
	ti := st.P.layout.get(t.T)
	r := make([]V, ti.N)
	st.load(v[1], ti, r)
	return fn, r
}

// deferred captures a call for later execution.
func (c *compiler) deferred(cc *ssa.CallCommon) func(fr *Frame) func() {
	p := c.p
	var args []opnd
	for _, a := range cc.Args {
		args = append(args, c.val(a))
	}
	gather := func(fr *Frame) []V {
		var buf []V
		for i := range args {
			buf = append(buf, fr.get(&args[i])...)
		}
		return buf
	}
	if cc.IsInvoke() {
		recv := c.val(cc.Value)
		name, pkg := cc.Method.Name(), cc.Method.Pkg()
		return func(fr *Frame) func() {
			fn, ra := fr.st.invoke(fr.get(&recv), pkg, name)
			buf := append(ra, gather(fr)...)
			return func() {
				fn.compile()
				fr.st.call(fr, fn, buf, 0, make([]V, fn.results.N))
			}
		}
	}
	switch f := cc.Value.(type) {
	case *ssa.Builtin:
		// evaluate through a synthetic register window
		var ti *TInfo
		if f.Type().(*types.Signature).Results() != nil {
			ti = p.layout.get(f.Type().(*types.Signature).Results())
		}
		n := 0
		if ti != nil {
			n = ti.N
		}
		return func(fr *Frame) func() {
			fx := make([]opnd, len(args))
			for i := range args {
				fx[i] = opnd{slot: -1, n: args[i].n, c: append([]V(nil), fr.get(&args[i])...)}
			}
			return func() {
				g := &Frame{fn: fr.fn, st: fr.st, caller: fr, r: make([]V, n+1)}
				c.builtin(f, cc, fx, opnd{slot: 0, n: int32(n)})(g)
			}
		}
	case *ssa.Function:
		fn := p.fn(f)
		return func(fr *Frame) func() {
			buf := gather(fr)
			return func() {
				fn.compile()
				fr.st.call(fr, fn, buf, 0, make([]V, fn.results.N))
			}
		}
	}
	fv := c.val(cc.Value)
	return func(fr *Frame) func() {
		fn, clo := fr.st.funcValue(fr.get1(&fv))
		buf := gather(fr)
		return func() {
			fn.compile()
			fr.st.call(fr, fn, buf, clo, make([]V, fn.results.N))
		}
	}
}

func (c *compiler) builtin(f *ssa.Builtin, cc *ssa.CallCommon, args []opnd, d opnd) instr {
	p := c.p
	ds := d.slot
	var at types.Type
	if len(cc.Args) > 0 {
		at = cc.Args[0].Type()
	}
	switch f.Name() {
	case "len", "cap":
		isCap := f.Name() == "cap"
		switch u := at.Underlying().(type) {
		case *types.Basic:
			return func(fr *Frame) { fr.r[ds] = fr.get(&args[0])[1] }
		case *types.Slice:
			k := 1
			if isCap {
				k = 2
			}
			return func(fr *Frame) { fr.r[ds] = fr.get(&args[0])[k] }
		case *types.Map:
			return func(fr *Frame) {
				a := fr.st.conc(fr.get1(&args[0]), 64, "map")
				fr.r[ds] = V{c: uint64(fr.st.mapLen(a))}
			}
		case *types.Array:
			return func(fr *Frame) { fr.r[ds] = V{c: uint64(u.Len())} }
		case *types.Pointer:
			n := uint64(u.Elem().Underlying().(*types.Array).Len())
			return func(fr *Frame) { fr.r[ds] = V{c: n} }
		}
		return func(fr *Frame) { fr.st.end(endUnsupported, "len of "+at.String()) }
	case "append":
		st0, ok := at.Underlying().(*types.Slice)
		if !ok {
			break
		}
		et := p.layout.get(st0.Elem())
		return func(fr *Frame) {
			r := fr.st.appendSlice(fr.get(&args[0]), fr.get(&args[1])[:2], et)
			fr.r[ds], fr.r[ds+1], fr.r[ds+2] = r[0], r[1], r[2]
		}
	case "copy":
		et := p.layout.get(at.Underlying().(*types.Slice).Elem())
		return func(fr *Frame) {
			st := fr.st
			a, b := fr.get(&args[0]), fr.get(&args[1])
			n := min(st.conc(a[1], 64, "copy length"), st.conc(b[1], 64, "copy length"))
			if n > 0 && et.Size > 0 {
				st.copyMem(st.conc(a[0], 64, "ptr"), st.conc(b[0], 64, "ptr"), int(n)*et.Size)
			}
			if d.n > 0 {
				fr.r[ds] = V{c: n}
			}
		}
	case "delete":
		mt := at.Underlying().(*types.Map)
		kt, vt := p.layout.get(mt.Key()), p.layout.get(mt.Elem())
		return func(fr *Frame) {
			a := fr.st.conc(fr.get1(&args[0]), 64, "map")
			if a != 0 {
				fr.st.mapDelete(a, kt, vt, fr.get(&args[1]))
			}
		}
	case "clear":
		switch u := at.Underlying().(type) {
		case *types.Map:
			return func(fr *Frame) {
				a := fr.st.conc(fr.get1(&args[0]), 64, "map")
				if a != 0 {
					m := fr.st.mapOwn(a)
					m.ents, m.index = nil, nil
					fr.st.mapSetLen(a, 0)
				}
			}
		case *types.Slice:
			et := p.layout.get(u.Elem())
			return func(fr *Frame) {
				v := fr.get(&args[0])
				n := fr.st.conc(v[1], 64, "clear")
				if n > 0 {
					fr.st.zeroMem(fr.st.conc(v[0], 64, "ptr"), int(n)*et.Size)
				}
			}
		}
	case "min", "max":
		lt := p.layout.get(cc.Args[0].Type())
		isMin := f.Name() == "min"
		if lt.N == 1 && lt.Leaves[0].Kind == LInt {
			w := lt.Leaves[0].Size * 8
			op := OUlt
			if lt.Leaves[0].Signed {
				op = OSlt
			}
			return func(fr *Frame) {
				st := fr.st
				r := fr.get1(&args[0])
				for i := 1; i < len(args); i++ {
					y := fr.get1(&args[i])
					var c *Expr
					if isMin {
						c = st.b.Cmp(op, st.expr(y, w), st.expr(r, w))
					} else {
						c = st.b.Cmp(op, st.expr(r, w), st.expr(y, w))
					}
					r = st.mkV(st.b.Ite(c, st.expr(y, w), st.expr(r, w)))
				}
				fr.r[ds] = r
			}
		}
		return func(fr *Frame) { fr.st.end(endUnsupported, "min/max") }
	case "panic":
		return func(fr *Frame) {
			v := fr.get(&args[0])
			fr.st.doPanic([2]V{v[0], v[1]}, "")
		}
	case "recover":
		return func(fr *Frame) {
			fr.r[ds], fr.r[ds+1] = V{}, V{}
			// the panicking frame is the one that runs this deferred function
			if c := fr.caller; c != nil && c.pan != nil {
				fr.r[ds], fr.r[ds+1] = c.pan.val[0], c.pan.val[1]
				if c.pan.val[0] == (V{}) {
					s := fr.st.strIface("panic called with nil argument")
					fr.r[ds], fr.r[ds+1] = s[0], s[1]
				}
				c.pan = nil
			}
		}
	case "print", "println":
		return func(fr *Frame) {}
	case "ssa:wrapnilchk":
		return func(fr *Frame) {
			v := fr.get1(&args[0])
			if v.e == nil && v.c == 0 {
				fr.st.rtPanic("value method called using nil pointer")
			}
			fr.r[ds] = v
		}
	case "ssa:deferstack":
		return func(fr *Frame) {
			if d.n > 0 {
				fr.r[ds] = V{}
			}
		}
	case "Add":
		w := uint8(p.layout.get(cc.Args[1].Type()).Size * 8)
		sg := p.layout.get(cc.Args[1].Type()).Leaves[0].Signed
		return func(fr *Frame) {
			st := fr.st
			a, b := fr.get1(&args[0]), fr.get1(&args[1])
			if b.e == nil {
				if sg {
					b.c = uint64(sext(b.c, w))
				}
				fr.r[ds] = st.addC(a, b.c)
				return
			}
			e := b.e
			if sg {
				e = st.b.SExt(e, 64)
			} else {
				e = st.b.ZExt(e, 64)
			}
			fr.r[ds] = st.mkV(st.b.Bin(OAdd, st.expr(a, 64), e))
		}
	case "Slice", "String":
		isStr := f.Name() == "String"
		li := p.layout.get(cc.Args[1].Type())
		w, sg := uint8(li.Size*8), li.Leaves[0].Signed
		esz := 1
		if !isStr {
			esz = p.layout.get(at.Underlying().(*types.Pointer).Elem()).Size
		}
		return func(fr *Frame) {
			st := fr.st
			a := fr.get1(&args[0])
			n := st.conc(fr.get1(&args[1]), w, "unsafe.Slice length")
			if sg {
				n = uint64(sext(n, w))
			}
			if int64(n) < 0 {
				st.rtPanic("runtime error: unsafe.Slice: len out of range")
			}
			if a.e == nil && a.c == 0 && n > 0 {
				st.rtPanic("runtime error: unsafe.Slice: ptr is nil and len is not zero")
			}
			if a.e == nil && a.c != 0 && n > 0 && st.lim.CheckPtr {
				st.objFor(a.c, int(n)*esz, false) // the whole range must be one object
			}
			if a.e == nil && a.c == 0 {
				n = 0
			}
			fr.r[ds], fr.r[ds+1] = a, V{c: n}
			if !isStr {
				fr.r[ds+2] = V{c: n}
			}
		}
	case "SliceData", "StringData":
		return func(fr *Frame) { fr.r[ds] = fr.get(&args[0])[0] }
	case "real", "imag", "complex", "close":
	}
	name := f.Name()
	return func(fr *Frame) { fr.st.end(endUnsupported, "builtin "+name) }
}

// growCap follows runtime.growslice (without size-class rounding for large).
var sizeClasses = []int{8, 16, 24, 32, 48, 64, 80, 96, 112, 128, 144, 160, 176, 192, 208, 224, 240, 256, 288, 320, 352, 384, 416, 448, 480, 512, 576, 640, 704, 768, 896, 1024, 1152, 1280, 1408, 1536, 1792, 2048, 2304, 2688, 3072, 3200, 3456, 4096, 4864, 5120, 5376, 6144, 6528, 6784, 6912, 8192, 9472, 9728, 10240, 10880, 12288, 13568, 14336, 16384, 18432, 19072, 20480, 21760, 24576, 27264, 28672, 32768}

func roundSize(n int) int {
	for _, s := range sizeClasses {
		if n <= s {
			return s
		}
	}
	return (n + 8191) &^ 8191
}

func growCap(newLen, oldCap, esz int) int {
	c := oldCap
	if newLen > 2*oldCap {
		c = newLen
	} else if oldCap < 256 {
		c = 2 * oldCap
	} else {
		for c < newLen {
			c += (c + 3*256) >> 2
		}
	}
	if esz == 0 {
		return newLen
	}
	return roundSize(c*esz) / esz
}

func (st *State) appendSlice(a []V, b []V, et *TInfo) [3]V {
	n := int(st.conc(b[1], 64, "append length"))
	al := int(st.conc(a[1], 64, "slice length"))
	ac := int(st.conc(a[2], 64, "slice capacity"))
	if n == 0 {
		return [3]V{a[0], {c: uint64(al)}, {c: uint64(ac)}}
	}
	ap := uint64(0)
	if al > 0 || ac > 0 {
		ap = st.conc(a[0], 64, "ptr")
	}
	bp := st.conc(b[0], 64, "ptr")
	if al+n > ac {
		nc := growCap(al+n, ac, et.Size)
		np := st.allocT(et, nc)
		if al > 0 && et.Size > 0 {
			st.copyMem(np, ap, al*et.Size)
		}
		ap, ac = np, nc
	}
	if et.Size > 0 {
		st.copyMem(ap+uint64(al*et.Size), bp, n*et.Size)
	}
	return [3]V{{c: ap}, {c: uint64(al + n)}, {c: uint64(ac)}}
}
