package engine

import (
	"fmt"
	"go/types"
	"math"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const (
	flagRO    = 1<<5 | 1<<6
	flagStRO  = 1 << 5
	flagIndir = 1 << 7
	flagAddr  = 1 << 8
)

type rval struct {
	t    *RType
	ptr  V
	flag uint64
}

func (st *State) rv(a []V) rval {
	fl := st.conc(a[2], 64, "reflect flag")
	if fl == 0 {
		return rval{}
	}
	t := st.P.rtypeAt(st.conc(a[0], 64, "reflect type"))
	if t == nil {
		st.memFault("corrupted reflect.Value")
	}
	return rval{t, a[1], fl}
}

func (r rval) put(dst []V) {
	if r.t == nil {
		dst[0], dst[1], dst[2] = V{}, V{}, V{}
		return
	}
	dst[0], dst[1], dst[2] = V{c: r.t.Addr}, r.ptr, V{c: r.flag}
}

func (r rval) leaves(st *State) []V {
	ti := st.P.layout.get(r.t.T)
	out := make([]V, ti.N)
	if r.flag&flagIndir == 0 {
		out[0] = r.ptr
		return out
	}
	st.load(r.ptr, ti, out)
	return out
}

func (st *State) mkRV(t types.Type, leaves []V, ro uint64) rval {
	rt := st.P.rtype(t)
	k := uint64(kindOf(t))
	if pointerShaped(t) {
		return rval{rt, leaves[0], k | ro}
	}
	ti := st.P.layout.get(t)
	a := st.allocT(ti, 1)
	st.store(V{c: a}, ti, leaves)
	return rval{rt, V{c: a}, k | flagIndir | ro}
}

func (st *State) rvFromIface(w, data V) rval {
	t := st.dynType(w)
	if t == nil {
		return rval{}
	}
	k := uint64(kindOf(t.T))
	if pointerShaped(t.T) {
		return rval{t, data, k}
	}
	return rval{t, data, k | flagIndir}
}

func (st *State) rvToIface(r rval, it types.Type) [2]V {
	if kindOf(r.t.T) == 20 { // interface: take the dynamic value
		l := r.leaves(st)
		t := st.dynType(l[0])
		if t == nil {
			return [2]V{}
		}
		return [2]V{{c: st.P.ifaceWord(it, t)}, l[1]}
	}
	return st.makeIface(it, r.t.T, st.P.layout.get(r.t.T), r.leaves(st))
}

// typeIface builds a reflect.Type interface value.
func (st *State) typeIface(t types.Type) [2]V {
	p := st.P
	return [2]V{{c: p.itab(p.reflectType, p.rtype(p.rtypePtr)).Addr}, {c: p.rtype(t).Addr}}
}

func (st *State) typeArg(a V) *RType {
	t := st.P.rtypeAt(st.conc(a, 64, "reflect.Type"))
	if t == nil {
		st.rtPanic("runtime error: invalid memory address or nil pointer dereference")
	}
	return t
}

// dynTypeArg is the type a reflect.Type interface value stands for.
func (st *State) dynTypeArg(v []V) *RType { return st.typeArg(v[1]) }

func (st *State) panicStr(s string) { st.doPanic(st.strIface(s), s) }

func elemOf(t types.Type) types.Type {
	switch u := t.Underlying().(type) {
	case *types.Pointer:
		return u.Elem()
	case *types.Slice:
		return u.Elem()
	case *types.Array:
		return u.Elem()
	case *types.Map:
		return u.Elem()
	case *types.Chan:
		return u.Elem()
	}
	return nil
}

func typeString(t types.Type) string {
	return types.TypeString(t, func(p *types.Package) string { return p.Name() })
}

// fieldByName searches direct and promoted fields like reflect does.
func fieldByName(t types.Type, name string) []int {
	type item struct {
		t   types.Type
		idx []int
	}
	cur := []item{{t, nil}}
	for depth := 0; depth < 8 && len(cur) > 0; depth++ {
		var next []item
		var found [][]int
		for _, it := range cur {
			u, ok := it.t.Underlying().(*types.Struct)
			if !ok {
				continue
			}
			for i := 0; i < u.NumFields(); i++ {
				f := u.Field(i)
				idx := append(append([]int(nil), it.idx...), i)
				if f.Name() == name {
					found = append(found, idx)
				}
				if f.Embedded() {
					ft := f.Type()
					if pt, ok := ft.Underlying().(*types.Pointer); ok {
						ft = pt.Elem()
					}
					next = append(next, item{ft, idx})
				}
			}
		}
		if len(found) == 1 {
			return found[0]
		}
		if len(found) > 1 {
			return nil
		}
		cur = next
	}
	return nil
}

func (st *State) structField(t types.Type, idx []int, dst []V) {
	var f *types.Var
	var tag string
	var off uint64
	for k, i := range idx {
		if k > 0 {
			if pt, ok := t.Underlying().(*types.Pointer); ok {
				t = pt.Elem()
			}
		}
		s := t.Underlying().(*types.Struct)
		f, tag, off = s.Field(i), s.Tag(i), fieldOffset(s, i)
		t = f.Type()
	}
	n := st.P.strConst(f.Name())
	dst[0], dst[1] = n[0], n[1]
	dst[2], dst[3] = V{}, V{}
	if !f.Exported() && f.Pkg() != nil {
		n := st.P.strConst(f.Pkg().Path())
		dst[2], dst[3] = n[0], n[1]
	}
	ti := st.typeIface(f.Type())
	dst[4], dst[5] = ti[0], ti[1]
	n = st.P.strConst(tag)
	dst[6], dst[7] = n[0], n[1]
	if strings.HasPrefix(tag, "@sym") {
		var k int
		fmt.Sscanf(tag, "@sym%d", &k)
		if v, ok := st.native[^uint64(k)].([2]V); ok {
			dst[6], dst[7] = v[0], v[1]
		}
	}
	dst[8] = V{c: off}
	o := st.alloc(8*len(idx), true)
	for k, i := range idx {
		st.storeBits(o, uint64(8*k), 8, V{c: uint64(i)})
	}
	dst[9], dst[10], dst[11] = V{c: o.Base}, V{c: uint64(len(idx))}, V{c: uint64(len(idx))}
	dst[12] = V{}
	if f.Embedded() {
		dst[12] = V{c: 1}
	}
}

func b2v(b bool) V {
	if b {
		return V{c: 1}
	}
	return V{}
}

func (st *State) rvField(r rval, i int) rval {
	s := r.t.T.Underlying().(*types.Struct)
	f := s.Field(i)
	ft := f.Type()
	k := uint64(kindOf(ft))
	fl := k | r.flag&(flagRO|flagIndir|flagAddr)
	if !f.Exported() {
		fl |= flagStRO
	}
	rt := st.P.rtype(ft)
	if r.flag&flagIndir != 0 {
		return rval{rt, st.addC(r.ptr, fieldOffset(s, i)), fl}
	}
	return rval{rt, r.ptr, fl}
}

func (st *State) rvElem(r rval) rval {
	switch kindOf(r.t.T) {
	case 20:
		l := r.leaves(st)
		t := st.dynType(l[0])
		if t == nil {
			return rval{}
		}
		x := st.rvFromIface(V{c: t.Addr}, l[1])
		x.flag |= r.flag & flagRO
		return x
	case 22:
		p := r.leaves(st)[0]
		a := st.conc(p, 64, "pointer")
		if a == 0 {
			return rval{}
		}
		et := elemOf(r.t.T)
		return rval{st.P.rtype(et), V{c: a}, uint64(kindOf(et)) | r.flag&flagRO | flagIndir | flagAddr}
	}
	st.panicStr("reflect: call of reflect.Value.Elem on " + r.t.T.String() + " Value")
	return rval{}
}

func (st *State) sliceOfValues(rs []rval, dst []V) {
	if len(rs) == 0 {
		dst[0], dst[1], dst[2] = V{}, V{}, V{}
		return
	}
	ti := st.P.layout.get(st.P.reflectValue)
	a := st.allocT(ti, len(rs))
	for i, r := range rs {
		var v [3]V
		r.put(v[:])
		st.store(V{c: a + uint64(24*i)}, ti, v[:])
	}
	dst[0], dst[1], dst[2] = V{c: a}, V{c: uint64(len(rs))}, V{c: uint64(len(rs))}
}

func (st *State) assignTo(r rval, t types.Type) []V {
	if it, ok := t.Underlying().(*types.Interface); ok {
		_ = it
		if kindOf(r.t.T) == 20 && st.P.rtype(t) == r.t {
			return r.leaves(st)
		}
		w := st.rvToIface(r, t)
		return w[:]
	}
	if st.P.rtype(t) != r.t && !types.Identical(t.Underlying(), r.t.T.Underlying()) {
		st.panicStr("reflect.Set: value of type " + r.t.T.String() + " is not assignable to type " + t.String())
	}
	return r.leaves(st)
}

// deepEqual implements reflect.DeepEqual as a boolean expression.
func (st *State) deepEqual(t types.Type, x, y []V, depth int) *Expr {
	p := st.P
	b := st.b
	if depth > 200 {
		st.end(endUnsupported, "DeepEqual recursion")
	}
	switch u := t.Underlying().(type) {
	case *types.Pointer:
		px, py := st.conc(x[0], 64, "ptr"), st.conc(y[0], 64, "ptr")
		if px == py {
			return b.T
		}
		if px == 0 || py == 0 {
			return b.F
		}
		et := p.layout.get(u.Elem())
		vx, vy := make([]V, et.N), make([]V, et.N)
		st.load(V{c: px}, et, vx)
		st.load(V{c: py}, et, vy)
		return st.deepEqual(u.Elem(), vx, vy, depth+1)
	case *types.Interface:
		a, c := st.dynType(x[0]), st.dynType(y[0])
		if a != c {
			return b.F
		}
		if a == nil {
			return b.T
		}
		if pointerShaped(a.T) {
			return st.deepEqual(a.T, x[1:2], y[1:2], depth+1)
		}
		et := p.layout.get(a.T)
		vx, vy := make([]V, et.N), make([]V, et.N)
		st.load(x[1], et, vx)
		st.load(y[1], et, vy)
		return st.deepEqual(a.T, vx, vy, depth+1)
	case *types.Slice:
		px, py := st.conc(x[0], 64, "ptr"), st.conc(y[0], 64, "ptr")
		if (px == 0) != (py == 0) {
			return b.F
		}
		lx, ly := st.conc(x[1], 64, "len"), st.conc(y[1], 64, "len")
		if lx != ly {
			return b.F
		}
		et := p.layout.get(u.Elem())
		r := b.T
		for i := uint64(0); i < lx; i++ {
			vx, vy := make([]V, et.N), make([]V, et.N)
			st.load(V{c: px + i*uint64(et.Size)}, et, vx)
			st.load(V{c: py + i*uint64(et.Size)}, et, vy)
			r = b.BAnd(r, st.deepEqual(u.Elem(), vx, vy, depth+1))
		}
		return r
	case *types.Map:
		px, py := st.conc(x[0], 64, "map"), st.conc(y[0], 64, "map")
		if (px == 0) != (py == 0) {
			return b.F
		}
		if px == py {
			return b.T
		}
		if st.mapLen(px) != st.mapLen(py) {
			return b.F
		}
		kt, vt := p.layout.get(u.Key()), p.layout.get(u.Elem())
		r := b.T
		for _, e := range append([]mapEnt(nil), st.mapAt(px).ents...) {
			k := make([]V, kt.N)
			st.load(V{c: e.k}, kt, k)
			va := st.mapFind(py, kt, vt, k)
			if va == 0 {
				return b.F
			}
			vx, vy := make([]V, vt.N), make([]V, vt.N)
			st.load(V{c: e.v}, vt, vx)
			st.load(V{c: va}, vt, vy)
			r = b.BAnd(r, st.deepEqual(u.Elem(), vx, vy, depth+1))
		}
		return r
	case *types.Struct:
		r := b.T
		k := 0
		for i := 0; i < u.NumFields(); i++ {
			n := p.layout.get(u.Field(i).Type()).N
			r = b.BAnd(r, st.deepEqual(u.Field(i).Type(), x[k:k+n], y[k:k+n], depth+1))
			k += n
		}
		return r
	case *types.Array:
		r := b.T
		n := p.layout.get(u.Elem()).N
		for i := 0; i < int(u.Len()); i++ {
			r = b.BAnd(r, st.deepEqual(u.Elem(), x[i*n:(i+1)*n], y[i*n:(i+1)*n], depth+1))
		}
		return r
	case *types.Signature:
		return b.Bool(x[0] == (V{}) && y[0] == (V{}))
	}
	return st.eqVals(t, x, y)
}

func init() {
	reg := func(name string, f Intrinsic) { intrinsics[name] = f }
	put2 := func(dst []V, v [2]V) { dst[0], dst[1] = v[0], v[1] }

	// ---- package functions ----
	reg("reflect.TypeOf", func(st *State, fr *Frame, fn *Fn, a, d []V) {
		t := st.dynType(a[0])
		if t == nil {
			d[0], d[1] = V{}, V{}
			return
		}
		put2(d, st.typeIface(t.T))
	})
	reg("reflect.ValueOf", func(st *State, fr *Frame, fn *Fn, a, d []V) { st.rvFromIface(a[0], a[1]).put(d) })
	reg("reflect.New", func(st *State, fr *Frame, fn *Fn, a, d []V) {
		t := st.typeArg(a[1])
		p := st.allocT(st.P.layout.get(t.T), 1)
		rval{st.P.rtype(types.NewPointer(t.T)), V{c: p}, 22}.put(d)
	})
	reg("reflect.NewAt", func(st *State, fr *Frame, fn *Fn, a, d []V) {
		t := st.typeArg(a[1])
		rval{st.P.rtype(types.NewPointer(t.T)), a[2], 22}.put(d)
	})
	reg("reflect.Zero", func(st *State, fr *Frame, fn *Fn, a, d []V) {
		t := st.typeArg(a[1])
		st.mkRV(t.T, make([]V, st.P.layout.get(t.T).N), 0).put(d)
	})
	mkmap := func(st *State, fr *Frame, fn *Fn, a, d []V) {
		t := st.typeArg(a[1])
		m, ok := t.T.Underlying().(*types.Map)
		if !ok {
			st.panicStr("reflect.MakeMapWithSize of non-map type")
		}
		rval{t, V{c: st.newMap(m)}, 21}.put(d)
	}
	reg("reflect.MakeMap", mkmap)
	reg("reflect.MakeMapWithSize", mkmap)
	reg("reflect.MakeSlice", func(st *State, fr *Frame, fn *Fn, a, d []V) {
		t := st.typeArg(a[1])
		l, c := st.conc(a[2], 64, "len"), st.conc(a[3], 64, "cap")
		p := st.allocT(st.P.layout.get(elemOf(t.T)), int(c))
		st.mkRV(t.T, []V{{c: p}, {c: l}, {c: c}}, 0).put(d)
	})
	ptrTo := func(st *State, fr *Frame, fn *Fn, a, d []V) {
		put2(d, st.typeIface(types.NewPointer(st.typeArg(a[1]).T)))
	}
	reg("reflect.PointerTo", ptrTo)
	reg("reflect.PtrTo", ptrTo)
	reg("reflect.SliceOf", func(st *State, fr *Frame, fn *Fn, a, d []V) {
		put2(d, st.typeIface(types.NewSlice(st.typeArg(a[1]).T)))
	})
	reg("reflect.Indirect", func(st *State, fr *Frame, fn *Fn, a, d []V) {
		r := st.rv(a)
		if r.t != nil && kindOf(r.t.T) == 22 {
			r = st.rvElem(r)
		}
		r.put(d)
	})
	reg("reflect.DeepEqual", func(st *State, fr *Frame, fn *Fn, a, d []V) {
		d[0] = st.mkV(st.deepEqual(emptyIface, a[0:2], a[2:4], 0))
	})

	// ---- Type methods ----
	tm := func(name string, f func(st *State, t *RType, a, d []V)) {
		reg("(*reflect.rtype)."+name, func(st *State, fr *Frame, fn *Fn, a, d []V) { f(st, st.typeArg(a[0]), a[1:], d) })
	}
	tm("Kind", func(st *State, t *RType, a, d []V) { d[0] = V{c: uint64(kindOf(t.T))} })
	tm("Size", func(st *State, t *RType, a, d []V) { d[0] = V{c: uint64(st.P.layout.get(t.T).Size)} })
	tm("Align", func(st *State, t *RType, a, d []V) { d[0] = V{c: uint64(st.P.layout.get(t.T).Align)} })
	tm("FieldAlign", func(st *State, t *RType, a, d []V) { d[0] = V{c: uint64(st.P.layout.get(t.T).Align)} })
	tm("Bits", func(st *State, t *RType, a, d []V) { d[0] = V{c: uint64(st.P.layout.get(t.T).Size * 8)} })
	tm("Elem", func(st *State, t *RType, a, d []V) {
		e := elemOf(t.T)
		if e == nil {
			st.panicStr("reflect: Elem of invalid type " + t.T.String())
		}
		put2(d, st.typeIface(e))
	})
	tm("Key", func(st *State, t *RType, a, d []V) {
		m, ok := t.T.Underlying().(*types.Map)
		if !ok {
			st.panicStr("reflect: Key of non-map type")
		}
		put2(d, st.typeIface(m.Key()))
	})
	tm("Len", func(st *State, t *RType, a, d []V) { d[0] = V{c: uint64(t.T.Underlying().(*types.Array).Len())} })
	tm("NumField", func(st *State, t *RType, a, d []V) {
		s, ok := t.T.Underlying().(*types.Struct)
		if !ok {
			st.panicStr("reflect: NumField of non-struct type")
		}
		d[0] = V{c: uint64(s.NumFields())}
	})
	tm("Field", func(st *State, t *RType, a, d []V) {
		i := int(st.conc(a[0], 64, "field"))
		s, ok := t.T.Underlying().(*types.Struct)
		if !ok || i < 0 || i >= s.NumFields() {
			st.panicStr("reflect: Field index out of bounds")
		}
		st.structField(t.T, []int{i}, d)
	})
	tm("FieldByName", func(st *State, t *RType, a, d []V) {
		n, _ := st.goString(a[0], a[1])
		idx := fieldByName(t.T, n)
		clear(d[:14])
		if idx != nil {
			st.structField(t.T, idx, d)
			d[13] = V{c: 1}
		}
	})
	tm("String", func(st *State, t *RType, a, d []V) {
		s := st.P.strConst(typeString(t.T))
		d[0], d[1] = s[0], s[1]
	})
	tm("Name", func(st *State, t *RType, a, d []V) {
		n := ""
		switch x := t.T.(type) {
		case *types.Named:
			n = x.Obj().Name()
		case *types.Basic:
			n = x.Name()
		}
		s := st.P.strConst(n)
		d[0], d[1] = s[0], s[1]
	})
	tm("PkgPath", func(st *State, t *RType, a, d []V) {
		n := ""
		if x, ok := t.T.(*types.Named); ok && x.Obj().Pkg() != nil {
			n = x.Obj().Pkg().Path()
		}
		s := st.P.strConst(n)
		d[0], d[1] = s[0], s[1]
	})
	tm("Comparable", func(st *State, t *RType, a, d []V) { d[0] = b2v(types.Comparable(t.T)) })
	tm("Implements", func(st *State, t *RType, a, d []V) {
		it := st.typeArg(a[1])
		i, ok := it.T.Underlying().(*types.Interface)
		if !ok {
			st.panicStr("reflect: non-interface type passed to Type.Implements")
		}
		d[0] = b2v(st.P.implements(t, i))
	})
	tm("AssignableTo", func(st *State, t *RType, a, d []V) {
		d[0] = b2v(types.AssignableTo(t.T, st.typeArg(a[1]).T))
	})
	tm("ConvertibleTo", func(st *State, t *RType, a, d []V) {
		d[0] = b2v(types.ConvertibleTo(t.T, st.typeArg(a[1]).T))
	})
	tm("NumMethod", func(st *State, t *RType, a, d []V) {
		st.P.ssaMu.Lock()
		defer st.P.ssaMu.Unlock()
		ms := st.P.Prog.MethodSets.MethodSet(t.T)
		n := 0
		for i := 0; i < ms.Len(); i++ {
			if ms.At(i).Obj().Exported() {
				n++
			}
		}
		d[0] = V{c: uint64(n)}
	})
	tm("MethodByName", func(st *State, t *RType, a, d []V) {
		n, _ := st.goString(a[0], a[1])
		clear(d)
		if !types.NewVar(0, nil, n, nil).Exported() {
			return
		}
		m := st.P.method(t, nil, n)
		if m == nil {
			return
		}
		s := st.P.strConst(n)
		d[0], d[1] = s[0], s[1]
		if _, ok := t.T.Underlying().(*types.Interface); !ok {
			sig := m.Signature
			var ps []*types.Var
			ps = append(ps, types.NewVar(0, nil, "", t.T))
			for i := 0; i < sig.Params().Len(); i++ {
				ps = append(ps, sig.Params().At(i))
			}
			ft := types.NewSignatureType(nil, nil, nil, types.NewTuple(ps...), sig.Results(), sig.Variadic())
			ti := st.typeIface(ft)
			d[4], d[5] = ti[0], ti[1]
			rval{st.P.rtype(ft), V{c: st.P.staticClosure(st.P.fn(m))}, 19}.put(d[6:9])
		}
		d[10] = V{c: 1}
	})

	// ---- Value methods ----
	vm := func(name string, f func(st *State, r rval, a, d []V)) {
		reg("(reflect.Value)."+name, func(st *State, fr *Frame, fn *Fn, a, d []V) {
			f(st, st.rv(a), a[3:], d)
		})
	}
	need := func(st *State, r rval, what string) {
		if r.t == nil {
			st.panicStr("reflect: call of reflect.Value." + what + " on zero Value")
		}
	}
	vm("Kind", func(st *State, r rval, a, d []V) { d[0] = V{c: r.flag & 31} })
	vm("IsValid", func(st *State, r rval, a, d []V) { d[0] = b2v(r.t != nil) })
	vm("Type", func(st *State, r rval, a, d []V) { need(st, r, "Type"); put2(d, st.typeIface(r.t.T)) })
	vm("CanSet", func(st *State, r rval, a, d []V) { d[0] = b2v(r.flag&(flagAddr|flagRO) == flagAddr) })
	vm("CanAddr", func(st *State, r rval, a, d []V) { d[0] = b2v(r.flag&flagAddr != 0) })
	vm("CanInterface", func(st *State, r rval, a, d []V) { d[0] = b2v(r.flag&flagRO == 0) })
	vm("IsNil", func(st *State, r rval, a, d []V) {
		need(st, r, "IsNil")
		switch kindOf(r.t.T) {
		case 18, 19, 20, 21, 22, 23, 26:
		default:
			st.panicStr("reflect: call of reflect.Value.IsNil on " + r.t.T.String() + " Value")
		}
		l := r.leaves(st)
		d[0] = st.mkV(st.eqScalar(l[0], V{}, &ptrTI))
	})
	vm("IsZero", func(st *State, r rval, a, d []V) {
		need(st, r, "IsZero")
		x := r.leaves(st)
		e := st.b.T
		for i, lf := range st.P.layout.get(r.t.T).Leaves {
			if lf.Kind == LBool {
				e = st.b.BAnd(e, st.b.BNot(st.boolExpr(x[i])))
			} else {
				e = st.b.BAnd(e, st.b.Cmp(OEq, st.expr(x[i], lf.Size*8), st.b.Const(0, lf.Size*8)))
			}
		}
		d[0] = st.mkV(e)
	})
	vm("Elem", func(st *State, r rval, a, d []V) { need(st, r, "Elem"); st.rvElem(r).put(d) })
	up := func(st *State, r rval, a, d []V) {
		need(st, r, "UnsafePointer")
		d[0] = r.leaves(st)[0]
	}
	vm("UnsafePointer", up)
	vm("Pointer", up)
	vm("UnsafeAddr", func(st *State, r rval, a, d []V) { d[0] = r.ptr })
	vm("Addr", func(st *State, r rval, a, d []V) {
		if r.flag&flagAddr == 0 {
			st.panicStr("reflect.Value.Addr of unaddressable value")
		}
		rval{st.P.rtype(types.NewPointer(r.t.T)), r.ptr, 22 | r.flag&flagRO}.put(d)
	})
	vm("Interface", func(st *State, r rval, a, d []V) {
		need(st, r, "Interface")
		if r.flag&flagRO != 0 {
			st.panicStr("reflect.Value.Interface: cannot return value obtained from unexported field or method")
		}
		put2(d, st.rvToIface(r, emptyIface))
	})
	vm("NumField", func(st *State, r rval, a, d []V) {
		d[0] = V{c: uint64(r.t.T.Underlying().(*types.Struct).NumFields())}
	})
	vm("Field", func(st *State, r rval, a, d []V) {
		i := int(st.conc(a[0], 64, "field"))
		s, ok := r.t.T.Underlying().(*types.Struct)
		if !ok || i < 0 || i >= s.NumFields() {
			st.panicStr("reflect: Field index out of range")
		}
		st.rvField(r, i).put(d)
	})
	vm("FieldByName", func(st *State, r rval, a, d []V) {
		n, _ := st.goString(a[0], a[1])
		idx := fieldByName(r.t.T, n)
		if idx == nil {
			rval{}.put(d)
			return
		}
		for k, i := range idx {
			if k > 0 && kindOf(r.t.T) == 22 {
				r = st.rvElem(r)
			}
			r = st.rvField(r, i)
		}
		r.put(d)
	})
	vm("Len", func(st *State, r rval, a, d []V) {
		switch u := r.t.T.Underlying().(type) {
		case *types.Slice, *types.Basic:
			d[0] = r.leaves(st)[1]
		case *types.Array:
			d[0] = V{c: uint64(u.Len())}
		case *types.Map:
			d[0] = V{c: uint64(st.mapLen(st.conc(r.leaves(st)[0], 64, "map")))}
		default:
			st.panicStr("reflect: call of reflect.Value.Len on " + r.t.T.String() + " Value")
		}
	})
	vm("Cap", func(st *State, r rval, a, d []V) { d[0] = r.leaves(st)[2] })
	vm("Index", func(st *State, r rval, a, d []V) {
		i := st.conc(a[0], 64, "index")
		switch u := r.t.T.Underlying().(type) {
		case *types.Slice:
			l := r.leaves(st)
			if i >= st.conc(l[1], 64, "len") {
				st.panicStr("reflect: slice index out of range")
			}
			et := u.Elem()
			rval{st.P.rtype(et), V{c: st.conc(l[0], 64, "ptr") + i*uint64(st.P.layout.get(et).Size)}, uint64(kindOf(et)) | flagIndir | flagAddr | r.flag&flagRO}.put(d)
		case *types.Array:
			et := u.Elem()
			rval{st.P.rtype(et), st.addC(r.ptr, i*uint64(st.P.layout.get(et).Size)), uint64(kindOf(et)) | r.flag&(flagIndir|flagAddr|flagRO)}.put(d)
		default:
			st.end(endUnsupported, "reflect Index")
		}
	})
	vm("Set", func(st *State, r rval, a, d []V) {
		if r.t == nil || r.flag&flagAddr == 0 || r.flag&flagRO != 0 {
			st.panicStr("reflect: reflect.Value.Set using unaddressable value")
		}
		x := st.rv(a)
		if x.t == nil {
			st.panicStr("reflect: call of reflect.Value.Set on zero Value")
		}
		st.store(r.ptr, st.P.layout.get(r.t.T), st.assignTo(x, r.t.T))
	})
	vm("SetZero", func(st *State, r rval, a, d []V) {
		if r.t == nil || r.flag&flagAddr == 0 || r.flag&flagRO != 0 {
			st.panicStr("reflect: reflect.Value.SetZero using unaddressable value")
		}
		ti := st.P.layout.get(r.t.T)
		st.store(r.ptr, ti, make([]V, ti.N))
	})
	vm("SetPointer", func(st *State, r rval, a, d []V) { st.store(r.ptr, st.P.layout.get(r.t.T), a[:1]) })
	vm("SetCap", func(st *State, r rval, a, d []V) {
		o, off := st.objFor(st.conc(r.ptr, 64, "ptr"), 24, true)
		st.storeBits(o, off+16, 8, a[0])
	})
	vm("SetFloat", func(st *State, r rval, a, d []V) {
		ti := st.P.layout.get(r.t.T)
		v := a[0]
		if ti.Size == 4 {
			if v.e != nil {
				st.end(endUnsupported, "symbolic float conversion")
			}
			v = V{c: uint64(math.Float32bits(float32(math.Float64frombits(v.c))))}
		}
		st.store(r.ptr, ti, []V{v})
	})
	vm("CanInt", func(st *State, r rval, a, d []V) { k := r.flag & 31; d[0] = b2v(k >= 2 && k <= 6) })
	vm("CanUint", func(st *State, r rval, a, d []V) { k := r.flag & 31; d[0] = b2v(k >= 7 && k <= 12) })
	vm("Convert", func(st *State, r rval, a, d []V) {
		t := st.typeArg(a[1])
		if !types.Identical(t.T.Underlying(), r.t.T.Underlying()) {
			st.end(endUnsupported, "reflect Convert "+r.t.T.String()+" to "+t.T.String())
		}
		st.mkRV(t.T, r.leaves(st), 0).put(d)
	})
	growTo := func(st *State, r rval, n uint64) { // capacity for at least n elements
		l := r.leaves(st)
		c := st.conc(l[2], 64, "cap")
		if c >= n {
			return
		}
		if n < 2*c {
			n = 2 * c
		}
		et := st.P.layout.get(elemOf(r.t.T))
		p := st.allocT(et, int(n))
		ln := st.conc(l[1], 64, "len")
		old := st.conc(l[0], 64, "ptr")
		v := make([]V, et.N)
		for i := uint64(0); i < ln; i++ {
			st.load(V{c: old + i*uint64(et.Size)}, et, v)
			st.store(V{c: p + i*uint64(et.Size)}, et, v)
		}
		st.store(r.ptr, st.P.layout.get(r.t.T), []V{{c: p}, {c: ln}, {c: n}})
	}
	vm("Grow", func(st *State, r rval, a, d []V) {
		n := st.conc(a[0], 64, "grow")
		if int64(n) < 0 {
			st.panicStr("reflect.Value.Grow: negative len")
		}
		growTo(st, r, st.conc(r.leaves(st)[1], 64, "len")+n)
	})
	vm("Clear", func(st *State, r rval, a, d []V) {
		switch r.t.T.Underlying().(type) {
		case *types.Slice:
			l := r.leaves(st)
			et := st.P.layout.get(elemOf(r.t.T))
			z := make([]V, et.N)
			n, p := st.conc(l[1], 64, "len"), st.conc(l[0], 64, "ptr")
			for i := uint64(0); i < n; i++ {
				st.store(V{c: p + i*uint64(et.Size)}, et, z)
			}
		default:
			st.end(endUnsupported, "reflect Clear")
		}
	})
	reg("reflect.Append", func(st *State, fr *Frame, fn *Fn, a, d []V) {
		r := st.rv(a[:3])
		base, n := st.conc(a[3], 64, "args"), st.conc(a[4], 64, "args")
		l := append([]V(nil), r.leaves(st)...)
		tmp := st.mkRV(r.t.T, l, 0)
		ln := st.conc(l[1], 64, "len")
		growTo(st, tmp, ln+n)
		l = tmp.leaves(st)
		et := st.P.layout.get(elemOf(r.t.T))
		for i := uint64(0); i < n; i++ {
			var v [3]V
			st.load(V{c: base + 24*i}, st.P.layout.get(st.P.reflectValue), v[:])
			st.store(V{c: st.conc(l[0], 64, "ptr") + (ln+i)*uint64(et.Size)}, et, st.assignTo(st.rv(v[:]), elemOf(r.t.T)))
		}
		st.mkRV(r.t.T, []V{l[0], {c: ln + n}, l[2]}, 0).put(d)
	})
	reg("reflect.MapOf", func(st *State, fr *Frame, fn *Fn, a, d []V) {
		put2(d, st.typeIface(types.NewMap(st.typeArg(a[1]).T, st.typeArg(a[3]).T)))
	})
	reg("reflect.StructOf", func(st *State, fr *Frame, fn *Fn, a, d []V) {
		n := int(st.conc(a[1], 64, "fields"))
		sl := fn.F.Params[0].Type().Underlying().(*types.Slice)
		ti := st.P.layout.get(sl.Elem())
		var fs []*types.Var
		var tags []string
		for i := 0; i < n; i++ {
			v := make([]V, ti.N)
			st.load(V{c: a[0].c + uint64(i*ti.Size)}, ti, v)
			name, _ := st.goString(v[0], v[1])
			ft := st.dynTypeArg(v[4:6])
			fs = append(fs, types.NewField(0, nil, name, ft.T, false))
			tag, ok := st.goString(v[6], v[7])
			if !ok {
				// symbolic contents: the tag names where they are
				k := st.symTags
				st.symTags++
				tag = fmt.Sprintf("@sym%d", k)
				st.native[^uint64(k)] = [2]V{v[6], v[7]}
			}
			tags = append(tags, tag)
		}
		put2(d, st.typeIface(types.NewStruct(fs, tags)))
	})
	setInt := func(st *State, r rval, a, d []V) {
		ti := st.P.layout.get(r.t.T)
		w := ti.Leaves[0].Size * 8
		v := a[0]
		if v.e != nil {
			v = st.mkV(st.b.Extract(v.e, w-1, 0))
		} else {
			v.c &= mask(w)
		}
		st.store(r.ptr, ti, []V{v})
	}
	vm("SetInt", setInt)
	vm("SetUint", setInt)
	vm("SetBool", func(st *State, r rval, a, d []V) { st.store(r.ptr, st.P.layout.get(r.t.T), a[:1]) })
	vm("SetString", func(st *State, r rval, a, d []V) { st.store(r.ptr, st.P.layout.get(r.t.T), a[:2]) })
	vm("SetBytes", func(st *State, r rval, a, d []V) { st.store(r.ptr, st.P.layout.get(r.t.T), a[:3]) })
	vm("SetLen", func(st *State, r rval, a, d []V) {
		o, off := st.objFor(st.conc(r.ptr, 64, "ptr"), 24, true)
		st.storeBits(o, off+8, 8, a[0])
	})
	vm("Int", func(st *State, r rval, a, d []V) {
		lf := st.P.layout.get(r.t.T).Leaves[0]
		v := r.leaves(st)[0]
		if v.e != nil {
			d[0] = st.mkV(st.b.SExt(v.e, 64))
		} else {
			d[0] = V{c: uint64(sext(v.c, lf.Size*8))}
		}
	})
	vm("Uint", func(st *State, r rval, a, d []V) {
		v := r.leaves(st)[0]
		if v.e != nil {
			v = st.mkV(st.b.ZExt(v.e, 64))
		}
		d[0] = v
	})
	vm("Bool", func(st *State, r rval, a, d []V) { d[0] = r.leaves(st)[0] })
	vm("Float", func(st *State, r rval, a, d []V) {
		v := r.leaves(st)[0]
		if st.P.layout.get(r.t.T).Size == 4 {
			if v.e != nil {
				st.end(endUnsupported, "symbolic float conversion")
			}
			v = V{c: math.Float64bits(float64(math.Float32frombits(uint32(v.c))))}
		}
		d[0] = v
	})
	vm("String", func(st *State, r rval, a, d []V) {
		if r.t != nil {
			if b, ok := r.t.T.Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
				l := r.leaves(st)
				d[0], d[1] = l[0], l[1]
				return
			}
		}
		n := "<invalid Value>"
		if r.t != nil {
			n = "<" + typeString(r.t.T) + " Value>"
		}
		s := st.newString(n)
		d[0], d[1] = s[0], s[1]
	})
	vm("Bytes", func(st *State, r rval, a, d []V) { copy(d, r.leaves(st)) })
	vm("MapRange", func(st *State, r rval, a, d []V) {
		if kindOf(r.t.T) != 21 {
			st.panicStr("reflect: call of reflect.Value.MapRange on " + r.t.T.String() + " Value")
		}
		sz := 24 + 128
		if t := st.P.mapIterT; t != nil {
			sz = st.P.layout.get(t).Size
		}
		o := st.alloc(sz, true)
		o.Name = "reflect.MapIter"
		var v [3]V
		r.put(v[:])
		st.store(V{c: o.Base}, st.P.layout.get(st.P.reflectValue), v[:])
		d[0] = V{c: o.Base}
	})
	iterHandle := func(st *State, it uint64) *iter {
		o, off := st.objFor(it, 48, false)
		h := st.loadBits(o, off+40, 8)
		if h.c == 0 {
			var v [3]V
			st.load(V{c: it}, st.P.layout.get(st.P.reflectValue), v[:])
			r := st.rv(v[:])
			if r.t == nil {
				st.panicStr("MapIter.Next called on an iterator that does not have an associated map Value")
			}
			st.iters = append(st.iters, st.newMapIter(st.conc(r.leaves(st)[0], 64, "map")))
			h = V{c: uint64(len(st.iters))}
			w, off := st.objFor(it, 48, true)
			st.storeBits(w, off+40, 8, h)
		}
		return st.iters[h.c-1]
	}
	reg("(*reflect.MapIter).Next", func(st *State, fr *Frame, fn *Fn, a, d []V) {
		it := st.conc(a[0], 64, "MapIter")
		if it < 4096 {
			st.rtPanic("runtime error: invalid memory address or nil pointer dereference")
		}
		h := iterHandle(st, it)
		if h.pos == 1 {
			st.panicStr("MapIter.Next called on exhausted iterator")
		}
		e, ok := st.iterStep(h)
		if !ok {
			h.pos = 1
		}
		o, off := st.objFor(it, 48, true)
		st.storeBits(o, off+24, 8, V{c: e.k})
		st.storeBits(o, off+32, 8, V{c: e.v})
		d[0] = b2v(ok)
	})
	iterGet := func(which uint64) Intrinsic {
		return func(st *State, fr *Frame, fn *Fn, a, d []V) {
			it := st.conc(a[0], 64, "MapIter")
			var v [3]V
			st.load(V{c: it}, st.P.layout.get(st.P.reflectValue), v[:])
			r := st.rv(v[:])
			m := r.t.T.Underlying().(*types.Map)
			t := m.Key()
			if which == 32 {
				t = m.Elem()
			}
			o, off := st.objFor(it, 48, false)
			p := st.loadBits(o, off+which, 8)
			ti := st.P.layout.get(t)
			l := make([]V, ti.N)
			st.load(p, ti, l)
			st.mkRV(t, l, r.flag&flagRO).put(d)
		}
	}
	reg("(*reflect.MapIter).Key", iterGet(24))
	reg("(*reflect.MapIter).Value", iterGet(32))
	vm("MapIndex", func(st *State, r rval, a, d []V) {
		m := r.t.T.Underlying().(*types.Map)
		kt, vt := st.P.layout.get(m.Key()), st.P.layout.get(m.Elem())
		mp := st.conc(r.leaves(st)[0], 64, "map")
		if mp == 0 {
			rval{}.put(d)
			return
		}
		va := st.mapFind(mp, kt, vt, st.assignTo(st.rv(a), m.Key()))
		if va == 0 {
			rval{}.put(d)
			return
		}
		l := make([]V, vt.N)
		st.load(V{c: va}, vt, l)
		st.mkRV(m.Elem(), l, r.flag&flagRO).put(d)
	})
	vm("SetMapIndex", func(st *State, r rval, a, d []V) {
		m := r.t.T.Underlying().(*types.Map)
		kt, vt := st.P.layout.get(m.Key()), st.P.layout.get(m.Elem())
		mp := st.conc(r.leaves(st)[0], 64, "map")
		k := st.assignTo(st.rv(a[:3]), m.Key())
		e := st.rv(a[3:])
		if e.t == nil {
			if mp != 0 {
				st.mapDelete(mp, kt, vt, k)
			}
			return
		}
		if mp == 0 {
			st.panicStr("assignment to entry in nil map")
		}
		l := st.assignTo(e, m.Elem())
		va := st.mapAssign(mp, kt, vt, k)
		st.store(V{c: va}, vt, l)
	})
	vm("MapKeys", func(st *State, r rval, a, d []V) {
		m := r.t.T.Underlying().(*types.Map)
		kt := st.P.layout.get(m.Key())
		mp := st.conc(r.leaves(st)[0], 64, "map")
		var out []rval
		if mp != 0 {
			it := st.newMapIter(mp)
			for {
				e, ok := st.iterStep(it)
				if !ok {
					break
				}
				l := make([]V, kt.N)
				st.load(V{c: e.k}, kt, l)
				out = append(out, st.mkRV(m.Key(), l, 0))
			}
		}
		st.sliceOfValues(out, d)
	})
	reg("(reflect.Value).Call", func(st *State, fr *Frame, fn *Fn, a, d []V) {
		r := st.rv(a)
		sig, ok := r.t.T.Underlying().(*types.Signature)
		if !ok {
			st.panicStr("reflect: call of Call on non-func Value")
		}
		f, clo := st.funcValue(r.leaves(st)[0])
		n := int(st.conc(a[4], 64, "args"))
		if n != sig.Params().Len() {
			st.panicStr("reflect: Call with wrong argument count")
		}
		base := st.conc(a[3], 64, "args")
		var buf []V
		for i := 0; i < n; i++ {
			var v [3]V
			st.load(V{c: base + uint64(24*i)}, st.P.layout.get(st.P.reflectValue), v[:])
			buf = append(buf, st.assignTo(st.rv(v[:]), sig.Params().At(i).Type())...)
		}
		f.compile()
		out := make([]V, f.results.N)
		st.call(fr, f, buf, clo, out)
		var rs []rval
		k := 0
		for i := 0; i < sig.Results().Len(); i++ {
			t := sig.Results().At(i).Type()
			m := st.P.layout.get(t).N
			rs = append(rs, st.mkRV(t, out[k:k+m], 0))
			k += m
		}
		st.sliceOfValues(rs, d)
	})
	_ = fmt.Sprint
	_ = strings.ToUpper
	_ = ssa.SanityCheckFunctions
}
