package engine

import (
	"encoding/binary"
	"fmt"
	"go/types"
	"sync"

	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/types/typeutil"
)

type LKind uint8

const (
	LInt LKind = iota
	LBool
	LPtr
	LFloat
)

// Leaf is one machine scalar of a flattened Go type.
type Leaf struct {
	Off    uint32
	Size   uint8
	Kind   LKind
	Signed bool
}

// TInfo is the flattened layout of a Go type.
type TInfo struct {
	T      types.Type
	U      types.Type // underlying
	Size   int
	Align  int
	Leaves []Leaf
	Ptr    bool // contains pointers
	N      int  // len(Leaves)
	big    bool
}

var sizes = types.SizesFor("gc", "amd64")

type layoutCache struct {
	mu sync.RWMutex
	m  typeutil.Map
	p  map[types.Type]*TInfo
}

func (l *layoutCache) get(t types.Type) *TInfo {
	l.mu.RLock()
	ti := l.p[t]
	l.mu.RUnlock()
	if ti != nil {
		return ti
	}
	l.mu.Lock()
	defer l.mu.Unlock()
	if l.p == nil {
		l.p = map[types.Type]*TInfo{}
	}
	return l.build(t)
}

func (l *layoutCache) build(t types.Type) *TInfo {
	if ti := l.p[t]; ti != nil {
		return ti
	}
	if v := l.m.At(t); v != nil {
		l.p[t] = v.(*TInfo)
		return v.(*TInfo)
	}
	ti := &TInfo{T: types.Unalias(t), U: t.Underlying()}
	if tup, ok := t.(*types.Tuple); ok {
		off := uint32(0)
		for i := 0; i < tup.Len(); i++ {
			e := l.build(tup.At(i).Type())
			for _, lf := range e.Leaves {
				lf.Off += off
				ti.Leaves = append(ti.Leaves, lf)
			}
			off += uint32(e.Size+15) &^ 15
			ti.Ptr = ti.Ptr || e.Ptr
		}
		ti.Size = int(off)
		ti.N = len(ti.Leaves)
		l.p[t] = ti
		return ti
	}
	switch ti.U.(type) {
	case *types.TypeParam:
		panic("type parameter layout: " + t.String())
	}
	if isOpaque(t) {
		ti.Size, ti.Align = 8, 8
		ti.Leaves = []Leaf{{0, 8, LPtr, false}}
		ti.Ptr = true
		ti.N = 1
		l.p[t] = ti
		return ti
	}
	if b, ok := ti.U.(*types.Basic); ok && b.Info()&types.IsUntyped != 0 {
		d := types.Default(t)
		if b.Kind() == types.UntypedNil {
			d = types.Typ[types.UnsafePointer]
		}
		x := l.build(d)
		l.p[t] = x
		return x
	}
	ti.Size = int(sizes.Sizeof(t))
	ti.Align = int(sizes.Alignof(t))
	add := func(off uint32, sz uint8, k LKind, sg bool) {
		ti.Leaves = append(ti.Leaves, Leaf{off, sz, k, sg})
		if k == LPtr {
			ti.Ptr = true
		}
	}
	switch u := ti.U.(type) {
	case *types.Basic:
		switch {
		case u.Kind() == types.UnsafePointer:
			add(0, 8, LPtr, false)
		case u.Kind() == types.UntypedNil:
			add(0, 8, LPtr, false)
		case u.Info()&types.IsString != 0:
			add(0, 8, LPtr, false)
			add(8, 8, LInt, true)
		case u.Info()&types.IsBoolean != 0:
			add(0, 1, LBool, false)
		case u.Info()&types.IsInteger != 0:
			add(0, uint8(ti.Size), LInt, u.Info()&types.IsUnsigned == 0)
		case u.Info()&types.IsFloat != 0:
			add(0, uint8(ti.Size), LFloat, false)
		case u.Info()&types.IsComplex != 0:
			add(0, uint8(ti.Size/2), LFloat, false)
			add(uint32(ti.Size/2), uint8(ti.Size/2), LFloat, false)
		default:
			panic("layout of " + t.String())
		}
	case *types.Pointer, *types.Map, *types.Chan, *types.Signature:
		add(0, 8, LPtr, false)
	case *types.Slice:
		add(0, 8, LPtr, false)
		add(8, 8, LInt, true)
		add(16, 8, LInt, true)
	case *types.Interface:
		add(0, 8, LPtr, false)
		add(8, 8, LPtr, false)
	case *types.Struct:
		fs := make([]*types.Var, u.NumFields())
		for i := range fs {
			fs[i] = u.Field(i)
		}
		offs := sizes.Offsetsof(fs)
		for i, f := range fs {
			e := l.build(f.Type())
			for _, lf := range e.Leaves {
				lf.Off += uint32(offs[i])
				ti.Leaves = append(ti.Leaves, lf)
			}
			ti.Ptr = ti.Ptr || e.Ptr
			ti.big = ti.big || e.big
		}
	case *types.Array:
		e := l.build(u.Elem())
		ti.Ptr = e.Ptr
		if int64(len(e.Leaves))*u.Len() > 1<<16 {
			ti.big = true
		} else {
			for i := int64(0); i < u.Len(); i++ {
				for _, lf := range e.Leaves {
					lf.Off += uint32(i) * uint32(e.Size)
					ti.Leaves = append(ti.Leaves, lf)
				}
			}
		}
	default:
		panic(fmt.Sprintf("layout of %s (%T)", t, t))
	}
	ti.N = len(ti.Leaves)
	l.p[t] = ti
	l.m.Set(t, ti)
	return ti
}

// isOpaque reports ssa-internal types such as map/string iterators.
func isOpaque(t types.Type) bool {
	s := t.String()
	return s == "iter" || s == "invalid type" || s == "deferStack"
}

// pointerShaped reports whether an interface holds values of t directly.
func pointerShaped(t types.Type) bool {
	switch u := t.Underlying().(type) {
	case *types.Pointer, *types.Map, *types.Chan, *types.Signature:
		return true
	case *types.Basic:
		return u.Kind() == types.UnsafePointer
	case *types.Struct:
		return u.NumFields() == 1 && pointerShaped(u.Field(0).Type())
	case *types.Array:
		return u.Len() == 1 && pointerShaped(u.Elem())
	}
	return false
}

// RType is a runtime type descriptor object.
type RType struct {
	T    types.Type
	Addr uint64
	mset map[string]*ssa.Function
	mu   sync.Mutex
}

type itabKey struct {
	i, t uint64
}

// Itab is a runtime interface table object.
type Itab struct {
	Iface *types.Interface
	Typ   *RType
	Addr  uint64
}

type typeReg struct {
	mu     sync.RWMutex
	m      typeutil.Map
	byT    map[types.Type]*RType
	byAddr map[uint64]*RType
	itabs  map[itabKey]*Itab
	itabA  map[uint64]*Itab
}

func (p *Program) rtype(t types.Type) *RType {
	r := &p.types
	r.mu.RLock()
	x := r.byT[t]
	r.mu.RUnlock()
	if x != nil {
		return x
	}
	ti := p.layout.get(t)
	r.mu.Lock()
	defer r.mu.Unlock()
	if x := r.byT[t]; x != nil {
		return x
	}
	if v := r.m.At(t); v != nil {
		r.byT[t] = v.(*RType)
		return v.(*RType)
	}
	d := make([]byte, 96)
	binary.LittleEndian.PutUint64(d, uint64(ti.Size))
	d[21], d[22] = byte(ti.Align), byte(ti.Align)
	d[23] = byte(kindOf(t))
	o := p.newShared(d, "type "+t.String(), true)
	x = &RType{T: types.Unalias(t), Addr: o.Base, mset: map[string]*ssa.Function{}}
	r.byT[t] = x
	r.m.Set(t, x)
	r.byAddr[x.Addr] = x
	return x
}

func (p *Program) rtypeAt(addr uint64) *RType {
	r := &p.types
	r.mu.RLock()
	defer r.mu.RUnlock()
	return r.byAddr[addr]
}

func (p *Program) itab(it types.Type, t *RType) *Itab {
	ir := p.rtype(it)
	r := &p.types
	k := itabKey{ir.Addr, t.Addr}
	r.mu.RLock()
	x := r.itabs[k]
	r.mu.RUnlock()
	if x != nil {
		return x
	}
	r.mu.Lock()
	defer r.mu.Unlock()
	if x := r.itabs[k]; x != nil {
		return x
	}
	d := make([]byte, 32)
	binary.LittleEndian.PutUint64(d, ir.Addr)
	binary.LittleEndian.PutUint64(d[8:], t.Addr)
	o := p.newShared(d, "itab "+it.String()+","+t.T.String(), true)
	x = &Itab{Iface: it.Underlying().(*types.Interface), Typ: t, Addr: o.Base}
	r.itabs[k] = x
	r.itabA[x.Addr] = x
	return x
}

// typeOfWord maps an interface's first word to its dynamic type.
func (p *Program) typeOfWord(w uint64) *RType {
	r := &p.types
	r.mu.RLock()
	defer r.mu.RUnlock()
	if t := r.byAddr[w]; t != nil {
		return t
	}
	if it := r.itabA[w]; it != nil {
		return it.Typ
	}
	return nil
}

// ifaceWord returns the first word of an interface of type it holding t.
func (p *Program) ifaceWord(it types.Type, t *RType) uint64 {
	if it.Underlying().(*types.Interface).NumMethods() == 0 {
		return t.Addr
	}
	return p.itab(it, t).Addr
}

// reflect kinds
func kindOf(t types.Type) int {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch u.Kind() {
		case types.Bool, types.UntypedBool:
			return 1
		case types.Int, types.UntypedInt:
			return 2
		case types.Int8:
			return 3
		case types.Int16:
			return 4
		case types.Int32, types.UntypedRune:
			return 5
		case types.Int64:
			return 6
		case types.Uint:
			return 7
		case types.Uint8:
			return 8
		case types.Uint16:
			return 9
		case types.Uint32:
			return 10
		case types.Uint64:
			return 11
		case types.Uintptr:
			return 12
		case types.Float32:
			return 13
		case types.Float64, types.UntypedFloat:
			return 14
		case types.Complex64:
			return 15
		case types.Complex128:
			return 16
		case types.String, types.UntypedString:
			return 24
		case types.UnsafePointer:
			return 26
		}
	case *types.Array:
		return 17
	case *types.Chan:
		return 18
	case *types.Signature:
		return 19
	case *types.Interface:
		return 20
	case *types.Map:
		return 21
	case *types.Pointer:
		return 22
	case *types.Slice:
		return 23
	case *types.Struct:
		return 25
	}
	return 0
}

func (p *Program) method(rt *RType, pkg *types.Package, name string) *ssa.Function {
	key := name
	if pkg != nil && !types.NewVar(0, nil, name, nil).Exported() {
		key = pkg.Path() + "." + name
	}
	rt.mu.Lock()
	defer rt.mu.Unlock()
	if f, ok := rt.mset[key]; ok {
		return f
	}
	p.ssaMu.Lock()
	defer p.ssaMu.Unlock()
	ms := p.Prog.MethodSets.MethodSet(rt.T)
	sel := ms.Lookup(pkg, name)
	var f *ssa.Function
	if sel != nil {
		f = p.Prog.MethodValue(sel)
	}
	rt.mset[key] = f
	return f
}
