package engine

import (
	"go/types"
	"strconv"

	"golang.org/x/tools/go/ssa"
)

type mapEnt struct {
	k, v uint64
}

// MapObj is the contents of a Go map: insertion-ordered entries whose keys and
// values live in their own memory objects.
type MapObj struct {
	mt     *types.Map
	kt, vt *TInfo
	ents   []mapEnt
	index  map[string]int // nil when some key is symbolic
	owner  uint32
}

func (st *State) newMap(mt *types.Map) uint64 {
	o := st.alloc(48, true)
	o.Name = "map header"
	m := &MapObj{mt: mt, kt: st.P.layout.get(mt.Key()), vt: st.P.layout.get(mt.Elem()), index: map[string]int{}, owner: st.id}
	st.maps[o.Base] = m
	return o.Base
}

func (st *State) mapAt(a uint64) *MapObj {
	if m := st.maps[a]; m != nil {
		return m
	}
	if m := st.baseMaps[a]; m != nil {
		return m
	}
	st.memFault("map operation on a value that is not a map")
	return nil
}

func (st *State) mapOwn(a uint64) *MapObj {
	m := st.mapAt(a)
	if m.owner == st.id {
		return m
	}
	n := *m
	n.owner = st.id
	n.ents = append([]mapEnt(nil), m.ents...)
	if m.index != nil {
		n.index = make(map[string]int, len(m.index))
		for k, v := range m.index {
			n.index[k] = v
		}
	}
	st.maps[a] = &n
	return &n
}

func (st *State) mapLen(a uint64) int {
	if a == 0 {
		return 0
	}
	return len(st.mapAt(a).ents)
}

func (st *State) mapSetLen(a uint64, n int) {
	o, off := st.objFor(a, 8, true)
	st.storeBits(o, off, 8, V{c: uint64(n)})
}

// concKey encodes a fully concrete key, or returns false.
func (st *State) concKey(t types.Type, k []V) (string, bool) {
	buf := make([]byte, 0, 16)
	ok := st.concKeyAppend(&buf, t, k)
	return string(buf), ok
}

func (st *State) concKeyAppend(buf *[]byte, t types.Type, k []V) bool {
	ti := st.P.layout.get(t)
	switch u := ti.U.(type) {
	case *types.Basic:
		if u.Info()&types.IsString != 0 {
			s, ok := "", k[0].e == nil && k[1].e == nil
			if ok {
				s, ok = st.goString(k[0], k[1])
			}
			if !ok {
				return false
			}
			*buf = strconv.AppendInt(*buf, int64(len(s)), 10)
			*buf = append(*buf, ':')
			*buf = append(*buf, s...)
			return true
		}
		if u.Info()&(types.IsFloat|types.IsComplex) != 0 {
			return false
		}
	case *types.Interface:
		rt := st.dynType(k[0])
		if rt == nil {
			*buf = append(*buf, "nil;"...)
			return true
		}
		*buf = strconv.AppendUint(*buf, rt.Addr, 16)
		*buf = append(*buf, ';')
		if pointerShaped(rt.T) {
			if k[1].e != nil {
				return false
			}
			*buf = strconv.AppendUint(*buf, k[1].c, 16)
			return true
		}
		di := st.P.layout.get(rt.T)
		dv := make([]V, di.N)
		st.load(k[1], di, dv)
		return st.concKeyAppend(buf, rt.T, dv)
	case *types.Struct:
		i := 0
		for f := 0; f < u.NumFields(); f++ {
			n := st.P.layout.get(u.Field(f).Type()).N
			if !st.concKeyAppend(buf, u.Field(f).Type(), k[i:i+n]) {
				return false
			}
			*buf = append(*buf, ',')
			i += n
		}
		return true
	case *types.Array:
		n := st.P.layout.get(u.Elem()).N
		for i := 0; i < int(u.Len()); i++ {
			if !st.concKeyAppend(buf, u.Elem(), k[i*n:(i+1)*n]) {
				return false
			}
			*buf = append(*buf, ',')
		}
		return true
	}
	for i, v := range k {
		if v.e != nil || ti.Leaves[i].Kind == LFloat {
			return false
		}
		*buf = strconv.AppendUint(*buf, v.c, 16)
		*buf = append(*buf, '.')
	}
	return true
}

func (st *State) mapCompat(m *MapObj, kt, vt *TInfo) {
	if m.kt == kt && m.vt == vt {
		return
	}
	if m.kt.Size != kt.Size || m.vt.Size != vt.Size || m.kt.N != kt.N {
		st.memFault("map accessed through an incompatible map type: " + m.mt.String())
	}
	for i := range kt.Leaves {
		if (kt.Leaves[i].Kind == LFloat) != (m.kt.Leaves[i].Kind == LFloat) {
			st.memFault("map accessed through a map type with a different hash: " + m.mt.String())
		}
	}
}

func (st *State) mapFindIdx(a uint64, kt, vt *TInfo, k []V) int {
	m := st.mapAt(a)
	st.mapCompat(m, kt, vt)
	if m.index != nil {
		if s, ok := st.concKey(m.kt.T, k); ok {
			if i, ok := m.index[s]; ok {
				return i
			}
			return -1
		}
	}
	kv := make([]V, kt.N)
	for i := range m.ents {
		st.load(V{c: m.ents[i].k}, kt, kv)
		if st.branch(st.mkV(st.eqVals(kt.T, kv, k))) {
			return i
		}
	}
	return -1
}

func (st *State) mapFind(a uint64, kt, vt *TInfo, k []V) uint64 {
	st.raceMap(a, false)
	i := st.mapFindIdx(a, kt, vt, k)
	if i < 0 {
		return 0
	}
	return st.mapAt(a).ents[i].v
}

// mapAssign returns the address of the value slot for k, inserting it if absent.
func (st *State) mapAssign(a uint64, kt, vt *TInfo, k []V) uint64 {
	st.raceMap(a, true)
	k = append([]V(nil), k...)
	i := st.mapFindIdx(a, kt, vt, k)
	if i >= 0 {
		return st.mapAt(a).ents[i].v
	}
	m := st.mapOwn(a)
	ko := st.alloc(max(kt.Size, 1), true)
	st.store(V{c: ko.Base}, kt, k)
	vo := st.alloc(max(vt.Size, 1), true)
	if m.kt.Ptr {
		ko.PtrT = m.kt
	} else {
		ko.NoScan = true
	}
	if m.vt.Ptr {
		vo.PtrT = m.vt
	} else {
		vo.NoScan = true
	}
	m.ents = append(m.ents, mapEnt{ko.Base, vo.Base})
	if m.index != nil {
		if s, ok := st.concKey(m.kt.T, k); ok {
			m.index[s] = len(m.ents) - 1
		} else {
			m.index = nil
		}
	}
	st.mapSetLen(a, len(m.ents))
	return vo.Base
}

func (st *State) mapDelete(a uint64, kt, vt *TInfo, k []V) {
	st.raceMap(a, true)
	i := st.mapFindIdx(a, kt, vt, k)
	if i < 0 {
		return
	}
	m := st.mapOwn(a)
	m.ents = append(m.ents[:i:i], m.ents[i+1:]...)
	if m.index != nil {
		for s, j := range m.index {
			if j == i {
				delete(m.index, s)
			} else if j > i {
				m.index[s] = j - 1
			}
		}
	}
	st.mapSetLen(a, len(m.ents))
}

// iter is a map or string iterator.
type iter struct {
	m    uint64
	rest []mapEnt
	isS  bool
	s    [2]V
	pos  uint64
}

func (st *State) newMapIter(a uint64) *iter {
	it := &iter{m: a}
	if a != 0 {
		st.raceMap(a, false)
		it.rest = append([]mapEnt(nil), st.mapAt(a).ents...)
	}
	return it
}

// step returns the next live entry, choosing the order nondeterministically
// when the state asks for it (Go's map iteration order is unspecified).
func (st *State) iterStep(it *iter) (mapEnt, bool) {
	for len(it.rest) > 0 {
		k := 0
		if st.lim.MapOrder && len(it.rest) > 1 && len(it.rest) <= 3 {
			k = int(st.choose("maporder", len(it.rest)))
		}
		e := it.rest[k]
		it.rest = append(append([]mapEnt(nil), it.rest[:k]...), it.rest[k+1:]...)
		for _, x := range st.mapAt(it.m).ents {
			if x == e {
				return e, true
			}
		}
	}
	return mapEnt{}, false
}

func (c *compiler) rangeInstr(in *ssa.Range, ds int32) instr {
	x := c.val(in.X)
	if _, ok := in.X.Type().Underlying().(*types.Map); ok {
		return func(fr *Frame) {
			st := fr.st
			a := st.conc(fr.get1(&x), 64, "map")
			st.iters = append(st.iters, st.newMapIter(a))
			fr.r[ds] = V{c: uint64(len(st.iters))}
		}
	}
	return func(fr *Frame) {
		st := fr.st
		v := fr.get(&x)
		st.iters = append(st.iters, &iter{isS: true, s: [2]V{v[0], v[1]}})
		fr.r[ds] = V{c: uint64(len(st.iters))}
	}
}

func (c *compiler) next(in *ssa.Next, d opnd) instr {
	p := c.p
	it := c.val(in.Iter)
	tup := in.Type().(*types.Tuple)
	kn := p.layout.get(tup.At(1).Type()).N
	vn := p.layout.get(tup.At(2).Type()).N
	ds := d.slot
	if in.IsString {
		return func(fr *Frame) {
			st := fr.st
			t := st.iters[fr.get1(&it).c-1]
			n := st.conc(t.s[1], 64, "string length")
			if t.pos >= n {
				clear(fr.r[ds : ds+1+int32(kn)+int32(vn)])
				return
			}
			fr.r[ds] = V{c: 1}
			fr.r[ds+1] = V{c: t.pos}
			a := st.conc(t.s[0], 64, "string ptr") + t.pos
			o, off := st.objFor(a, 1, false)
			b0 := st.loadBits(o, off, 1)
			ascii := b0.c < 0x80
			if b0.e != nil {
				ascii = st.branch(st.mkV(st.b.Cmp(OUlt, b0.e, st.b.Const(0x80, 8))))
			}
			if ascii {
				if b0.e != nil {
					fr.r[ds+2] = st.mkV(st.b.ZExt(b0.e, 32))
				} else {
					fr.r[ds+2] = b0
				}
				t.pos++
				return
			}
			var r [2]V
			st.callHelper(fr, "decodeRune", []V{{c: a}, {c: n - t.pos}}, r[:])
			fr.r[ds+2] = r[0]
			t.pos += st.conc(r[1], 64, "rune size")
		}
	}
	return func(fr *Frame) {
		st := fr.st
		t := st.iters[fr.get1(&it).c-1]
		e, ok := st.iterStep(t)
		if !ok {
			clear(fr.r[ds : ds+1+int32(kn)+int32(vn)])
			return
		}
		fr.r[ds] = V{c: 1}
		if !isOpaque(tup.At(1).Type()) {
			st.load(V{c: e.k}, p.layout.get(tup.At(1).Type()), fr.r[ds+1:ds+1+int32(kn)])
		}
		if !isOpaque(tup.At(2).Type()) {
			st.load(V{c: e.v}, p.layout.get(tup.At(2).Type()), fr.r[ds+1+int32(kn):ds+1+int32(kn)+int32(vn)])
		}
	}
}
