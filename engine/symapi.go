package engine

var symIntrinsics map[string]Intrinsic

func init() {
	in := func(w uint8) Intrinsic {
		return func(st *State, fr *Frame, fn *Fn, a, d []V) { d[0] = st.input(w) }
	}
	symIntrinsics = map[string]Intrinsic{
		"Byte": in(8), "U16": in(16), "U32": in(32), "U64": in(64),
		"Bool": func(st *State, fr *Frame, fn *Fn, a, d []V) {
			v := st.input(8)
			st.assume(st.mkBool(st.b.Cmp(OUle, v.e, st.b.Const(1, 8))))
			d[0] = st.mkBool(st.b.Cmp(OEq, v.e, st.b.Const(1, 8)))
		},
		"Int": func(st *State, fr *Frame, fn *Fn, a, d []V) { d[0] = st.rangeInput(a) },
		"Choose": func(st *State, fr *Frame, fn *Fn, a, d []V) {
			n := st.conc(a[0], 64, "Choose")
			v := st.rangeInput([]V{{}, {c: n - 1}})
			d[0] = V{c: st.conc(v, 64, "Choose")}
		},
		"Conc": func(st *State, fr *Frame, fn *Fn, a, d []V) { d[0] = V{c: st.conc(a[0], 64, "Conc")} },
		"Bytes": func(st *State, fr *Frame, fn *Fn, a, d []V) {
			n := int(st.conc(a[0], 64, "Bytes"))
			bs := make([]V, n)
			for i := range bs {
				bs[i] = st.input(8)
			}
			p := st.newBytes(bs)
			d[0], d[1], d[2] = V{c: p}, V{c: uint64(n)}, V{c: uint64(n)}
		},
		"Assume": func(st *State, fr *Frame, fn *Fn, a, d []V) { st.assume(a[0]) },
		"Assert": func(st *State, fr *Frame, fn *Fn, a, d []V) {
			msg, _ := st.goString(a[1], a[2])
			save := st.cur
			st.assert(a[0], msg)
			st.cur = save
		},
		"Reach": func(st *State, fr *Frame, fn *Fn, a, d []V) {
			t, _ := st.goString(a[0], a[1])
			st.reached[t] = true
		},
		"Obs": func(st *State, fr *Frame, fn *Fn, a, d []V) {
			t, _ := st.goString(a[0], a[1])
			st.obs = append(st.obs, Obs{Tag: t, Vals: []V{a[2]}})
		},
		"ObsB": func(st *State, fr *Frame, fn *Fn, a, d []V) {
			t, _ := st.goString(a[0], a[1])
			n := int(st.conc(a[3], 64, "ObsB"))
			st.obs = append(st.obs, Obs{Tag: t, Vals: append([]V{{c: uint64(n)}}, st.bytesAt(a[2].c, n)...)})
		},
		"Param": func(st *State, fr *Frame, fn *Fn, a, d []V) {
			t, _ := st.goString(a[0], a[1])
			v, ok := st.params[t]
			if !ok {
				st.end(endUnsupported, "no parameter "+t)
			}
			d[0] = V{c: uint64(v)}
		},
		"B2U": func(st *State, fr *Frame, fn *Fn, a, d []V) {
			if a[0].e == nil {
				d[0] = a[0]
				return
			}
			d[0] = st.mkV(st.b.Ite(a[0].e, st.b.Const(1, 64), st.b.Const(0, 64)))
		},
		"Allocated": func(st *State, fr *Frame, fn *Fn, a, d []V) { d[0] = V{c: uint64(st.allocBytes)} },
		"Dirty":     func(st *State, fr *Frame, fn *Fn, a, d []V) {},
		"DirtyWith": func(st *State, fr *Frame, fn *Fn, a, d []V) { st.pools = map[uint64][][2]V{} },
		"Native": func(st *State, fr *Frame, fn *Fn, a, d []V) { d[0] = V{} },
		"Yield":  func(st *State, fr *Frame, fn *Fn, a, d []V) { st.sched() },
	}
}

func (st *State) rangeInput(a []V) V {
	lo := st.conc(a[0], 64, "range")
	hi := st.conc(a[1], 64, "range")
	n := hi - lo
	var v V
	switch {
	case n < 1<<8:
		v = st.input(8)
	case n < 1<<16:
		v = st.input(16)
	case n < 1<<32:
		v = st.input(32)
	default:
		v = st.input(64)
	}
	e := v.e
	st.assume(st.mkBool(st.b.Cmp(OUle, e, st.b.Const(n, e.W))))
	if e.W < 64 {
		e = st.b.ZExt(e, 64)
	}
	return st.mkV(st.b.Bin(OAdd, e, st.b.Const(lo, 64)))
}
