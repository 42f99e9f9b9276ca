package codec

import (
	"github.com/cloudwego/prutal"
	"github.com/cloudwego/prutal/internal/zzverif/ref"
	"github.com/cloudwego/prutal/internal/zzverif/sym"
)

// HGrow: a list keeps every element while it grows, whether elements come one by
// one or in packed runs. The list is the first repeated field of the type.
func HGrow() {
	t := sym.Param("t")
	x := newMsg[t]()
	f := firstList(x)
	elem := func(i int) []byte {
		switch f.Kind.WT() {
		case 1:
			return []byte{byte(i), 0, 0, 0, 0, 0, 0, byte(i)}
		case 5:
			return []byte{byte(i), 0, 0, byte(i)}
		case 2:
			if f.Kind == ref.Msg {
				return lenDelim(nil)
			}
			return lenDelim([]byte{byte(i)})
		}
		if f.Kind == ref.Bool {
			return []byte{byte(i & 1)}
		}
		return []byte{byte(i)}
	}
	var b []byte
	total := 0
	for r := sym.Param("runs"); r > 0; r-- {
		n := sym.Choose(sym.Param("n"))
		if f.Kind.Scalar() && sym.Choose(2) == 1 {
			var p []byte
			for i := 0; i < n; i++ {
				p = append(p, elem(total+i)...)
			}
			b = append(append(b, wireTag(f.Num, 2)...), lenDelim(p)...)
		} else {
			for i := 0; i < n; i++ {
				b = append(append(b, wireTag(f.Num, f.Kind.WT())...), elem(total+i)...)
			}
		}
		total += n
	}
	decodeAgree(b, t)
	sym.Reach("grown")
}

// HLens: everything written with a length prefix, around the lengths where the
// prefix grows.
func HLens() {
	n := sym.Param("lo") + sym.Choose(sym.Param("n"))
	s := make([]byte, n)
	s[0], s[n-1] = sym.Byte(), sym.Byte()
	var x message
	switch sym.Choose(9) {
	case 0:
		x = &Scalars{String: string(s)}
	case 1:
		x = &Scalars{Bytes: s}
	case 2:
		x = &Nest{P: &Nest{S: string(s)}}
	case 3:
		x = &Nest{L: []*Nest{{S: string(s)}, {P: &Nest{S: string(s)}}}}
	case 4:
		x = &PckBool{V: make([]bool, n)}
	case 5:
		x = &MapStringString{V: map[string]string{string(s): string(s)}}
	case 6:
		v := make([]int64, n)
		for i := range v {
			v[i] = 1
		}
		x = &PckSint64{V: v}
	case 7:
		x = &LstBytes{V: [][]byte{s, s[:n-1]}}
	case 8:
		x = &MapInt32Bytes{V: map[int32][]byte{1: s}}
	}
	want := x.dump()
	out, err := prutal.Marshal(x)
	sym.Assert(err == nil, "a valid message is not encoded")
	sz, err := prutal.Size(x)
	sym.Assert(err == nil && sz == len(out), "size differs from the length of the encoding")
	got, st := ref.Decode(x.schema(), out, maxDepth)
	sym.Assert(st == ref.OK, "the encoding is not valid")
	if d := ref.Diff(got, want); d != "" {
		sym.Assert(false, "the encoding does not represent the message: "+d)
	}
	sym.Assert(len(out) == len(ref.Encode(nil, want)), "the encoding is longer or shorter than the format's")
	sym.Reach("lens")
}

// HTrunc: no proper prefix of a field is accepted as that field.
func HTrunc() {
	t := sym.Param("t")
	x := newMsg[t]()
	b := wireMessage(x.schema(), sym.Param("k"), sym.Param("lv"))
	sym.Assume(len(b) > 0)
	n := sym.Choose(len(b))
	decodeAgree(b[:n:n], t)
	sym.Reach("cut")
}

// HReuse: lists cut back to length zero hold only what is decoded next.
func HReuse() {
	t := sym.Param("t")
	x := newMsg[t]()
	x.fill(fullMessage(x.schema(), 2))
	switch y := x.(type) {
	case *Lists:
		*y = Lists{Int32: y.Int32[:0], Int64: y.Int64[:0], Uint32: y.Uint32[:0], Uint64: y.Uint64[:0], Sint32: y.Sint32[:0],
			Sint64: y.Sint64[:0], Bool: y.Bool[:0], Fixed32: y.Fixed32[:0], Fixed64: y.Fixed64[:0], Sfixed32: y.Sfixed32[:0],
			Sfixed64: y.Sfixed64[:0], Float: y.Float[:0], Double: y.Double[:0], String: y.String[:0], Bytes: y.Bytes[:0]}
	case *Packs:
		*y = Packs{Int32: y.Int32[:0], Int64: y.Int64[:0], Uint32: y.Uint32[:0], Uint64: y.Uint64[:0], Sint32: y.Sint32[:0],
			Sint64: y.Sint64[:0], Bool: y.Bool[:0], Fixed32: y.Fixed32[:0], Fixed64: y.Fixed64[:0], Sfixed32: y.Sfixed32[:0],
			Sfixed64: y.Sfixed64[:0], Float: y.Float[:0], Double: y.Double[:0]}
	case *NestVal:
		*y = NestVal{L: y.L[:0]}
	case *Nest:
		*y = Nest{L: y.L[:0]}
	}
	b := wireMessage(x.schema(), sym.Param("k"), sym.Param("lv"))
	want, st := ref.Decode(x.schema(), b, maxDepth)
	sym.Assume(st == ref.OK)
	err := prutal.Unmarshal(b, x)
	sym.Assert(err == nil, "valid input is rejected")
	if d := ref.Diff(x.dump(), want); d != "" {
		sym.Assert(false, "earlier contents show through: "+d)
	}
	sym.Reach("reused")
}

// HBig: strings and byte strings of lengths around every allocation threshold,
// in every place they can occur, keep no reference to the input and do not run
// into one another.
func HBig() {
	t := sym.Param("t")
	sizes := []int{1, 255, 1023, 1024, 1025, 2048, 4096, 4097, 5000, 70000}
	x := newMsg[t]()
	sc := x.schema()
	var fs []*ref.Field
	for _, f := range sc.Fields {
		if f.Kind == ref.String || f.Kind == ref.Bytes || f.Card == ref.Map && f.Key == ref.String {
			fs = append(fs, f)
		}
	}
	var b []byte
	for i := sym.Param("n"); i > 0; i-- {
		c := len(fs)
		if sc.Keep {
			c++
		}
		c = sym.Choose(c)
		l := sizes[sym.Choose(sym.Param("sizes"))]
		s := make([]byte, l)
		for j := range s {
			s[j] = byte(i)
		}
		s[0], s[l/2], s[l-1] = sym.Byte(), sym.Byte(), sym.Byte()
		if c == len(fs) {
			b = append(append(b, wireTag(sc.Fields[len(sc.Fields)-1].Num+3, 2)...), lenDelim(s)...)
			continue
		}
		f := fs[c]
		p := lenDelim(s)
		if f.Card == ref.Map {
			k := []byte{8, byte(i)}
			if f.Key == ref.String {
				k = append(wireTag(1, 2), p...)
			}
			v := append(wireTag(2, 2), p...)
			if f.Kind != ref.String && f.Kind != ref.Bytes {
				v = nil
			}
			p = lenDelim(append(k, v...))
		}
		b = append(append(b, wireTag(f.Num, 2)...), p...)
	}
	want, st := ref.Decode(sc, append([]byte(nil), b...), maxDepth)
	sym.Assume(st == ref.OK)
	err := prutal.Unmarshal(b, x)
	sym.Assert(err == nil, "valid input is rejected")
	for i := range b {
		b[i] ^= 0xff
	}
	if d := ref.Diff(x.dump(), want); d != "" {
		sym.Assert(false, "the message shares memory with the input: "+d)
	}
	extend(x.dump())
	if d := ref.Diff(x.dump(), want); d != "" {
		sym.Assert(false, "appending to a byte string changes the message: "+d)
	}
	sym.Reach("big")
}

// HHist: messages decoded one after another, with failures in between, stay as
// they were decoded.
func HHist() {
	t := sym.Param("t")
	n := sym.Param("n")
	xs := make([]message, n)
	ws := make([]*ref.M, n)
	for i := 0; i < n; i++ {
		xs[i] = newMsg[t]()
		b := wireMessage(xs[i].schema(), sym.Param("k"), sym.Param("lv"))
		// leave the last byte away, or add a lone tag
		switch sym.Choose(3) {
		case 1:
			sym.Assume(len(b) > 0)
			b = b[:len(b)-1]
		case 2:
			b = append(b, wireTag(1, 2)...)
		}
		w, st := ref.Decode(xs[i].schema(), append([]byte(nil), b...), maxDepth)
		err := prutal.Unmarshal(b, xs[i])
		if st != ref.OK {
			sym.Assert(err != nil, "malformed input is accepted")
			xs[i] = nil
			continue
		}
		sym.Assert(err == nil, "valid input is rejected")
		ws[i] = w
		for j := range b {
			b[j] ^= 0xff
		}
		for j := 0; j <= i; j++ {
			if ws[j] == nil {
				continue
			}
			if d := ref.Diff(xs[j].dump(), ws[j]); d != "" {
				sym.Assert(false, "a later decode changed the message: "+d)
			}
		}
	}
	sym.Reach("hist")
}

// HGrowGC: as HGrow, and everything in the list survives a collection.
func HGrowGC() {
	n := sym.Param("lo") + sym.Choose(sym.Param("n"))
	t := sym.Param("t")
	x := newMsg[t]()
	f := firstList(x)
	var b []byte
	for i := 0; i < n; i++ {
		p := []byte{byte(i), byte(i >> 8)}
		if f.Kind == ref.Msg {
			p = []byte{8, byte(i & 0x7f)}
		}
		b = append(append(b, wireTag(f.Num, 2)...), lenDelim(p)...)
	}
	want, st := ref.Decode(x.schema(), b, maxDepth)
	sym.Assume(st == ref.OK)
	err := prutal.Unmarshal(b, x)
	sym.Assert(err == nil, "valid input is rejected")
	sym.DirtyWith(0xA5)
	if d := ref.Diff(x.dump(), want); d != "" {
		sym.Assert(false, "a collection changed the message: "+d)
	}
	sym.Reach("gc")
}

func firstList(x message) *ref.Field {
	for _, g := range x.schema().Fields {
		if g.Card == ref.Rep || g.Card == ref.Packed {
			return g
		}
	}
	return nil
}
