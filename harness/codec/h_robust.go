package codec

import (
	"github.com/cloudwego/prutal"
	"github.com/cloudwego/prutal/internal/zzverif/ref"
	"github.com/cloudwego/prutal/internal/zzverif/sym"
)

// fullMessage populates every field with fixed values.
func fullMessage(s *ref.Schema, lv int) *ref.M {
	m := ref.New(s)
	val := func(f *ref.Field, k ref.Kind) ref.Val {
		switch k {
		case ref.String, ref.Bytes:
			return ref.Val{B: []byte("ab")}
		case ref.Msg:
			if lv <= 1 {
				return ref.Val{M: ref.New(f.Sub)}
			}
			return ref.Val{M: fullMessage(f.Sub, lv-1)}
		}
		return ref.Val{U: 1}
	}
	for i, f := range s.Fields {
		switch f.Card {
		case ref.Rep, ref.Packed:
			m.F[i].List = []ref.Val{val(f, f.Kind), val(f, f.Kind)}
		case ref.Map:
			m.F[i].Map = []ref.Entry{{K: val(f, f.Key), V: val(f, f.Kind)}}
		default:
			m.F[i] = set(val(f, f.Kind))
		}
	}
	m.Unknown = []byte{0xf8, 0x07, 1}
	return m
}

// HCrash: decoding any bytes, into an empty or a populated message, returns
// normally; afterwards the message can be read and encoded.
func HCrash() {
	t := sym.Param("t")
	x := newMsg[t]()
	if sym.Param("pre") != 0 {
		x.fill(fullMessage(x.schema(), 2))
	}
	b := input()
	err := prutal.Unmarshal(b, x)
	sym.Obs("err", sym.B2U(err != nil))
	sym.Obs("dig", ref.Digest(x.dump()))
	_, err = prutal.Marshal(x)
	sym.Assert(err == nil, "a decoded message is not encoded")
	_, err = prutal.Size(x)
	sym.Assert(err == nil, "a decoded message has no size")
	if err != nil {
		sym.Reach("rejected")
	}
	sym.Reach("done")
}

// HAlias: a decoded message depends neither on the input buffer nor on later
// decoding, and messages decoded one after another share no memory.
func HAlias() {
	t := sym.Param("t")
	x, y := newMsg[t](), newMsg[t]()
	b := wireMessage(x.schema(), sym.Param("k"), sym.Param("lv"))
	want, st := ref.Decode(x.schema(), append([]byte(nil), b...), maxDepth)
	sym.Assume(st == ref.OK)
	err := prutal.Unmarshal(b, x)
	sym.Assert(err == nil, "valid input is rejected")
	orig := append([]byte(nil), b...)
	for i := range b {
		b[i] = ^b[i]
	}
	if d := ref.Diff(x.dump(), want); d != "" {
		sym.Assert(false, "the message shares memory with the input: "+d)
	}
	copy(b, orig)
	c := append([]byte(nil), orig...)
	err = prutal.Unmarshal(c, y)
	sym.Assert(err == nil, "valid input is rejected")
	if d := ref.Diff(x.dump(), want); d != "" {
		sym.Assert(false, "a later decode changed the message: "+d)
	}
	if d := ref.Diff(y.dump(), want); d != "" {
		sym.Assert(false, "decoding again gives another message: "+d)
	}
	extend(y.dump())
	if d := ref.Diff(y.dump(), want); d != "" {
		sym.Assert(false, "appending to a byte string changes the message: "+d)
	}
	scribble(y.dump())
	if d := ref.Diff(x.dump(), want); d != "" {
		sym.Assert(false, "two decoded messages share memory: "+d)
	}
	var d byte
	for i := range b {
		d |= b[i] ^ orig[i]
	}
	sym.Assert(d == 0, "decoding or using the message changed the input")
	sym.Reach("alias")
}

// extend appends to every byte slice of the message behind m.
func extend(m *ref.M) {
	if m == nil {
		return
	}
	ap := func(b []byte) {
		if b != nil {
			_ = append(b, 0xEE, 0xEE, 0xEE, 0xEE)
		}
	}
	val := func(k ref.Kind, v ref.Val) {
		switch k {
		case ref.Bytes:
			ap(v.B)
		case ref.Msg:
			extend(v.M)
		}
	}
	for i, f := range m.S.Fields {
		val(f.Kind, m.F[i].V)
		for _, v := range m.F[i].List {
			val(f.Kind, v)
		}
		for _, e := range m.F[i].Map {
			val(f.Kind, e.V)
		}
	}
	ap(m.Unknown)
}

// scribble inverts every byte slice of the message behind m.
func scribble(m *ref.M) {
	if m == nil {
		return
	}
	inv := func(b []byte) {
		for i := range b {
			b[i] = ^b[i]
		}
	}
	val := func(k ref.Kind, v ref.Val) {
		switch k {
		case ref.Bytes:
			inv(v.B)
		case ref.Msg:
			scribble(v.M)
		}
	}
	for i, f := range m.S.Fields {
		val(f.Kind, m.F[i].V)
		for _, v := range m.F[i].List {
			val(f.Kind, v)
		}
		for _, e := range m.F[i].Map {
			val(f.Kind, e.V)
		}
	}
	inv(m.Unknown)
}

// HDet: what decoding leaves in a message is a function of the input bytes,
// whether it succeeds or fails; nothing else in memory shows through.
func HDet() {
	t := sym.Param("t")
	b := input()
	sym.DirtyWith(0xA5)
	x := newMsg[t]()
	e1 := prutal.Unmarshal(b, x)
	dx := ref.Digest(x.dump())
	sym.DirtyWith(0x5A)
	y := newMsg[t]()
	e2 := prutal.Unmarshal(b, y)
	sym.Assert((e1 == nil) == (e2 == nil), "the same input is accepted or rejected by chance")
	sym.Assert(dx == ref.Digest(y.dump()), "memory contents show through in the decoded message")
	sym.Reach("both")
}

// HAlloc: memory allocated while decoding is proportional to the input.
func HAlloc() {
	t := sym.Param("t")
	b := input()
	x := newMsg[t]()
	a := sym.Allocated()
	_ = prutal.Unmarshal(b, x)
	a = sym.Allocated() - a
	sym.Assert(a <= uint64(64<<10+2048*len(b)), "decoding allocates far more than the input justifies")
	sym.Reach("alloc")
}

// HGC: everything reachable from a decoded message stays alive.
func HGC() {
	t := sym.Param("t")
	x := newMsg[t]()
	b := wireMessage(x.schema(), sym.Param("k"), sym.Param("lv"))
	want, st := ref.Decode(x.schema(), b, maxDepth)
	sym.Assume(st == ref.OK)
	err := prutal.Unmarshal(b, x)
	sym.Assert(err == nil, "valid input is rejected")
	sym.DirtyWith(0xA5)
	if d := ref.Diff(x.dump(), want); d != "" {
		sym.Assert(false, "a collection changed the message: "+d)
	}
	sym.Reach("gc")
}

// HSpan: strings and scalars of boundary sizes carved out of shared memory
// neither overlap nor lose bytes.
func HSpan() {
	sizes := []int{1, 3, 1021, 1024, 1025, 2047}
	n := sym.Param("n")
	x := new(Lists)
	var b []byte
	var want [][]byte
	for i := 0; i < n; i++ {
		l := sizes[sym.Choose(len(sizes))]
		s := make([]byte, l)
		for j := range s {
			s[j] = byte(i)
		}
		s[0], s[l-1] = sym.Byte(), sym.Byte()
		want = append(want, s)
		num := 14 + sym.Choose(2)
		b = append(b, wireTag(num, 2)...)
		b = append(b, lenDelim(s)...)
		b = append(b, wireTag(9, 1)...)
		b = append(b, byte(i), 1, 2, 3, 4, 5, 6, 7)
	}
	m, st := ref.Decode(x.schema(), b, maxDepth)
	sym.Assume(st == ref.OK)
	err := prutal.Unmarshal(b, x)
	sym.Assert(err == nil, "valid input is rejected")
	if d := ref.Diff(x.dump(), m); d != "" {
		sym.Assert(false, "decoded values overlap: "+d)
	}
	sym.Reach("span")
}

// Deep nests through every kind of field.
type Deep struct {
	P *Deep            `protobuf:"bytes,1,opt,name=p"`
	L []*Deep          `protobuf:"bytes,2,rep,name=l"`
	M map[int32]*Deep  `protobuf:"bytes,3,rep,name=m" protobuf_key:"varint,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"`
	S map[string]*Deep `protobuf:"bytes,4,rep,name=s" protobuf_key:"bytes,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"`
	B map[bool]*Deep   `protobuf:"bytes,5,rep,name=b" protobuf_key:"varint,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"`
	V map[int64]*Deep  `protobuf:"bytes,6,rep,name=v" protobuf_key:"varint,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"`
	// Types: *Deep_O
	O isDeep_O        `protobuf_oneof:"o"`
	W []Deep          `protobuf:"bytes,8,rep,name=w"`
	X map[uint32]Deep `protobuf:"bytes,9,rep,name=x" protobuf_key:"varint,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"`
}

type isDeep_O interface{ isDeep_O() }

type Deep_O struct {
	O *Deep `protobuf:"bytes,7,opt,name=o,oneof"`
}

func (*Deep_O) isDeep_O() {}

func (*Deep) XXX_OneofWrappers() []interface{} { return []interface{}{(*Deep_O)(nil)} }

const deepKinds = 9

// deepen wraps x and its encoding b into one more level of the given kind.
func deepen(x *Deep, b []byte, kind int) (*Deep, []byte) {
	y := new(Deep)
	p := lenDelim(b)
	switch kind {
	case 0:
		y.P = x
	case 1:
		y.L = []*Deep{x}
	case 2:
		y.M = map[int32]*Deep{1: x}
		p = lenDelim(append([]byte{8, 1, 18}, p...))
	case 3:
		y.S = map[string]*Deep{"k": x}
		p = lenDelim(append([]byte{10, 1, 'k', 18}, p...))
	case 4:
		y.B = map[bool]*Deep{true: x}
		p = lenDelim(append([]byte{8, 1, 18}, p...))
	case 5:
		y.V = map[int64]*Deep{1: x}
		p = lenDelim(append([]byte{8, 1, 18}, p...))
	case 6:
		y.O = &Deep_O{x}
	case 7:
		y.W = []Deep{*x}
	case 8:
		y.X = map[uint32]Deep{1: *x}
		p = lenDelim(append([]byte{8, 1, 18}, p...))
	}
	return y, append(wireTag(kind+1, 2), p...)
}

// SetupDeep parses the type descriptor once.
func SetupDeep() {
	if _, err := prutal.Marshal(new(Deep)); err != nil {
		panic(err)
	}
}

// HDepth: messages nest up to the same depth however the nesting is written,
// and deeper ones are refused by decoding, encoding and sizing alike.
func HDepth() {
	depth := sym.Param("lo") + sym.Choose(sym.Param("n"))
	// the kind of nesting of the outermost, the middle, and the innermost steps
	ks := [3]int{sym.Choose(deepKinds), sym.Choose(deepKinds)}
	ks[2] = ks[0]
	if sym.Param("inner") != 0 {
		ks[2] = sym.Choose(deepKinds)
	}
	// depth counts messages, the outermost included
	x := new(Deep)
	var b []byte
	for i := 0; i < depth-1; i++ {
		k := ks[1]
		switch {
		case i < 3:
			k = ks[0]
		case i > depth-6:
			k = ks[2]
		}
		x, b = deepen(x, b, k)
	}
	want := depth <= maxDepth
	err := prutal.Unmarshal(b, new(Deep))
	sym.Assert((err == nil) == want, "decoding does not allow exactly the documented nesting depth")
	out, err := prutal.Marshal(x)
	sym.Assert((err == nil) == want, "encoding does not allow exactly the nesting depth decoding allows")
	n, err := prutal.Size(x)
	sym.Assert((err == nil) == want, "sizing does not allow exactly the nesting depth decoding allows")
	if want {
		sym.Assert(len(out) == len(b) && n == len(b), "a deeply nested message is encoded wrongly")
		sym.Reach("accepted")
	} else {
		sym.Reach("refused")
	}
}

// HUnk: fields a message type does not know survive decoding and encoding.
func HUnk() {
	t := sym.Param("t")
	x := newMsg[t]()
	b := wireMessage(x.schema(), sym.Param("k"), sym.Param("lv"))
	m, st := ref.Decode(x.schema(), b, maxDepth)
	sym.Assume(st == ref.OK)
	if sym.Param("pre") != 0 {
		// what an earlier decode kept is gone
		err := prutal.Unmarshal(append(wireTag(100, 0), sym.Byte()&0x7f), x)
		sym.Assert(err == nil, "valid input is rejected")
	}
	err := prutal.Unmarshal(b, x)
	sym.Assert(err == nil, "valid input is rejected")
	if d := ref.Diff(x.dump(), m); d != "" {
		sym.Assert(false, "decoded message differs: "+d)
	}
	out, err := prutal.Marshal(x)
	sym.Assert(err == nil, "a decoded message is not encoded")
	n, err := prutal.Size(x)
	sym.Assert(err == nil && n == len(out), "size differs from the length of the encoding")
	m2, st := ref.Decode(x.schema(), out, maxDepth)
	sym.Assert(st == ref.OK, "the encoding is not valid")
	if d := ref.Diff(m2, m); d != "" {
		sym.Assert(false, "re-encoding does not preserve the message: "+d)
	}
	sym.Obs("len", uint64(len(out)))
	sym.Reach("unknown")
}

// HMerge: decoding the concatenation of two encodings is decoding one after the
// other into the same message.
func HMerge() {
	t := sym.Param("t")
	x := newMsg[t]()
	a := wireMessage(x.schema(), sym.Param("k"), sym.Param("lv"))
	b := wireMessage(x.schema(), sym.Param("k"), sym.Param("lv"))
	m := ref.New(x.schema())
	sym.Assume(m.Merge(a, maxDepth) == ref.OK)
	sym.Assume(m.Merge(b, maxDepth) == ref.OK)
	err := prutal.Unmarshal(append(append([]byte(nil), a...), b...), x)
	sym.Assert(err == nil, "valid input is rejected")
	if d := ref.Diff(x.dump(), m); d != "" {
		sym.Assert(false, "concatenated encodings do not merge: "+d)
	}
	y := newMsg[t]()
	err = prutal.Unmarshal(a, y)
	sym.Assert(err == nil, "valid input is rejected")
	err = prutal.Unmarshal(b, y)
	sym.Assert(err == nil, "valid input is rejected")
	// unknown fields start afresh with each decode
	if d := ref.DiffKnown(y.dump(), m); d != "" {
		sym.Assert(false, "decoding into a populated message does not merge: "+d)
	}
	sym.Reach("merged")
}
