package codec

import (
	"sync"

	"github.com/cloudwego/prutal"
	"github.com/cloudwego/prutal/internal/zzverif/ref"
	"github.com/cloudwego/prutal/internal/zzverif/sym"
)

// FA and FB refer to each other; every instance is a type of its own, so that
// each run natively has types nobody has used before.
type FA[T any] struct {
	X int32             `protobuf:"varint,1,opt,name=x"`
	S string            `protobuf:"bytes,2,opt,name=s"`
	L []int64           `protobuf:"zigzag64,3,rep,packed,name=l"`
	B *FB[T]            `protobuf:"bytes,4,opt,name=b"`
	M map[string]*FB[T] `protobuf:"bytes,5,rep,name=m" protobuf_key:"bytes,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"`
	R []*FA[T]          `protobuf:"bytes,6,rep,name=r"`
	t T
}

type FB[T any] struct {
	A *FA[T]   `protobuf:"bytes,1,opt,name=a"`
	Y uint64   `protobuf:"fixed64,2,opt,name=y"`
	P *bool    `protobuf:"varint,2000,opt,name=p"`
	C []*FC[T] `protobuf:"bytes,4,rep,name=c"`
}

type FC[T any] struct {
	Z float64          `protobuf:"fixed64,1,opt,name=z"`
	W map[int32]string `protobuf:"bytes,2,rep,name=w" protobuf_key:"varint,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"`
}

// FBad cannot be parsed, although it refers to types that can.
type FBad[T any] struct {
	A *FA[T]    `protobuf:"bytes,1,opt,name=a"`
	G *FGood[T] `protobuf:"bytes,2,opt,name=g"`
	Q chan int  `protobuf:"varint,3,opt,name=q"`
}

// FGood refers to FBad and so cannot be used either.
type FGood[T any] struct {
	B *FBad[T] `protobuf:"bytes,1,opt,name=b"`
	I int32    `protobuf:"varint,2,opt,name=i"`
}

type fresh interface {
	a(x uint8, s []byte, l uint8, y uint64, deep int) freshMsg
	newA() freshMsg
	newB() freshMsg
	bad(kind int) any
}

// freshMsg can check itself against the values it was built from.
type freshMsg interface {
	ok(x uint8, s []byte, l uint8, y uint64, deep int) bool
}

type fr[T any] struct{}

func (fr[T]) a(x uint8, s []byte, l uint8, y uint64, deep int) freshMsg {
	t := true
	b := &FB[T]{Y: y, P: &t, C: []*FC[T]{{Z: 1, W: map[int32]string{7: string(s)}}}}
	switch deep {
	case 1:
		b.A = &FA[T]{X: int32(x), M: map[string]*FB[T]{string(s): {Y: y}}}
	case 2:
		return b
	}
	return &FA[T]{X: int32(x), S: string(s), L: []int64{int64(l), -int64(l)}, B: b}
}

func (f *FA[T]) ok(x uint8, s []byte, l uint8, y uint64, deep int) bool {
	if f.X != int32(x) || f.S != string(s) || len(f.L) != 2 || f.L[0] != int64(l) || f.L[1] != -int64(l) || f.B == nil {
		return false
	}
	return f.B.ok(x, s, l, y, deep)
}

func (f *FB[T]) ok(x uint8, s []byte, l uint8, y uint64, deep int) bool {
	if f.Y != y || f.P == nil || !*f.P || len(f.C) != 1 || f.C[0].Z != 1 || len(f.C[0].W) != 1 || f.C[0].W[7] != string(s) {
		return false
	}
	if deep == 1 {
		m := f.A
		return m != nil && m.X == int32(x) && len(m.M) == 1 && m.M[string(s)] != nil && m.M[string(s)].Y == y
	}
	return f.A == nil
}

func (fr[T]) newA() freshMsg { return new(FA[T]) }
func (fr[T]) newB() freshMsg { return new(FB[T]) }
func (fr[T]) bad(kind int) any {
	if kind == 0 {
		return new(FBad[T])
	}
	return new(FGood[T])
}

// freshEnc is the encoding of the message freshType.a builds.
func freshEnc(x uint8, s []byte, l uint8, y uint64, deep int) []byte {
	fix := func(b []byte, v uint64) []byte {
		for i := 0; i < 8; i++ {
			b = append(b, byte(v>>(8*i)))
		}
		return b
	}
	var b []byte
	if deep == 1 {
		var e []byte
		e = append(append(e, 10), lenDelim(s)...)
		e = append(append(e, 18), lenDelim(fix([]byte{17}, y))...)
		var m []byte
		if x != 0 {
			m = append(m, 8)
			m = ref.AppendUvarint(m, uint64(x))
		}
		m = append(append(m, 42), lenDelim(e)...)
		b = append(append(b, 10), lenDelim(m)...)
	}
	if y != 0 {
		b = fix(append(b, 17), y)
	}
	c := fix([]byte{9}, 0x3ff0000000000000)
	w := append([]byte{8, 7, 18}, lenDelim(s)...)
	c = append(append(c, 18), lenDelim(w)...)
	b = append(append(b, 34), lenDelim(c)...)
	b = append(append(b, wireTag(2000, 0)...), 1)
	if deep == 2 {
		return b
	}
	var o []byte
	if x != 0 {
		o = ref.AppendUvarint(append(o, 8), uint64(x))
	}
	o = append(append(o, 18), lenDelim(s)...)
	z := ref.AppendUvarint(nil, uint64(l)<<1)
	if l != 0 {
		z = ref.AppendUvarint(z, uint64(l)<<1-1)
	} else {
		z = append(z, 0)
	}
	o = append(append(o, 26), lenDelim(z)...)
	return append(append(o, 34), lenDelim(b)...)
}

var freshNo int

// freshType returns types of FA's family nobody has used before.
func freshType() fresh {
	if !sym.Native() {
		return freshTypes[0]
	}
	freshNo++
	return freshTypes[freshNo%len(freshTypes)]
}

// freshOp is one use of the types with symbolic contents; it reports whether
// the outcome was right.
func freshOp(f fresh, op int, deep int, v [4]byte) string {
	x, s, l := v[0]&0x3f|0x40, []byte{'k', v[1]}, v[2]&0x1f|0x20
	y := uint64(v[3]) | 1<<40
	switch op {
	case 0:
		b := freshEnc(x, s, l, y, deep)
		m := f.newA()
		if deep == 2 {
			m = f.newB()
		}
		if err := prutal.Unmarshal(b, m); err != nil {
			return "valid input is rejected"
		}
		if !m.ok(x, s, l, y, deep) {
			return "decoded wrongly"
		}
	case 1:
		b, err := prutal.Marshal(f.a(x, s, l, y, deep))
		if err != nil {
			return "a valid message is not encoded"
		}
		if string(b) != string(freshEnc(x, s, l, y, deep)) {
			return "encoded wrongly"
		}
	case 2:
		n, err := prutal.Size(f.a(x, s, l, y, deep))
		if err != nil || n != len(freshEnc(x, s, l, y, deep)) {
			return "sized wrongly"
		}
	case 3, 4:
		m := f.bad(op - 3)
		if err := prutal.Unmarshal(nil, m); err == nil {
			return "a type that cannot be supported is accepted for decoding"
		}
		if _, err := prutal.Marshal(m); err == nil {
			return "a type that cannot be supported is accepted for encoding"
		}
		if _, err := prutal.Size(m); err == nil {
			return "a type that cannot be supported is accepted for sizing"
		}
	}
	return ""
}

func in4() [4]byte {
	return [4]byte{sym.Byte(), sym.Byte(), sym.Byte(), sym.Byte()}
}

// HFirst: the first uses of types that refer to each other, one after another in
// any order and with failures in between, all work.
func HFirst() {
	f := freshType()
	for i := sym.Param("n"); i > 0; i-- {
		op := sym.Choose(5)
		deep := 0
		if op < 3 {
			deep = sym.Choose(3)
		}
		msg := freshOp(f, op, deep, in4())
		sym.Assert(msg == "", "the outcome depends on which types were used before: "+msg)
	}
	sym.Reach("first")
}

// HConc: goroutines using types that refer to each other, for the first time or
// not, do not influence each other.
func HConc() {
	f := freshType()
	n := sym.Param("n")
	if sym.Param("warm") != 0 {
		_ = freshOp(f, 1, 1, [4]byte{1, 2, 3, 4})
	}
	res := make([]string, n)
	ops := make([]int, n)
	deeps := make([]int, n)
	vs := make([][4]byte, n)
	for i := 0; i < n; i++ {
		ops[i] = sym.Choose(sym.Param("ops"))
		if ops[i] < 3 {
			deeps[i] = sym.Choose(3)
		}
		vs[i] = in4()
		if i > 0 && ops[i] < ops[i-1] {
			sym.Assume(false) // symmetric
		}
	}
	var wg sync.WaitGroup
	var start sync.RWMutex
	if sym.Native() {
		start.Lock()
	}
	for i := 0; i < n; i++ {
		i := i
		wg.Add(1)
		go func() {
			defer wg.Done()
			if sym.Native() {
				start.RLock()
				start.RUnlock()
			}
			res[i] = freshOp(f, ops[i], deeps[i], vs[i])
		}()
	}
	if sym.Native() {
		start.Unlock()
	}
	wg.Wait()
	for i := range res {
		sym.Assert(res[i] == "", "goroutines disturb each other: "+res[i])
	}
	sym.Reach("concurrent")
}

// HShare: goroutines encode and size one message at the same time.
func HShare() {
	x, m := arb()
	n := sym.Param("n")
	ops := make([]int, n)
	outs := make([][]byte, n)
	sizes := make([]int, n)
	errs := make([]error, n)
	for i := range ops {
		ops[i] = sym.Choose(2)
	}
	var wg sync.WaitGroup
	for i := 0; i < n; i++ {
		i := i
		wg.Add(1)
		go func() {
			defer wg.Done()
			if ops[i] == 0 {
				outs[i], errs[i] = prutal.Marshal(x)
				sizes[i] = len(outs[i])
			} else {
				sizes[i], errs[i] = prutal.Size(x)
			}
		}()
	}
	wg.Wait()
	for i := range ops {
		sym.Assert(errs[i] == nil, "a valid message is not encoded")
		sym.Assert(sizes[i] == len(ref.Encode(nil, m)), "concurrent encoding gives another length")
		if ops[i] == 0 {
			got, st := ref.Decode(x.schema(), outs[i], maxDepth)
			sym.Assert(st == ref.OK, "the encoding is not valid")
			if d := ref.Diff(got, m); d != "" {
				sym.Assert(false, "the encoding does not represent the message: "+d)
			}
		}
	}
	sym.Reach("shared")
}

// HPools: goroutines decode into messages of their own at the same time.
func HPools() {
	t := sym.Param("t")
	n := sym.Param("n")
	xs := make([]message, n)
	bs := make([][]byte, n)
	ws := make([]*ref.M, n)
	sts := make([]ref.Status, n)
	errs := make([]error, n)
	for i := range xs {
		xs[i] = newMsg[t]()
		bs[i] = wireMessage(xs[i].schema(), sym.Param("k"), sym.Param("lv"))
		if len(bs[i]) > 0 && sym.Choose(2) == 1 {
			bs[i] = bs[i][:len(bs[i])-1]
		}
		ws[i], sts[i] = ref.Decode(xs[i].schema(), append([]byte(nil), bs[i]...), maxDepth)
	}
	var wg sync.WaitGroup
	for i := 0; i < n; i++ {
		i := i
		wg.Add(1)
		go func() {
			defer wg.Done()
			errs[i] = prutal.Unmarshal(bs[i], xs[i])
		}()
	}
	wg.Wait()
	for i := range xs {
		if sts[i] != ref.OK {
			sym.Assert(errs[i] != nil, "malformed input is accepted")
			continue
		}
		sym.Assert(errs[i] == nil, "valid input is rejected")
		if d := ref.Diff(xs[i].dump(), ws[i]); d != "" {
			sym.Assert(false, "concurrent decoding differs: "+d)
		}
	}
	sym.Reach("decoded")
}
