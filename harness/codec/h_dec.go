package codec

import (
	"github.com/cloudwego/prutal"
	"github.com/cloudwego/prutal/internal/zzverif/ref"
	"github.com/cloudwego/prutal/internal/zzverif/sym"
)

const maxDepth = 1000

// SetupType parses the type descriptor once, so that exploration starts from a
// warm cache.
func SetupType() {
	if _, err := prutal.Marshal(newMsg[sym.Param("t")]()); err != nil {
		panic(err)
	}
}

// input builds the bytes to decode: an optional concrete tag followed by n
// arbitrary bytes, the first cont of which have their top bit set.
func input() []byte {
	var b []byte
	if tag := sym.Param("tag"); tag >= 0 {
		b = ref.AppendUvarint(b, uint64(tag))
	}
	d := sym.Bytes(sym.Param("n"))
	for i := 0; i < sym.Param("cont"); i++ {
		d[i] |= 0x80
	}
	return append(b, d...)
}

// decodeAgree decodes b with the code under check and with the reference.
func decodeAgree(b []byte, t int) (message, *ref.M, bool) {
	x := newMsg[t]()
	err := prutal.Unmarshal(b, x)
	sym.Obs("err", sym.B2U(err != nil))
	want, st := ref.Decode(x.schema(), b, maxDepth)
	switch st {
	case ref.OK:
		sym.Reach("valid")
		sym.Assert(err == nil, "valid input is rejected")
		got := x.dump()
		sym.Obs("dig", ref.Digest(got))
		if d := ref.Diff(got, want); d != "" {
			sym.Assert(false, "decoded message differs from the reference: "+d)
		}
		return x, want, true
	case ref.Malformed, ref.TooDeep:
		sym.Reach("malformed")
		sym.Assert(err != nil, "malformed input is accepted")
	case ref.Mismatch:
		sym.Reach("mismatch")
	}
	return x, nil, false
}

// HDec: every n-byte input (after an optional concrete tag) decodes as the
// protobuf specification says.
func HDec() {
	decodeAgree(input(), sym.Param("t"))
}

// ---- well-formed wire input generated from a schema ----
//
// Parameters: k occurrences per message (k2 in nested ones), vm the mask of
// varint lengths (bit i: length i+1), sl the longest string, pe the most packed
// elements, unk whether unknown fields occur, mf whether map entries may have
// any shape, lv the nesting depth.

// wireVarint returns an arbitrary varint of one of the lengths in mask.
func wireVarint(mask int) []byte {
	n := 0
	for i := 0; i < 10; i++ {
		if mask>>i&1 == 1 {
			n++
		}
	}
	c := sym.Choose(n)
	l := 0
	for i := 0; i < 10; i++ {
		if mask>>i&1 == 1 {
			if c == 0 {
				l = i + 1
			}
			c--
		}
	}
	b := sym.Bytes(l)
	for i := range b {
		if i < l-1 {
			b[i] |= 0x80
		} else {
			b[i] &= 0x7f
			if l == 10 {
				b[i] &= 1
			}
		}
	}
	return b
}

func lenDelim(p []byte) []byte { return append(ref.AppendUvarint(nil, uint64(len(p))), p...) }

func wireScalar(k ref.Kind, vm int) []byte {
	switch k.WT() {
	case 1:
		return sym.Bytes(8)
	case 5:
		return sym.Bytes(4)
	}
	return wireVarint(vm)
}

func wireValue(f *ref.Field, k ref.Kind, lv int) []byte {
	switch {
	case k == ref.Msg:
		return lenDelim(wireMessage(f.Sub, sym.Param("k2"), lv-1))
	case k == ref.String || k == ref.Bytes:
		return lenDelim(sym.Bytes(sym.Choose(sym.Param("sl") + 1)))
	}
	return wireScalar(k, sym.Param("vm"))
}

func wireTag(num, wt int) []byte { return ref.AppendUvarint(nil, uint64(num)<<3|uint64(wt)) }

func wireUnknown(num int) []byte {
	switch sym.Choose(5) {
	case 0:
		return append(wireTag(num, 0), wireVarint(3)...)
	case 1:
		return append(wireTag(num, 1), sym.Bytes(8)...)
	case 2:
		return append(wireTag(num, 2), lenDelim(sym.Bytes(sym.Choose(3)))...)
	case 3:
		b := wireTag(num, 3)
		b = append(b, wireTag(num+1, 0)...)
		b = append(b, sym.Byte()&0x7f)
		return append(b, wireTag(num, 4)...)
	}
	return append(wireTag(num, 5), sym.Bytes(4)...)
}

func wireEntry(f *ref.Field, lv int) []byte {
	key := func() []byte { return append(wireTag(1, f.Key.WT()), wireValue(f, f.Key, lv)...) }
	val := func() []byte { return append(wireTag(2, f.Kind.WT()), wireValue(f, f.Kind, lv)...) }
	shape := 0
	if sym.Param("mf") != 0 {
		shape = sym.Choose(9)
	}
	switch shape {
	case 1:
		return nil
	case 2:
		return key()
	case 3:
		return val()
	case 4:
		return append(val(), key()...)
	case 5:
		return append(append(key(), val()...), wireUnknown(3)...)
	case 6:
		return append(append(key(), wireUnknown(3)...), val()...)
	case 7:
		return append(append(key(), val()...), val()...)
	case 8:
		return append(append(key(), key()...), val()...)
	}
	return append(key(), val()...)
}

func wireField(f *ref.Field, lv int) []byte {
	switch f.Card {
	case ref.Map:
		return append(wireTag(f.Num, 2), lenDelim(wireEntry(f, lv))...)
	case ref.Rep, ref.Packed:
		if f.Kind.Scalar() && sym.Choose(2) == 1 {
			var p []byte
			for i := sym.Choose(sym.Param("pe") + 1); i > 0; i-- {
				p = append(p, wireScalar(f.Kind, sym.Param("vm"))...)
			}
			return append(wireTag(f.Num, 2), lenDelim(p)...)
		}
	}
	return append(wireTag(f.Num, f.Kind.WT()), wireValue(f, f.Kind, lv)...)
}

func wireMessage(s *ref.Schema, k, lv int) []byte {
	var b []byte
	if lv <= 0 {
		return b
	}
	for i := sym.Choose(k + 1); i > 0; i-- {
		n := len(s.Fields)
		c := sym.Choose(n + sym.Param("unk"))
		if c == n {
			b = append(b, wireUnknown(s.Fields[n-1].Num+7)...)
			continue
		}
		b = append(b, wireField(s.Fields[c], lv)...)
	}
	return b
}

// HDecSeq: every sequence of up to k well-formed fields decodes as specified.
func HDecSeq() {
	t := sym.Param("t")
	x := newMsg[t]()
	b := wireMessage(x.schema(), sym.Param("k"), sym.Param("lv"))
	decodeAgree(b, t)
}
