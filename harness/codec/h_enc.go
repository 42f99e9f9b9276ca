package codec

import (
	"github.com/cloudwego/prutal"
	"github.com/cloudwego/prutal/internal/zzverif/ref"
	"github.com/cloudwego/prutal/internal/zzverif/sym"
)

// ---- arbitrary messages of a schema ----
//
// Parameters: k populated fields per message (k2 in nested ones), sl the longest
// string, le the most list elements, me the most map entries, lv the nesting
// depth, un the longest unknown-field record.

func arbScalar(k ref.Kind) ref.Val {
	switch k {
	case ref.Bool:
		return ref.Val{U: sym.B2U(sym.Bool())}
	case ref.Int32, ref.Uint32, ref.Sint32, ref.Fixed32, ref.Sfixed32, ref.Float:
		return ref.Val{U: uint64(sym.U32())}
	case ref.String, ref.Bytes:
		return ref.Val{B: sym.Bytes(sym.Choose(sym.Param("sl") + 1))}
	}
	return ref.Val{U: sym.U64()}
}

func arbVal(f *ref.Field, lv int) ref.Val {
	if f.Kind == ref.Msg {
		return ref.Val{M: arbMessage(f.Sub, sym.Param("k2"), lv-1)}
	}
	return arbScalar(f.Kind)
}

func arbSlot(f *ref.Field, lv int) ref.Slot {
	var s ref.Slot
	switch f.Card {
	case ref.Rep, ref.Packed:
		for i := sym.Choose(sym.Param("le") + 1); i > 0; i-- {
			s.List = append(s.List, arbVal(f, lv))
		}
	case ref.Map:
		for i := sym.Choose(sym.Param("me") + 1); i > 0; i-- {
			e := ref.Entry{K: arbScalar(f.Key), V: arbVal(f, lv)}
			for _, o := range s.Map {
				sym.Assume(!ref.SameKey(f.Key, o.K, e.K))
			}
			s.Map = append(s.Map, e)
		}
	default:
		s = set(arbVal(f, lv))
	}
	return s
}

// arbMessage returns a message with up to k populated fields.
func arbMessage(s *ref.Schema, k, lv int) *ref.M {
	m := ref.New(s)
	if lv <= 0 {
		return m
	}
	from := 0
	for ; k > 0; k-- {
		// strictly increasing fields, so that each combination occurs once
		c := from + sym.Choose(len(s.Fields)-from+1)
		if c >= len(s.Fields) {
			break
		}
		from = c + 1
		f := s.Fields[c]
		if f.Card == ref.Oneof {
			for i, g := range s.Fields {
				if g.Card == ref.Oneof && g.One == f.One {
					m.F[i] = ref.Slot{}
				}
			}
		}
		m.F[c] = arbSlot(f, lv)
	}
	if s.Keep {
		if n := sym.Param("un"); n > 0 && sym.Choose(2) == 1 {
			m.Unknown = wireUnknown(s.Fields[len(s.Fields)-1].Num + 7)
		}
	}
	return m
}

// arb returns an arbitrary message of the type under check, with its model.
func arb() (message, *ref.M) {
	x := newMsg[sym.Param("t")]()
	m := arbMessage(x.schema(), sym.Param("k"), sym.Param("lv"))
	x.fill(m)
	return x, m
}

// HEnc: the encoding of every message is a valid encoding of exactly that
// message, no longer than the format requires.
func HEnc() {
	x, m := arb()
	out, err := prutal.Marshal(x)
	sym.Assert(err == nil, "a valid message is not encoded")
	sym.Obs("len", uint64(len(out)))
	got, st := ref.Decode(x.schema(), out, maxDepth)
	sym.Assert(st == ref.OK, "the encoding is not valid")
	if d := ref.Diff(got, m); d != "" {
		sym.Assert(false, "the encoding does not represent the message: "+d)
	}
	sym.Obs("dig", ref.Digest(got))
	if sym.Param("canon") != 0 {
		sym.Assert(len(out) == len(ref.Encode(nil, m)), "the encoding is longer or shorter than the format's")
	}
	sym.Reach("encoded")
}

// HRound: decoding the encoding of a message gives the message back.
func HRound() {
	x, m := arb()
	out, err := prutal.Marshal(x)
	sym.Assert(err == nil, "a valid message is not encoded")
	y := newMsg[sym.Param("t")]()
	err = prutal.Unmarshal(out, y)
	sym.Assert(err == nil, "its own encoding is rejected")
	got := y.dump()
	sym.Obs("dig", ref.Digest(got))
	if d := ref.Diff(got, m); d != "" {
		sym.Assert(false, "round trip changed the message: "+d)
	}
	sym.Reach("round")
}

// HSize: the computed size is the length of the encoding.
func HSize() {
	x, _ := arb()
	n, err := prutal.Size(x)
	sym.Assert(err == nil, "no size for a valid message")
	out, err := prutal.Marshal(x)
	sym.Assert(err == nil, "a valid message is not encoded")
	sym.Obs("n", uint64(n))
	sym.Assert(n == len(out), "size differs from the length of the encoding")
	sym.Reach("sized")
}

// HAppend: appending keeps what is in the buffer, adds exactly the encoding,
// and writes nowhere else, whatever the buffer's capacity.
func HAppend() {
	x, m := arb()
	plain, err := prutal.Marshal(x)
	sym.Assert(err == nil, "a valid message is not encoded")
	pl := sym.Choose(sym.Param("pl") + 1)
	extra := sym.Choose(sym.Param("cap") + 1)
	back := sym.Bytes(pl + extra + 4)
	keep := append([]byte(nil), back...)
	out, err := prutal.MarshalAppend(back[:pl:pl+extra], x)
	sym.Assert(err == nil, "a valid message is not encoded")
	sym.Assert(len(out) == pl+len(plain), "appending adds another number of bytes")
	var d byte
	for i := 0; i < pl; i++ {
		d |= out[i] ^ keep[i]
	}
	sym.Assert(d == 0, "appending changes the bytes before")
	d = 0
	for i := pl + extra; i < len(back); i++ {
		d |= back[i] ^ keep[i]
	}
	for i := 0; i < pl; i++ {
		d |= back[i] ^ keep[i]
	}
	sym.Assert(d == 0, "appending writes outside the buffer's spare capacity")
	sym.ObsB("out", out[:pl])
	got, st := ref.Decode(x.schema(), out[pl:], maxDepth)
	sym.Assert(st == ref.OK, "the appended encoding is not valid")
	if diff := ref.Diff(got, m); diff != "" {
		sym.Assert(false, "the appended encoding does not represent the message: "+diff)
	}
	sym.Reach("appended")
}

// HReadOnly: encoding changes nothing in the message, shares no memory with it,
// and gives the same result again.
func HReadOnly() {
	x, m := arb()
	n1, err := prutal.Size(x)
	sym.Assert(err == nil, "no size for a valid message")
	a, err := prutal.Marshal(x)
	sym.Assert(err == nil, "a valid message is not encoded")
	if d := ref.Diff(x.dump(), m); d != "" {
		sym.Assert(false, "encoding changed the message: "+d)
	}
	keep := append([]byte(nil), a...)
	for i := range a {
		a[i] = ^a[i]
	}
	if d := ref.Diff(x.dump(), m); d != "" {
		sym.Assert(false, "the encoding shares memory with the message: "+d)
	}
	b, err := prutal.Marshal(x)
	sym.Assert(err == nil && len(b) == len(keep), "encoding again gives another result")
	n2, err := prutal.Size(x)
	sym.Assert(err == nil && n1 == n2, "size changed")
	var d byte
	for i := range a {
		d |= a[i] ^ ^keep[i]
	}
	sym.Assert(d == 0, "encoding again overwrites the first result")
	got, st := ref.Decode(x.schema(), b, maxDepth)
	if st != ref.OK || ref.Diff(got, m) != "" {
		sym.Assert(false, "encoding again gives another message")
	}
	sym.Reach("twice")
}
