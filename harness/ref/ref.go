// Package ref is a reference protobuf wire codec written from the protobuf
// encoding specification. The harnesses compare the repository's codec with it.
package ref

type Kind int

const (
	Int32 Kind = iota
	Int64
	Uint32
	Uint64
	Sint32
	Sint64
	Bool
	Fixed32
	Fixed64
	Sfixed32
	Sfixed64
	Float
	Double
	String
	Bytes
	Msg
)

type Card int

const (
	Implicit Card = iota // zero value means absent
	Explicit             // pointer: presence tracked
	Rep                  // repeated, written unpacked
	Packed               // repeated, written packed
	Map
	Oneof
)

type Field struct {
	Num  int
	Kind Kind
	Card Card
	One  int  // oneof group
	Key  Kind // map key
	Sub  *Schema
}

type Schema struct {
	Fields []*Field
	Keep   bool // unknown fields are kept
}

// Val is one value: U holds scalars (zero-extended two's complement of the
// declared width), B strings and bytes, M messages.
type Val struct {
	U uint64
	B []byte
	M *M
}

type Entry struct{ K, V Val }

// Slot holds what one field holds.
type Slot struct {
	Set  bool
	V    Val
	List []Val
	Map  []Entry
}

type M struct {
	S       *Schema
	F       []Slot
	Unknown []byte
}

func New(s *Schema) *M { return &M{S: s, F: make([]Slot, len(s.Fields))} }

// Result of decoding.
type Status int

const (
	OK        Status = iota
	Mismatch         // well formed, but a declared field came with another wire type
	Malformed        // not a sequence of well-formed fields
	TooDeep
	Unspecified // outside what the reference defines
)

// Uvarint decodes a base-128 varint of at most ten bytes.
func Uvarint(b []byte) (v uint64, n int) {
	for i := 0; i < len(b); i++ {
		c := b[i]
		if i == 9 {
			if c > 1 {
				return 0, -1
			}
			return v | uint64(c)<<63, 10
		}
		v |= uint64(c&0x7f) << (7 * uint(i))
		if c < 0x80 {
			return v, i + 1
		}
	}
	return 0, -1
}

func AppendUvarint(b []byte, v uint64) []byte {
	for v >= 0x80 {
		b = append(b, byte(v)|0x80)
		v >>= 7
	}
	return append(b, byte(v))
}

func SizeUvarint(v uint64) int {
	n := 1
	for v >= 0x80 {
		n++
		v >>= 7
	}
	return n
}

// MaxNum bounds the field numbers of unknown fields. The specification stops at
// 2^29-1; larger ones up to 2^31-1 are let through here as unknown fields.
const MaxNum = 1<<31 - 1

// Tag decodes a field tag.
func Tag(b []byte) (num, wt, n int) {
	v, n := Uvarint(b)
	if n < 0 {
		return 0, 0, -1
	}
	x := v >> 3
	if x < 1 || x > MaxNum {
		return 0, 0, -1
	}
	return int(x), int(v & 7), n
}

func le(b []byte, n int) uint64 {
	var v uint64
	for i := 0; i < n; i++ {
		v |= uint64(b[i]) << (8 * uint(i))
	}
	return v
}

// Skip returns the length of the field value of the given wire type, or -1.
// Groups nest up to a limit the specification leaves open; depth is that limit.
func Skip(b []byte, num, wt, depth int) int {
	switch wt {
	case 0:
		_, n := Uvarint(b)
		return n
	case 1:
		if len(b) < 8 {
			return -1
		}
		return 8
	case 2:
		l, n := Uvarint(b)
		if n < 0 || l > uint64(len(b)-n) {
			return -1
		}
		return n + int(l)
	case 3:
		if depth == 0 {
			return -1
		}
		i := 0
		for {
			num2, wt2, n := Tag(b[i:])
			if n < 0 {
				return -1
			}
			i += n
			if wt2 == 4 {
				if num2 != num {
					return -1
				}
				return i
			}
			n = Skip(b[i:], num2, wt2, depth-1)
			if n < 0 {
				return -1
			}
			i += n
		}
	case 5:
		if len(b) < 4 {
			return -1
		}
		return 4
	}
	return -1
}

// WT is the wire type of a kind.
func (k Kind) WT() int {
	switch k {
	case Fixed64, Sfixed64, Double:
		return 1
	case Fixed32, Sfixed32, Float:
		return 5
	case String, Bytes, Msg:
		return 2
	}
	return 0
}

func (k Kind) Scalar() bool { return k < String }

// scalarOf maps a wire integer to the value of kind k.
func scalarOf(k Kind, v uint64) uint64 {
	switch k {
	case Int32, Uint32, Fixed32, Sfixed32, Float:
		return v & 0xffffffff
	case Bool:
		return (v | -v) >> 63
	case Sint32:
		u := uint32(v)
		return uint64(u>>1 ^ -(u & 1))
	case Sint64:
		return v>>1 ^ -(v & 1)
	}
	return v
}

// wireOf is the inverse of scalarOf.
func wireOf(k Kind, v uint64) uint64 {
	switch k {
	case Int32:
		return uint64(int64(int32(uint32(v))))
	case Sint32:
		x := uint32(v)
		return uint64(x<<1 ^ uint32(int32(x)>>31))
	case Sint64:
		return v<<1 ^ uint64(int64(v)>>63)
	}
	return v
}

// scalar decodes one scalar of kind k; n < 0 if malformed.
func scalar(k Kind, b []byte) (v uint64, n int) {
	switch k.WT() {
	case 0:
		v, n = Uvarint(b)
		if n < 0 {
			return 0, -1
		}
	case 1:
		if len(b) < 8 {
			return 0, -1
		}
		v, n = le(b, 8), 8
	case 5:
		if len(b) < 4 {
			return 0, -1
		}
		v, n = le(b, 4), 4
	}
	return scalarOf(k, v), n
}

func worst(a, b Status) Status {
	if b > a {
		return b
	}
	return a
}

// Decode decodes b into a new message.
func Decode(s *Schema, b []byte, depth int) (*M, Status) {
	m := New(s)
	st := m.Merge(b, depth)
	return m, st
}

// Merge decodes b on top of m. Malformed input wins over a wire-type mismatch,
// wherever each occurs.
func (m *M) Merge(b []byte, depth int) Status {
	if depth <= 0 {
		return TooDeep
	}
	st := OK
	i := 0
	for i < len(b) {
		num, wt, n := Tag(b[i:])
		if n < 0 {
			return Malformed
		}
		start := i
		i += n
		fi := -1
		for k, f := range m.S.Fields {
			if f.Num == num {
				fi = k
				break
			}
		}
		n = Skip(b[i:], num, wt, 10000)
		if n < 0 {
			return Malformed
		}
		if fi < 0 {
			m.Unknown = append(m.Unknown, b[start:i+n]...)
			i += n
			continue
		}
		f := m.S.Fields[fi]
		st = worst(st, m.field(fi, f, wt, b[i:i+n], depth))
		i += n
	}
	return st
}

func lenPayload(b []byte) []byte {
	_, n := Uvarint(b)
	return b[n:]
}

func (m *M) field(fi int, f *Field, wt int, v []byte, depth int) Status {
	slot := &m.F[fi]
	switch f.Card {
	case Rep, Packed:
		if f.Kind.Scalar() && wt == 2 {
			p := lenPayload(v)
			for len(p) > 0 {
				x, n := scalar(f.Kind, p)
				if n < 0 {
					return Malformed
				}
				slot.List = append(slot.List, Val{U: x})
				p = p[n:]
			}
			return OK
		}
		if wt != f.Kind.WT() {
			return Mismatch
		}
		x, st := value(f.Kind, f.Sub, nil, v, depth)
		if st == OK {
			slot.List = append(slot.List, x)
		}
		return st
	case Map:
		if wt != 2 {
			return Mismatch
		}
		return mapEntry(slot, f, lenPayload(v), depth)
	}
	if wt != f.Kind.WT() {
		return Mismatch
	}
	var old *M
	if slot.Set {
		old = slot.V.M
	}
	x, st := value(f.Kind, f.Sub, old, v, depth)
	if st != OK {
		return st
	}
	if f.Card == Oneof {
		for k, g := range m.S.Fields {
			if g.Card == Oneof && g.One == f.One && k != fi {
				m.F[k] = Slot{}
			}
		}
	}
	slot.V = x
	slot.Set = true
	return OK
}

func value(k Kind, sub *Schema, old *M, v []byte, depth int) (Val, Status) {
	switch k {
	case String, Bytes:
		return Val{B: lenPayload(v)}, OK
	case Msg:
		mm := old
		if mm == nil {
			mm = New(sub)
		}
		st := mm.Merge(lenPayload(v), depth-1)
		return Val{M: mm}, st
	}
	x, n := scalar(k, v)
	if n < 0 {
		return Val{}, Malformed
	}
	return Val{U: x}, OK
}

func zero(k Kind, sub *Schema) Val {
	if k == Msg {
		return Val{M: New(sub)}
	}
	return Val{}
}

func mapEntry(slot *Slot, f *Field, b []byte, depth int) Status {
	e := Entry{K: zero(f.Key, nil), V: zero(f.Kind, f.Sub)}
	st := OK
	i := 0
	for i < len(b) {
		num, wt, n := Tag(b[i:])
		if n < 0 {
			return Malformed
		}
		i += n
		n = Skip(b[i:], num, wt, 10000)
		if n < 0 {
			return Malformed
		}
		v := b[i : i+n]
		i += n
		switch num {
		case 1:
			if wt != f.Key.WT() {
				st = worst(st, Mismatch)
				continue
			}
			x, s2 := value(f.Key, nil, nil, v, depth)
			st = worst(st, s2)
			e.K = x
		case 2:
			if wt != f.Kind.WT() {
				st = worst(st, Mismatch)
				continue
			}
			var old *M
			if f.Kind == Msg {
				old = e.V.M
			}
			x, s2 := value(f.Kind, f.Sub, old, v, depth)
			st = worst(st, s2)
			e.V = x
		}
	}
	if st != OK {
		return st
	}
	for k := range slot.Map {
		if SameKey(f.Key, slot.Map[k].K, e.K) {
			slot.Map[k] = e
			return OK
		}
	}
	slot.Map = append(slot.Map, e)
	return OK
}

func eqBytes(a, b []byte) bool {
	if len(a) != len(b) {
		return false
	}
	var d byte
	for i := range a {
		d |= a[i] ^ b[i]
	}
	return d == 0
}

func SameKey(k Kind, a, b Val) bool {
	if k == String {
		return eqBytes(a.B, b.B)
	}
	return a.U == b.U
}

func eqVal(k Kind, a, b Val, unk bool) bool {
	switch k {
	case String, Bytes:
		return eqBytes(a.B, b.B)
	case Msg:
		return equal(a.M, b.M, unk)
	}
	return a.U == b.U
}

// Equal compares two messages of one schema. Implicit fields compare by value:
// absent is the same as zero.
func Equal(a, b *M) bool { return equal(a, b, true) }

func equal(a, b *M, unk bool) bool {
	return diff(a, b, unk) == ""
}

func kindName(k Kind) string {
	return []string{"int32", "int64", "uint32", "uint64", "sint32", "sint64", "bool", "fixed32", "fixed64", "sfixed32",
		"sfixed64", "float", "double", "string", "bytes", "message"}[k]
}

// Diff names what differs, or is empty.
func Diff(a, b *M) string { return diff(a, b, true) }

// DiffKnown is Diff without the unknown fields.
func DiffKnown(a, b *M) string { return diff(a, b, false) }

// Nil messages equal nil only.
func diff(a, b *M, unk bool) string {
	if a == nil || b == nil {
		if a == nil && b == nil {
			return ""
		}
		return "message presence"
	}
	for i, f := range a.S.Fields {
		x, y := &a.F[i], &b.F[i]
		switch f.Card {
		case Implicit:
			if f.Kind == Msg {
				// held by value: absent is the same as empty
				xm, ym := x.V.M, y.V.M
				if xm == nil {
					xm = New(f.Sub)
				}
				if ym == nil {
					ym = New(f.Sub)
				}
				if d := diff(xm, ym, unk); d != "" {
					return d
				}
				continue
			}
			if !eqVal(f.Kind, x.V, y.V, unk) {
				return "value of a " + kindName(f.Kind) + " field"
			}
		case Explicit, Oneof:
			if x.Set != y.Set {
				if f.Card == Oneof {
					return "presence of a oneof " + kindName(f.Kind) + " field"
				}
				return "presence of an optional " + kindName(f.Kind) + " field"
			}
			if x.Set && f.Kind == Msg {
				if d := diff(x.V.M, y.V.M, unk); d != "" {
					return d
				}
			} else if x.Set && !eqVal(f.Kind, x.V, y.V, unk) {
				return "value of a " + kindName(f.Kind) + " field"
			}
		case Rep, Packed:
			if len(x.List) != len(y.List) {
				return "length of a repeated " + kindName(f.Kind) + " field"
			}
			for j := range x.List {
				if f.Kind == Msg {
					if d := diff(x.List[j].M, y.List[j].M, unk); d != "" {
						return d
					}
				} else if !eqVal(f.Kind, x.List[j], y.List[j], unk) {
					return "element of a repeated " + kindName(f.Kind) + " field"
				}
			}
		case Map:
			if len(x.Map) != len(y.Map) {
				return "size of a map field"
			}
			for j := range x.Map {
				found := false
				for k := range y.Map {
					if SameKey(f.Key, x.Map[j].K, y.Map[k].K) {
						found = true
						if !eqVal(f.Kind, x.Map[j].V, y.Map[k].V, unk) {
							return "value in a map field"
						}
						break
					}
				}
				if !found {
					return "key of a map field"
				}
			}
		}
	}
	if unk && a.S.Keep && !eqBytes(a.Unknown, b.Unknown) {
		return "unknown fields"
	}
	return ""
}

func (m *M) has(i int) bool {
	f, s := m.S.Fields[i], &m.F[i]
	switch f.Card {
	case Implicit:
		switch f.Kind {
		case Msg:
			return s.Set
		case String, Bytes:
			return len(s.V.B) > 0
		}
		return s.V.U != 0
	case Explicit, Oneof:
		return s.Set
	}
	return true
}

func appendVal(b []byte, k Kind, v Val) []byte {
	switch k.WT() {
	case 1:
		for i := 0; i < 8; i++ {
			b = append(b, byte(v.U>>(8*uint(i))))
		}
		return b
	case 5:
		for i := 0; i < 4; i++ {
			b = append(b, byte(v.U>>(8*uint(i))))
		}
		return b
	case 2:
		p := v.B
		if k == Msg {
			p = Encode(nil, v.M)
		}
		b = AppendUvarint(b, uint64(len(p)))
		return append(b, p...)
	}
	return AppendUvarint(b, wireOf(k, v.U))
}

func appendTag(b []byte, num, wt int) []byte {
	return AppendUvarint(b, uint64(num)<<3|uint64(wt))
}

// Encode appends the encoding of m: fields in schema order, then the unknown
// bytes; every varint minimal.
func Encode(b []byte, m *M) []byte {
	for i, f := range m.S.Fields {
		s := &m.F[i]
		switch f.Card {
		case Implicit, Explicit, Oneof:
			if m.has(i) {
				b = appendTag(b, f.Num, f.Kind.WT())
				b = appendVal(b, f.Kind, s.V)
			}
		case Rep:
			for _, v := range s.List {
				b = appendTag(b, f.Num, f.Kind.WT())
				b = appendVal(b, f.Kind, v)
			}
		case Packed:
			if len(s.List) > 0 {
				var p []byte
				for _, v := range s.List {
					p = appendVal(p, f.Kind, v)
				}
				b = appendTag(b, f.Num, 2)
				b = AppendUvarint(b, uint64(len(p)))
				b = append(b, p...)
			}
		case Map:
			for _, e := range s.Map {
				var p []byte
				p = appendTag(p, 1, f.Key.WT())
				p = appendVal(p, f.Key, e.K)
				p = appendTag(p, 2, f.Kind.WT())
				p = appendVal(p, f.Kind, e.V)
				b = appendTag(b, f.Num, 2)
				b = AppendUvarint(b, uint64(len(p)))
				b = append(b, p...)
			}
		}
	}
	if m.S.Keep {
		b = append(b, m.Unknown...)
	}
	return b
}

// Digest folds a message into a number without branching on values. Maps
// contribute independently of order.
func Digest(m *M) uint64 {
	if m == nil {
		return 7
	}
	h := uint64(17)
	for i, f := range m.S.Fields {
		s := &m.F[i]
		switch f.Card {
		case Rep, Packed:
			h = h*31 + uint64(len(s.List))
			for _, v := range s.List {
				h = h*31 + digestVal(f.Kind, v)
			}
		case Map:
			var t uint64
			for _, e := range s.Map {
				t += digestVal(f.Key, e.K)*7 + digestVal(f.Kind, e.V)
			}
			h = h*31 + t
		default:
			if s.Set {
				h++
			}
			h = h*31 + digestVal(f.Kind, s.V)
		}
	}
	return digestBytes(h, m.Unknown)
}

func digestBytes(h uint64, b []byte) uint64 {
	h = h*31 + uint64(len(b))
	for _, c := range b {
		h = h*31 + uint64(c)
	}
	return h
}

func digestVal(k Kind, v Val) uint64 {
	switch k {
	case String, Bytes:
		return digestBytes(3, v.B)
	case Msg:
		if v.M == nil {
			return 5
		}
		return Digest(v.M)
	}
	return v.U
}
