package codec

import (
	"math"

	"github.com/cloudwego/prutal/internal/zzverif/ref"
	"github.com/cloudwego/prutal/internal/zzverif/sym"
)

// OneofA finds its oneof wrappers through XXX_OneofWrappers.
type OneofA struct {
	A int32 `protobuf:"varint,1,opt,name=a,proto3"`
	// Types: *OneofA_I, *OneofA_S, *OneofA_Y, *OneofA_B, *OneofA_D, *OneofA_F, *OneofA_Z, *OneofA_M
	X isOneofA_X `protobuf_oneof:"x"`
	// Types: *OneofA_L, *OneofA_N
	Y             isOneofA_Y `protobuf_oneof:"y"`
	unknownFields []byte
}

type isOneofA_X interface{ isOneofA_X() }
type isOneofA_Y interface{ isOneofA_Y() }

type OneofA_I struct {
	I int32 `protobuf:"varint,2,opt,name=i,proto3,oneof"`
}
type OneofA_S struct {
	S string `protobuf:"bytes,3,opt,name=s,proto3,oneof"`
}
type OneofA_Y struct {
	Y []byte `protobuf:"bytes,4,opt,name=y,proto3,oneof"`
}
type OneofA_B struct {
	B bool `protobuf:"varint,5,opt,name=b,proto3,oneof"`
}
type OneofA_D struct {
	D float64 `protobuf:"fixed64,6,opt,name=d,proto3,oneof"`
}
type OneofA_F struct {
	F uint32 `protobuf:"fixed32,7,opt,name=f,proto3,oneof"`
}
type OneofA_Z struct {
	Z int64 `protobuf:"zigzag64,8,opt,name=z,proto3,oneof"`
}
type OneofA_M struct {
	M *OneofA `protobuf:"bytes,9,opt,name=m,proto3,oneof"`
}
type OneofA_L struct {
	L uint64 `protobuf:"varint,10,opt,name=l,proto3,oneof"`
}
type OneofA_N struct {
	N *Leaf `protobuf:"bytes,11,opt,name=n,proto3,oneof"`
}

func (*OneofA_I) isOneofA_X() {}
func (*OneofA_S) isOneofA_X() {}
func (*OneofA_Y) isOneofA_X() {}
func (*OneofA_B) isOneofA_X() {}
func (*OneofA_D) isOneofA_X() {}
func (*OneofA_F) isOneofA_X() {}
func (*OneofA_Z) isOneofA_X() {}
func (*OneofA_M) isOneofA_X() {}
func (*OneofA_L) isOneofA_Y() {}
func (*OneofA_N) isOneofA_Y() {}

func (*OneofA) XXX_OneofWrappers() []interface{} {
	return []interface{}{(*OneofA_I)(nil), (*OneofA_S)(nil), (*OneofA_Y)(nil), (*OneofA_B)(nil), (*OneofA_D)(nil),
		(*OneofA_F)(nil), (*OneofA_Z)(nil), (*OneofA_M)(nil), (*OneofA_L)(nil), (*OneofA_N)(nil)}
}

var schemaOneofA = &ref.Schema{Keep: true, Fields: []*ref.Field{
	{Num: 1, Kind: ref.Int32, Card: ref.Implicit},
	{Num: 2, Kind: ref.Int32, Card: ref.Oneof, One: 1},
	{Num: 3, Kind: ref.String, Card: ref.Oneof, One: 1},
	{Num: 4, Kind: ref.Bytes, Card: ref.Oneof, One: 1},
	{Num: 5, Kind: ref.Bool, Card: ref.Oneof, One: 1},
	{Num: 6, Kind: ref.Double, Card: ref.Oneof, One: 1},
	{Num: 7, Kind: ref.Fixed32, Card: ref.Oneof, One: 1},
	{Num: 8, Kind: ref.Sint64, Card: ref.Oneof, One: 1},
	{Num: 9, Kind: ref.Msg, Card: ref.Oneof, One: 1},
	{Num: 10, Kind: ref.Uint64, Card: ref.Oneof, One: 2},
	{Num: 11, Kind: ref.Msg, Card: ref.Oneof, One: 2, Sub: schemaLeaf},
}}

func init() { schemaOneofA.Fields[8].Sub = schemaOneofA }

func (x *OneofA) schema() *ref.Schema { return schemaOneofA }

func set(v ref.Val) ref.Slot { return ref.Slot{Set: true, V: v} }

func (x *OneofA) dump() *ref.M {
	if x == nil {
		return nil
	}
	m := ref.New(schemaOneofA)
	m.F[0].V = ref.Val{U: uint64(uint32(x.A))}
	switch v := x.X.(type) {
	case *OneofA_I:
		m.F[1] = set(ref.Val{U: uint64(uint32(v.I))})
	case *OneofA_S:
		m.F[2] = set(ref.Val{B: []byte(v.S)})
	case *OneofA_Y:
		m.F[3] = set(ref.Val{B: v.Y})
	case *OneofA_B:
		m.F[4] = set(ref.Val{U: sym.B2U(v.B)})
	case *OneofA_D:
		m.F[5] = set(ref.Val{U: math.Float64bits(v.D)})
	case *OneofA_F:
		m.F[6] = set(ref.Val{U: uint64(v.F)})
	case *OneofA_Z:
		m.F[7] = set(ref.Val{U: uint64(v.Z)})
	case *OneofA_M:
		m.F[8] = set(ref.Val{M: v.M.dump()})
	}
	switch v := x.Y.(type) {
	case *OneofA_L:
		m.F[9] = set(ref.Val{U: v.L})
	case *OneofA_N:
		m.F[10] = set(ref.Val{M: v.N.dump()})
	}
	m.Unknown = x.unknownFields
	return m
}

func (x *OneofA) fill(m *ref.M) {
	x.A = int32(m.F[0].V.U)
	for i := 1; i <= 8; i++ {
		if !m.F[i].Set {
			continue
		}
		v := m.F[i].V
		switch i {
		case 1:
			x.X = &OneofA_I{int32(v.U)}
		case 2:
			x.X = &OneofA_S{string(v.B)}
		case 3:
			x.X = &OneofA_Y{v.B}
		case 4:
			x.X = &OneofA_B{v.U != 0}
		case 5:
			x.X = &OneofA_D{math.Float64frombits(v.U)}
		case 6:
			x.X = &OneofA_F{uint32(v.U)}
		case 7:
			x.X = &OneofA_Z{int64(v.U)}
		case 8:
			y := new(OneofA)
			y.fill(v.M)
			x.X = &OneofA_M{y}
		}
	}
	if m.F[9].Set {
		x.Y = &OneofA_L{m.F[9].V.U}
	}
	if m.F[10].Set {
		y := new(Leaf)
		y.fill(m.F[10].V.M)
		x.Y = &OneofA_N{y}
	}
	x.unknownFields = m.Unknown
}

// OneofB finds its oneof wrappers through ProtoReflect, as generated code does.
type OneofB struct {
	X isOneofB_X `protobuf_oneof:"x"`
}

type isOneofB_X interface{ isOneofB_X() }

type OneofB_A struct {
	A int64 `protobuf:"varint,1001,opt,name=a,proto3,oneof"`
}
type OneofB_B struct {
	B string `protobuf:"bytes,2,opt,name=b,proto3,oneof"`
}

func (*OneofB_A) isOneofB_X() {}
func (*OneofB_B) isOneofB_X() {}

type messageInfo struct {
	a             int
	OneofWrappers []interface{}
}
type messageState struct {
	n    uintptr
	info *messageInfo
}

func (x *OneofB) ProtoReflect() interface{} {
	return &messageState{info: &messageInfo{OneofWrappers: []interface{}{(*OneofB_A)(nil), (*OneofB_B)(nil)}}}
}

var schemaOneofB = &ref.Schema{Fields: []*ref.Field{
	{Num: 1001, Kind: ref.Int64, Card: ref.Oneof, One: 1},
	{Num: 2, Kind: ref.String, Card: ref.Oneof, One: 1},
}}

func (x *OneofB) schema() *ref.Schema { return schemaOneofB }

func (x *OneofB) dump() *ref.M {
	if x == nil {
		return nil
	}
	m := ref.New(schemaOneofB)
	switch v := x.X.(type) {
	case *OneofB_A:
		m.F[0] = set(ref.Val{U: uint64(v.A)})
	case *OneofB_B:
		m.F[1] = set(ref.Val{B: []byte(v.B)})
	}
	return m
}

func (x *OneofB) fill(m *ref.M) {
	if m.F[0].Set {
		x.X = &OneofB_A{int64(m.F[0].V.U)}
	}
	if m.F[1].Set {
		x.X = &OneofB_B{string(m.F[1].V.B)}
	}
}
