// Code generated by gen_types.py. DO NOT EDIT.

package codec

import (
	"math"

	"github.com/cloudwego/prutal/internal/zzverif/ref"
	"github.com/cloudwego/prutal/internal/zzverif/sym"
)

var _ = math.Float32bits
var _ = sym.B2U

type Scalars struct {
	Int32         int32   `protobuf:"varint,1,opt,name=Int32,proto3"`
	Int64         int64   `protobuf:"varint,2,opt,name=Int64,proto3"`
	Uint32        uint32  `protobuf:"varint,3,opt,name=Uint32,proto3"`
	Uint64        uint64  `protobuf:"varint,4,opt,name=Uint64,proto3"`
	Sint32        int32   `protobuf:"zigzag32,5,opt,name=Sint32,proto3"`
	Sint64        int64   `protobuf:"zigzag64,6,opt,name=Sint64,proto3"`
	Bool          bool    `protobuf:"varint,7,opt,name=Bool,proto3"`
	Fixed32       uint32  `protobuf:"fixed32,8,opt,name=Fixed32,proto3"`
	Fixed64       uint64  `protobuf:"fixed64,9,opt,name=Fixed64,proto3"`
	Sfixed32      int32   `protobuf:"fixed32,10,opt,name=Sfixed32,proto3"`
	Sfixed64      int64   `protobuf:"fixed64,11,opt,name=Sfixed64,proto3"`
	Float         float32 `protobuf:"fixed32,12,opt,name=Float,proto3"`
	Double        float64 `protobuf:"fixed64,13,opt,name=Double,proto3"`
	String        string  `protobuf:"bytes,14,opt,name=String,proto3"`
	Bytes         []byte  `protobuf:"bytes,15,opt,name=Bytes,proto3"`
	unknownFields []byte
}

var schemaScalars = &ref.Schema{Keep: true, Fields: []*ref.Field{
	{Num: 1, Kind: ref.Int32, Card: ref.Implicit},
	{Num: 2, Kind: ref.Int64, Card: ref.Implicit},
	{Num: 3, Kind: ref.Uint32, Card: ref.Implicit},
	{Num: 4, Kind: ref.Uint64, Card: ref.Implicit},
	{Num: 5, Kind: ref.Sint32, Card: ref.Implicit},
	{Num: 6, Kind: ref.Sint64, Card: ref.Implicit},
	{Num: 7, Kind: ref.Bool, Card: ref.Implicit},
	{Num: 8, Kind: ref.Fixed32, Card: ref.Implicit},
	{Num: 9, Kind: ref.Fixed64, Card: ref.Implicit},
	{Num: 10, Kind: ref.Sfixed32, Card: ref.Implicit},
	{Num: 11, Kind: ref.Sfixed64, Card: ref.Implicit},
	{Num: 12, Kind: ref.Float, Card: ref.Implicit},
	{Num: 13, Kind: ref.Double, Card: ref.Implicit},
	{Num: 14, Kind: ref.String, Card: ref.Implicit},
	{Num: 15, Kind: ref.Bytes, Card: ref.Implicit},
}}

func (x *Scalars) dump() *ref.M {
	if x == nil {
		return nil
	}
	m := ref.New(schemaScalars)
	m.F[0].V = ref.Val{U: uint64(uint32(x.Int32))}
	m.F[1].V = ref.Val{U: uint64(x.Int64)}
	m.F[2].V = ref.Val{U: uint64(x.Uint32)}
	m.F[3].V = ref.Val{U: x.Uint64}
	m.F[4].V = ref.Val{U: uint64(uint32(x.Sint32))}
	m.F[5].V = ref.Val{U: uint64(x.Sint64)}
	m.F[6].V = ref.Val{U: sym.B2U(x.Bool)}
	m.F[7].V = ref.Val{U: uint64(x.Fixed32)}
	m.F[8].V = ref.Val{U: x.Fixed64}
	m.F[9].V = ref.Val{U: uint64(uint32(x.Sfixed32))}
	m.F[10].V = ref.Val{U: uint64(x.Sfixed64)}
	m.F[11].V = ref.Val{U: uint64(math.Float32bits(x.Float))}
	m.F[12].V = ref.Val{U: math.Float64bits(x.Double)}
	m.F[13].V = ref.Val{B: []byte(x.String)}
	m.F[14].V = ref.Val{B: x.Bytes}
	m.Unknown = x.unknownFields
	return m
}

func (x *Scalars) fill(m *ref.M) {
	x.Int32 = int32(m.F[0].V.U)
	x.Int64 = int64(m.F[1].V.U)
	x.Uint32 = uint32(m.F[2].V.U)
	x.Uint64 = uint64(m.F[3].V.U)
	x.Sint32 = int32(m.F[4].V.U)
	x.Sint64 = int64(m.F[5].V.U)
	x.Bool = (m.F[6].V.U != 0)
	x.Fixed32 = uint32(m.F[7].V.U)
	x.Fixed64 = uint64(m.F[8].V.U)
	x.Sfixed32 = int32(m.F[9].V.U)
	x.Sfixed64 = int64(m.F[10].V.U)
	x.Float = math.Float32frombits(uint32(m.F[11].V.U))
	x.Double = math.Float64frombits(m.F[12].V.U)
	x.String = string(m.F[13].V.B)
	x.Bytes = m.F[14].V.B
	x.unknownFields = m.Unknown
}

func (x *Scalars) schema() *ref.Schema { return schemaScalars }

type Opts struct {
	Int32            *int32   `protobuf:"varint,1,opt,name=Int32"`
	Int64            *int64   `protobuf:"varint,2,opt,name=Int64"`
	Uint32           *uint32  `protobuf:"varint,3,opt,name=Uint32"`
	Uint64           *uint64  `protobuf:"varint,4,opt,name=Uint64"`
	Sint32           *int32   `protobuf:"zigzag32,5,opt,name=Sint32"`
	Sint64           *int64   `protobuf:"zigzag64,6,opt,name=Sint64"`
	Bool             *bool    `protobuf:"varint,7,opt,name=Bool"`
	Fixed32          *uint32  `protobuf:"fixed32,8,opt,name=Fixed32"`
	Fixed64          *uint64  `protobuf:"fixed64,9,opt,name=Fixed64"`
	Sfixed32         *int32   `protobuf:"fixed32,10,opt,name=Sfixed32"`
	Sfixed64         *int64   `protobuf:"fixed64,11,opt,name=Sfixed64"`
	Float            *float32 `protobuf:"fixed32,12,opt,name=Float"`
	Double           *float64 `protobuf:"fixed64,13,opt,name=Double"`
	String           *string  `protobuf:"bytes,14,opt,name=String"`
	XXX_unrecognized []byte   `json:"-"`
}

var schemaOpts = &ref.Schema{Keep: true, Fields: []*ref.Field{
	{Num: 1, Kind: ref.Int32, Card: ref.Explicit},
	{Num: 2, Kind: ref.Int64, Card: ref.Explicit},
	{Num: 3, Kind: ref.Uint32, Card: ref.Explicit},
	{Num: 4, Kind: ref.Uint64, Card: ref.Explicit},
	{Num: 5, Kind: ref.Sint32, Card: ref.Explicit},
	{Num: 6, Kind: ref.Sint64, Card: ref.Explicit},
	{Num: 7, Kind: ref.Bool, Card: ref.Explicit},
	{Num: 8, Kind: ref.Fixed32, Card: ref.Explicit},
	{Num: 9, Kind: ref.Fixed64, Card: ref.Explicit},
	{Num: 10, Kind: ref.Sfixed32, Card: ref.Explicit},
	{Num: 11, Kind: ref.Sfixed64, Card: ref.Explicit},
	{Num: 12, Kind: ref.Float, Card: ref.Explicit},
	{Num: 13, Kind: ref.Double, Card: ref.Explicit},
	{Num: 14, Kind: ref.String, Card: ref.Explicit},
}}

func (x *Opts) dump() *ref.M {
	if x == nil {
		return nil
	}
	m := ref.New(schemaOpts)
	if x.Int32 != nil {
		m.F[0] = ref.Slot{Set: true, V: ref.Val{U: uint64(uint32(*x.Int32))}}
	}
	if x.Int64 != nil {
		m.F[1] = ref.Slot{Set: true, V: ref.Val{U: uint64(*x.Int64)}}
	}
	if x.Uint32 != nil {
		m.F[2] = ref.Slot{Set: true, V: ref.Val{U: uint64(*x.Uint32)}}
	}
	if x.Uint64 != nil {
		m.F[3] = ref.Slot{Set: true, V: ref.Val{U: *x.Uint64}}
	}
	if x.Sint32 != nil {
		m.F[4] = ref.Slot{Set: true, V: ref.Val{U: uint64(uint32(*x.Sint32))}}
	}
	if x.Sint64 != nil {
		m.F[5] = ref.Slot{Set: true, V: ref.Val{U: uint64(*x.Sint64)}}
	}
	if x.Bool != nil {
		m.F[6] = ref.Slot{Set: true, V: ref.Val{U: sym.B2U(*x.Bool)}}
	}
	if x.Fixed32 != nil {
		m.F[7] = ref.Slot{Set: true, V: ref.Val{U: uint64(*x.Fixed32)}}
	}
	if x.Fixed64 != nil {
		m.F[8] = ref.Slot{Set: true, V: ref.Val{U: *x.Fixed64}}
	}
	if x.Sfixed32 != nil {
		m.F[9] = ref.Slot{Set: true, V: ref.Val{U: uint64(uint32(*x.Sfixed32))}}
	}
	if x.Sfixed64 != nil {
		m.F[10] = ref.Slot{Set: true, V: ref.Val{U: uint64(*x.Sfixed64)}}
	}
	if x.Float != nil {
		m.F[11] = ref.Slot{Set: true, V: ref.Val{U: uint64(math.Float32bits(*x.Float))}}
	}
	if x.Double != nil {
		m.F[12] = ref.Slot{Set: true, V: ref.Val{U: math.Float64bits(*x.Double)}}
	}
	if x.String != nil {
		m.F[13] = ref.Slot{Set: true, V: ref.Val{B: []byte(*x.String)}}
	}
	m.Unknown = x.XXX_unrecognized
	return m
}

func (x *Opts) fill(m *ref.M) {
	if m.F[0].Set {
		v := int32(m.F[0].V.U)
		x.Int32 = &v
	}
	if m.F[1].Set {
		v := int64(m.F[1].V.U)
		x.Int64 = &v
	}
	if m.F[2].Set {
		v := uint32(m.F[2].V.U)
		x.Uint32 = &v
	}
	if m.F[3].Set {
		v := uint64(m.F[3].V.U)
		x.Uint64 = &v
	}
	if m.F[4].Set {
		v := int32(m.F[4].V.U)
		x.Sint32 = &v
	}
	if m.F[5].Set {
		v := int64(m.F[5].V.U)
		x.Sint64 = &v
	}
	if m.F[6].Set {
		v := (m.F[6].V.U != 0)
		x.Bool = &v
	}
	if m.F[7].Set {
		v := uint32(m.F[7].V.U)
		x.Fixed32 = &v
	}
	if m.F[8].Set {
		v := uint64(m.F[8].V.U)
		x.Fixed64 = &v
	}
	if m.F[9].Set {
		v := int32(m.F[9].V.U)
		x.Sfixed32 = &v
	}
	if m.F[10].Set {
		v := int64(m.F[10].V.U)
		x.Sfixed64 = &v
	}
	if m.F[11].Set {
		v := math.Float32frombits(uint32(m.F[11].V.U))
		x.Float = &v
	}
	if m.F[12].Set {
		v := math.Float64frombits(m.F[12].V.U)
		x.Double = &v
	}
	if m.F[13].Set {
		v := string(m.F[13].V.B)
		x.String = &v
	}
	x.XXX_unrecognized = m.Unknown
}

func (x *Opts) schema() *ref.Schema { return schemaOpts }

type Lists struct {
	Int32    []int32   `protobuf:"varint,1,rep,name=Int32"`
	Int64    []int64   `protobuf:"varint,2,rep,name=Int64"`
	Uint32   []uint32  `protobuf:"varint,3,rep,name=Uint32"`
	Uint64   []uint64  `protobuf:"varint,4,rep,name=Uint64"`
	Sint32   []int32   `protobuf:"zigzag32,5,rep,name=Sint32"`
	Sint64   []int64   `protobuf:"zigzag64,6,rep,name=Sint64"`
	Bool     []bool    `protobuf:"varint,7,rep,name=Bool"`
	Fixed32  []uint32  `protobuf:"fixed32,8,rep,name=Fixed32"`
	Fixed64  []uint64  `protobuf:"fixed64,9,rep,name=Fixed64"`
	Sfixed32 []int32   `protobuf:"fixed32,10,rep,name=Sfixed32"`
	Sfixed64 []int64   `protobuf:"fixed64,11,rep,name=Sfixed64"`
	Float    []float32 `protobuf:"fixed32,12,rep,name=Float"`
	Double   []float64 `protobuf:"fixed64,13,rep,name=Double"`
	String   []string  `protobuf:"bytes,14,rep,name=String"`
	Bytes    [][]byte  `protobuf:"bytes,15,rep,name=Bytes"`
}

var schemaLists = &ref.Schema{Keep: false, Fields: []*ref.Field{
	{Num: 1, Kind: ref.Int32, Card: ref.Rep},
	{Num: 2, Kind: ref.Int64, Card: ref.Rep},
	{Num: 3, Kind: ref.Uint32, Card: ref.Rep},
	{Num: 4, Kind: ref.Uint64, Card: ref.Rep},
	{Num: 5, Kind: ref.Sint32, Card: ref.Rep},
	{Num: 6, Kind: ref.Sint64, Card: ref.Rep},
	{Num: 7, Kind: ref.Bool, Card: ref.Rep},
	{Num: 8, Kind: ref.Fixed32, Card: ref.Rep},
	{Num: 9, Kind: ref.Fixed64, Card: ref.Rep},
	{Num: 10, Kind: ref.Sfixed32, Card: ref.Rep},
	{Num: 11, Kind: ref.Sfixed64, Card: ref.Rep},
	{Num: 12, Kind: ref.Float, Card: ref.Rep},
	{Num: 13, Kind: ref.Double, Card: ref.Rep},
	{Num: 14, Kind: ref.String, Card: ref.Rep},
	{Num: 15, Kind: ref.Bytes, Card: ref.Rep},
}}

func (x *Lists) dump() *ref.M {
	if x == nil {
		return nil
	}
	m := ref.New(schemaLists)
	for _, v := range x.Int32 {
		m.F[0].List = append(m.F[0].List, ref.Val{U: uint64(uint32(v))})
	}
	for _, v := range x.Int64 {
		m.F[1].List = append(m.F[1].List, ref.Val{U: uint64(v)})
	}
	for _, v := range x.Uint32 {
		m.F[2].List = append(m.F[2].List, ref.Val{U: uint64(v)})
	}
	for _, v := range x.Uint64 {
		m.F[3].List = append(m.F[3].List, ref.Val{U: v})
	}
	for _, v := range x.Sint32 {
		m.F[4].List = append(m.F[4].List, ref.Val{U: uint64(uint32(v))})
	}
	for _, v := range x.Sint64 {
		m.F[5].List = append(m.F[5].List, ref.Val{U: uint64(v)})
	}
	for _, v := range x.Bool {
		m.F[6].List = append(m.F[6].List, ref.Val{U: sym.B2U(v)})
	}
	for _, v := range x.Fixed32 {
		m.F[7].List = append(m.F[7].List, ref.Val{U: uint64(v)})
	}
	for _, v := range x.Fixed64 {
		m.F[8].List = append(m.F[8].List, ref.Val{U: v})
	}
	for _, v := range x.Sfixed32 {
		m.F[9].List = append(m.F[9].List, ref.Val{U: uint64(uint32(v))})
	}
	for _, v := range x.Sfixed64 {
		m.F[10].List = append(m.F[10].List, ref.Val{U: uint64(v)})
	}
	for _, v := range x.Float {
		m.F[11].List = append(m.F[11].List, ref.Val{U: uint64(math.Float32bits(v))})
	}
	for _, v := range x.Double {
		m.F[12].List = append(m.F[12].List, ref.Val{U: math.Float64bits(v)})
	}
	for _, v := range x.String {
		m.F[13].List = append(m.F[13].List, ref.Val{B: []byte(v)})
	}
	for _, v := range x.Bytes {
		m.F[14].List = append(m.F[14].List, ref.Val{B: v})
	}
	return m
}

func (x *Lists) fill(m *ref.M) {
	for _, e := range m.F[0].List {
		x.Int32 = append(x.Int32, int32(e.U))
	}
	for _, e := range m.F[1].List {
		x.Int64 = append(x.Int64, int64(e.U))
	}
	for _, e := range m.F[2].List {
		x.Uint32 = append(x.Uint32, uint32(e.U))
	}
	for _, e := range m.F[3].List {
		x.Uint64 = append(x.Uint64, uint64(e.U))
	}
	for _, e := range m.F[4].List {
		x.Sint32 = append(x.Sint32, int32(e.U))
	}
	for _, e := range m.F[5].List {
		x.Sint64 = append(x.Sint64, int64(e.U))
	}
	for _, e := range m.F[6].List {
		x.Bool = append(x.Bool, (e.U != 0))
	}
	for _, e := range m.F[7].List {
		x.Fixed32 = append(x.Fixed32, uint32(e.U))
	}
	for _, e := range m.F[8].List {
		x.Fixed64 = append(x.Fixed64, uint64(e.U))
	}
	for _, e := range m.F[9].List {
		x.Sfixed32 = append(x.Sfixed32, int32(e.U))
	}
	for _, e := range m.F[10].List {
		x.Sfixed64 = append(x.Sfixed64, int64(e.U))
	}
	for _, e := range m.F[11].List {
		x.Float = append(x.Float, math.Float32frombits(uint32(e.U)))
	}
	for _, e := range m.F[12].List {
		x.Double = append(x.Double, math.Float64frombits(e.U))
	}
	for _, e := range m.F[13].List {
		x.String = append(x.String, string(e.B))
	}
	for _, e := range m.F[14].List {
		x.Bytes = append(x.Bytes, e.B)
	}
}

func (x *Lists) schema() *ref.Schema { return schemaLists }

type Packs struct {
	Int32    []int32   `protobuf:"varint,1,rep,packed,name=Int32"`
	Int64    []int64   `protobuf:"varint,2,rep,packed,name=Int64"`
	Uint32   []uint32  `protobuf:"varint,3,rep,packed,name=Uint32"`
	Uint64   []uint64  `protobuf:"varint,4,rep,packed,name=Uint64"`
	Sint32   []int32   `protobuf:"zigzag32,5,rep,packed,name=Sint32"`
	Sint64   []int64   `protobuf:"zigzag64,6,rep,packed,name=Sint64"`
	Bool     []bool    `protobuf:"varint,7,rep,packed,name=Bool"`
	Fixed32  []uint32  `protobuf:"fixed32,8,rep,packed,name=Fixed32"`
	Fixed64  []uint64  `protobuf:"fixed64,9,rep,packed,name=Fixed64"`
	Sfixed32 []int32   `protobuf:"fixed32,10,rep,packed,name=Sfixed32"`
	Sfixed64 []int64   `protobuf:"fixed64,11,rep,packed,name=Sfixed64"`
	Float    []float32 `protobuf:"fixed32,12,rep,packed,name=Float"`
	Double   []float64 `protobuf:"fixed64,13,rep,packed,name=Double"`
}

var schemaPacks = &ref.Schema{Keep: false, Fields: []*ref.Field{
	{Num: 1, Kind: ref.Int32, Card: ref.Packed},
	{Num: 2, Kind: ref.Int64, Card: ref.Packed},
	{Num: 3, Kind: ref.Uint32, Card: ref.Packed},
	{Num: 4, Kind: ref.Uint64, Card: ref.Packed},
	{Num: 5, Kind: ref.Sint32, Card: ref.Packed},
	{Num: 6, Kind: ref.Sint64, Card: ref.Packed},
	{Num: 7, Kind: ref.Bool, Card: ref.Packed},
	{Num: 8, Kind: ref.Fixed32, Card: ref.Packed},
	{Num: 9, Kind: ref.Fixed64, Card: ref.Packed},
	{Num: 10, Kind: ref.Sfixed32, Card: ref.Packed},
	{Num: 11, Kind: ref.Sfixed64, Card: ref.Packed},
	{Num: 12, Kind: ref.Float, Card: ref.Packed},
	{Num: 13, Kind: ref.Double, Card: ref.Packed},
}}

func (x *Packs) dump() *ref.M {
	if x == nil {
		return nil
	}
	m := ref.New(schemaPacks)
	for _, v := range x.Int32 {
		m.F[0].List = append(m.F[0].List, ref.Val{U: uint64(uint32(v))})
	}
	for _, v := range x.Int64 {
		m.F[1].List = append(m.F[1].List, ref.Val{U: uint64(v)})
	}
	for _, v := range x.Uint32 {
		m.F[2].List = append(m.F[2].List, ref.Val{U: uint64(v)})
	}
	for _, v := range x.Uint64 {
		m.F[3].List = append(m.F[3].List, ref.Val{U: v})
	}
	for _, v := range x.Sint32 {
		m.F[4].List = append(m.F[4].List, ref.Val{U: uint64(uint32(v))})
	}
	for _, v := range x.Sint64 {
		m.F[5].List = append(m.F[5].List, ref.Val{U: uint64(v)})
	}
	for _, v := range x.Bool {
		m.F[6].List = append(m.F[6].List, ref.Val{U: sym.B2U(v)})
	}
	for _, v := range x.Fixed32 {
		m.F[7].List = append(m.F[7].List, ref.Val{U: uint64(v)})
	}
	for _, v := range x.Fixed64 {
		m.F[8].List = append(m.F[8].List, ref.Val{U: v})
	}
	for _, v := range x.Sfixed32 {
		m.F[9].List = append(m.F[9].List, ref.Val{U: uint64(uint32(v))})
	}
	for _, v := range x.Sfixed64 {
		m.F[10].List = append(m.F[10].List, ref.Val{U: uint64(v)})
	}
	for _, v := range x.Float {
		m.F[11].List = append(m.F[11].List, ref.Val{U: uint64(math.Float32bits(v))})
	}
	for _, v := range x.Double {
		m.F[12].List = append(m.F[12].List, ref.Val{U: math.Float64bits(v)})
	}
	return m
}

func (x *Packs) fill(m *ref.M) {
	for _, e := range m.F[0].List {
		x.Int32 = append(x.Int32, int32(e.U))
	}
	for _, e := range m.F[1].List {
		x.Int64 = append(x.Int64, int64(e.U))
	}
	for _, e := range m.F[2].List {
		x.Uint32 = append(x.Uint32, uint32(e.U))
	}
	for _, e := range m.F[3].List {
		x.Uint64 = append(x.Uint64, uint64(e.U))
	}
	for _, e := range m.F[4].List {
		x.Sint32 = append(x.Sint32, int32(e.U))
	}
	for _, e := range m.F[5].List {
		x.Sint64 = append(x.Sint64, int64(e.U))
	}
	for _, e := range m.F[6].List {
		x.Bool = append(x.Bool, (e.U != 0))
	}
	for _, e := range m.F[7].List {
		x.Fixed32 = append(x.Fixed32, uint32(e.U))
	}
	for _, e := range m.F[8].List {
		x.Fixed64 = append(x.Fixed64, uint64(e.U))
	}
	for _, e := range m.F[9].List {
		x.Sfixed32 = append(x.Sfixed32, int32(e.U))
	}
	for _, e := range m.F[10].List {
		x.Sfixed64 = append(x.Sfixed64, int64(e.U))
	}
	for _, e := range m.F[11].List {
		x.Float = append(x.Float, math.Float32frombits(uint32(e.U)))
	}
	for _, e := range m.F[12].List {
		x.Double = append(x.Double, math.Float64frombits(e.U))
	}
}

func (x *Packs) schema() *ref.Schema { return schemaPacks }

type OneInt32 struct {
	V int32 `protobuf:"varint,1,opt,name=V,proto3"`
}

var schemaOneInt32 = &ref.Schema{Keep: false, Fields: []*ref.Field{
	{Num: 1, Kind: ref.Int32, Card: ref.Implicit},
}}

func (x *OneInt32) dump() *ref.M {
	if x == nil {
		return nil
	}
	m := ref.New(schemaOneInt32)
	m.F[0].V = ref.Val{U: uint64(uint32(x.V))}
	return m
}

func (x *OneInt32) fill(m *ref.M) {
	x.V = int32(m.F[0].V.U)
}

func (x *OneInt32) schema() *ref.Schema { return schemaOneInt32 }

type OneInt64 struct {
	V int64 `protobuf:"varint,1,opt,name=V,proto3"`
}

var schemaOneInt64 = &ref.Schema{Keep: false, Fields: []*ref.Field{
	{Num: 1, Kind: ref.Int64, Card: ref.Implicit},
}}

func (x *OneInt64) dump() *ref.M {
	if x == nil {
		return nil
	}
	m := ref.New(schemaOneInt64)
	m.F[0].V = ref.Val{U: uint64(x.V)}
	return m
}

func (x *OneInt64) fill(m *ref.M) {
	x.V = int64(m.F[0].V.U)
}

func (x *OneInt64) schema() *ref.Schema { return schemaOneInt64 }

type OneUint32 struct {
	V uint32 `protobuf:"varint,1,opt,name=V,proto3"`
}

var schemaOneUint32 = &ref.Schema{Keep: false, Fields: []*ref.Field{
	{Num: 1, Kind: ref.Uint32, Card: ref.Implicit},
}}

func (x *OneUint32) dump() *ref.M {
	if x == nil {
		return nil
	}
	m := ref.New(schemaOneUint32)
	m.F[0].V = ref.Val{U: uint64(x.V)}
	return m
}

func (x *OneUint32) fill(m *ref.M) {
	x.V = uint32(m.F[0].V.U)
}

func (x *OneUint32) schema() *ref.Schema { return schemaOneUint32 }

type OneUint64 struct {
	V uint64 `protobuf:"varint,1,opt,name=V,proto3"`
}

var schemaOneUint64 = &ref.Schema{Keep: false, Fields: []*ref.Field{
	{Num: 1, Kind: ref.Uint64, Card: ref.Implicit},
}}

func (x *OneUint64) dump() *ref.M {
	if x == nil {
		return nil
	}
	m := ref.New(schemaOneUint64)
	m.F[0].V = ref.Val{U: x.V}
	return m
}

func (x *OneUint64) fill(m *ref.M) {
	x.V = uint64(m.F[0].V.U)
}

func (x *OneUint64) schema() *ref.Schema { return schemaOneUint64 }

type OneSint32 struct {
	V int32 `protobuf:"zigzag32,1,opt,name=V,proto3"`
}

var schemaOneSint32 = &ref.Schema{Keep: false, Fields: []*ref.Field{
	{Num: 1, Kind: ref.Sint32, Card: ref.Implicit},
}}

func (x *OneSint32) dump() *ref.M {
	if x == nil {
		return nil
	}
	m := ref.New(schemaOneSint32)
	m.F[0].V = ref.Val{U: uint64(uint32(x.V))}
	return m
}

func (x *OneSint32) fill(m *ref.M) {
	x.V = int32(m.F[0].V.U)
}

func (x *OneSint32) schema() *ref.Schema { return schemaOneSint32 }

type OneSint64 struct {
	V int64 `protobuf:"zigzag64,1,opt,name=V,proto3"`
}

var schemaOneSint64 = &ref.Schema{Keep: false, Fields: []*ref.Field{
	{Num: 1, Kind: ref.Sint64, Card: ref.Implicit},
}}

func (x *OneSint64) dump() *ref.M {
	if x == nil {
		return nil
	}
	m := ref.New(schemaOneSint64)
	m.F[0].V = ref.Val{U: uint64(x.V)}
	return m
}

func (x *OneSint64) fill(m *ref.M) {
	x.V = int64(m.F[0].V.U)
}

func (x *OneSint64) schema() *ref.Schema { return schemaOneSint64 }

type OneBool struct {
	V bool `protobuf:"varint,1,opt,name=V,proto3"`
}

var schemaOneBool = &ref.Schema{Keep: false, Fields: []*ref.Field{
	{Num: 1, Kind: ref.Bool, Card: ref.Implicit},
}}

func (x *OneBool) dump() *ref.M {
	if x == nil {
		return nil
	}
	m := ref.New(schemaOneBool)
	m.F[0].V = ref.Val{U: sym.B2U(x.V)}
	return m
}

func (x *OneBool) fill(m *ref.M) {
	x.V = (m.F[0].V.U != 0)
}

func (x *OneBool) schema() *ref.Schema { return schemaOneBool }

type OneFixed32 struct {
	V uint32 `protobuf:"fixed32,1,opt,name=V,proto3"`
}

var schemaOneFixed32 = &ref.Schema{Keep: false, Fields: []*ref.Field{
	{Num: 1, Kind: ref.Fixed32, Card: ref.Implicit},
}}

func (x *OneFixed32) dump() *ref.M {
	if x == nil {
		return nil
	}
	m := ref.New(schemaOneFixed32)
	m.F[0].V = ref.Val{U: uint64(x.V)}
	return m
}

func (x *OneFixed32) fill(m *ref.M) {
	x.V = uint32(m.F[0].V.U)
}

func (x *OneFixed32) schema() *ref.Schema { return schemaOneFixed32 }

type OneFixed64 struct {
	V uint64 `protobuf:"fixed64,1,opt,name=V,proto3"`
}

var schemaOneFixed64 = &ref.Schema{Keep: false, Fields: []*ref.Field{
	{Num: 1, Kind: ref.Fixed64, Card: ref.Implicit},
}}

func (x *OneFixed64) dump() *ref.M {
	if x == nil {
		return nil
	}
	m := ref.New(schemaOneFixed64)
	m.F[0].V = ref.Val{U: x.V}
	return m
}

func (x *OneFixed64) fill(m *ref.M) {
	x.V = uint64(m.F[0].V.U)
}

func (x *OneFixed64) schema() *ref.Schema { return schemaOneFixed64 }

type OneSfixed32 struct {
	V int32 `protobuf:"fixed32,1,opt,name=V,proto3"`
}

var schemaOneSfixed32 = &ref.Schema{Keep: false, Fields: []*ref.Field{
	{Num: 1, Kind: ref.Sfixed32, Card: ref.Implicit},
}}

func (x *OneSfixed32) dump() *ref.M {
	if x == nil {
		return nil
	}
	m := ref.New(schemaOneSfixed32)
	m.F[0].V = ref.Val{U: uint64(uint32(x.V))}
	return m
}

func (x *OneSfixed32) fill(m *ref.M) {
	x.V = int32(m.F[0].V.U)
}

func (x *OneSfixed32) schema() *ref.Schema { return schemaOneSfixed32 }

type OneSfixed64 struct {
	V int64 `protobuf:"fixed64,1,opt,name=V,proto3"`
}

var schemaOneSfixed64 = &ref.Schema{Keep: false, Fields: []*ref.Field{
	{Num: 1, Kind: ref.Sfixed64, Card: ref.Implicit},
}}

func (x *OneSfixed64) dump() *ref.M {
	if x == nil {
		return nil
	}
	m := ref.New(schemaOneSfixed64)
	m.F[0].V = ref.Val{U: uint64(x.V)}
	return m
}

func (x *OneSfixed64) fill(m *ref.M) {
	x.V = int64(m.F[0].V.U)
}

func (x *OneSfixed64) schema() *ref.Schema { return schemaOneSfixed64 }

type OneFloat struct {
	V float32 `protobuf:"fixed32,1,opt,name=V,proto3"`
}

var schemaOneFloat = &ref.Schema{Keep: false, Fields: []*ref.Field{
	{Num: 1, Kind: ref.Float, Card: ref.Implicit},
}}

func (x *OneFloat) dump() *ref.M {
	if x == nil {
		return nil
	}
	m := ref.New(schemaOneFloat)
	m.F[0].V = ref.Val{U: uint64(math.Float32bits(x.V))}
	return m
}

func (x *OneFloat) fill(m *ref.M) {
	x.V = math.Float32frombits(uint32(m.F[0].V.U))
}

func (x *OneFloat) schema() *ref.Schema { return schemaOneFloat }

type OneDouble struct {
	V float64 `protobuf:"fixed64,1,opt,name=V,proto3"`
}

var schemaOneDouble = &ref.Schema{Keep: false, Fields: []*ref.Field{
	{Num: 1, Kind: ref.Double, Card: ref.Implicit},
}}

func (x *OneDouble) dump() *ref.M {
	if x == nil {
		return nil
	}
	m := ref.New(schemaOneDouble)
	m.F[0].V = ref.Val{U: math.Float64bits(x.V)}
	return m
}

func (x *OneDouble) fill(m *ref.M) {
	x.V = math.Float64frombits(m.F[0].V.U)
}

func (x *OneDouble) schema() *ref.Schema { return schemaOneDouble }

type OneString struct {
	V string `protobuf:"bytes,1,opt,name=V,proto3"`
}

var schemaOneString = &ref.Schema{Keep: false, Fields: []*ref.Field{
	{Num: 1, Kind: ref.String, Card: ref.Implicit},
}}

func (x *OneString) dump() *ref.M {
	if x == nil {
		return nil
	}
	m := ref.New(schemaOneString)
	m.F[0].V = ref.Val{B: []byte(x.V)}
	return m
}

func (x *OneString) fill(m *ref.M) {
	x.V = string(m.F[0].V.B)
}

func (x *OneString) schema() *ref.Schema { return schemaOneString }

type OneBytes struct {
	V []byte `protobuf:"bytes,1,opt,name=V,proto3"`
}

var schemaOneBytes = &ref.Schema{Keep: false, Fields: []*ref.Field{
	{Num: 1, Kind: ref.Bytes, Card: ref.Implicit},
}}

func (x *OneBytes) dump() *ref.M {
	if x == nil {
		return nil
	}
	m := ref.New(schemaOneBytes)
	m.F[0].V = ref.Val{B: x.V}
	return m
}

func (x *OneBytes) fill(m *ref.M) {
	x.V = m.F[0].V.B
}

func (x *OneBytes) schema() *ref.Schema { return schemaOneBytes }

type OptInt32 struct {
	V *int32 `protobuf:"varint,1,opt,name=V"`
}

var schemaOptInt32 = &ref.Schema{Keep: false, Fields: []*ref.Field{
	{Num: 1, Kind: ref.Int32, Card: ref.Explicit},
}}

func (x *OptInt32) dump() *ref.M {
	if x == nil {
		return nil
	}
	m := ref.New(schemaOptInt32)
	if x.V != nil {
		m.F[0] = ref.Slot{Set: true, V: ref.Val{U: uint64(uint32(*x.V))}}
	}
	return m
}

func (x *OptInt32) fill(m *ref.M) {
	if m.F[0].Set {
		v := int32(m.F[0].V.U)
		x.V = &v
	}
}

func (x *OptInt32) schema() *ref.Schema { return schemaOptInt32 }

type OptInt64 struct {
	V *int64 `protobuf:"varint,1,opt,name=V"`
}

var schemaOptInt64 = &ref.Schema{Keep: false, Fields: []*ref.Field{
	{Num: 1, Kind: ref.Int64, Card: ref.Explicit},
}}

func (x *OptInt64) dump() *ref.M {
	if x == nil {
		return nil
	}
	m := ref.New(schemaOptInt64)
	if x.V != nil {
		m.F[0] = ref.Slot{Set: true, V: ref.Val{U: uint64(*x.V)}}
	}
	return m
}

func (x *OptInt64) fill(m *ref.M) {
	if m.F[0].Set {
		v := int64(m.F[0].V.U)
		x.V = &v
	}
}

func (x *OptInt64) schema() *ref.Schema { return schemaOptInt64 }

type OptUint32 struct {
	V *uint32 `protobuf:"varint,1,opt,name=V"`
}

var schemaOptUint32 = &ref.Schema{Keep: false, Fields: []*ref.Field{
	{Num: 1, Kind: ref.Uint32, Card: ref.Explicit},
}}

func (x *OptUint32) dump() *ref.M {
	if x == nil {
		return nil
	}
	m := ref.New(schemaOptUint32)
	if x.V != nil {
		m.F[0] = ref.Slot{Set: true, V: ref.Val{U: uint64(*x.V)}}
	}
	return m
}

func (x *OptUint32) fill(m *ref.M) {
	if m.F[0].Set {
		v := uint32(m.F[0].V.U)
		x.V = &v
	}
}

func (x *OptUint32) schema() *ref.Schema { return schemaOptUint32 }

type OptUint64 struct {
	V *uint64 `protobuf:"varint,1,opt,name=V"`
}

var schemaOptUint64 = &ref.Schema{Keep: false, Fields: []*ref.Field{
	{Num: 1, Kind: ref.Uint64, Card: ref.Explicit},
}}

func (x *OptUint64) dump() *ref.M {
	if x == nil {
		return nil
	}
	m := ref.New(schemaOptUint64)
	if x.V != nil {
		m.F[0] = ref.Slot{Set: true, V: ref.Val{U: *x.V}}
	}
	return m
}

func (x *OptUint64) fill(m *ref.M) {
	if m.F[0].Set {
		v := uint64(m.F[0].V.U)
		x.V = &v
	}
}

func (x *OptUint64) schema() *ref.Schema { return schemaOptUint64 }

type OptSint32 struct {
	V *int32 `protobuf:"zigzag32,1,opt,name=V"`
}

var schemaOptSint32 = &ref.Schema{Keep: false, Fields: []*ref.Field{
	{Num: 1, Kind: ref.Sint32, Card: ref.Explicit},
}}

func (x *OptSint32) dump() *ref.M {
	if x == nil {
		return nil
	}
	m := ref.New(schemaOptSint32)
	if x.V != nil {
		m.F[0] = ref.Slot{Set: true, V: ref.Val{U: uint64(uint32(*x.V))}}
	}
	return m
}

func (x *OptSint32) fill(m *ref.M) {
	if m.F[0].Set {
		v := int32(m.F[0].V.U)
		x.V = &v
	}
}

func (x *OptSint32) schema() *ref.Schema { return schemaOptSint32 }

type OptSint64 struct {
	V *int64 `protobuf:"zigzag64,1,opt,name=V"`
}

var schemaOptSint64 = &ref.Schema{Keep: false, Fields: []*ref.Field{
	{Num: 1, Kind: ref.Sint64, Card: ref.Explicit},
}}

func (x *OptSint64) dump() *ref.M {
	if x == nil {
		return nil
	}
	m := ref.New(schemaOptSint64)
	if x.V != nil {
		m.F[0] = ref.Slot{Set: true, V: ref.Val{U: uint64(*x.V)}}
	}
	return m
}

func (x *OptSint64) fill(m *ref.M) {
	if m.F[0].Set {
		v := int64(m.F[0].V.U)
		x.V = &v
	}
}

func (x *OptSint64) schema() *ref.Schema { return schemaOptSint64 }

type OptBool struct {
	V *bool `protobuf:"varint,1,opt,name=V"`
}

var schemaOptBool = &ref.Schema{Keep: false, Fields: []*ref.Field{
	{Num: 1, Kind: ref.Bool, Card: ref.Explicit},
}}

func (x *OptBool) dump() *ref.M {
	if x == nil {
		return nil
	}
	m := ref.New(schemaOptBool)
	if x.V != nil {
		m.F[0] = ref.Slot{Set: true, V: ref.Val{U: sym.B2U(*x.V)}}
	}
	return m
}

func (x *OptBool) fill(m *ref.M) {
	if m.F[0].Set {
		v := (m.F[0].V.U != 0)
		x.V = &v
	}
}

func (x *OptBool) schema() *ref.Schema { return schemaOptBool }

type OptFixed32 struct {
	V *uint32 `protobuf:"fixed32,1,opt,name=V"`
}

var schemaOptFixed32 = &ref.Schema{Keep: false, Fields: []*ref.Field{
	{Num: 1, Kind: ref.Fixed32, Card: ref.Explicit},
}}

func (x *OptFixed32) dump() *ref.M {
	if x == nil {
		return nil
	}
	m := ref.New(schemaOptFixed32)
	if x.V != nil {
		m.F[0] = ref.Slot{Set: true, V: ref.Val{U: uint64(*x.V)}}
	}
	return m
}

func (x *OptFixed32) fill(m *ref.M) {
	if m.F[0].Set {
		v := uint32(m.F[0].V.U)
		x.V = &v
	}
}

func (x *OptFixed32) schema() *ref.Schema { return schemaOptFixed32 }

type OptFixed64 struct {
	V *uint64 `protobuf:"fixed64,1,opt,name=V"`
}

var schemaOptFixed64 = &ref.Schema{Keep: false, Fields: []*ref.Field{
	{Num: 1, Kind: ref.Fixed64, Card: ref.Explicit},
}}

func (x *OptFixed64) dump() *ref.M {
	if x == nil {
		return nil
	}
	m := ref.New(schemaOptFixed64)
	if x.V != nil {
		m.F[0] = ref.Slot{Set: true, V: ref.Val{U: *x.V}}
	}
	return m
}

func (x *OptFixed64) fill(m *ref.M) {
	if m.F[0].Set {
		v := uint64(m.F[0].V.U)
		x.V = &v
	}
}

func (x *OptFixed64) schema() *ref.Schema { return schemaOptFixed64 }

type OptSfixed32 struct {
	V *int32 `protobuf:"fixed32,1,opt,name=V"`
}

var schemaOptSfixed32 = &ref.Schema{Keep: false, Fields: []*ref.Field{
	{Num: 1, Kind: ref.Sfixed32, Card: ref.Explicit},
}}

func (x *OptSfixed32) dump() *ref.M {
	if x == nil {
		return nil
	}
	m := ref.New(schemaOptSfixed32)
	if x.V != nil {
		m.F[0] = ref.Slot{Set: true, V: ref.Val{U: uint64(uint32(*x.V))}}
	}
	return m
}

func (x *OptSfixed32) fill(m *ref.M) {
	if m.F[0].Set {
		v := int32(m.F[0].V.U)
		x.V = &v
	}
}

func (x *OptSfixed32) schema() *ref.Schema { return schemaOptSfixed32 }

type OptSfixed64 struct {
	V *int64 `protobuf:"fixed64,1,opt,name=V"`
}

var schemaOptSfixed64 = &ref.Schema{Keep: false, Fields: []*ref.Field{
	{Num: 1, Kind: ref.Sfixed64, Card: ref.Explicit},
}}

func (x *OptSfixed64) dump() *ref.M {
	if x == nil {
		return nil
	}
	m := ref.New(schemaOptSfixed64)
	if x.V != nil {
		m.F[0] = ref.Slot{Set: true, V: ref.Val{U: uint64(*x.V)}}
	}
	return m
}

func (x *OptSfixed64) fill(m *ref.M) {
	if m.F[0].Set {
		v := int64(m.F[0].V.U)
		x.V = &v
	}
}

func (x *OptSfixed64) schema() *ref.Schema { return schemaOptSfixed64 }

type OptFloat struct {
	V *float32 `protobuf:"fixed32,1,opt,name=V"`
}

var schemaOptFloat = &ref.Schema{Keep: false, Fields: []*ref.Field{
	{Num: 1, Kind: ref.Float, Card: ref.Explicit},
}}

func (x *OptFloat) dump() *ref.M {
	if x == nil {
		return nil
	}
	m := ref.New(schemaOptFloat)
	if x.V != nil {
		m.F[0] = ref.Slot{Set: true, V: ref.Val{U: uint64(math.Float32bits(*x.V))}}
	}
	return m
}

func (x *OptFloat) fill(m *ref.M) {
	if m.F[0].Set {
		v := math.Float32frombits(uint32(m.F[0].V.U))
		x.V = &v
	}
}

func (x *OptFloat) schema() *ref.Schema { return schemaOptFloat }

type OptDouble struct {
	V *float64 `protobuf:"fixed64,1,opt,name=V"`
}

var schemaOptDouble = &ref.Schema{Keep: false, Fields: []*ref.Field{
	{Num: 1, Kind: ref.Double, Card: ref.Explicit},
}}

func (x *OptDouble) dump() *ref.M {
	if x == nil {
		return nil
	}
	m := ref.New(schemaOptDouble)
	if x.V != nil {
		m.F[0] = ref.Slot{Set: true, V: ref.Val{U: math.Float64bits(*x.V)}}
	}
	return m
}

func (x *OptDouble) fill(m *ref.M) {
	if m.F[0].Set {
		v := math.Float64frombits(m.F[0].V.U)
		x.V = &v
	}
}

func (x *OptDouble) schema() *ref.Schema { return schemaOptDouble }

type OptString struct {
	V *string `protobuf:"bytes,1,opt,name=V"`
}

var schemaOptString = &ref.Schema{Keep: false, Fields: []*ref.Field{
	{Num: 1, Kind: ref.String, Card: ref.Explicit},
}}

func (x *OptString) dump() *ref.M {
	if x == nil {
		return nil
	}
	m := ref.New(schemaOptString)
	if x.V != nil {
		m.F[0] = ref.Slot{Set: true, V: ref.Val{B: []byte(*x.V)}}
	}
	return m
}

func (x *OptString) fill(m *ref.M) {
	if m.F[0].Set {
		v := string(m.F[0].V.B)
		x.V = &v
	}
}

func (x *OptString) schema() *ref.Schema { return schemaOptString }

type LstInt32 struct {
	V []int32 `protobuf:"varint,1,rep,name=V"`
}

var schemaLstInt32 = &ref.Schema{Keep: false, Fields: []*ref.Field{
	{Num: 1, Kind: ref.Int32, Card: ref.Rep},
}}

func (x *LstInt32) dump() *ref.M {
	if x == nil {
		return nil
	}
	m := ref.New(schemaLstInt32)
	for _, v := range x.V {
		m.F[0].List = append(m.F[0].List, ref.Val{U: uint64(uint32(v))})
	}
	return m
}

func (x *LstInt32) fill(m *ref.M) {
	for _, e := range m.F[0].List {
		x.V = append(x.V, int32(e.U))
	}
}

func (x *LstInt32) schema() *ref.Schema { return schemaLstInt32 }

type LstInt64 struct {
	V []int64 `protobuf:"varint,1,rep,name=V"`
}

var schemaLstInt64 = &ref.Schema{Keep: false, Fields: []*ref.Field{
	{Num: 1, Kind: ref.Int64, Card: ref.Rep},
}}

func (x *LstInt64) dump() *ref.M {
	if x == nil {
		return nil
	}
	m := ref.New(schemaLstInt64)
	for _, v := range x.V {
		m.F[0].List = append(m.F[0].List, ref.Val{U: uint64(v)})
	}
	return m
}

func (x *LstInt64) fill(m *ref.M) {
	for _, e := range m.F[0].List {
		x.V = append(x.V, int64(e.U))
	}
}

func (x *LstInt64) schema() *ref.Schema { return schemaLstInt64 }

type LstUint32 struct {
	V []uint32 `protobuf:"varint,1,rep,name=V"`
}

var schemaLstUint32 = &ref.Schema{Keep: false, Fields: []*ref.Field{
	{Num: 1, Kind: ref.Uint32, Card: ref.Rep},
}}

func (x *LstUint32) dump() *ref.M {
	if x == nil {
		return nil
	}
	m := ref.New(schemaLstUint32)
	for _, v := range x.V {
		m.F[0].List = append(m.F[0].List, ref.Val{U: uint64(v)})
	}
	return m
}

func (x *LstUint32) fill(m *ref.M) {
	for _, e := range m.F[0].List {
		x.V = append(x.V, uint32(e.U))
	}
}

func (x *LstUint32) schema() *ref.Schema { return schemaLstUint32 }

type LstUint64 struct {
	V []uint64 `protobuf:"varint,1,rep,name=V"`
}

var schemaLstUint64 = &ref.Schema{Keep: false, Fields: []*ref.Field{
	{Num: 1, Kind: ref.Uint64, Card: ref.Rep},
}}

func (x *LstUint64) dump() *ref.M {
	if x == nil {
		return nil
	}
	m := ref.New(schemaLstUint64)
	for _, v := range x.V {
		m.F[0].List = append(m.F[0].List, ref.Val{U: v})
	}
	return m
}

func (x *LstUint64) fill(m *ref.M) {
	for _, e := range m.F[0].List {
		x.V = append(x.V, uint64(e.U))
	}
}

func (x *LstUint64) schema() *ref.Schema { return schemaLstUint64 }

type LstSint32 struct {
	V []int32 `protobuf:"zigzag32,1,rep,name=V"`
}

var schemaLstSint32 = &ref.Schema{Keep: false, Fields: []*ref.Field{
	{Num: 1, Kind: ref.Sint32, Card: ref.Rep},
}}

func (x *LstSint32) dump() *ref.M {
	if x == nil {
		return nil
	}
	m := ref.New(schemaLstSint32)
	for _, v := range x.V {
		m.F[0].List = append(m.F[0].List, ref.Val{U: uint64(uint32(v))})
	}
	return m
}

func (x *LstSint32) fill(m *ref.M) {
	for _, e := range m.F[0].List {
		x.V = append(x.V, int32(e.U))
	}
}

func (x *LstSint32) schema() *ref.Schema { return schemaLstSint32 }

type LstSint64 struct {
	V []int64 `protobuf:"zigzag64,1,rep,name=V"`
}

var schemaLstSint64 = &ref.Schema{Keep: false, Fields: []*ref.Field{
	{Num: 1, Kind: ref.Sint64, Card: ref.Rep},
}}

func (x *LstSint64) dump() *ref.M {
	if x == nil {
		return nil
	}
	m := ref.New(schemaLstSint64)
	for _, v := range x.V {
		m.F[0].List = append(m.F[0].List, ref.Val{U: uint64(v)})
	}
	return m
}

func (x *LstSint64) fill(m *ref.M) {
	for _, e := range m.F[0].List {
		x.V = append(x.V, int64(e.U))
	}
}

func (x *LstSint64) schema() *ref.Schema { return schemaLstSint64 }

type LstBool struct {
	V []bool `protobuf:"varint,1,rep,name=V"`
}

var schemaLstBool = &ref.Schema{Keep: false, Fields: []*ref.Field{
	{Num: 1, Kind: ref.Bool, Card: ref.Rep},
}}

func (x *LstBool) dump() *ref.M {
	if x == nil {
		return nil
	}
	m := ref.New(schemaLstBool)
	for _, v := range x.V {
		m.F[0].List = append(m.F[0].List, ref.Val{U: sym.B2U(v)})
	}
	return m
}

func (x *LstBool) fill(m *ref.M) {
	for _, e := range m.F[0].List {
		x.V = append(x.V, (e.U != 0))
	}
}

func (x *LstBool) schema() *ref.Schema { return schemaLstBool }

type LstFixed32 struct {
	V []uint32 `protobuf:"fixed32,1,rep,name=V"`
}

var schemaLstFixed32 = &ref.Schema{Keep: false, Fields: []*ref.Field{
	{Num: 1, Kind: ref.Fixed32, Card: ref.Rep},
}}

func (x *LstFixed32) dump() *ref.M {
	if x == nil {
		return nil
	}
	m := ref.New(schemaLstFixed32)
	for _, v := range x.V {
		m.F[0].List = append(m.F[0].List, ref.Val{U: uint64(v)})
	}
	return m
}

func (x *LstFixed32) fill(m *ref.M) {
	for _, e := range m.F[0].List {
		x.V = append(x.V, uint32(e.U))
	}
}

func (x *LstFixed32) schema() *ref.Schema { return schemaLstFixed32 }

type LstFixed64 struct {
	V []uint64 `protobuf:"fixed64,1,rep,name=V"`
}

var schemaLstFixed64 = &ref.Schema{Keep: false, Fields: []*ref.Field{
	{Num: 1, Kind: ref.Fixed64, Card: ref.Rep},
}}

func (x *LstFixed64) dump() *ref.M {
	if x == nil {
		return nil
	}
	m := ref.New(schemaLstFixed64)
	for _, v := range x.V {
		m.F[0].List = append(m.F[0].List, ref.Val{U: v})
	}
	return m
}

func (x *LstFixed64) fill(m *ref.M) {
	for _, e := range m.F[0].List {
		x.V = append(x.V, uint64(e.U))
	}
}

func (x *LstFixed64) schema() *ref.Schema { return schemaLstFixed64 }

type LstSfixed32 struct {
	V []int32 `protobuf:"fixed32,1,rep,name=V"`
}

var schemaLstSfixed32 = &ref.Schema{Keep: false, Fields: []*ref.Field{
	{Num: 1, Kind: ref.Sfixed32, Card: ref.Rep},
}}

func (x *LstSfixed32) dump() *ref.M {
	if x == nil {
		return nil
	}
	m := ref.New(schemaLstSfixed32)
	for _, v := range x.V {
		m.F[0].List = append(m.F[0].List, ref.Val{U: uint64(uint32(v))})
	}
	return m
}

func (x *LstSfixed32) fill(m *ref.M) {
	for _, e := range m.F[0].List {
		x.V = append(x.V, int32(e.U))
	}
}

func (x *LstSfixed32) schema() *ref.Schema { return schemaLstSfixed32 }

type LstSfixed64 struct {
	V []int64 `protobuf:"fixed64,1,rep,name=V"`
}

var schemaLstSfixed64 = &ref.Schema{Keep: false, Fields: []*ref.Field{
	{Num: 1, Kind: ref.Sfixed64, Card: ref.Rep},
}}

func (x *LstSfixed64) dump() *ref.M {
	if x == nil {
		return nil
	}
	m := ref.New(schemaLstSfixed64)
	for _, v := range x.V {
		m.F[0].List = append(m.F[0].List, ref.Val{U: uint64(v)})
	}
	return m
}

func (x *LstSfixed64) fill(m *ref.M) {
	for _, e := range m.F[0].List {
		x.V = append(x.V, int64(e.U))
	}
}

func (x *LstSfixed64) schema() *ref.Schema { return schemaLstSfixed64 }

type LstFloat struct {
	V []float32 `protobuf:"fixed32,1,rep,name=V"`
}

var schemaLstFloat = &ref.Schema{Keep: false, Fields: []*ref.Field{
	{Num: 1, Kind: ref.Float, Card: ref.Rep},
}}

func (x *LstFloat) dump() *ref.M {
	if x == nil {
		return nil
	}
	m := ref.New(schemaLstFloat)
	for _, v := range x.V {
		m.F[0].List = append(m.F[0].List, ref.Val{U: uint64(math.Float32bits(v))})
	}
	return m
}

func (x *LstFloat) fill(m *ref.M) {
	for _, e := range m.F[0].List {
		x.V = append(x.V, math.Float32frombits(uint32(e.U)))
	}
}

func (x *LstFloat) schema() *ref.Schema { return schemaLstFloat }

type LstDouble struct {
	V []float64 `protobuf:"fixed64,1,rep,name=V"`
}

var schemaLstDouble = &ref.Schema{Keep: false, Fields: []*ref.Field{
	{Num: 1, Kind: ref.Double, Card: ref.Rep},
}}

func (x *LstDouble) dump() *ref.M {
	if x == nil {
		return nil
	}
	m := ref.New(schemaLstDouble)
	for _, v := range x.V {
		m.F[0].List = append(m.F[0].List, ref.Val{U: math.Float64bits(v)})
	}
	return m
}

func (x *LstDouble) fill(m *ref.M) {
	for _, e := range m.F[0].List {
		x.V = append(x.V, math.Float64frombits(e.U))
	}
}

func (x *LstDouble) schema() *ref.Schema { return schemaLstDouble }

type LstString struct {
	V []string `protobuf:"bytes,1,rep,name=V"`
}

var schemaLstString = &ref.Schema{Keep: false, Fields: []*ref.Field{
	{Num: 1, Kind: ref.String, Card: ref.Rep},
}}

func (x *LstString) dump() *ref.M {
	if x == nil {
		return nil
	}
	m := ref.New(schemaLstString)
	for _, v := range x.V {
		m.F[0].List = append(m.F[0].List, ref.Val{B: []byte(v)})
	}
	return m
}

func (x *LstString) fill(m *ref.M) {
	for _, e := range m.F[0].List {
		x.V = append(x.V, string(e.B))
	}
}

func (x *LstString) schema() *ref.Schema { return schemaLstString }

type LstBytes struct {
	V [][]byte `protobuf:"bytes,1,rep,name=V"`
}

var schemaLstBytes = &ref.Schema{Keep: false, Fields: []*ref.Field{
	{Num: 1, Kind: ref.Bytes, Card: ref.Rep},
}}

func (x *LstBytes) dump() *ref.M {
	if x == nil {
		return nil
	}
	m := ref.New(schemaLstBytes)
	for _, v := range x.V {
		m.F[0].List = append(m.F[0].List, ref.Val{B: v})
	}
	return m
}

func (x *LstBytes) fill(m *ref.M) {
	for _, e := range m.F[0].List {
		x.V = append(x.V, e.B)
	}
}

func (x *LstBytes) schema() *ref.Schema { return schemaLstBytes }

type PckInt32 struct {
	V []int32 `protobuf:"varint,1,rep,packed,name=V"`
}

var schemaPckInt32 = &ref.Schema{Keep: false, Fields: []*ref.Field{
	{Num: 1, Kind: ref.Int32, Card: ref.Packed},
}}

func (x *PckInt32) dump() *ref.M {
	if x == nil {
		return nil
	}
	m := ref.New(schemaPckInt32)
	for _, v := range x.V {
		m.F[0].List = append(m.F[0].List, ref.Val{U: uint64(uint32(v))})
	}
	return m
}

func (x *PckInt32) fill(m *ref.M) {
	for _, e := range m.F[0].List {
		x.V = append(x.V, int32(e.U))
	}
}

func (x *PckInt32) schema() *ref.Schema { return schemaPckInt32 }

type PckInt64 struct {
	V []int64 `protobuf:"varint,1,rep,packed,name=V"`
}

var schemaPckInt64 = &ref.Schema{Keep: false, Fields: []*ref.Field{
	{Num: 1, Kind: ref.Int64, Card: ref.Packed},
}}

func (x *PckInt64) dump() *ref.M {
	if x == nil {
		return nil
	}
	m := ref.New(schemaPckInt64)
	for _, v := range x.V {
		m.F[0].List = append(m.F[0].List, ref.Val{U: uint64(v)})
	}
	return m
}

func (x *PckInt64) fill(m *ref.M) {
	for _, e := range m.F[0].List {
		x.V = append(x.V, int64(e.U))
	}
}

func (x *PckInt64) schema() *ref.Schema { return schemaPckInt64 }

type PckUint32 struct {
	V []uint32 `protobuf:"varint,1,rep,packed,name=V"`
}

var schemaPckUint32 = &ref.Schema{Keep: false, Fields: []*ref.Field{
	{Num: 1, Kind: ref.Uint32, Card: ref.Packed},
}}

func (x *PckUint32) dump() *ref.M {
	if x == nil {
		return nil
	}
	m := ref.New(schemaPckUint32)
	for _, v := range x.V {
		m.F[0].List = append(m.F[0].List, ref.Val{U: uint64(v)})
	}
	return m
}

func (x *PckUint32) fill(m *ref.M) {
	for _, e := range m.F[0].List {
		x.V = append(x.V, uint32(e.U))
	}
}

func (x *PckUint32) schema() *ref.Schema { return schemaPckUint32 }

type PckUint64 struct {
	V []uint64 `protobuf:"varint,1,rep,packed,name=V"`
}

var schemaPckUint64 = &ref.Schema{Keep: false, Fields: []*ref.Field{
	{Num: 1, Kind: ref.Uint64, Card: ref.Packed},
}}

func (x *PckUint64) dump() *ref.M {
	if x == nil {
		return nil
	}
	m := ref.New(schemaPckUint64)
	for _, v := range x.V {
		m.F[0].List = append(m.F[0].List, ref.Val{U: v})
	}
	return m
}

func (x *PckUint64) fill(m *ref.M) {
	for _, e := range m.F[0].List {
		x.V = append(x.V, uint64(e.U))
	}
}

func (x *PckUint64) schema() *ref.Schema { return schemaPckUint64 }

type PckSint32 struct {
	V []int32 `protobuf:"zigzag32,1,rep,packed,name=V"`
}

var schemaPckSint32 = &ref.Schema{Keep: false, Fields: []*ref.Field{
	{Num: 1, Kind: ref.Sint32, Card: ref.Packed},
}}

func (x *PckSint32) dump() *ref.M {
	if x == nil {
		return nil
	}
	m := ref.New(schemaPckSint32)
	for _, v := range x.V {
		m.F[0].List = append(m.F[0].List, ref.Val{U: uint64(uint32(v))})
	}
	return m
}

func (x *PckSint32) fill(m *ref.M) {
	for _, e := range m.F[0].List {
		x.V = append(x.V, int32(e.U))
	}
}

func (x *PckSint32) schema() *ref.Schema { return schemaPckSint32 }

type PckSint64 struct {
	V []int64 `protobuf:"zigzag64,1,rep,packed,name=V"`
}

var schemaPckSint64 = &ref.Schema{Keep: false, Fields: []*ref.Field{
	{Num: 1, Kind: ref.Sint64, Card: ref.Packed},
}}

func (x *PckSint64) dump() *ref.M {
	if x == nil {
		return nil
	}
	m := ref.New(schemaPckSint64)
	for _, v := range x.V {
		m.F[0].List = append(m.F[0].List, ref.Val{U: uint64(v)})
	}
	return m
}

func (x *PckSint64) fill(m *ref.M) {
	for _, e := range m.F[0].List {
		x.V = append(x.V, int64(e.U))
	}
}

func (x *PckSint64) schema() *ref.Schema { return schemaPckSint64 }

type PckBool struct {
	V []bool `protobuf:"varint,1,rep,packed,name=V"`
}

var schemaPckBool = &ref.Schema{Keep: false, Fields: []*ref.Field{
	{Num: 1, Kind: ref.Bool, Card: ref.Packed},
}}

func (x *PckBool) dump() *ref.M {
	if x == nil {
		return nil
	}
	m := ref.New(schemaPckBool)
	for _, v := range x.V {
		m.F[0].List = append(m.F[0].List, ref.Val{U: sym.B2U(v)})
	}
	return m
}

func (x *PckBool) fill(m *ref.M) {
	for _, e := range m.F[0].List {
		x.V = append(x.V, (e.U != 0))
	}
}

func (x *PckBool) schema() *ref.Schema { return schemaPckBool }

type PckFixed32 struct {
	V []uint32 `protobuf:"fixed32,1,rep,packed,name=V"`
}

var schemaPckFixed32 = &ref.Schema{Keep: false, Fields: []*ref.Field{
	{Num: 1, Kind: ref.Fixed32, Card: ref.Packed},
}}

func (x *PckFixed32) dump() *ref.M {
	if x == nil {
		return nil
	}
	m := ref.New(schemaPckFixed32)
	for _, v := range x.V {
		m.F[0].List = append(m.F[0].List, ref.Val{U: uint64(v)})
	}
	return m
}

func (x *PckFixed32) fill(m *ref.M) {
	for _, e := range m.F[0].List {
		x.V = append(x.V, uint32(e.U))
	}
}

func (x *PckFixed32) schema() *ref.Schema { return schemaPckFixed32 }

type PckFixed64 struct {
	V []uint64 `protobuf:"fixed64,1,rep,packed,name=V"`
}

var schemaPckFixed64 = &ref.Schema{Keep: false, Fields: []*ref.Field{
	{Num: 1, Kind: ref.Fixed64, Card: ref.Packed},
}}

func (x *PckFixed64) dump() *ref.M {
	if x == nil {
		return nil
	}
	m := ref.New(schemaPckFixed64)
	for _, v := range x.V {
		m.F[0].List = append(m.F[0].List, ref.Val{U: v})
	}
	return m
}

func (x *PckFixed64) fill(m *ref.M) {
	for _, e := range m.F[0].List {
		x.V = append(x.V, uint64(e.U))
	}
}

func (x *PckFixed64) schema() *ref.Schema { return schemaPckFixed64 }

type PckSfixed32 struct {
	V []int32 `protobuf:"fixed32,1,rep,packed,name=V"`
}

var schemaPckSfixed32 = &ref.Schema{Keep: false, Fields: []*ref.Field{
	{Num: 1, Kind: ref.Sfixed32, Card: ref.Packed},
}}

func (x *PckSfixed32) dump() *ref.M {
	if x == nil {
		return nil
	}
	m := ref.New(schemaPckSfixed32)
	for _, v := range x.V {
		m.F[0].List = append(m.F[0].List, ref.Val{U: uint64(uint32(v))})
	}
	return m
}

func (x *PckSfixed32) fill(m *ref.M) {
	for _, e := range m.F[0].List {
		x.V = append(x.V, int32(e.U))
	}
}

func (x *PckSfixed32) schema() *ref.Schema { return schemaPckSfixed32 }

type PckSfixed64 struct {
	V []int64 `protobuf:"fixed64,1,rep,packed,name=V"`
}

var schemaPckSfixed64 = &ref.Schema{Keep: false, Fields: []*ref.Field{
	{Num: 1, Kind: ref.Sfixed64, Card: ref.Packed},
}}

func (x *PckSfixed64) dump() *ref.M {
	if x == nil {
		return nil
	}
	m := ref.New(schemaPckSfixed64)
	for _, v := range x.V {
		m.F[0].List = append(m.F[0].List, ref.Val{U: uint64(v)})
	}
	return m
}

func (x *PckSfixed64) fill(m *ref.M) {
	for _, e := range m.F[0].List {
		x.V = append(x.V, int64(e.U))
	}
}

func (x *PckSfixed64) schema() *ref.Schema { return schemaPckSfixed64 }

type PckFloat struct {
	V []float32 `protobuf:"fixed32,1,rep,packed,name=V"`
}

var schemaPckFloat = &ref.Schema{Keep: false, Fields: []*ref.Field{
	{Num: 1, Kind: ref.Float, Card: ref.Packed},
}}

func (x *PckFloat) dump() *ref.M {
	if x == nil {
		return nil
	}
	m := ref.New(schemaPckFloat)
	for _, v := range x.V {
		m.F[0].List = append(m.F[0].List, ref.Val{U: uint64(math.Float32bits(v))})
	}
	return m
}

func (x *PckFloat) fill(m *ref.M) {
	for _, e := range m.F[0].List {
		x.V = append(x.V, math.Float32frombits(uint32(e.U)))
	}
}

func (x *PckFloat) schema() *ref.Schema { return schemaPckFloat }

type PckDouble struct {
	V []float64 `protobuf:"fixed64,1,rep,packed,name=V"`
}

var schemaPckDouble = &ref.Schema{Keep: false, Fields: []*ref.Field{
	{Num: 1, Kind: ref.Double, Card: ref.Packed},
}}

func (x *PckDouble) dump() *ref.M {
	if x == nil {
		return nil
	}
	m := ref.New(schemaPckDouble)
	for _, v := range x.V {
		m.F[0].List = append(m.F[0].List, ref.Val{U: math.Float64bits(v)})
	}
	return m
}

func (x *PckDouble) fill(m *ref.M) {
	for _, e := range m.F[0].List {
		x.V = append(x.V, math.Float64frombits(e.U))
	}
}

func (x *PckDouble) schema() *ref.Schema { return schemaPckDouble }

type MapInt32Int32 struct {
	V map[int32]int32 `protobuf:"bytes,1,rep,name=V" protobuf_key:"varint,1,opt,name=key" protobuf_val:"varint,2,opt,name=value"`
}

var schemaMapInt32Int32 = &ref.Schema{Keep: false, Fields: []*ref.Field{
	{Num: 1, Kind: ref.Int32, Card: ref.Map, Key: ref.Int32},
}}

func (x *MapInt32Int32) dump() *ref.M {
	if x == nil {
		return nil
	}
	m := ref.New(schemaMapInt32Int32)
	for k, v := range x.V {
		m.F[0].Map = append(m.F[0].Map, ref.Entry{K: ref.Val{U: uint64(uint32(k))}, V: ref.Val{U: uint64(uint32(v))}})
	}
	return m
}

func (x *MapInt32Int32) fill(m *ref.M) {
	for _, e := range m.F[0].Map {
		if x.V == nil {
			x.V = map[int32]int32{}
		}
		x.V[int32(e.K.U)] = int32(e.V.U)
	}
}

func (x *MapInt32Int32) schema() *ref.Schema { return schemaMapInt32Int32 }

type MapInt32Int64 struct {
	V map[int32]int64 `protobuf:"bytes,1,rep,name=V" protobuf_key:"varint,1,opt,name=key" protobuf_val:"varint,2,opt,name=value"`
}

var schemaMapInt32Int64 = &ref.Schema{Keep: false, Fields: []*ref.Field{
	{Num: 1, Kind: ref.Int64, Card: ref.Map, Key: ref.Int32},
}}

func (x *MapInt32Int64) dump() *ref.M {
	if x == nil {
		return nil
	}
	m := ref.New(schemaMapInt32Int64)
	for k, v := range x.V {
		m.F[0].Map = append(m.F[0].Map, ref.Entry{K: ref.Val{U: uint64(uint32(k))}, V: ref.Val{U: uint64(v)}})
	}
	return m
}

func (x *MapInt32Int64) fill(m *ref.M) {
	for _, e := range m.F[0].Map {
		if x.V == nil {
			x.V = map[int32]int64{}
		}
		x.V[int32(e.K.U)] = int64(e.V.U)
	}
}

func (x *MapInt32Int64) schema() *ref.Schema { return schemaMapInt32Int64 }

type MapInt32Uint32 struct {
	V map[int32]uint32 `protobuf:"bytes,1,rep,name=V" protobuf_key:"varint,1,opt,name=key" protobuf_val:"varint,2,opt,name=value"`
}

var schemaMapInt32Uint32 = &ref.Schema{Keep: false, Fields: []*ref.Field{
	{Num: 1, Kind: ref.Uint32, Card: ref.Map, Key: ref.Int32},
}}

func (x *MapInt32Uint32) dump() *ref.M {
	if x == nil {
		return nil
	}
	m := ref.New(schemaMapInt32Uint32)
	for k, v := range x.V {
		m.F[0].Map = append(m.F[0].Map, ref.Entry{K: ref.Val{U: uint64(uint32(k))}, V: ref.Val{U: uint64(v)}})
	}
	return m
}

func (x *MapInt32Uint32) fill(m *ref.M) {
	for _, e := range m.F[0].Map {
		if x.V == nil {
			x.V = map[int32]uint32{}
		}
		x.V[int32(e.K.U)] = uint32(e.V.U)
	}
}

func (x *MapInt32Uint32) schema() *ref.Schema { return schemaMapInt32Uint32 }

type MapInt32Uint64 struct {
	V map[int32]uint64 `protobuf:"bytes,1,rep,name=V" protobuf_key:"varint,1,opt,name=key" protobuf_val:"varint,2,opt,name=value"`
}

var schemaMapInt32Uint64 = &ref.Schema{Keep: false, Fields: []*ref.Field{
	{Num: 1, Kind: ref.Uint64, Card: ref.Map, Key: ref.Int32},
}}

func (x *MapInt32Uint64) dump() *ref.M {
	if x == nil {
		return nil
	}
	m := ref.New(schemaMapInt32Uint64)
	for k, v := range x.V {
		m.F[0].Map = append(m.F[0].Map, ref.Entry{K: ref.Val{U: uint64(uint32(k))}, V: ref.Val{U: v}})
	}
	return m
}

func (x *MapInt32Uint64) fill(m *ref.M) {
	for _, e := range m.F[0].Map {
		if x.V == nil {
			x.V = map[int32]uint64{}
		}
		x.V[int32(e.K.U)] = uint64(e.V.U)
	}
}

func (x *MapInt32Uint64) schema() *ref.Schema { return schemaMapInt32Uint64 }

type MapInt32Sint32 struct {
	V map[int32]int32 `protobuf:"bytes,1,rep,name=V" protobuf_key:"varint,1,opt,name=key" protobuf_val:"zigzag32,2,opt,name=value"`
}

var schemaMapInt32Sint32 = &ref.Schema{Keep: false, Fields: []*ref.Field{
	{Num: 1, Kind: ref.Sint32, Card: ref.Map, Key: ref.Int32},
}}

func (x *MapInt32Sint32) dump() *ref.M {
	if x == nil {
		return nil
	}
	m := ref.New(schemaMapInt32Sint32)
	for k, v := range x.V {
		m.F[0].Map = append(m.F[0].Map, ref.Entry{K: ref.Val{U: uint64(uint32(k))}, V: ref.Val{U: uint64(uint32(v))}})
	}
	return m
}

func (x *MapInt32Sint32) fill(m *ref.M) {
	for _, e := range m.F[0].Map {
		if x.V == nil {
			x.V = map[int32]int32{}
		}
		x.V[int32(e.K.U)] = int32(e.V.U)
	}
}

func (x *MapInt32Sint32) schema() *ref.Schema { return schemaMapInt32Sint32 }

type MapInt32Sint64 struct {
	V map[int32]int64 `protobuf:"bytes,1,rep,name=V" protobuf_key:"varint,1,opt,name=key" protobuf_val:"zigzag64,2,opt,name=value"`
}

var schemaMapInt32Sint64 = &ref.Schema{Keep: false, Fields: []*ref.Field{
	{Num: 1, Kind: ref.Sint64, Card: ref.Map, Key: ref.Int32},
}}

func (x *MapInt32Sint64) dump() *ref.M {
	if x == nil {
		return nil
	}
	m := ref.New(schemaMapInt32Sint64)
	for k, v := range x.V {
		m.F[0].Map = append(m.F[0].Map, ref.Entry{K: ref.Val{U: uint64(uint32(k))}, V: ref.Val{U: uint64(v)}})
	}
	return m
}

func (x *MapInt32Sint64) fill(m *ref.M) {
	for _, e := range m.F[0].Map {
		if x.V == nil {
			x.V = map[int32]int64{}
		}
		x.V[int32(e.K.U)] = int64(e.V.U)
	}
}

func (x *MapInt32Sint64) schema() *ref.Schema { return schemaMapInt32Sint64 }

type MapInt32Bool struct {
	V map[int32]bool `protobuf:"bytes,1,rep,name=V" protobuf_key:"varint,1,opt,name=key" protobuf_val:"varint,2,opt,name=value"`
}

var schemaMapInt32Bool = &ref.Schema{Keep: false, Fields: []*ref.Field{
	{Num: 1, Kind: ref.Bool, Card: ref.Map, Key: ref.Int32},
}}

func (x *MapInt32Bool) dump() *ref.M {
	if x == nil {
		return nil
	}
	m := ref.New(schemaMapInt32Bool)
	for k, v := range x.V {
		m.F[0].Map = append(m.F[0].Map, ref.Entry{K: ref.Val{U: uint64(uint32(k))}, V: ref.Val{U: sym.B2U(v)}})
	}
	return m
}

func (x *MapInt32Bool) fill(m *ref.M) {
	for _, e := range m.F[0].Map {
		if x.V == nil {
			x.V = map[int32]bool{}
		}
		x.V[int32(e.K.U)] = (e.V.U != 0)
	}
}

func (x *MapInt32Bool) schema() *ref.Schema { return schemaMapInt32Bool }

type MapInt32Fixed32 struct {
	V map[int32]uint32 `protobuf:"bytes,1,rep,name=V" protobuf_key:"varint,1,opt,name=key" protobuf_val:"fixed32,2,opt,name=value"`
}

var schemaMapInt32Fixed32 = &ref.Schema{Keep: false, Fields: []*ref.Field{
	{Num: 1, Kind: ref.Fixed32, Card: ref.Map, Key: ref.Int32},
}}

func (x *MapInt32Fixed32) dump() *ref.M {
	if x == nil {
		return nil
	}
	m := ref.New(schemaMapInt32Fixed32)
	for k, v := range x.V {
		m.F[0].Map = append(m.F[0].Map, ref.Entry{K: ref.Val{U: uint64(uint32(k))}, V: ref.Val{U: uint64(v)}})
	}
	return m
}

func (x *MapInt32Fixed32) fill(m *ref.M) {
	for _, e := range m.F[0].Map {
		if x.V == nil {
			x.V = map[int32]uint32{}
		}
		x.V[int32(e.K.U)] = uint32(e.V.U)
	}
}

func (x *MapInt32Fixed32) schema() *ref.Schema { return schemaMapInt32Fixed32 }

type MapInt32Fixed64 struct {
	V map[int32]uint64 `protobuf:"bytes,1,rep,name=V" protobuf_key:"varint,1,opt,name=key" protobuf_val:"fixed64,2,opt,name=value"`
}

var schemaMapInt32Fixed64 = &ref.Schema{Keep: false, Fields: []*ref.Field{
	{Num: 1, Kind: ref.Fixed64, Card: ref.Map, Key: ref.Int32},
}}

func (x *MapInt32Fixed64) dump() *ref.M {
	if x == nil {
		return nil
	}
	m := ref.New(schemaMapInt32Fixed64)
	for k, v := range x.V {
		m.F[0].Map = append(m.F[0].Map, ref.Entry{K: ref.Val{U: uint64(uint32(k))}, V: ref.Val{U: v}})
	}
	return m
}

func (x *MapInt32Fixed64) fill(m *ref.M) {
	for _, e := range m.F[0].Map {
		if x.V == nil {
			x.V = map[int32]uint64{}
		}
		x.V[int32(e.K.U)] = uint64(e.V.U)
	}
}

func (x *MapInt32Fixed64) schema() *ref.Schema { return schemaMapInt32Fixed64 }

type MapInt32Sfixed32 struct {
	V map[int32]int32 `protobuf:"bytes,1,rep,name=V" protobuf_key:"varint,1,opt,name=key" protobuf_val:"fixed32,2,opt,name=value"`
}

var schemaMapInt32Sfixed32 = &ref.Schema{Keep: false, Fields: []*ref.Field{
	{Num: 1, Kind: ref.Sfixed32, Card: ref.Map, Key: ref.Int32},
}}

func (x *MapInt32Sfixed32) dump() *ref.M {
	if x == nil {
		return nil
	}
	m := ref.New(schemaMapInt32Sfixed32)
	for k, v := range x.V {
		m.F[0].Map = append(m.F[0].Map, ref.Entry{K: ref.Val{U: uint64(uint32(k))}, V: ref.Val{U: uint64(uint32(v))}})
	}
	return m
}

func (x *MapInt32Sfixed32) fill(m *ref.M) {
	for _, e := range m.F[0].Map {
		if x.V == nil {
			x.V = map[int32]int32{}
		}
		x.V[int32(e.K.U)] = int32(e.V.U)
	}
}

func (x *MapInt32Sfixed32) schema() *ref.Schema { return schemaMapInt32Sfixed32 }

type MapInt32Sfixed64 struct {
	V map[int32]int64 `protobuf:"bytes,1,rep,name=V" protobuf_key:"varint,1,opt,name=key" protobuf_val:"fixed64,2,opt,name=value"`
}

var schemaMapInt32Sfixed64 = &ref.Schema{Keep: false, Fields: []*ref.Field{
	{Num: 1, Kind: ref.Sfixed64, Card: ref.Map, Key: ref.Int32},
}}

func (x *MapInt32Sfixed64) dump() *ref.M {
	if x == nil {
		return nil
	}
	m := ref.New(schemaMapInt32Sfixed64)
	for k, v := range x.V {
		m.F[0].Map = append(m.F[0].Map, ref.Entry{K: ref.Val{U: uint64(uint32(k))}, V: ref.Val{U: uint64(v)}})
	}
	return m
}

func (x *MapInt32Sfixed64) fill(m *ref.M) {
	for _, e := range m.F[0].Map {
		if x.V == nil {
			x.V = map[int32]int64{}
		}
		x.V[int32(e.K.U)] = int64(e.V.U)
	}
}

func (x *MapInt32Sfixed64) schema() *ref.Schema { return schemaMapInt32Sfixed64 }

type MapInt32Float struct {
	V map[int32]float32 `protobuf:"bytes,1,rep,name=V" protobuf_key:"varint,1,opt,name=key" protobuf_val:"fixed32,2,opt,name=value"`
}

var schemaMapInt32Float = &ref.Schema{Keep: false, Fields: []*ref.Field{
	{Num: 1, Kind: ref.Float, Card: ref.Map, Key: ref.Int32},
}}

func (x *MapInt32Float) dump() *ref.M {
	if x == nil {
		return nil
	}
	m := ref.New(schemaMapInt32Float)
	for k, v := range x.V {
		m.F[0].Map = append(m.F[0].Map, ref.Entry{K: ref.Val{U: uint64(uint32(k))}, V: ref.Val{U: uint64(math.Float32bits(v))}})
	}
	return m
}

func (x *MapInt32Float) fill(m *ref.M) {
	for _, e := range m.F[0].Map {
		if x.V == nil {
			x.V = map[int32]float32{}
		}
		x.V[int32(e.K.U)] = math.Float32frombits(uint32(e.V.U))
	}
}

func (x *MapInt32Float) schema() *ref.Schema { return schemaMapInt32Float }

type MapInt32Double struct {
	V map[int32]float64 `protobuf:"bytes,1,rep,name=V" protobuf_key:"varint,1,opt,name=key" protobuf_val:"fixed64,2,opt,name=value"`
}

var schemaMapInt32Double = &ref.Schema{Keep: false, Fields: []*ref.Field{
	{Num: 1, Kind: ref.Double, Card: ref.Map, Key: ref.Int32},
}}

func (x *MapInt32Double) dump() *ref.M {
	if x == nil {
		return nil
	}
	m := ref.New(schemaMapInt32Double)
	for k, v := range x.V {
		m.F[0].Map = append(m.F[0].Map, ref.Entry{K: ref.Val{U: uint64(uint32(k))}, V: ref.Val{U: math.Float64bits(v)}})
	}
	return m
}

func (x *MapInt32Double) fill(m *ref.M) {
	for _, e := range m.F[0].Map {
		if x.V == nil {
			x.V = map[int32]float64{}
		}
		x.V[int32(e.K.U)] = math.Float64frombits(e.V.U)
	}
}

func (x *MapInt32Double) schema() *ref.Schema { return schemaMapInt32Double }

type MapInt32String struct {
	V map[int32]string `protobuf:"bytes,1,rep,name=V" protobuf_key:"varint,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"`
}

var schemaMapInt32String = &ref.Schema{Keep: false, Fields: []*ref.Field{
	{Num: 1, Kind: ref.String, Card: ref.Map, Key: ref.Int32},
}}

func (x *MapInt32String) dump() *ref.M {
	if x == nil {
		return nil
	}
	m := ref.New(schemaMapInt32String)
	for k, v := range x.V {
		m.F[0].Map = append(m.F[0].Map, ref.Entry{K: ref.Val{U: uint64(uint32(k))}, V: ref.Val{B: []byte(v)}})
	}
	return m
}

func (x *MapInt32String) fill(m *ref.M) {
	for _, e := range m.F[0].Map {
		if x.V == nil {
			x.V = map[int32]string{}
		}
		x.V[int32(e.K.U)] = string(e.V.B)
	}
}

func (x *MapInt32String) schema() *ref.Schema { return schemaMapInt32String }

type MapInt32Bytes struct {
	V map[int32][]byte `protobuf:"bytes,1,rep,name=V" protobuf_key:"varint,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"`
}

var schemaMapInt32Bytes = &ref.Schema{Keep: false, Fields: []*ref.Field{
	{Num: 1, Kind: ref.Bytes, Card: ref.Map, Key: ref.Int32},
}}

func (x *MapInt32Bytes) dump() *ref.M {
	if x == nil {
		return nil
	}
	m := ref.New(schemaMapInt32Bytes)
	for k, v := range x.V {
		m.F[0].Map = append(m.F[0].Map, ref.Entry{K: ref.Val{U: uint64(uint32(k))}, V: ref.Val{B: v}})
	}
	return m
}

func (x *MapInt32Bytes) fill(m *ref.M) {
	for _, e := range m.F[0].Map {
		if x.V == nil {
			x.V = map[int32][]byte{}
		}
		x.V[int32(e.K.U)] = e.V.B
	}
}

func (x *MapInt32Bytes) schema() *ref.Schema { return schemaMapInt32Bytes }

type MapInt64Int32 struct {
	V map[int64]int32 `protobuf:"bytes,1,rep,name=V" protobuf_key:"varint,1,opt,name=key" protobuf_val:"varint,2,opt,name=value"`
}

var schemaMapInt64Int32 = &ref.Schema{Keep: false, Fields: []*ref.Field{
	{Num: 1, Kind: ref.Int32, Card: ref.Map, Key: ref.Int64},
}}

func (x *MapInt64Int32) dump() *ref.M {
	if x == nil {
		return nil
	}
	m := ref.New(schemaMapInt64Int32)
	for k, v := range x.V {
		m.F[0].Map = append(m.F[0].Map, ref.Entry{K: ref.Val{U: uint64(k)}, V: ref.Val{U: uint64(uint32(v))}})
	}
	return m
}

func (x *MapInt64Int32) fill(m *ref.M) {
	for _, e := range m.F[0].Map {
		if x.V == nil {
			x.V = map[int64]int32{}
		}
		x.V[int64(e.K.U)] = int32(e.V.U)
	}
}

func (x *MapInt64Int32) schema() *ref.Schema { return schemaMapInt64Int32 }

type MapInt64Int64 struct {
	V map[int64]int64 `protobuf:"bytes,1,rep,name=V" protobuf_key:"varint,1,opt,name=key" protobuf_val:"varint,2,opt,name=value"`
}

var schemaMapInt64Int64 = &ref.Schema{Keep: false, Fields: []*ref.Field{
	{Num: 1, Kind: ref.Int64, Card: ref.Map, Key: ref.Int64},
}}

func (x *MapInt64Int64) dump() *ref.M {
	if x == nil {
		return nil
	}
	m := ref.New(schemaMapInt64Int64)
	for k, v := range x.V {
		m.F[0].Map = append(m.F[0].Map, ref.Entry{K: ref.Val{U: uint64(k)}, V: ref.Val{U: uint64(v)}})
	}
	return m
}

func (x *MapInt64Int64) fill(m *ref.M) {
	for _, e := range m.F[0].Map {
		if x.V == nil {
			x.V = map[int64]int64{}
		}
		x.V[int64(e.K.U)] = int64(e.V.U)
	}
}

func (x *MapInt64Int64) schema() *ref.Schema { return schemaMapInt64Int64 }

type MapInt64Uint32 struct {
	V map[int64]uint32 `protobuf:"bytes,1,rep,name=V" protobuf_key:"varint,1,opt,name=key" protobuf_val:"varint,2,opt,name=value"`
}

var schemaMapInt64Uint32 = &ref.Schema{Keep: false, Fields: []*ref.Field{
	{Num: 1, Kind: ref.Uint32, Card: ref.Map, Key: ref.Int64},
}}

func (x *MapInt64Uint32) dump() *ref.M {
	if x == nil {
		return nil
	}
	m := ref.New(schemaMapInt64Uint32)
	for k, v := range x.V {
		m.F[0].Map = append(m.F[0].Map, ref.Entry{K: ref.Val{U: uint64(k)}, V: ref.Val{U: uint64(v)}})
	}
	return m
}

func (x *MapInt64Uint32) fill(m *ref.M) {
	for _, e := range m.F[0].Map {
		if x.V == nil {
			x.V = map[int64]uint32{}
		}
		x.V[int64(e.K.U)] = uint32(e.V.U)
	}
}

func (x *MapInt64Uint32) schema() *ref.Schema { return schemaMapInt64Uint32 }

type MapInt64Uint64 struct {
	V map[int64]uint64 `protobuf:"bytes,1,rep,name=V" protobuf_key:"varint,1,opt,name=key" protobuf_val:"varint,2,opt,name=value"`
}

var schemaMapInt64Uint64 = &ref.Schema{Keep: false, Fields: []*ref.Field{
	{Num: 1, Kind: ref.Uint64, Card: ref.Map, Key: ref.Int64},
}}

func (x *MapInt64Uint64) dump() *ref.M {
	if x == nil {
		return nil
	}
	m := ref.New(schemaMapInt64Uint64)
	for k, v := range x.V {
		m.F[0].Map = append(m.F[0].Map, ref.Entry{K: ref.Val{U: uint64(k)}, V: ref.Val{U: v}})
	}
	return m
}

func (x *MapInt64Uint64) fill(m *ref.M) {
	for _, e := range m.F[0].Map {
		if x.V == nil {
			x.V = map[int64]uint64{}
		}
		x.V[int64(e.K.U)] = uint64(e.V.U)
	}
}

func (x *MapInt64Uint64) schema() *ref.Schema { return schemaMapInt64Uint64 }

type MapInt64Sint32 struct {
	V map[int64]int32 `protobuf:"bytes,1,rep,name=V" protobuf_key:"varint,1,opt,name=key" protobuf_val:"zigzag32,2,opt,name=value"`
}

var schemaMapInt64Sint32 = &ref.Schema{Keep: false, Fields: []*ref.Field{
	{Num: 1, Kind: ref.Sint32, Card: ref.Map, Key: ref.Int64},
}}

func (x *MapInt64Sint32) dump() *ref.M {
	if x == nil {
		return nil
	}
	m := ref.New(schemaMapInt64Sint32)
	for k, v := range x.V {
		m.F[0].Map = append(m.F[0].Map, ref.Entry{K: ref.Val{U: uint64(k)}, V: ref.Val{U: uint64(uint32(v))}})
	}
	return m
}

func (x *MapInt64Sint32) fill(m *ref.M) {
	for _, e := range m.F[0].Map {
		if x.V == nil {
			x.V = map[int64]int32{}
		}
		x.V[int64(e.K.U)] = int32(e.V.U)
	}
}

func (x *MapInt64Sint32) schema() *ref.Schema { return schemaMapInt64Sint32 }

type MapInt64Sint64 struct {
	V map[int64]int64 `protobuf:"bytes,1,rep,name=V" protobuf_key:"varint,1,opt,name=key" protobuf_val:"zigzag64,2,opt,name=value"`
}

var schemaMapInt64Sint64 = &ref.Schema{Keep: false, Fields: []*ref.Field{
	{Num: 1, Kind: ref.Sint64, Card: ref.Map, Key: ref.Int64},
}}

func (x *MapInt64Sint64) dump() *ref.M {
	if x == nil {
		return nil
	}
	m := ref.New(schemaMapInt64Sint64)
	for k, v := range x.V {
		m.F[0].Map = append(m.F[0].Map, ref.Entry{K: ref.Val{U: uint64(k)}, V: ref.Val{U: uint64(v)}})
	}
	return m
}

func (x *MapInt64Sint64) fill(m *ref.M) {
	for _, e := range m.F[0].Map {
		if x.V == nil {
			x.V = map[int64]int64{}
		}
		x.V[int64(e.K.U)] = int64(e.V.U)
	}
}

func (x *MapInt64Sint64) schema() *ref.Schema { return schemaMapInt64Sint64 }

type MapInt64Bool struct {
	V map[int64]bool `protobuf:"bytes,1,rep,name=V" protobuf_key:"varint,1,opt,name=key" protobuf_val:"varint,2,opt,name=value"`
}

var schemaMapInt64Bool = &ref.Schema{Keep: false, Fields: []*ref.Field{
	{Num: 1, Kind: ref.Bool, Card: ref.Map, Key: ref.Int64},
}}

func (x *MapInt64Bool) dump() *ref.M {
	if x == nil {
		return nil
	}
	m := ref.New(schemaMapInt64Bool)
	for k, v := range x.V {
		m.F[0].Map = append(m.F[0].Map, ref.Entry{K: ref.Val{U: uint64(k)}, V: ref.Val{U: sym.B2U(v)}})
	}
	return m
}

func (x *MapInt64Bool) fill(m *ref.M) {
	for _, e := range m.F[0].Map {
		if x.V == nil {
			x.V = map[int64]bool{}
		}
		x.V[int64(e.K.U)] = (e.V.U != 0)
	}
}

func (x *MapInt64Bool) schema() *ref.Schema { return schemaMapInt64Bool }

type MapInt64Fixed32 struct {
	V map[int64]uint32 `protobuf:"bytes,1,rep,name=V" protobuf_key:"varint,1,opt,name=key" protobuf_val:"fixed32,2,opt,name=value"`
}

var schemaMapInt64Fixed32 = &ref.Schema{Keep: false, Fields: []*ref.Field{
	{Num: 1, Kind: ref.Fixed32, Card: ref.Map, Key: ref.Int64},
}}

func (x *MapInt64Fixed32) dump() *ref.M {
	if x == nil {
		return nil
	}
	m := ref.New(schemaMapInt64Fixed32)
	for k, v := range x.V {
		m.F[0].Map = append(m.F[0].Map, ref.Entry{K: ref.Val{U: uint64(k)}, V: ref.Val{U: uint64(v)}})
	}
	return m
}

func (x *MapInt64Fixed32) fill(m *ref.M) {
	for _, e := range m.F[0].Map {
		if x.V == nil {
			x.V = map[int64]uint32{}
		}
		x.V[int64(e.K.U)] = uint32(e.V.U)
	}
}

func (x *MapInt64Fixed32) schema() *ref.Schema { return schemaMapInt64Fixed32 }

type MapInt64Fixed64 struct {
	V map[int64]uint64 `protobuf:"bytes,1,rep,name=V" protobuf_key:"varint,1,opt,name=key" protobuf_val:"fixed64,2,opt,name=value"`
}

var schemaMapInt64Fixed64 = &ref.Schema{Keep: false, Fields: []*ref.Field{
	{Num: 1, Kind: ref.Fixed64, Card: ref.Map, Key: ref.Int64},
}}

func (x *MapInt64Fixed64) dump() *ref.M {
	if x == nil {
		return nil
	}
	m := ref.New(schemaMapInt64Fixed64)
	for k, v := range x.V {
		m.F[0].Map = append(m.F[0].Map, ref.Entry{K: ref.Val{U: uint64(k)}, V: ref.Val{U: v}})
	}
	return m
}

func (x *MapInt64Fixed64) fill(m *ref.M) {
	for _, e := range m.F[0].Map {
		if x.V == nil {
			x.V = map[int64]uint64{}
		}
		x.V[int64(e.K.U)] = uint64(e.V.U)
	}
}

func (x *MapInt64Fixed64) schema() *ref.Schema { return schemaMapInt64Fixed64 }

type MapInt64Sfixed32 struct {
	V map[int64]int32 `protobuf:"bytes,1,rep,name=V" protobuf_key:"varint,1,opt,name=key" protobuf_val:"fixed32,2,opt,name=value"`
}

var schemaMapInt64Sfixed32 = &ref.Schema{Keep: false, Fields: []*ref.Field{
	{Num: 1, Kind: ref.Sfixed32, Card: ref.Map, Key: ref.Int64},
}}

func (x *MapInt64Sfixed32) dump() *ref.M {
	if x == nil {
		return nil
	}
	m := ref.New(schemaMapInt64Sfixed32)
	for k, v := range x.V {
		m.F[0].Map = append(m.F[0].Map, ref.Entry{K: ref.Val{U: uint64(k)}, V: ref.Val{U: uint64(uint32(v))}})
	}
	return m
}

func (x *MapInt64Sfixed32) fill(m *ref.M) {
	for _, e := range m.F[0].Map {
		if x.V == nil {
			x.V = map[int64]int32{}
		}
		x.V[int64(e.K.U)] = int32(e.V.U)
	}
}

func (x *MapInt64Sfixed32) schema() *ref.Schema { return schemaMapInt64Sfixed32 }

type MapInt64Sfixed64 struct {
	V map[int64]int64 `protobuf:"bytes,1,rep,name=V" protobuf_key:"varint,1,opt,name=key" protobuf_val:"fixed64,2,opt,name=value"`
}

var schemaMapInt64Sfixed64 = &ref.Schema{Keep: false, Fields: []*ref.Field{
	{Num: 1, Kind: ref.Sfixed64, Card: ref.Map, Key: ref.Int64},
}}

func (x *MapInt64Sfixed64) dump() *ref.M {
	if x == nil {
		return nil
	}
	m := ref.New(schemaMapInt64Sfixed64)
	for k, v := range x.V {
		m.F[0].Map = append(m.F[0].Map, ref.Entry{K: ref.Val{U: uint64(k)}, V: ref.Val{U: uint64(v)}})
	}
	return m
}

func (x *MapInt64Sfixed64) fill(m *ref.M) {
	for _, e := range m.F[0].Map {
		if x.V == nil {
			x.V = map[int64]int64{}
		}
		x.V[int64(e.K.U)] = int64(e.V.U)
	}
}

func (x *MapInt64Sfixed64) schema() *ref.Schema { return schemaMapInt64Sfixed64 }

type MapInt64Float struct {
	V map[int64]float32 `protobuf:"bytes,1,rep,name=V" protobuf_key:"varint,1,opt,name=key" protobuf_val:"fixed32,2,opt,name=value"`
}

var schemaMapInt64Float = &ref.Schema{Keep: false, Fields: []*ref.Field{
	{Num: 1, Kind: ref.Float, Card: ref.Map, Key: ref.Int64},
}}

func (x *MapInt64Float) dump() *ref.M {
	if x == nil {
		return nil
	}
	m := ref.New(schemaMapInt64Float)
	for k, v := range x.V {
		m.F[0].Map = append(m.F[0].Map, ref.Entry{K: ref.Val{U: uint64(k)}, V: ref.Val{U: uint64(math.Float32bits(v))}})
	}
	return m
}

func (x *MapInt64Float) fill(m *ref.M) {
	for _, e := range m.F[0].Map {
		if x.V == nil {
			x.V = map[int64]float32{}
		}
		x.V[int64(e.K.U)] = math.Float32frombits(uint32(e.V.U))
	}
}

func (x *MapInt64Float) schema() *ref.Schema { return schemaMapInt64Float }

type MapInt64Double struct {
	V map[int64]float64 `protobuf:"bytes,1,rep,name=V" protobuf_key:"varint,1,opt,name=key" protobuf_val:"fixed64,2,opt,name=value"`
}

var schemaMapInt64Double = &ref.Schema{Keep: false, Fields: []*ref.Field{
	{Num: 1, Kind: ref.Double, Card: ref.Map, Key: ref.Int64},
}}

func (x *MapInt64Double) dump() *ref.M {
	if x == nil {
		return nil
	}
	m := ref.New(schemaMapInt64Double)
	for k, v := range x.V {
		m.F[0].Map = append(m.F[0].Map, ref.Entry{K: ref.Val{U: uint64(k)}, V: ref.Val{U: math.Float64bits(v)}})
	}
	return m
}

func (x *MapInt64Double) fill(m *ref.M) {
	for _, e := range m.F[0].Map {
		if x.V == nil {
			x.V = map[int64]float64{}
		}
		x.V[int64(e.K.U)] = math.Float64frombits(e.V.U)
	}
}

func (x *MapInt64Double) schema() *ref.Schema { return schemaMapInt64Double }

type MapInt64String struct {
	V map[int64]string `protobuf:"bytes,1,rep,name=V" protobuf_key:"varint,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"`
}

var schemaMapInt64String = &ref.Schema{Keep: false, Fields: []*ref.Field{
	{Num: 1, Kind: ref.String, Card: ref.Map, Key: ref.Int64},
}}

func (x *MapInt64String) dump() *ref.M {
	if x == nil {
		return nil
	}
	m := ref.New(schemaMapInt64String)
	for k, v := range x.V {
		m.F[0].Map = append(m.F[0].Map, ref.Entry{K: ref.Val{U: uint64(k)}, V: ref.Val{B: []byte(v)}})
	}
	return m
}

func (x *MapInt64String) fill(m *ref.M) {
	for _, e := range m.F[0].Map {
		if x.V == nil {
			x.V = map[int64]string{}
		}
		x.V[int64(e.K.U)] = string(e.V.B)
	}
}

func (x *MapInt64String) schema() *ref.Schema { return schemaMapInt64String }

type MapInt64Bytes struct {
	V map[int64][]byte `protobuf:"bytes,1,rep,name=V" protobuf_key:"varint,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"`
}

var schemaMapInt64Bytes = &ref.Schema{Keep: false, Fields: []*ref.Field{
	{Num: 1, Kind: ref.Bytes, Card: ref.Map, Key: ref.Int64},
}}

func (x *MapInt64Bytes) dump() *ref.M {
	if x == nil {
		return nil
	}
	m := ref.New(schemaMapInt64Bytes)
	for k, v := range x.V {
		m.F[0].Map = append(m.F[0].Map, ref.Entry{K: ref.Val{U: uint64(k)}, V: ref.Val{B: v}})
	}
	return m
}

func (x *MapInt64Bytes) fill(m *ref.M) {
	for _, e := range m.F[0].Map {
		if x.V == nil {
			x.V = map[int64][]byte{}
		}
		x.V[int64(e.K.U)] = e.V.B
	}
}

func (x *MapInt64Bytes) schema() *ref.Schema { return schemaMapInt64Bytes }

type MapUint32Int32 struct {
	V map[uint32]int32 `protobuf:"bytes,1,rep,name=V" protobuf_key:"varint,1,opt,name=key" protobuf_val:"varint,2,opt,name=value"`
}

var schemaMapUint32Int32 = &ref.Schema{Keep: false, Fields: []*ref.Field{
	{Num: 1, Kind: ref.Int32, Card: ref.Map, Key: ref.Uint32},
}}

func (x *MapUint32Int32) dump() *ref.M {
	if x == nil {
		return nil
	}
	m := ref.New(schemaMapUint32Int32)
	for k, v := range x.V {
		m.F[0].Map = append(m.F[0].Map, ref.Entry{K: ref.Val{U: uint64(k)}, V: ref.Val{U: uint64(uint32(v))}})
	}
	return m
}

func (x *MapUint32Int32) fill(m *ref.M) {
	for _, e := range m.F[0].Map {
		if x.V == nil {
			x.V = map[uint32]int32{}
		}
		x.V[uint32(e.K.U)] = int32(e.V.U)
	}
}

func (x *MapUint32Int32) schema() *ref.Schema { return schemaMapUint32Int32 }

type MapUint32Int64 struct {
	V map[uint32]int64 `protobuf:"bytes,1,rep,name=V" protobuf_key:"varint,1,opt,name=key" protobuf_val:"varint,2,opt,name=value"`
}

var schemaMapUint32Int64 = &ref.Schema{Keep: false, Fields: []*ref.Field{
	{Num: 1, Kind: ref.Int64, Card: ref.Map, Key: ref.Uint32},
}}

func (x *MapUint32Int64) dump() *ref.M {
	if x == nil {
		return nil
	}
	m := ref.New(schemaMapUint32Int64)
	for k, v := range x.V {
		m.F[0].Map = append(m.F[0].Map, ref.Entry{K: ref.Val{U: uint64(k)}, V: ref.Val{U: uint64(v)}})
	}
	return m
}

func (x *MapUint32Int64) fill(m *ref.M) {
	for _, e := range m.F[0].Map {
		if x.V == nil {
			x.V = map[uint32]int64{}
		}
		x.V[uint32(e.K.U)] = int64(e.V.U)
	}
}

func (x *MapUint32Int64) schema() *ref.Schema { return schemaMapUint32Int64 }

type MapUint32Uint32 struct {
	V map[uint32]uint32 `protobuf:"bytes,1,rep,name=V" protobuf_key:"varint,1,opt,name=key" protobuf_val:"varint,2,opt,name=value"`
}

var schemaMapUint32Uint32 = &ref.Schema{Keep: false, Fields: []*ref.Field{
	{Num: 1, Kind: ref.Uint32, Card: ref.Map, Key: ref.Uint32},
}}

func (x *MapUint32Uint32) dump() *ref.M {
	if x == nil {
		return nil
	}
	m := ref.New(schemaMapUint32Uint32)
	for k, v := range x.V {
		m.F[0].Map = append(m.F[0].Map, ref.Entry{K: ref.Val{U: uint64(k)}, V: ref.Val{U: uint64(v)}})
	}
	return m
}

func (x *MapUint32Uint32) fill(m *ref.M) {
	for _, e := range m.F[0].Map {
		if x.V == nil {
			x.V = map[uint32]uint32{}
		}
		x.V[uint32(e.K.U)] = uint32(e.V.U)
	}
}

func (x *MapUint32Uint32) schema() *ref.Schema { return schemaMapUint32Uint32 }

type MapUint32Uint64 struct {
	V map[uint32]uint64 `protobuf:"bytes,1,rep,name=V" protobuf_key:"varint,1,opt,name=key" protobuf_val:"varint,2,opt,name=value"`
}

var schemaMapUint32Uint64 = &ref.Schema{Keep: false, Fields: []*ref.Field{
	{Num: 1, Kind: ref.Uint64, Card: ref.Map, Key: ref.Uint32},
}}

func (x *MapUint32Uint64) dump() *ref.M {
	if x == nil {
		return nil
	}
	m := ref.New(schemaMapUint32Uint64)
	for k, v := range x.V {
		m.F[0].Map = append(m.F[0].Map, ref.Entry{K: ref.Val{U: uint64(k)}, V: ref.Val{U: v}})
	}
	return m
}

func (x *MapUint32Uint64) fill(m *ref.M) {
	for _, e := range m.F[0].Map {
		if x.V == nil {
			x.V = map[uint32]uint64{}
		}
		x.V[uint32(e.K.U)] = uint64(e.V.U)
	}
}

func (x *MapUint32Uint64) schema() *ref.Schema { return schemaMapUint32Uint64 }

type MapUint32Sint32 struct {
	V map[uint32]int32 `protobuf:"bytes,1,rep,name=V" protobuf_key:"varint,1,opt,name=key" protobuf_val:"zigzag32,2,opt,name=value"`
}

var schemaMapUint32Sint32 = &ref.Schema{Keep: false, Fields: []*ref.Field{
	{Num: 1, Kind: ref.Sint32, Card: ref.Map, Key: ref.Uint32},
}}

func (x *MapUint32Sint32) dump() *ref.M {
	if x == nil {
		return nil
	}
	m := ref.New(schemaMapUint32Sint32)
	for k, v := range x.V {
		m.F[0].Map = append(m.F[0].Map, ref.Entry{K: ref.Val{U: uint64(k)}, V: ref.Val{U: uint64(uint32(v))}})
	}
	return m
}

func (x *MapUint32Sint32) fill(m *ref.M) {
	for _, e := range m.F[0].Map {
		if x.V == nil {
			x.V = map[uint32]int32{}
		}
		x.V[uint32(e.K.U)] = int32(e.V.U)
	}
}

func (x *MapUint32Sint32) schema() *ref.Schema { return schemaMapUint32Sint32 }

type MapUint32Sint64 struct {
	V map[uint32]int64 `protobuf:"bytes,1,rep,name=V" protobuf_key:"varint,1,opt,name=key" protobuf_val:"zigzag64,2,opt,name=value"`
}

var schemaMapUint32Sint64 = &ref.Schema{Keep: false, Fields: []*ref.Field{
	{Num: 1, Kind: ref.Sint64, Card: ref.Map, Key: ref.Uint32},
}}

func (x *MapUint32Sint64) dump() *ref.M {
	if x == nil {
		return nil
	}
	m := ref.New(schemaMapUint32Sint64)
	for k, v := range x.V {
		m.F[0].Map = append(m.F[0].Map, ref.Entry{K: ref.Val{U: uint64(k)}, V: ref.Val{U: uint64(v)}})
	}
	return m
}

func (x *MapUint32Sint64) fill(m *ref.M) {
	for _, e := range m.F[0].Map {
		if x.V == nil {
			x.V = map[uint32]int64{}
		}
		x.V[uint32(e.K.U)] = int64(e.V.U)
	}
}

func (x *MapUint32Sint64) schema() *ref.Schema { return schemaMapUint32Sint64 }

type MapUint32Bool struct {
	V map[uint32]bool `protobuf:"bytes,1,rep,name=V" protobuf_key:"varint,1,opt,name=key" protobuf_val:"varint,2,opt,name=value"`
}

var schemaMapUint32Bool = &ref.Schema{Keep: false, Fields: []*ref.Field{
	{Num: 1, Kind: ref.Bool, Card: ref.Map, Key: ref.Uint32},
}}

func (x *MapUint32Bool) dump() *ref.M {
	if x == nil {
		return nil
	}
	m := ref.New(schemaMapUint32Bool)
	for k, v := range x.V {
		m.F[0].Map = append(m.F[0].Map, ref.Entry{K: ref.Val{U: uint64(k)}, V: ref.Val{U: sym.B2U(v)}})
	}
	return m
}

func (x *MapUint32Bool) fill(m *ref.M) {
	for _, e := range m.F[0].Map {
		if x.V == nil {
			x.V = map[uint32]bool{}
		}
		x.V[uint32(e.K.U)] = (e.V.U != 0)
	}
}

func (x *MapUint32Bool) schema() *ref.Schema { return schemaMapUint32Bool }

type MapUint32Fixed32 struct {
	V map[uint32]uint32 `protobuf:"bytes,1,rep,name=V" protobuf_key:"varint,1,opt,name=key" protobuf_val:"fixed32,2,opt,name=value"`
}

var schemaMapUint32Fixed32 = &ref.Schema{Keep: false, Fields: []*ref.Field{
	{Num: 1, Kind: ref.Fixed32, Card: ref.Map, Key: ref.Uint32},
}}

func (x *MapUint32Fixed32) dump() *ref.M {
	if x == nil {
		return nil
	}
	m := ref.New(schemaMapUint32Fixed32)
	for k, v := range x.V {
		m.F[0].Map = append(m.F[0].Map, ref.Entry{K: ref.Val{U: uint64(k)}, V: ref.Val{U: uint64(v)}})
	}
	return m
}

func (x *MapUint32Fixed32) fill(m *ref.M) {
	for _, e := range m.F[0].Map {
		if x.V == nil {
			x.V = map[uint32]uint32{}
		}
		x.V[uint32(e.K.U)] = uint32(e.V.U)
	}
}

func (x *MapUint32Fixed32) schema() *ref.Schema { return schemaMapUint32Fixed32 }

type MapUint32Fixed64 struct {
	V map[uint32]uint64 `protobuf:"bytes,1,rep,name=V" protobuf_key:"varint,1,opt,name=key" protobuf_val:"fixed64,2,opt,name=value"`
}

var schemaMapUint32Fixed64 = &ref.Schema{Keep: false, Fields: []*ref.Field{
	{Num: 1, Kind: ref.Fixed64, Card: ref.Map, Key: ref.Uint32},
}}

func (x *MapUint32Fixed64) dump() *ref.M {
	if x == nil {
		return nil
	}
	m := ref.New(schemaMapUint32Fixed64)
	for k, v := range x.V {
		m.F[0].Map = append(m.F[0].Map, ref.Entry{K: ref.Val{U: uint64(k)}, V: ref.Val{U: v}})
	}
	return m
}

func (x *MapUint32Fixed64) fill(m *ref.M) {
	for _, e := range m.F[0].Map {
		if x.V == nil {
			x.V = map[uint32]uint64{}
		}
		x.V[uint32(e.K.U)] = uint64(e.V.U)
	}
}

func (x *MapUint32Fixed64) schema() *ref.Schema { return schemaMapUint32Fixed64 }

type MapUint32Sfixed32 struct {
	V map[uint32]int32 `protobuf:"bytes,1,rep,name=V" protobuf_key:"varint,1,opt,name=key" protobuf_val:"fixed32,2,opt,name=value"`
}

var schemaMapUint32Sfixed32 = &ref.Schema{Keep: false, Fields: []*ref.Field{
	{Num: 1, Kind: ref.Sfixed32, Card: ref.Map, Key: ref.Uint32},
}}

func (x *MapUint32Sfixed32) dump() *ref.M {
	if x == nil {
		return nil
	}
	m := ref.New(schemaMapUint32Sfixed32)
	for k, v := range x.V {
		m.F[0].Map = append(m.F[0].Map, ref.Entry{K: ref.Val{U: uint64(k)}, V: ref.Val{U: uint64(uint32(v))}})
	}
	return m
}

func (x *MapUint32Sfixed32) fill(m *ref.M) {
	for _, e := range m.F[0].Map {
		if x.V == nil {
			x.V = map[uint32]int32{}
		}
		x.V[uint32(e.K.U)] = int32(e.V.U)
	}
}

func (x *MapUint32Sfixed32) schema() *ref.Schema { return schemaMapUint32Sfixed32 }

type MapUint32Sfixed64 struct {
	V map[uint32]int64 `protobuf:"bytes,1,rep,name=V" protobuf_key:"varint,1,opt,name=key" protobuf_val:"fixed64,2,opt,name=value"`
}

var schemaMapUint32Sfixed64 = &ref.Schema{Keep: false, Fields: []*ref.Field{
	{Num: 1, Kind: ref.Sfixed64, Card: ref.Map, Key: ref.Uint32},
}}

func (x *MapUint32Sfixed64) dump() *ref.M {
	if x == nil {
		return nil
	}
	m := ref.New(schemaMapUint32Sfixed64)
	for k, v := range x.V {
		m.F[0].Map = append(m.F[0].Map, ref.Entry{K: ref.Val{U: uint64(k)}, V: ref.Val{U: uint64(v)}})
	}
	return m
}

func (x *MapUint32Sfixed64) fill(m *ref.M) {
	for _, e := range m.F[0].Map {
		if x.V == nil {
			x.V = map[uint32]int64{}
		}
		x.V[uint32(e.K.U)] = int64(e.V.U)
	}
}

func (x *MapUint32Sfixed64) schema() *ref.Schema { return schemaMapUint32Sfixed64 }

type MapUint32Float struct {
	V map[uint32]float32 `protobuf:"bytes,1,rep,name=V" protobuf_key:"varint,1,opt,name=key" protobuf_val:"fixed32,2,opt,name=value"`
}

var schemaMapUint32Float = &ref.Schema{Keep: false, Fields: []*ref.Field{
	{Num: 1, Kind: ref.Float, Card: ref.Map, Key: ref.Uint32},
}}

func (x *MapUint32Float) dump() *ref.M {
	if x == nil {
		return nil
	}
	m := ref.New(schemaMapUint32Float)
	for k, v := range x.V {
		m.F[0].Map = append(m.F[0].Map, ref.Entry{K: ref.Val{U: uint64(k)}, V: ref.Val{U: uint64(math.Float32bits(v))}})
	}
	return m
}

func (x *MapUint32Float) fill(m *ref.M) {
	for _, e := range m.F[0].Map {
		if x.V == nil {
			x.V = map[uint32]float32{}
		}
		x.V[uint32(e.K.U)] = math.Float32frombits(uint32(e.V.U))
	}
}

func (x *MapUint32Float) schema() *ref.Schema { return schemaMapUint32Float }

type MapUint32Double struct {
	V map[uint32]float64 `protobuf:"bytes,1,rep,name=V" protobuf_key:"varint,1,opt,name=key" protobuf_val:"fixed64,2,opt,name=value"`
}

var schemaMapUint32Double = &ref.Schema{Keep: false, Fields: []*ref.Field{
	{Num: 1, Kind: ref.Double, Card: ref.Map, Key: ref.Uint32},
}}

func (x *MapUint32Double) dump() *ref.M {
	if x == nil {
		return nil
	}
	m := ref.New(schemaMapUint32Double)
	for k, v := range x.V {
		m.F[0].Map = append(m.F[0].Map, ref.Entry{K: ref.Val{U: uint64(k)}, V: ref.Val{U: math.Float64bits(v)}})
	}
	return m
}

func (x *MapUint32Double) fill(m *ref.M) {
	for _, e := range m.F[0].Map {
		if x.V == nil {
			x.V = map[uint32]float64{}
		}
		x.V[uint32(e.K.U)] = math.Float64frombits(e.V.U)
	}
}

func (x *MapUint32Double) schema() *ref.Schema { return schemaMapUint32Double }

type MapUint32String struct {
	V map[uint32]string `protobuf:"bytes,1,rep,name=V" protobuf_key:"varint,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"`
}

var schemaMapUint32String = &ref.Schema{Keep: false, Fields: []*ref.Field{
	{Num: 1, Kind: ref.String, Card: ref.Map, Key: ref.Uint32},
}}

func (x *MapUint32String) dump() *ref.M {
	if x == nil {
		return nil
	}
	m := ref.New(schemaMapUint32String)
	for k, v := range x.V {
		m.F[0].Map = append(m.F[0].Map, ref.Entry{K: ref.Val{U: uint64(k)}, V: ref.Val{B: []byte(v)}})
	}
	return m
}

func (x *MapUint32String) fill(m *ref.M) {
	for _, e := range m.F[0].Map {
		if x.V == nil {
			x.V = map[uint32]string{}
		}
		x.V[uint32(e.K.U)] = string(e.V.B)
	}
}

func (x *MapUint32String) schema() *ref.Schema { return schemaMapUint32String }

type MapUint32Bytes struct {
	V map[uint32][]byte `protobuf:"bytes,1,rep,name=V" protobuf_key:"varint,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"`
}

var schemaMapUint32Bytes = &ref.Schema{Keep: false, Fields: []*ref.Field{
	{Num: 1, Kind: ref.Bytes, Card: ref.Map, Key: ref.Uint32},
}}

func (x *MapUint32Bytes) dump() *ref.M {
	if x == nil {
		return nil
	}
	m := ref.New(schemaMapUint32Bytes)
	for k, v := range x.V {
		m.F[0].Map = append(m.F[0].Map, ref.Entry{K: ref.Val{U: uint64(k)}, V: ref.Val{B: v}})
	}
	return m
}

func (x *MapUint32Bytes) fill(m *ref.M) {
	for _, e := range m.F[0].Map {
		if x.V == nil {
			x.V = map[uint32][]byte{}
		}
		x.V[uint32(e.K.U)] = e.V.B
	}
}

func (x *MapUint32Bytes) schema() *ref.Schema { return schemaMapUint32Bytes }

type MapUint64Int32 struct {
	V map[uint64]int32 `protobuf:"bytes,1,rep,name=V" protobuf_key:"varint,1,opt,name=key" protobuf_val:"varint,2,opt,name=value"`
}

var schemaMapUint64Int32 = &ref.Schema{Keep: false, Fields: []*ref.Field{
	{Num: 1, Kind: ref.Int32, Card: ref.Map, Key: ref.Uint64},
}}

func (x *MapUint64Int32) dump() *ref.M {
	if x == nil {
		return nil
	}
	m := ref.New(schemaMapUint64Int32)
	for k, v := range x.V {
		m.F[0].Map = append(m.F[0].Map, ref.Entry{K: ref.Val{U: k}, V: ref.Val{U: uint64(uint32(v))}})
	}
	return m
}

func (x *MapUint64Int32) fill(m *ref.M) {
	for _, e := range m.F[0].Map {
		if x.V == nil {
			x.V = map[uint64]int32{}
		}
		x.V[uint64(e.K.U)] = int32(e.V.U)
	}
}

func (x *MapUint64Int32) schema() *ref.Schema { return schemaMapUint64Int32 }

type MapUint64Int64 struct {
	V map[uint64]int64 `protobuf:"bytes,1,rep,name=V" protobuf_key:"varint,1,opt,name=key" protobuf_val:"varint,2,opt,name=value"`
}

var schemaMapUint64Int64 = &ref.Schema{Keep: false, Fields: []*ref.Field{
	{Num: 1, Kind: ref.Int64, Card: ref.Map, Key: ref.Uint64},
}}

func (x *MapUint64Int64) dump() *ref.M {
	if x == nil {
		return nil
	}
	m := ref.New(schemaMapUint64Int64)
	for k, v := range x.V {
		m.F[0].Map = append(m.F[0].Map, ref.Entry{K: ref.Val{U: k}, V: ref.Val{U: uint64(v)}})
	}
	return m
}

func (x *MapUint64Int64) fill(m *ref.M) {
	for _, e := range m.F[0].Map {
		if x.V == nil {
			x.V = map[uint64]int64{}
		}
		x.V[uint64(e.K.U)] = int64(e.V.U)
	}
}

func (x *MapUint64Int64) schema() *ref.Schema { return schemaMapUint64Int64 }

type MapUint64Uint32 struct {
	V map[uint64]uint32 `protobuf:"bytes,1,rep,name=V" protobuf_key:"varint,1,opt,name=key" protobuf_val:"varint,2,opt,name=value"`
}

var schemaMapUint64Uint32 = &ref.Schema{Keep: false, Fields: []*ref.Field{
	{Num: 1, Kind: ref.Uint32, Card: ref.Map, Key: ref.Uint64},
}}

func (x *MapUint64Uint32) dump() *ref.M {
	if x == nil {
		return nil
	}
	m := ref.New(schemaMapUint64Uint32)
	for k, v := range x.V {
		m.F[0].Map = append(m.F[0].Map, ref.Entry{K: ref.Val{U: k}, V: ref.Val{U: uint64(v)}})
	}
	return m
}

func (x *MapUint64Uint32) fill(m *ref.M) {
	for _, e := range m.F[0].Map {
		if x.V == nil {
			x.V = map[uint64]uint32{}
		}
		x.V[uint64(e.K.U)] = uint32(e.V.U)
	}
}

func (x *MapUint64Uint32) schema() *ref.Schema { return schemaMapUint64Uint32 }

type MapUint64Uint64 struct {
	V map[uint64]uint64 `protobuf:"bytes,1,rep,name=V" protobuf_key:"varint,1,opt,name=key" protobuf_val:"varint,2,opt,name=value"`
}

var schemaMapUint64Uint64 = &ref.Schema{Keep: false, Fields: []*ref.Field{
	{Num: 1, Kind: ref.Uint64, Card: ref.Map, Key: ref.Uint64},
}}

func (x *MapUint64Uint64) dump() *ref.M {
	if x == nil {
		return nil
	}
	m := ref.New(schemaMapUint64Uint64)
	for k, v := range x.V {
		m.F[0].Map = append(m.F[0].Map, ref.Entry{K: ref.Val{U: k}, V: ref.Val{U: v}})
	}
	return m
}

func (x *MapUint64Uint64) fill(m *ref.M) {
	for _, e := range m.F[0].Map {
		if x.V == nil {
			x.V = map[uint64]uint64{}
		}
		x.V[uint64(e.K.U)] = uint64(e.V.U)
	}
}

func (x *MapUint64Uint64) schema() *ref.Schema { return schemaMapUint64Uint64 }

type MapUint64Sint32 struct {
	V map[uint64]int32 `protobuf:"bytes,1,rep,name=V" protobuf_key:"varint,1,opt,name=key" protobuf_val:"zigzag32,2,opt,name=value"`
}

var schemaMapUint64Sint32 = &ref.Schema{Keep: false, Fields: []*ref.Field{
	{Num: 1, Kind: ref.Sint32, Card: ref.Map, Key: ref.Uint64},
}}

func (x *MapUint64Sint32) dump() *ref.M {
	if x == nil {
		return nil
	}
	m := ref.New(schemaMapUint64Sint32)
	for k, v := range x.V {
		m.F[0].Map = append(m.F[0].Map, ref.Entry{K: ref.Val{U: k}, V: ref.Val{U: uint64(uint32(v))}})
	}
	return m
}

func (x *MapUint64Sint32) fill(m *ref.M) {
	for _, e := range m.F[0].Map {
		if x.V == nil {
			x.V = map[uint64]int32{}
		}
		x.V[uint64(e.K.U)] = int32(e.V.U)
	}
}

func (x *MapUint64Sint32) schema() *ref.Schema { return schemaMapUint64Sint32 }

type MapUint64Sint64 struct {
	V map[uint64]int64 `protobuf:"bytes,1,rep,name=V" protobuf_key:"varint,1,opt,name=key" protobuf_val:"zigzag64,2,opt,name=value"`
}

var schemaMapUint64Sint64 = &ref.Schema{Keep: false, Fields: []*ref.Field{
	{Num: 1, Kind: ref.Sint64, Card: ref.Map, Key: ref.Uint64},
}}

func (x *MapUint64Sint64) dump() *ref.M {
	if x == nil {
		return nil
	}
	m := ref.New(schemaMapUint64Sint64)
	for k, v := range x.V {
		m.F[0].Map = append(m.F[0].Map, ref.Entry{K: ref.Val{U: k}, V: ref.Val{U: uint64(v)}})
	}
	return m
}

func (x *MapUint64Sint64) fill(m *ref.M) {
	for _, e := range m.F[0].Map {
		if x.V == nil {
			x.V = map[uint64]int64{}
		}
		x.V[uint64(e.K.U)] = int64(e.V.U)
	}
}

func (x *MapUint64Sint64) schema() *ref.Schema { return schemaMapUint64Sint64 }

type MapUint64Bool struct {
	V map[uint64]bool `protobuf:"bytes,1,rep,name=V" protobuf_key:"varint,1,opt,name=key" protobuf_val:"varint,2,opt,name=value"`
}

var schemaMapUint64Bool = &ref.Schema{Keep: false, Fields: []*ref.Field{
	{Num: 1, Kind: ref.Bool, Card: ref.Map, Key: ref.Uint64},
}}

func (x *MapUint64Bool) dump() *ref.M {
	if x == nil {
		return nil
	}
	m := ref.New(schemaMapUint64Bool)
	for k, v := range x.V {
		m.F[0].Map = append(m.F[0].Map, ref.Entry{K: ref.Val{U: k}, V: ref.Val{U: sym.B2U(v)}})
	}
	return m
}

func (x *MapUint64Bool) fill(m *ref.M) {
	for _, e := range m.F[0].Map {
		if x.V == nil {
			x.V = map[uint64]bool{}
		}
		x.V[uint64(e.K.U)] = (e.V.U != 0)
	}
}

func (x *MapUint64Bool) schema() *ref.Schema { return schemaMapUint64Bool }

type MapUint64Fixed32 struct {
	V map[uint64]uint32 `protobuf:"bytes,1,rep,name=V" protobuf_key:"varint,1,opt,name=key" protobuf_val:"fixed32,2,opt,name=value"`
}

var schemaMapUint64Fixed32 = &ref.Schema{Keep: false, Fields: []*ref.Field{
	{Num: 1, Kind: ref.Fixed32, Card: ref.Map, Key: ref.Uint64},
}}

func (x *MapUint64Fixed32) dump() *ref.M {
	if x == nil {
		return nil
	}
	m := ref.New(schemaMapUint64Fixed32)
	for k, v := range x.V {
		m.F[0].Map = append(m.F[0].Map, ref.Entry{K: ref.Val{U: k}, V: ref.Val{U: uint64(v)}})
	}
	return m
}

func (x *MapUint64Fixed32) fill(m *ref.M) {
	for _, e := range m.F[0].Map {
		if x.V == nil {
			x.V = map[uint64]uint32{}
		}
		x.V[uint64(e.K.U)] = uint32(e.V.U)
	}
}

func (x *MapUint64Fixed32) schema() *ref.Schema { return schemaMapUint64Fixed32 }

type MapUint64Fixed64 struct {
	V map[uint64]uint64 `protobuf:"bytes,1,rep,name=V" protobuf_key:"varint,1,opt,name=key" protobuf_val:"fixed64,2,opt,name=value"`
}

var schemaMapUint64Fixed64 = &ref.Schema{Keep: false, Fields: []*ref.Field{
	{Num: 1, Kind: ref.Fixed64, Card: ref.Map, Key: ref.Uint64},
}}

func (x *MapUint64Fixed64) dump() *ref.M {
	if x == nil {
		return nil
	}
	m := ref.New(schemaMapUint64Fixed64)
	for k, v := range x.V {
		m.F[0].Map = append(m.F[0].Map, ref.Entry{K: ref.Val{U: k}, V: ref.Val{U: v}})
	}
	return m
}

func (x *MapUint64Fixed64) fill(m *ref.M) {
	for _, e := range m.F[0].Map {
		if x.V == nil {
			x.V = map[uint64]uint64{}
		}
		x.V[uint64(e.K.U)] = uint64(e.V.U)
	}
}

func (x *MapUint64Fixed64) schema() *ref.Schema { return schemaMapUint64Fixed64 }

type MapUint64Sfixed32 struct {
	V map[uint64]int32 `protobuf:"bytes,1,rep,name=V" protobuf_key:"varint,1,opt,name=key" protobuf_val:"fixed32,2,opt,name=value"`
}

var schemaMapUint64Sfixed32 = &ref.Schema{Keep: false, Fields: []*ref.Field{
	{Num: 1, Kind: ref.Sfixed32, Card: ref.Map, Key: ref.Uint64},
}}

func (x *MapUint64Sfixed32) dump() *ref.M {
	if x == nil {
		return nil
	}
	m := ref.New(schemaMapUint64Sfixed32)
	for k, v := range x.V {
		m.F[0].Map = append(m.F[0].Map, ref.Entry{K: ref.Val{U: k}, V: ref.Val{U: uint64(uint32(v))}})
	}
	return m
}

func (x *MapUint64Sfixed32) fill(m *ref.M) {
	for _, e := range m.F[0].Map {
		if x.V == nil {
			x.V = map[uint64]int32{}
		}
		x.V[uint64(e.K.U)] = int32(e.V.U)
	}
}

func (x *MapUint64Sfixed32) schema() *ref.Schema { return schemaMapUint64Sfixed32 }

type MapUint64Sfixed64 struct {
	V map[uint64]int64 `protobuf:"bytes,1,rep,name=V" protobuf_key:"varint,1,opt,name=key" protobuf_val:"fixed64,2,opt,name=value"`
}

var schemaMapUint64Sfixed64 = &ref.Schema{Keep: false, Fields: []*ref.Field{
	{Num: 1, Kind: ref.Sfixed64, Card: ref.Map, Key: ref.Uint64},
}}

func (x *MapUint64Sfixed64) dump() *ref.M {
	if x == nil {
		return nil
	}
	m := ref.New(schemaMapUint64Sfixed64)
	for k, v := range x.V {
		m.F[0].Map = append(m.F[0].Map, ref.Entry{K: ref.Val{U: k}, V: ref.Val{U: uint64(v)}})
	}
	return m
}

func (x *MapUint64Sfixed64) fill(m *ref.M) {
	for _, e := range m.F[0].Map {
		if x.V == nil {
			x.V = map[uint64]int64{}
		}
		x.V[uint64(e.K.U)] = int64(e.V.U)
	}
}

func (x *MapUint64Sfixed64) schema() *ref.Schema { return schemaMapUint64Sfixed64 }

type MapUint64Float struct {
	V map[uint64]float32 `protobuf:"bytes,1,rep,name=V" protobuf_key:"varint,1,opt,name=key" protobuf_val:"fixed32,2,opt,name=value"`
}

var schemaMapUint64Float = &ref.Schema{Keep: false, Fields: []*ref.Field{
	{Num: 1, Kind: ref.Float, Card: ref.Map, Key: ref.Uint64},
}}

func (x *MapUint64Float) dump() *ref.M {
	if x == nil {
		return nil
	}
	m := ref.New(schemaMapUint64Float)
	for k, v := range x.V {
		m.F[0].Map = append(m.F[0].Map, ref.Entry{K: ref.Val{U: k}, V: ref.Val{U: uint64(math.Float32bits(v))}})
	}
	return m
}

func (x *MapUint64Float) fill(m *ref.M) {
	for _, e := range m.F[0].Map {
		if x.V == nil {
			x.V = map[uint64]float32{}
		}
		x.V[uint64(e.K.U)] = math.Float32frombits(uint32(e.V.U))
	}
}

func (x *MapUint64Float) schema() *ref.Schema { return schemaMapUint64Float }

type MapUint64Double struct {
	V map[uint64]float64 `protobuf:"bytes,1,rep,name=V" protobuf_key:"varint,1,opt,name=key" protobuf_val:"fixed64,2,opt,name=value"`
}

var schemaMapUint64Double = &ref.Schema{Keep: false, Fields: []*ref.Field{
	{Num: 1, Kind: ref.Double, Card: ref.Map, Key: ref.Uint64},
}}

func (x *MapUint64Double) dump() *ref.M {
	if x == nil {
		return nil
	}
	m := ref.New(schemaMapUint64Double)
	for k, v := range x.V {
		m.F[0].Map = append(m.F[0].Map, ref.Entry{K: ref.Val{U: k}, V: ref.Val{U: math.Float64bits(v)}})
	}
	return m
}

func (x *MapUint64Double) fill(m *ref.M) {
	for _, e := range m.F[0].Map {
		if x.V == nil {
			x.V = map[uint64]float64{}
		}
		x.V[uint64(e.K.U)] = math.Float64frombits(e.V.U)
	}
}

func (x *MapUint64Double) schema() *ref.Schema { return schemaMapUint64Double }

type MapUint64String struct {
	V map[uint64]string `protobuf:"bytes,1,rep,name=V" protobuf_key:"varint,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"`
}

var schemaMapUint64String = &ref.Schema{Keep: false, Fields: []*ref.Field{
	{Num: 1, Kind: ref.String, Card: ref.Map, Key: ref.Uint64},
}}

func (x *MapUint64String) dump() *ref.M {
	if x == nil {
		return nil
	}
	m := ref.New(schemaMapUint64String)
	for k, v := range x.V {
		m.F[0].Map = append(m.F[0].Map, ref.Entry{K: ref.Val{U: k}, V: ref.Val{B: []byte(v)}})
	}
	return m
}

func (x *MapUint64String) fill(m *ref.M) {
	for _, e := range m.F[0].Map {
		if x.V == nil {
			x.V = map[uint64]string{}
		}
		x.V[uint64(e.K.U)] = string(e.V.B)
	}
}

func (x *MapUint64String) schema() *ref.Schema { return schemaMapUint64String }

type MapUint64Bytes struct {
	V map[uint64][]byte `protobuf:"bytes,1,rep,name=V" protobuf_key:"varint,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"`
}

var schemaMapUint64Bytes = &ref.Schema{Keep: false, Fields: []*ref.Field{
	{Num: 1, Kind: ref.Bytes, Card: ref.Map, Key: ref.Uint64},
}}

func (x *MapUint64Bytes) dump() *ref.M {
	if x == nil {
		return nil
	}
	m := ref.New(schemaMapUint64Bytes)
	for k, v := range x.V {
		m.F[0].Map = append(m.F[0].Map, ref.Entry{K: ref.Val{U: k}, V: ref.Val{B: v}})
	}
	return m
}

func (x *MapUint64Bytes) fill(m *ref.M) {
	for _, e := range m.F[0].Map {
		if x.V == nil {
			x.V = map[uint64][]byte{}
		}
		x.V[uint64(e.K.U)] = e.V.B
	}
}

func (x *MapUint64Bytes) schema() *ref.Schema { return schemaMapUint64Bytes }

type MapSint32Int32 struct {
	V map[int32]int32 `protobuf:"bytes,1,rep,name=V" protobuf_key:"zigzag32,1,opt,name=key" protobuf_val:"varint,2,opt,name=value"`
}

var schemaMapSint32Int32 = &ref.Schema{Keep: false, Fields: []*ref.Field{
	{Num: 1, Kind: ref.Int32, Card: ref.Map, Key: ref.Sint32},
}}

func (x *MapSint32Int32) dump() *ref.M {
	if x == nil {
		return nil
	}
	m := ref.New(schemaMapSint32Int32)
	for k, v := range x.V {
		m.F[0].Map = append(m.F[0].Map, ref.Entry{K: ref.Val{U: uint64(uint32(k))}, V: ref.Val{U: uint64(uint32(v))}})
	}
	return m
}

func (x *MapSint32Int32) fill(m *ref.M) {
	for _, e := range m.F[0].Map {
		if x.V == nil {
			x.V = map[int32]int32{}
		}
		x.V[int32(e.K.U)] = int32(e.V.U)
	}
}

func (x *MapSint32Int32) schema() *ref.Schema { return schemaMapSint32Int32 }

type MapSint32Int64 struct {
	V map[int32]int64 `protobuf:"bytes,1,rep,name=V" protobuf_key:"zigzag32,1,opt,name=key" protobuf_val:"varint,2,opt,name=value"`
}

var schemaMapSint32Int64 = &ref.Schema{Keep: false, Fields: []*ref.Field{
	{Num: 1, Kind: ref.Int64, Card: ref.Map, Key: ref.Sint32},
}}

func (x *MapSint32Int64) dump() *ref.M {
	if x == nil {
		return nil
	}
	m := ref.New(schemaMapSint32Int64)
	for k, v := range x.V {
		m.F[0].Map = append(m.F[0].Map, ref.Entry{K: ref.Val{U: uint64(uint32(k))}, V: ref.Val{U: uint64(v)}})
	}
	return m
}

func (x *MapSint32Int64) fill(m *ref.M) {
	for _, e := range m.F[0].Map {
		if x.V == nil {
			x.V = map[int32]int64{}
		}
		x.V[int32(e.K.U)] = int64(e.V.U)
	}
}

func (x *MapSint32Int64) schema() *ref.Schema { return schemaMapSint32Int64 }

type MapSint32Uint32 struct {
	V map[int32]uint32 `protobuf:"bytes,1,rep,name=V" protobuf_key:"zigzag32,1,opt,name=key" protobuf_val:"varint,2,opt,name=value"`
}

var schemaMapSint32Uint32 = &ref.Schema{Keep: false, Fields: []*ref.Field{
	{Num: 1, Kind: ref.Uint32, Card: ref.Map, Key: ref.Sint32},
}}

func (x *MapSint32Uint32) dump() *ref.M {
	if x == nil {
		return nil
	}
	m := ref.New(schemaMapSint32Uint32)
	for k, v := range x.V {
		m.F[0].Map = append(m.F[0].Map, ref.Entry{K: ref.Val{U: uint64(uint32(k))}, V: ref.Val{U: uint64(v)}})
	}
	return m
}

func (x *MapSint32Uint32) fill(m *ref.M) {
	for _, e := range m.F[0].Map {
		if x.V == nil {
			x.V = map[int32]uint32{}
		}
		x.V[int32(e.K.U)] = uint32(e.V.U)
	}
}

func (x *MapSint32Uint32) schema() *ref.Schema { return schemaMapSint32Uint32 }

type MapSint32Uint64 struct {
	V map[int32]uint64 `protobuf:"bytes,1,rep,name=V" protobuf_key:"zigzag32,1,opt,name=key" protobuf_val:"varint,2,opt,name=value"`
}

var schemaMapSint32Uint64 = &ref.Schema{Keep: false, Fields: []*ref.Field{
	{Num: 1, Kind: ref.Uint64, Card: ref.Map, Key: ref.Sint32},
}}

func (x *MapSint32Uint64) dump() *ref.M {
	if x == nil {
		return nil
	}
	m := ref.New(schemaMapSint32Uint64)
	for k, v := range x.V {
		m.F[0].Map = append(m.F[0].Map, ref.Entry{K: ref.Val{U: uint64(uint32(k))}, V: ref.Val{U: v}})
	}
	return m
}

func (x *MapSint32Uint64) fill(m *ref.M) {
	for _, e := range m.F[0].Map {
		if x.V == nil {
			x.V = map[int32]uint64{}
		}
		x.V[int32(e.K.U)] = uint64(e.V.U)
	}
}

func (x *MapSint32Uint64) schema() *ref.Schema { return schemaMapSint32Uint64 }

type MapSint32Sint32 struct {
	V map[int32]int32 `protobuf:"bytes,1,rep,name=V" protobuf_key:"zigzag32,1,opt,name=key" protobuf_val:"zigzag32,2,opt,name=value"`
}

var schemaMapSint32Sint32 = &ref.Schema{Keep: false, Fields: []*ref.Field{
	{Num: 1, Kind: ref.Sint32, Card: ref.Map, Key: ref.Sint32},
}}

func (x *MapSint32Sint32) dump() *ref.M {
	if x == nil {
		return nil
	}
	m := ref.New(schemaMapSint32Sint32)
	for k, v := range x.V {
		m.F[0].Map = append(m.F[0].Map, ref.Entry{K: ref.Val{U: uint64(uint32(k))}, V: ref.Val{U: uint64(uint32(v))}})
	}
	return m
}

func (x *MapSint32Sint32) fill(m *ref.M) {
	for _, e := range m.F[0].Map {
		if x.V == nil {
			x.V = map[int32]int32{}
		}
		x.V[int32(e.K.U)] = int32(e.V.U)
	}
}

func (x *MapSint32Sint32) schema() *ref.Schema { return schemaMapSint32Sint32 }

type MapSint32Sint64 struct {
	V map[int32]int64 `protobuf:"bytes,1,rep,name=V" protobuf_key:"zigzag32,1,opt,name=key" protobuf_val:"zigzag64,2,opt,name=value"`
}

var schemaMapSint32Sint64 = &ref.Schema{Keep: false, Fields: []*ref.Field{
	{Num: 1, Kind: ref.Sint64, Card: ref.Map, Key: ref.Sint32},
}}

func (x *MapSint32Sint64) dump() *ref.M {
	if x == nil {
		return nil
	}
	m := ref.New(schemaMapSint32Sint64)
	for k, v := range x.V {
		m.F[0].Map = append(m.F[0].Map, ref.Entry{K: ref.Val{U: uint64(uint32(k))}, V: ref.Val{U: uint64(v)}})
	}
	return m
}

func (x *MapSint32Sint64) fill(m *ref.M) {
	for _, e := range m.F[0].Map {
		if x.V == nil {
			x.V = map[int32]int64{}
		}
		x.V[int32(e.K.U)] = int64(e.V.U)
	}
}

func (x *MapSint32Sint64) schema() *ref.Schema { return schemaMapSint32Sint64 }

type MapSint32Bool struct {
	V map[int32]bool `protobuf:"bytes,1,rep,name=V" protobuf_key:"zigzag32,1,opt,name=key" protobuf_val:"varint,2,opt,name=value"`
}

var schemaMapSint32Bool = &ref.Schema{Keep: false, Fields: []*ref.Field{
	{Num: 1, Kind: ref.Bool, Card: ref.Map, Key: ref.Sint32},
}}

func (x *MapSint32Bool) dump() *ref.M {
	if x == nil {
		return nil
	}
	m := ref.New(schemaMapSint32Bool)
	for k, v := range x.V {
		m.F[0].Map = append(m.F[0].Map, ref.Entry{K: ref.Val{U: uint64(uint32(k))}, V: ref.Val{U: sym.B2U(v)}})
	}
	return m
}

func (x *MapSint32Bool) fill(m *ref.M) {
	for _, e := range m.F[0].Map {
		if x.V == nil {
			x.V = map[int32]bool{}
		}
		x.V[int32(e.K.U)] = (e.V.U != 0)
	}
}

func (x *MapSint32Bool) schema() *ref.Schema { return schemaMapSint32Bool }

type MapSint32Fixed32 struct {
	V map[int32]uint32 `protobuf:"bytes,1,rep,name=V" protobuf_key:"zigzag32,1,opt,name=key" protobuf_val:"fixed32,2,opt,name=value"`
}

var schemaMapSint32Fixed32 = &ref.Schema{Keep: false, Fields: []*ref.Field{
	{Num: 1, Kind: ref.Fixed32, Card: ref.Map, Key: ref.Sint32},
}}

func (x *MapSint32Fixed32) dump() *ref.M {
	if x == nil {
		return nil
	}
	m := ref.New(schemaMapSint32Fixed32)
	for k, v := range x.V {
		m.F[0].Map = append(m.F[0].Map, ref.Entry{K: ref.Val{U: uint64(uint32(k))}, V: ref.Val{U: uint64(v)}})
	}
	return m
}

func (x *MapSint32Fixed32) fill(m *ref.M) {
	for _, e := range m.F[0].Map {
		if x.V == nil {
			x.V = map[int32]uint32{}
		}
		x.V[int32(e.K.U)] = uint32(e.V.U)
	}
}

func (x *MapSint32Fixed32) schema() *ref.Schema { return schemaMapSint32Fixed32 }

type MapSint32Fixed64 struct {
	V map[int32]uint64 `protobuf:"bytes,1,rep,name=V" protobuf_key:"zigzag32,1,opt,name=key" protobuf_val:"fixed64,2,opt,name=value"`
}

var schemaMapSint32Fixed64 = &ref.Schema{Keep: false, Fields: []*ref.Field{
	{Num: 1, Kind: ref.Fixed64, Card: ref.Map, Key: ref.Sint32},
}}

func (x *MapSint32Fixed64) dump() *ref.M {
	if x == nil {
		return nil
	}
	m := ref.New(schemaMapSint32Fixed64)
	for k, v := range x.V {
		m.F[0].Map = append(m.F[0].Map, ref.Entry{K: ref.Val{U: uint64(uint32(k))}, V: ref.Val{U: v}})
	}
	return m
}

func (x *MapSint32Fixed64) fill(m *ref.M) {
	for _, e := range m.F[0].Map {
		if x.V == nil {
			x.V = map[int32]uint64{}
		}
		x.V[int32(e.K.U)] = uint64(e.V.U)
	}
}

func (x *MapSint32Fixed64) schema() *ref.Schema { return schemaMapSint32Fixed64 }

type MapSint32Sfixed32 struct {
	V map[int32]int32 `protobuf:"bytes,1,rep,name=V" protobuf_key:"zigzag32,1,opt,name=key" protobuf_val:"fixed32,2,opt,name=value"`
}

var schemaMapSint32Sfixed32 = &ref.Schema{Keep: false, Fields: []*ref.Field{
	{Num: 1, Kind: ref.Sfixed32, Card: ref.Map, Key: ref.Sint32},
}}

func (x *MapSint32Sfixed32) dump() *ref.M {
	if x == nil {
		return nil
	}
	m := ref.New(schemaMapSint32Sfixed32)
	for k, v := range x.V {
		m.F[0].Map = append(m.F[0].Map, ref.Entry{K: ref.Val{U: uint64(uint32(k))}, V: ref.Val{U: uint64(uint32(v))}})
	}
	return m
}

func (x *MapSint32Sfixed32) fill(m *ref.M) {
	for _, e := range m.F[0].Map {
		if x.V == nil {
			x.V = map[int32]int32{}
		}
		x.V[int32(e.K.U)] = int32(e.V.U)
	}
}

func (x *MapSint32Sfixed32) schema() *ref.Schema { return schemaMapSint32Sfixed32 }

type MapSint32Sfixed64 struct {
	V map[int32]int64 `protobuf:"bytes,1,rep,name=V" protobuf_key:"zigzag32,1,opt,name=key" protobuf_val:"fixed64,2,opt,name=value"`
}

var schemaMapSint32Sfixed64 = &ref.Schema{Keep: false, Fields: []*ref.Field{
	{Num: 1, Kind: ref.Sfixed64, Card: ref.Map, Key: ref.Sint32},
}}

func (x *MapSint32Sfixed64) dump() *ref.M {
	if x == nil {
		return nil
	}
	m := ref.New(schemaMapSint32Sfixed64)
	for k, v := range x.V {
		m.F[0].Map = append(m.F[0].Map, ref.Entry{K: ref.Val{U: uint64(uint32(k))}, V: ref.Val{U: uint64(v)}})
	}
	return m
}

func (x *MapSint32Sfixed64) fill(m *ref.M) {
	for _, e := range m.F[0].Map {
		if x.V == nil {
			x.V = map[int32]int64{}
		}
		x.V[int32(e.K.U)] = int64(e.V.U)
	}
}

func (x *MapSint32Sfixed64) schema() *ref.Schema { return schemaMapSint32Sfixed64 }

type MapSint32Float struct {
	V map[int32]float32 `protobuf:"bytes,1,rep,name=V" protobuf_key:"zigzag32,1,opt,name=key" protobuf_val:"fixed32,2,opt,name=value"`
}

var schemaMapSint32Float = &ref.Schema{Keep: false, Fields: []*ref.Field{
	{Num: 1, Kind: ref.Float, Card: ref.Map, Key: ref.Sint32},
}}

func (x *MapSint32Float) dump() *ref.M {
	if x == nil {
		return nil
	}
	m := ref.New(schemaMapSint32Float)
	for k, v := range x.V {
		m.F[0].Map = append(m.F[0].Map, ref.Entry{K: ref.Val{U: uint64(uint32(k))}, V: ref.Val{U: uint64(math.Float32bits(v))}})
	}
	return m
}

func (x *MapSint32Float) fill(m *ref.M) {
	for _, e := range m.F[0].Map {
		if x.V == nil {
			x.V = map[int32]float32{}
		}
		x.V[int32(e.K.U)] = math.Float32frombits(uint32(e.V.U))
	}
}

func (x *MapSint32Float) schema() *ref.Schema { return schemaMapSint32Float }

type MapSint32Double struct {
	V map[int32]float64 `protobuf:"bytes,1,rep,name=V" protobuf_key:"zigzag32,1,opt,name=key" protobuf_val:"fixed64,2,opt,name=value"`
}

var schemaMapSint32Double = &ref.Schema{Keep: false, Fields: []*ref.Field{
	{Num: 1, Kind: ref.Double, Card: ref.Map, Key: ref.Sint32},
}}

func (x *MapSint32Double) dump() *ref.M {
	if x == nil {
		return nil
	}
	m := ref.New(schemaMapSint32Double)
	for k, v := range x.V {
		m.F[0].Map = append(m.F[0].Map, ref.Entry{K: ref.Val{U: uint64(uint32(k))}, V: ref.Val{U: math.Float64bits(v)}})
	}
	return m
}

func (x *MapSint32Double) fill(m *ref.M) {
	for _, e := range m.F[0].Map {
		if x.V == nil {
			x.V = map[int32]float64{}
		}
		x.V[int32(e.K.U)] = math.Float64frombits(e.V.U)
	}
}

func (x *MapSint32Double) schema() *ref.Schema { return schemaMapSint32Double }

type MapSint32String struct {
	V map[int32]string `protobuf:"bytes,1,rep,name=V" protobuf_key:"zigzag32,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"`
}

var schemaMapSint32String = &ref.Schema{Keep: false, Fields: []*ref.Field{
	{Num: 1, Kind: ref.String, Card: ref.Map, Key: ref.Sint32},
}}

func (x *MapSint32String) dump() *ref.M {
	if x == nil {
		return nil
	}
	m := ref.New(schemaMapSint32String)
	for k, v := range x.V {
		m.F[0].Map = append(m.F[0].Map, ref.Entry{K: ref.Val{U: uint64(uint32(k))}, V: ref.Val{B: []byte(v)}})
	}
	return m
}

func (x *MapSint32String) fill(m *ref.M) {
	for _, e := range m.F[0].Map {
		if x.V == nil {
			x.V = map[int32]string{}
		}
		x.V[int32(e.K.U)] = string(e.V.B)
	}
}

func (x *MapSint32String) schema() *ref.Schema { return schemaMapSint32String }

type MapSint32Bytes struct {
	V map[int32][]byte `protobuf:"bytes,1,rep,name=V" protobuf_key:"zigzag32,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"`
}

var schemaMapSint32Bytes = &ref.Schema{Keep: false, Fields: []*ref.Field{
	{Num: 1, Kind: ref.Bytes, Card: ref.Map, Key: ref.Sint32},
}}

func (x *MapSint32Bytes) dump() *ref.M {
	if x == nil {
		return nil
	}
	m := ref.New(schemaMapSint32Bytes)
	for k, v := range x.V {
		m.F[0].Map = append(m.F[0].Map, ref.Entry{K: ref.Val{U: uint64(uint32(k))}, V: ref.Val{B: v}})
	}
	return m
}

func (x *MapSint32Bytes) fill(m *ref.M) {
	for _, e := range m.F[0].Map {
		if x.V == nil {
			x.V = map[int32][]byte{}
		}
		x.V[int32(e.K.U)] = e.V.B
	}
}

func (x *MapSint32Bytes) schema() *ref.Schema { return schemaMapSint32Bytes }

type MapSint64Int32 struct {
	V map[int64]int32 `protobuf:"bytes,1,rep,name=V" protobuf_key:"zigzag64,1,opt,name=key" protobuf_val:"varint,2,opt,name=value"`
}

var schemaMapSint64Int32 = &ref.Schema{Keep: false, Fields: []*ref.Field{
	{Num: 1, Kind: ref.Int32, Card: ref.Map, Key: ref.Sint64},
}}

func (x *MapSint64Int32) dump() *ref.M {
	if x == nil {
		return nil
	}
	m := ref.New(schemaMapSint64Int32)
	for k, v := range x.V {
		m.F[0].Map = append(m.F[0].Map, ref.Entry{K: ref.Val{U: uint64(k)}, V: ref.Val{U: uint64(uint32(v))}})
	}
	return m
}

func (x *MapSint64Int32) fill(m *ref.M) {
	for _, e := range m.F[0].Map {
		if x.V == nil {
			x.V = map[int64]int32{}
		}
		x.V[int64(e.K.U)] = int32(e.V.U)
	}
}

func (x *MapSint64Int32) schema() *ref.Schema { return schemaMapSint64Int32 }

type MapSint64Int64 struct {
	V map[int64]int64 `protobuf:"bytes,1,rep,name=V" protobuf_key:"zigzag64,1,opt,name=key" protobuf_val:"varint,2,opt,name=value"`
}

var schemaMapSint64Int64 = &ref.Schema{Keep: false, Fields: []*ref.Field{
	{Num: 1, Kind: ref.Int64, Card: ref.Map, Key: ref.Sint64},
}}

func (x *MapSint64Int64) dump() *ref.M {
	if x == nil {
		return nil
	}
	m := ref.New(schemaMapSint64Int64)
	for k, v := range x.V {
		m.F[0].Map = append(m.F[0].Map, ref.Entry{K: ref.Val{U: uint64(k)}, V: ref.Val{U: uint64(v)}})
	}
	return m
}

func (x *MapSint64Int64) fill(m *ref.M) {
	for _, e := range m.F[0].Map {
		if x.V == nil {
			x.V = map[int64]int64{}
		}
		x.V[int64(e.K.U)] = int64(e.V.U)
	}
}

func (x *MapSint64Int64) schema() *ref.Schema { return schemaMapSint64Int64 }

type MapSint64Uint32 struct {
	V map[int64]uint32 `protobuf:"bytes,1,rep,name=V" protobuf_key:"zigzag64,1,opt,name=key" protobuf_val:"varint,2,opt,name=value"`
}

var schemaMapSint64Uint32 = &ref.Schema{Keep: false, Fields: []*ref.Field{
	{Num: 1, Kind: ref.Uint32, Card: ref.Map, Key: ref.Sint64},
}}

func (x *MapSint64Uint32) dump() *ref.M {
	if x == nil {
		return nil
	}
	m := ref.New(schemaMapSint64Uint32)
	for k, v := range x.V {
		m.F[0].Map = append(m.F[0].Map, ref.Entry{K: ref.Val{U: uint64(k)}, V: ref.Val{U: uint64(v)}})
	}
	return m
}

func (x *MapSint64Uint32) fill(m *ref.M) {
	for _, e := range m.F[0].Map {
		if x.V == nil {
			x.V = map[int64]uint32{}
		}
		x.V[int64(e.K.U)] = uint32(e.V.U)
	}
}

func (x *MapSint64Uint32) schema() *ref.Schema { return schemaMapSint64Uint32 }

type MapSint64Uint64 struct {
	V map[int64]uint64 `protobuf:"bytes,1,rep,name=V" protobuf_key:"zigzag64,1,opt,name=key" protobuf_val:"varint,2,opt,name=value"`
}

var schemaMapSint64Uint64 = &ref.Schema{Keep: false, Fields: []*ref.Field{
	{Num: 1, Kind: ref.Uint64, Card: ref.Map, Key: ref.Sint64},
}}

func (x *MapSint64Uint64) dump() *ref.M {
	if x == nil {
		return nil
	}
	m := ref.New(schemaMapSint64Uint64)
	for k, v := range x.V {
		m.F[0].Map = append(m.F[0].Map, ref.Entry{K: ref.Val{U: uint64(k)}, V: ref.Val{U: v}})
	}
	return m
}

func (x *MapSint64Uint64) fill(m *ref.M) {
	for _, e := range m.F[0].Map {
		if x.V == nil {
			x.V = map[int64]uint64{}
		}
		x.V[int64(e.K.U)] = uint64(e.V.U)
	}
}

func (x *MapSint64Uint64) schema() *ref.Schema { return schemaMapSint64Uint64 }

type MapSint64Sint32 struct {
	V map[int64]int32 `protobuf:"bytes,1,rep,name=V" protobuf_key:"zigzag64,1,opt,name=key" protobuf_val:"zigzag32,2,opt,name=value"`
}

var schemaMapSint64Sint32 = &ref.Schema{Keep: false, Fields: []*ref.Field{
	{Num: 1, Kind: ref.Sint32, Card: ref.Map, Key: ref.Sint64},
}}

func (x *MapSint64Sint32) dump() *ref.M {
	if x == nil {
		return nil
	}
	m := ref.New(schemaMapSint64Sint32)
	for k, v := range x.V {
		m.F[0].Map = append(m.F[0].Map, ref.Entry{K: ref.Val{U: uint64(k)}, V: ref.Val{U: uint64(uint32(v))}})
	}
	return m
}

func (x *MapSint64Sint32) fill(m *ref.M) {
	for _, e := range m.F[0].Map {
		if x.V == nil {
			x.V = map[int64]int32{}
		}
		x.V[int64(e.K.U)] = int32(e.V.U)
	}
}

func (x *MapSint64Sint32) schema() *ref.Schema { return schemaMapSint64Sint32 }

type MapSint64Sint64 struct {
	V map[int64]int64 `protobuf:"bytes,1,rep,name=V" protobuf_key:"zigzag64,1,opt,name=key" protobuf_val:"zigzag64,2,opt,name=value"`
}

var schemaMapSint64Sint64 = &ref.Schema{Keep: false, Fields: []*ref.Field{
	{Num: 1, Kind: ref.Sint64, Card: ref.Map, Key: ref.Sint64},
}}

func (x *MapSint64Sint64) dump() *ref.M {
	if x == nil {
		return nil
	}
	m := ref.New(schemaMapSint64Sint64)
	for k, v := range x.V {
		m.F[0].Map = append(m.F[0].Map, ref.Entry{K: ref.Val{U: uint64(k)}, V: ref.Val{U: uint64(v)}})
	}
	return m
}

func (x *MapSint64Sint64) fill(m *ref.M) {
	for _, e := range m.F[0].Map {
		if x.V == nil {
			x.V = map[int64]int64{}
		}
		x.V[int64(e.K.U)] = int64(e.V.U)
	}
}

func (x *MapSint64Sint64) schema() *ref.Schema { return schemaMapSint64Sint64 }

type MapSint64Bool struct {
	V map[int64]bool `protobuf:"bytes,1,rep,name=V" protobuf_key:"zigzag64,1,opt,name=key" protobuf_val:"varint,2,opt,name=value"`
}

var schemaMapSint64Bool = &ref.Schema{Keep: false, Fields: []*ref.Field{
	{Num: 1, Kind: ref.Bool, Card: ref.Map, Key: ref.Sint64},
}}

func (x *MapSint64Bool) dump() *ref.M {
	if x == nil {
		return nil
	}
	m := ref.New(schemaMapSint64Bool)
	for k, v := range x.V {
		m.F[0].Map = append(m.F[0].Map, ref.Entry{K: ref.Val{U: uint64(k)}, V: ref.Val{U: sym.B2U(v)}})
	}
	return m
}

func (x *MapSint64Bool) fill(m *ref.M) {
	for _, e := range m.F[0].Map {
		if x.V == nil {
			x.V = map[int64]bool{}
		}
		x.V[int64(e.K.U)] = (e.V.U != 0)
	}
}

func (x *MapSint64Bool) schema() *ref.Schema { return schemaMapSint64Bool }

type MapSint64Fixed32 struct {
	V map[int64]uint32 `protobuf:"bytes,1,rep,name=V" protobuf_key:"zigzag64,1,opt,name=key" protobuf_val:"fixed32,2,opt,name=value"`
}

var schemaMapSint64Fixed32 = &ref.Schema{Keep: false, Fields: []*ref.Field{
	{Num: 1, Kind: ref.Fixed32, Card: ref.Map, Key: ref.Sint64},
}}

func (x *MapSint64Fixed32) dump() *ref.M {
	if x == nil {
		return nil
	}
	m := ref.New(schemaMapSint64Fixed32)
	for k, v := range x.V {
		m.F[0].Map = append(m.F[0].Map, ref.Entry{K: ref.Val{U: uint64(k)}, V: ref.Val{U: uint64(v)}})
	}
	return m
}

func (x *MapSint64Fixed32) fill(m *ref.M) {
	for _, e := range m.F[0].Map {
		if x.V == nil {
			x.V = map[int64]uint32{}
		}
		x.V[int64(e.K.U)] = uint32(e.V.U)
	}
}

func (x *MapSint64Fixed32) schema() *ref.Schema { return schemaMapSint64Fixed32 }

type MapSint64Fixed64 struct {
	V map[int64]uint64 `protobuf:"bytes,1,rep,name=V" protobuf_key:"zigzag64,1,opt,name=key" protobuf_val:"fixed64,2,opt,name=value"`
}

var schemaMapSint64Fixed64 = &ref.Schema{Keep: false, Fields: []*ref.Field{
	{Num: 1, Kind: ref.Fixed64, Card: ref.Map, Key: ref.Sint64},
}}

func (x *MapSint64Fixed64) dump() *ref.M {
	if x == nil {
		return nil
	}
	m := ref.New(schemaMapSint64Fixed64)
	for k, v := range x.V {
		m.F[0].Map = append(m.F[0].Map, ref.Entry{K: ref.Val{U: uint64(k)}, V: ref.Val{U: v}})
	}
	return m
}

func (x *MapSint64Fixed64) fill(m *ref.M) {
	for _, e := range m.F[0].Map {
		if x.V == nil {
			x.V = map[int64]uint64{}
		}
		x.V[int64(e.K.U)] = uint64(e.V.U)
	}
}

func (x *MapSint64Fixed64) schema() *ref.Schema { return schemaMapSint64Fixed64 }

type MapSint64Sfixed32 struct {
	V map[int64]int32 `protobuf:"bytes,1,rep,name=V" protobuf_key:"zigzag64,1,opt,name=key" protobuf_val:"fixed32,2,opt,name=value"`
}

var schemaMapSint64Sfixed32 = &ref.Schema{Keep: false, Fields: []*ref.Field{
	{Num: 1, Kind: ref.Sfixed32, Card: ref.Map, Key: ref.Sint64},
}}

func (x *MapSint64Sfixed32) dump() *ref.M {
	if x == nil {
		return nil
	}
	m := ref.New(schemaMapSint64Sfixed32)
	for k, v := range x.V {
		m.F[0].Map = append(m.F[0].Map, ref.Entry{K: ref.Val{U: uint64(k)}, V: ref.Val{U: uint64(uint32(v))}})
	}
	return m
}

func (x *MapSint64Sfixed32) fill(m *ref.M) {
	for _, e := range m.F[0].Map {
		if x.V == nil {
			x.V = map[int64]int32{}
		}
		x.V[int64(e.K.U)] = int32(e.V.U)
	}
}

func (x *MapSint64Sfixed32) schema() *ref.Schema { return schemaMapSint64Sfixed32 }

type MapSint64Sfixed64 struct {
	V map[int64]int64 `protobuf:"bytes,1,rep,name=V" protobuf_key:"zigzag64,1,opt,name=key" protobuf_val:"fixed64,2,opt,name=value"`
}

var schemaMapSint64Sfixed64 = &ref.Schema{Keep: false, Fields: []*ref.Field{
	{Num: 1, Kind: ref.Sfixed64, Card: ref.Map, Key: ref.Sint64},
}}

func (x *MapSint64Sfixed64) dump() *ref.M {
	if x == nil {
		return nil
	}
	m := ref.New(schemaMapSint64Sfixed64)
	for k, v := range x.V {
		m.F[0].Map = append(m.F[0].Map, ref.Entry{K: ref.Val{U: uint64(k)}, V: ref.Val{U: uint64(v)}})
	}
	return m
}

func (x *MapSint64Sfixed64) fill(m *ref.M) {
	for _, e := range m.F[0].Map {
		if x.V == nil {
			x.V = map[int64]int64{}
		}
		x.V[int64(e.K.U)] = int64(e.V.U)
	}
}

func (x *MapSint64Sfixed64) schema() *ref.Schema { return schemaMapSint64Sfixed64 }

type MapSint64Float struct {
	V map[int64]float32 `protobuf:"bytes,1,rep,name=V" protobuf_key:"zigzag64,1,opt,name=key" protobuf_val:"fixed32,2,opt,name=value"`
}

var schemaMapSint64Float = &ref.Schema{Keep: false, Fields: []*ref.Field{
	{Num: 1, Kind: ref.Float, Card: ref.Map, Key: ref.Sint64},
}}

func (x *MapSint64Float) dump() *ref.M {
	if x == nil {
		return nil
	}
	m := ref.New(schemaMapSint64Float)
	for k, v := range x.V {
		m.F[0].Map = append(m.F[0].Map, ref.Entry{K: ref.Val{U: uint64(k)}, V: ref.Val{U: uint64(math.Float32bits(v))}})
	}
	return m
}

func (x *MapSint64Float) fill(m *ref.M) {
	for _, e := range m.F[0].Map {
		if x.V == nil {
			x.V = map[int64]float32{}
		}
		x.V[int64(e.K.U)] = math.Float32frombits(uint32(e.V.U))
	}
}

func (x *MapSint64Float) schema() *ref.Schema { return schemaMapSint64Float }

type MapSint64Double struct {
	V map[int64]float64 `protobuf:"bytes,1,rep,name=V" protobuf_key:"zigzag64,1,opt,name=key" protobuf_val:"fixed64,2,opt,name=value"`
}

var schemaMapSint64Double = &ref.Schema{Keep: false, Fields: []*ref.Field{
	{Num: 1, Kind: ref.Double, Card: ref.Map, Key: ref.Sint64},
}}

func (x *MapSint64Double) dump() *ref.M {
	if x == nil {
		return nil
	}
	m := ref.New(schemaMapSint64Double)
	for k, v := range x.V {
		m.F[0].Map = append(m.F[0].Map, ref.Entry{K: ref.Val{U: uint64(k)}, V: ref.Val{U: math.Float64bits(v)}})
	}
	return m
}

func (x *MapSint64Double) fill(m *ref.M) {
	for _, e := range m.F[0].Map {
		if x.V == nil {
			x.V = map[int64]float64{}
		}
		x.V[int64(e.K.U)] = math.Float64frombits(e.V.U)
	}
}

func (x *MapSint64Double) schema() *ref.Schema { return schemaMapSint64Double }

type MapSint64String struct {
	V map[int64]string `protobuf:"bytes,1,rep,name=V" protobuf_key:"zigzag64,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"`
}

var schemaMapSint64String = &ref.Schema{Keep: false, Fields: []*ref.Field{
	{Num: 1, Kind: ref.String, Card: ref.Map, Key: ref.Sint64},
}}

func (x *MapSint64String) dump() *ref.M {
	if x == nil {
		return nil
	}
	m := ref.New(schemaMapSint64String)
	for k, v := range x.V {
		m.F[0].Map = append(m.F[0].Map, ref.Entry{K: ref.Val{U: uint64(k)}, V: ref.Val{B: []byte(v)}})
	}
	return m
}

func (x *MapSint64String) fill(m *ref.M) {
	for _, e := range m.F[0].Map {
		if x.V == nil {
			x.V = map[int64]string{}
		}
		x.V[int64(e.K.U)] = string(e.V.B)
	}
}

func (x *MapSint64String) schema() *ref.Schema { return schemaMapSint64String }

type MapSint64Bytes struct {
	V map[int64][]byte `protobuf:"bytes,1,rep,name=V" protobuf_key:"zigzag64,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"`
}

var schemaMapSint64Bytes = &ref.Schema{Keep: false, Fields: []*ref.Field{
	{Num: 1, Kind: ref.Bytes, Card: ref.Map, Key: ref.Sint64},
}}

func (x *MapSint64Bytes) dump() *ref.M {
	if x == nil {
		return nil
	}
	m := ref.New(schemaMapSint64Bytes)
	for k, v := range x.V {
		m.F[0].Map = append(m.F[0].Map, ref.Entry{K: ref.Val{U: uint64(k)}, V: ref.Val{B: v}})
	}
	return m
}

func (x *MapSint64Bytes) fill(m *ref.M) {
	for _, e := range m.F[0].Map {
		if x.V == nil {
			x.V = map[int64][]byte{}
		}
		x.V[int64(e.K.U)] = e.V.B
	}
}

func (x *MapSint64Bytes) schema() *ref.Schema { return schemaMapSint64Bytes }

type MapBoolInt32 struct {
	V map[bool]int32 `protobuf:"bytes,1,rep,name=V" protobuf_key:"varint,1,opt,name=key" protobuf_val:"varint,2,opt,name=value"`
}

var schemaMapBoolInt32 = &ref.Schema{Keep: false, Fields: []*ref.Field{
	{Num: 1, Kind: ref.Int32, Card: ref.Map, Key: ref.Bool},
}}

func (x *MapBoolInt32) dump() *ref.M {
	if x == nil {
		return nil
	}
	m := ref.New(schemaMapBoolInt32)
	for k, v := range x.V {
		m.F[0].Map = append(m.F[0].Map, ref.Entry{K: ref.Val{U: sym.B2U(k)}, V: ref.Val{U: uint64(uint32(v))}})
	}
	return m
}

func (x *MapBoolInt32) fill(m *ref.M) {
	for _, e := range m.F[0].Map {
		if x.V == nil {
			x.V = map[bool]int32{}
		}
		x.V[(e.K.U != 0)] = int32(e.V.U)
	}
}

func (x *MapBoolInt32) schema() *ref.Schema { return schemaMapBoolInt32 }

type MapBoolInt64 struct {
	V map[bool]int64 `protobuf:"bytes,1,rep,name=V" protobuf_key:"varint,1,opt,name=key" protobuf_val:"varint,2,opt,name=value"`
}

var schemaMapBoolInt64 = &ref.Schema{Keep: false, Fields: []*ref.Field{
	{Num: 1, Kind: ref.Int64, Card: ref.Map, Key: ref.Bool},
}}

func (x *MapBoolInt64) dump() *ref.M {
	if x == nil {
		return nil
	}
	m := ref.New(schemaMapBoolInt64)
	for k, v := range x.V {
		m.F[0].Map = append(m.F[0].Map, ref.Entry{K: ref.Val{U: sym.B2U(k)}, V: ref.Val{U: uint64(v)}})
	}
	return m
}

func (x *MapBoolInt64) fill(m *ref.M) {
	for _, e := range m.F[0].Map {
		if x.V == nil {
			x.V = map[bool]int64{}
		}
		x.V[(e.K.U != 0)] = int64(e.V.U)
	}
}

func (x *MapBoolInt64) schema() *ref.Schema { return schemaMapBoolInt64 }

type MapBoolUint32 struct {
	V map[bool]uint32 `protobuf:"bytes,1,rep,name=V" protobuf_key:"varint,1,opt,name=key" protobuf_val:"varint,2,opt,name=value"`
}

var schemaMapBoolUint32 = &ref.Schema{Keep: false, Fields: []*ref.Field{
	{Num: 1, Kind: ref.Uint32, Card: ref.Map, Key: ref.Bool},
}}

func (x *MapBoolUint32) dump() *ref.M {
	if x == nil {
		return nil
	}
	m := ref.New(schemaMapBoolUint32)
	for k, v := range x.V {
		m.F[0].Map = append(m.F[0].Map, ref.Entry{K: ref.Val{U: sym.B2U(k)}, V: ref.Val{U: uint64(v)}})
	}
	return m
}

func (x *MapBoolUint32) fill(m *ref.M) {
	for _, e := range m.F[0].Map {
		if x.V == nil {
			x.V = map[bool]uint32{}
		}
		x.V[(e.K.U != 0)] = uint32(e.V.U)
	}
}

func (x *MapBoolUint32) schema() *ref.Schema { return schemaMapBoolUint32 }

type MapBoolUint64 struct {
	V map[bool]uint64 `protobuf:"bytes,1,rep,name=V" protobuf_key:"varint,1,opt,name=key" protobuf_val:"varint,2,opt,name=value"`
}

var schemaMapBoolUint64 = &ref.Schema{Keep: false, Fields: []*ref.Field{
	{Num: 1, Kind: ref.Uint64, Card: ref.Map, Key: ref.Bool},
}}

func (x *MapBoolUint64) dump() *ref.M {
	if x == nil {
		return nil
	}
	m := ref.New(schemaMapBoolUint64)
	for k, v := range x.V {
		m.F[0].Map = append(m.F[0].Map, ref.Entry{K: ref.Val{U: sym.B2U(k)}, V: ref.Val{U: v}})
	}
	return m
}

func (x *MapBoolUint64) fill(m *ref.M) {
	for _, e := range m.F[0].Map {
		if x.V == nil {
			x.V = map[bool]uint64{}
		}
		x.V[(e.K.U != 0)] = uint64(e.V.U)
	}
}

func (x *MapBoolUint64) schema() *ref.Schema { return schemaMapBoolUint64 }

type MapBoolSint32 struct {
	V map[bool]int32 `protobuf:"bytes,1,rep,name=V" protobuf_key:"varint,1,opt,name=key" protobuf_val:"zigzag32,2,opt,name=value"`
}

var schemaMapBoolSint32 = &ref.Schema{Keep: false, Fields: []*ref.Field{
	{Num: 1, Kind: ref.Sint32, Card: ref.Map, Key: ref.Bool},
}}

func (x *MapBoolSint32) dump() *ref.M {
	if x == nil {
		return nil
	}
	m := ref.New(schemaMapBoolSint32)
	for k, v := range x.V {
		m.F[0].Map = append(m.F[0].Map, ref.Entry{K: ref.Val{U: sym.B2U(k)}, V: ref.Val{U: uint64(uint32(v))}})
	}
	return m
}

func (x *MapBoolSint32) fill(m *ref.M) {
	for _, e := range m.F[0].Map {
		if x.V == nil {
			x.V = map[bool]int32{}
		}
		x.V[(e.K.U != 0)] = int32(e.V.U)
	}
}

func (x *MapBoolSint32) schema() *ref.Schema { return schemaMapBoolSint32 }

type MapBoolSint64 struct {
	V map[bool]int64 `protobuf:"bytes,1,rep,name=V" protobuf_key:"varint,1,opt,name=key" protobuf_val:"zigzag64,2,opt,name=value"`
}

var schemaMapBoolSint64 = &ref.Schema{Keep: false, Fields: []*ref.Field{
	{Num: 1, Kind: ref.Sint64, Card: ref.Map, Key: ref.Bool},
}}

func (x *MapBoolSint64) dump() *ref.M {
	if x == nil {
		return nil
	}
	m := ref.New(schemaMapBoolSint64)
	for k, v := range x.V {
		m.F[0].Map = append(m.F[0].Map, ref.Entry{K: ref.Val{U: sym.B2U(k)}, V: ref.Val{U: uint64(v)}})
	}
	return m
}

func (x *MapBoolSint64) fill(m *ref.M) {
	for _, e := range m.F[0].Map {
		if x.V == nil {
			x.V = map[bool]int64{}
		}
		x.V[(e.K.U != 0)] = int64(e.V.U)
	}
}

func (x *MapBoolSint64) schema() *ref.Schema { return schemaMapBoolSint64 }

type MapBoolBool struct {
	V map[bool]bool `protobuf:"bytes,1,rep,name=V" protobuf_key:"varint,1,opt,name=key" protobuf_val:"varint,2,opt,name=value"`
}

var schemaMapBoolBool = &ref.Schema{Keep: false, Fields: []*ref.Field{
	{Num: 1, Kind: ref.Bool, Card: ref.Map, Key: ref.Bool},
}}

func (x *MapBoolBool) dump() *ref.M {
	if x == nil {
		return nil
	}
	m := ref.New(schemaMapBoolBool)
	for k, v := range x.V {
		m.F[0].Map = append(m.F[0].Map, ref.Entry{K: ref.Val{U: sym.B2U(k)}, V: ref.Val{U: sym.B2U(v)}})
	}
	return m
}

func (x *MapBoolBool) fill(m *ref.M) {
	for _, e := range m.F[0].Map {
		if x.V == nil {
			x.V = map[bool]bool{}
		}
		x.V[(e.K.U != 0)] = (e.V.U != 0)
	}
}

func (x *MapBoolBool) schema() *ref.Schema { return schemaMapBoolBool }

type MapBoolFixed32 struct {
	V map[bool]uint32 `protobuf:"bytes,1,rep,name=V" protobuf_key:"varint,1,opt,name=key" protobuf_val:"fixed32,2,opt,name=value"`
}

var schemaMapBoolFixed32 = &ref.Schema{Keep: false, Fields: []*ref.Field{
	{Num: 1, Kind: ref.Fixed32, Card: ref.Map, Key: ref.Bool},
}}

func (x *MapBoolFixed32) dump() *ref.M {
	if x == nil {
		return nil
	}
	m := ref.New(schemaMapBoolFixed32)
	for k, v := range x.V {
		m.F[0].Map = append(m.F[0].Map, ref.Entry{K: ref.Val{U: sym.B2U(k)}, V: ref.Val{U: uint64(v)}})
	}
	return m
}

func (x *MapBoolFixed32) fill(m *ref.M) {
	for _, e := range m.F[0].Map {
		if x.V == nil {
			x.V = map[bool]uint32{}
		}
		x.V[(e.K.U != 0)] = uint32(e.V.U)
	}
}

func (x *MapBoolFixed32) schema() *ref.Schema { return schemaMapBoolFixed32 }

type MapBoolFixed64 struct {
	V map[bool]uint64 `protobuf:"bytes,1,rep,name=V" protobuf_key:"varint,1,opt,name=key" protobuf_val:"fixed64,2,opt,name=value"`
}

var schemaMapBoolFixed64 = &ref.Schema{Keep: false, Fields: []*ref.Field{
	{Num: 1, Kind: ref.Fixed64, Card: ref.Map, Key: ref.Bool},
}}

func (x *MapBoolFixed64) dump() *ref.M {
	if x == nil {
		return nil
	}
	m := ref.New(schemaMapBoolFixed64)
	for k, v := range x.V {
		m.F[0].Map = append(m.F[0].Map, ref.Entry{K: ref.Val{U: sym.B2U(k)}, V: ref.Val{U: v}})
	}
	return m
}

func (x *MapBoolFixed64) fill(m *ref.M) {
	for _, e := range m.F[0].Map {
		if x.V == nil {
			x.V = map[bool]uint64{}
		}
		x.V[(e.K.U != 0)] = uint64(e.V.U)
	}
}

func (x *MapBoolFixed64) schema() *ref.Schema { return schemaMapBoolFixed64 }

type MapBoolSfixed32 struct {
	V map[bool]int32 `protobuf:"bytes,1,rep,name=V" protobuf_key:"varint,1,opt,name=key" protobuf_val:"fixed32,2,opt,name=value"`
}

var schemaMapBoolSfixed32 = &ref.Schema{Keep: false, Fields: []*ref.Field{
	{Num: 1, Kind: ref.Sfixed32, Card: ref.Map, Key: ref.Bool},
}}

func (x *MapBoolSfixed32) dump() *ref.M {
	if x == nil {
		return nil
	}
	m := ref.New(schemaMapBoolSfixed32)
	for k, v := range x.V {
		m.F[0].Map = append(m.F[0].Map, ref.Entry{K: ref.Val{U: sym.B2U(k)}, V: ref.Val{U: uint64(uint32(v))}})
	}
	return m
}

func (x *MapBoolSfixed32) fill(m *ref.M) {
	for _, e := range m.F[0].Map {
		if x.V == nil {
			x.V = map[bool]int32{}
		}
		x.V[(e.K.U != 0)] = int32(e.V.U)
	}
}

func (x *MapBoolSfixed32) schema() *ref.Schema { return schemaMapBoolSfixed32 }

type MapBoolSfixed64 struct {
	V map[bool]int64 `protobuf:"bytes,1,rep,name=V" protobuf_key:"varint,1,opt,name=key" protobuf_val:"fixed64,2,opt,name=value"`
}

var schemaMapBoolSfixed64 = &ref.Schema{Keep: false, Fields: []*ref.Field{
	{Num: 1, Kind: ref.Sfixed64, Card: ref.Map, Key: ref.Bool},
}}

func (x *MapBoolSfixed64) dump() *ref.M {
	if x == nil {
		return nil
	}
	m := ref.New(schemaMapBoolSfixed64)
	for k, v := range x.V {
		m.F[0].Map = append(m.F[0].Map, ref.Entry{K: ref.Val{U: sym.B2U(k)}, V: ref.Val{U: uint64(v)}})
	}
	return m
}

func (x *MapBoolSfixed64) fill(m *ref.M) {
	for _, e := range m.F[0].Map {
		if x.V == nil {
			x.V = map[bool]int64{}
		}
		x.V[(e.K.U != 0)] = int64(e.V.U)
	}
}

func (x *MapBoolSfixed64) schema() *ref.Schema { return schemaMapBoolSfixed64 }

type MapBoolFloat struct {
	V map[bool]float32 `protobuf:"bytes,1,rep,name=V" protobuf_key:"varint,1,opt,name=key" protobuf_val:"fixed32,2,opt,name=value"`
}

var schemaMapBoolFloat = &ref.Schema{Keep: false, Fields: []*ref.Field{
	{Num: 1, Kind: ref.Float, Card: ref.Map, Key: ref.Bool},
}}

func (x *MapBoolFloat) dump() *ref.M {
	if x == nil {
		return nil
	}
	m := ref.New(schemaMapBoolFloat)
	for k, v := range x.V {
		m.F[0].Map = append(m.F[0].Map, ref.Entry{K: ref.Val{U: sym.B2U(k)}, V: ref.Val{U: uint64(math.Float32bits(v))}})
	}
	return m
}

func (x *MapBoolFloat) fill(m *ref.M) {
	for _, e := range m.F[0].Map {
		if x.V == nil {
			x.V = map[bool]float32{}
		}
		x.V[(e.K.U != 0)] = math.Float32frombits(uint32(e.V.U))
	}
}

func (x *MapBoolFloat) schema() *ref.Schema { return schemaMapBoolFloat }

type MapBoolDouble struct {
	V map[bool]float64 `protobuf:"bytes,1,rep,name=V" protobuf_key:"varint,1,opt,name=key" protobuf_val:"fixed64,2,opt,name=value"`
}

var schemaMapBoolDouble = &ref.Schema{Keep: false, Fields: []*ref.Field{
	{Num: 1, Kind: ref.Double, Card: ref.Map, Key: ref.Bool},
}}

func (x *MapBoolDouble) dump() *ref.M {
	if x == nil {
		return nil
	}
	m := ref.New(schemaMapBoolDouble)
	for k, v := range x.V {
		m.F[0].Map = append(m.F[0].Map, ref.Entry{K: ref.Val{U: sym.B2U(k)}, V: ref.Val{U: math.Float64bits(v)}})
	}
	return m
}

func (x *MapBoolDouble) fill(m *ref.M) {
	for _, e := range m.F[0].Map {
		if x.V == nil {
			x.V = map[bool]float64{}
		}
		x.V[(e.K.U != 0)] = math.Float64frombits(e.V.U)
	}
}

func (x *MapBoolDouble) schema() *ref.Schema { return schemaMapBoolDouble }

type MapBoolString struct {
	V map[bool]string `protobuf:"bytes,1,rep,name=V" protobuf_key:"varint,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"`
}

var schemaMapBoolString = &ref.Schema{Keep: false, Fields: []*ref.Field{
	{Num: 1, Kind: ref.String, Card: ref.Map, Key: ref.Bool},
}}

func (x *MapBoolString) dump() *ref.M {
	if x == nil {
		return nil
	}
	m := ref.New(schemaMapBoolString)
	for k, v := range x.V {
		m.F[0].Map = append(m.F[0].Map, ref.Entry{K: ref.Val{U: sym.B2U(k)}, V: ref.Val{B: []byte(v)}})
	}
	return m
}

func (x *MapBoolString) fill(m *ref.M) {
	for _, e := range m.F[0].Map {
		if x.V == nil {
			x.V = map[bool]string{}
		}
		x.V[(e.K.U != 0)] = string(e.V.B)
	}
}

func (x *MapBoolString) schema() *ref.Schema { return schemaMapBoolString }

type MapBoolBytes struct {
	V map[bool][]byte `protobuf:"bytes,1,rep,name=V" protobuf_key:"varint,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"`
}

var schemaMapBoolBytes = &ref.Schema{Keep: false, Fields: []*ref.Field{
	{Num: 1, Kind: ref.Bytes, Card: ref.Map, Key: ref.Bool},
}}

func (x *MapBoolBytes) dump() *ref.M {
	if x == nil {
		return nil
	}
	m := ref.New(schemaMapBoolBytes)
	for k, v := range x.V {
		m.F[0].Map = append(m.F[0].Map, ref.Entry{K: ref.Val{U: sym.B2U(k)}, V: ref.Val{B: v}})
	}
	return m
}

func (x *MapBoolBytes) fill(m *ref.M) {
	for _, e := range m.F[0].Map {
		if x.V == nil {
			x.V = map[bool][]byte{}
		}
		x.V[(e.K.U != 0)] = e.V.B
	}
}

func (x *MapBoolBytes) schema() *ref.Schema { return schemaMapBoolBytes }

type MapFixed32Int32 struct {
	V map[uint32]int32 `protobuf:"bytes,1,rep,name=V" protobuf_key:"fixed32,1,opt,name=key" protobuf_val:"varint,2,opt,name=value"`
}

var schemaMapFixed32Int32 = &ref.Schema{Keep: false, Fields: []*ref.Field{
	{Num: 1, Kind: ref.Int32, Card: ref.Map, Key: ref.Fixed32},
}}

func (x *MapFixed32Int32) dump() *ref.M {
	if x == nil {
		return nil
	}
	m := ref.New(schemaMapFixed32Int32)
	for k, v := range x.V {
		m.F[0].Map = append(m.F[0].Map, ref.Entry{K: ref.Val{U: uint64(k)}, V: ref.Val{U: uint64(uint32(v))}})
	}
	return m
}

func (x *MapFixed32Int32) fill(m *ref.M) {
	for _, e := range m.F[0].Map {
		if x.V == nil {
			x.V = map[uint32]int32{}
		}
		x.V[uint32(e.K.U)] = int32(e.V.U)
	}
}

func (x *MapFixed32Int32) schema() *ref.Schema { return schemaMapFixed32Int32 }

type MapFixed32Int64 struct {
	V map[uint32]int64 `protobuf:"bytes,1,rep,name=V" protobuf_key:"fixed32,1,opt,name=key" protobuf_val:"varint,2,opt,name=value"`
}

var schemaMapFixed32Int64 = &ref.Schema{Keep: false, Fields: []*ref.Field{
	{Num: 1, Kind: ref.Int64, Card: ref.Map, Key: ref.Fixed32},
}}

func (x *MapFixed32Int64) dump() *ref.M {
	if x == nil {
		return nil
	}
	m := ref.New(schemaMapFixed32Int64)
	for k, v := range x.V {
		m.F[0].Map = append(m.F[0].Map, ref.Entry{K: ref.Val{U: uint64(k)}, V: ref.Val{U: uint64(v)}})
	}
	return m
}

func (x *MapFixed32Int64) fill(m *ref.M) {
	for _, e := range m.F[0].Map {
		if x.V == nil {
			x.V = map[uint32]int64{}
		}
		x.V[uint32(e.K.U)] = int64(e.V.U)
	}
}

func (x *MapFixed32Int64) schema() *ref.Schema { return schemaMapFixed32Int64 }

type MapFixed32Uint32 struct {
	V map[uint32]uint32 `protobuf:"bytes,1,rep,name=V" protobuf_key:"fixed32,1,opt,name=key" protobuf_val:"varint,2,opt,name=value"`
}

var schemaMapFixed32Uint32 = &ref.Schema{Keep: false, Fields: []*ref.Field{
	{Num: 1, Kind: ref.Uint32, Card: ref.Map, Key: ref.Fixed32},
}}

func (x *MapFixed32Uint32) dump() *ref.M {
	if x == nil {
		return nil
	}
	m := ref.New(schemaMapFixed32Uint32)
	for k, v := range x.V {
		m.F[0].Map = append(m.F[0].Map, ref.Entry{K: ref.Val{U: uint64(k)}, V: ref.Val{U: uint64(v)}})
	}
	return m
}

func (x *MapFixed32Uint32) fill(m *ref.M) {
	for _, e := range m.F[0].Map {
		if x.V == nil {
			x.V = map[uint32]uint32{}
		}
		x.V[uint32(e.K.U)] = uint32(e.V.U)
	}
}

func (x *MapFixed32Uint32) schema() *ref.Schema { return schemaMapFixed32Uint32 }

type MapFixed32Uint64 struct {
	V map[uint32]uint64 `protobuf:"bytes,1,rep,name=V" protobuf_key:"fixed32,1,opt,name=key" protobuf_val:"varint,2,opt,name=value"`
}

var schemaMapFixed32Uint64 = &ref.Schema{Keep: false, Fields: []*ref.Field{
	{Num: 1, Kind: ref.Uint64, Card: ref.Map, Key: ref.Fixed32},
}}

func (x *MapFixed32Uint64) dump() *ref.M {
	if x == nil {
		return nil
	}
	m := ref.New(schemaMapFixed32Uint64)
	for k, v := range x.V {
		m.F[0].Map = append(m.F[0].Map, ref.Entry{K: ref.Val{U: uint64(k)}, V: ref.Val{U: v}})
	}
	return m
}

func (x *MapFixed32Uint64) fill(m *ref.M) {
	for _, e := range m.F[0].Map {
		if x.V == nil {
			x.V = map[uint32]uint64{}
		}
		x.V[uint32(e.K.U)] = uint64(e.V.U)
	}
}

func (x *MapFixed32Uint64) schema() *ref.Schema { return schemaMapFixed32Uint64 }

type MapFixed32Sint32 struct {
	V map[uint32]int32 `protobuf:"bytes,1,rep,name=V" protobuf_key:"fixed32,1,opt,name=key" protobuf_val:"zigzag32,2,opt,name=value"`
}

var schemaMapFixed32Sint32 = &ref.Schema{Keep: false, Fields: []*ref.Field{
	{Num: 1, Kind: ref.Sint32, Card: ref.Map, Key: ref.Fixed32},
}}

func (x *MapFixed32Sint32) dump() *ref.M {
	if x == nil {
		return nil
	}
	m := ref.New(schemaMapFixed32Sint32)
	for k, v := range x.V {
		m.F[0].Map = append(m.F[0].Map, ref.Entry{K: ref.Val{U: uint64(k)}, V: ref.Val{U: uint64(uint32(v))}})
	}
	return m
}

func (x *MapFixed32Sint32) fill(m *ref.M) {
	for _, e := range m.F[0].Map {
		if x.V == nil {
			x.V = map[uint32]int32{}
		}
		x.V[uint32(e.K.U)] = int32(e.V.U)
	}
}

func (x *MapFixed32Sint32) schema() *ref.Schema { return schemaMapFixed32Sint32 }

type MapFixed32Sint64 struct {
	V map[uint32]int64 `protobuf:"bytes,1,rep,name=V" protobuf_key:"fixed32,1,opt,name=key" protobuf_val:"zigzag64,2,opt,name=value"`
}

var schemaMapFixed32Sint64 = &ref.Schema{Keep: false, Fields: []*ref.Field{
	{Num: 1, Kind: ref.Sint64, Card: ref.Map, Key: ref.Fixed32},
}}

func (x *MapFixed32Sint64) dump() *ref.M {
	if x == nil {
		return nil
	}
	m := ref.New(schemaMapFixed32Sint64)
	for k, v := range x.V {
		m.F[0].Map = append(m.F[0].Map, ref.Entry{K: ref.Val{U: uint64(k)}, V: ref.Val{U: uint64(v)}})
	}
	return m
}

func (x *MapFixed32Sint64) fill(m *ref.M) {
	for _, e := range m.F[0].Map {
		if x.V == nil {
			x.V = map[uint32]int64{}
		}
		x.V[uint32(e.K.U)] = int64(e.V.U)
	}
}

func (x *MapFixed32Sint64) schema() *ref.Schema { return schemaMapFixed32Sint64 }

type MapFixed32Bool struct {
	V map[uint32]bool `protobuf:"bytes,1,rep,name=V" protobuf_key:"fixed32,1,opt,name=key" protobuf_val:"varint,2,opt,name=value"`
}

var schemaMapFixed32Bool = &ref.Schema{Keep: false, Fields: []*ref.Field{
	{Num: 1, Kind: ref.Bool, Card: ref.Map, Key: ref.Fixed32},
}}

func (x *MapFixed32Bool) dump() *ref.M {
	if x == nil {
		return nil
	}
	m := ref.New(schemaMapFixed32Bool)
	for k, v := range x.V {
		m.F[0].Map = append(m.F[0].Map, ref.Entry{K: ref.Val{U: uint64(k)}, V: ref.Val{U: sym.B2U(v)}})
	}
	return m
}

func (x *MapFixed32Bool) fill(m *ref.M) {
	for _, e := range m.F[0].Map {
		if x.V == nil {
			x.V = map[uint32]bool{}
		}
		x.V[uint32(e.K.U)] = (e.V.U != 0)
	}
}

func (x *MapFixed32Bool) schema() *ref.Schema { return schemaMapFixed32Bool }

type MapFixed32Fixed32 struct {
	V map[uint32]uint32 `protobuf:"bytes,1,rep,name=V" protobuf_key:"fixed32,1,opt,name=key" protobuf_val:"fixed32,2,opt,name=value"`
}

var schemaMapFixed32Fixed32 = &ref.Schema{Keep: false, Fields: []*ref.Field{
	{Num: 1, Kind: ref.Fixed32, Card: ref.Map, Key: ref.Fixed32},
}}

func (x *MapFixed32Fixed32) dump() *ref.M {
	if x == nil {
		return nil
	}
	m := ref.New(schemaMapFixed32Fixed32)
	for k, v := range x.V {
		m.F[0].Map = append(m.F[0].Map, ref.Entry{K: ref.Val{U: uint64(k)}, V: ref.Val{U: uint64(v)}})
	}
	return m
}

func (x *MapFixed32Fixed32) fill(m *ref.M) {
	for _, e := range m.F[0].Map {
		if x.V == nil {
			x.V = map[uint32]uint32{}
		}
		x.V[uint32(e.K.U)] = uint32(e.V.U)
	}
}

func (x *MapFixed32Fixed32) schema() *ref.Schema { return schemaMapFixed32Fixed32 }

type MapFixed32Fixed64 struct {
	V map[uint32]uint64 `protobuf:"bytes,1,rep,name=V" protobuf_key:"fixed32,1,opt,name=key" protobuf_val:"fixed64,2,opt,name=value"`
}

var schemaMapFixed32Fixed64 = &ref.Schema{Keep: false, Fields: []*ref.Field{
	{Num: 1, Kind: ref.Fixed64, Card: ref.Map, Key: ref.Fixed32},
}}

func (x *MapFixed32Fixed64) dump() *ref.M {
	if x == nil {
		return nil
	}
	m := ref.New(schemaMapFixed32Fixed64)
	for k, v := range x.V {
		m.F[0].Map = append(m.F[0].Map, ref.Entry{K: ref.Val{U: uint64(k)}, V: ref.Val{U: v}})
	}
	return m
}

func (x *MapFixed32Fixed64) fill(m *ref.M) {
	for _, e := range m.F[0].Map {
		if x.V == nil {
			x.V = map[uint32]uint64{}
		}
		x.V[uint32(e.K.U)] = uint64(e.V.U)
	}
}

func (x *MapFixed32Fixed64) schema() *ref.Schema { return schemaMapFixed32Fixed64 }

type MapFixed32Sfixed32 struct {
	V map[uint32]int32 `protobuf:"bytes,1,rep,name=V" protobuf_key:"fixed32,1,opt,name=key" protobuf_val:"fixed32,2,opt,name=value"`
}

var schemaMapFixed32Sfixed32 = &ref.Schema{Keep: false, Fields: []*ref.Field{
	{Num: 1, Kind: ref.Sfixed32, Card: ref.Map, Key: ref.Fixed32},
}}

func (x *MapFixed32Sfixed32) dump() *ref.M {
	if x == nil {
		return nil
	}
	m := ref.New(schemaMapFixed32Sfixed32)
	for k, v := range x.V {
		m.F[0].Map = append(m.F[0].Map, ref.Entry{K: ref.Val{U: uint64(k)}, V: ref.Val{U: uint64(uint32(v))}})
	}
	return m
}

func (x *MapFixed32Sfixed32) fill(m *ref.M) {
	for _, e := range m.F[0].Map {
		if x.V == nil {
			x.V = map[uint32]int32{}
		}
		x.V[uint32(e.K.U)] = int32(e.V.U)
	}
}

func (x *MapFixed32Sfixed32) schema() *ref.Schema { return schemaMapFixed32Sfixed32 }

type MapFixed32Sfixed64 struct {
	V map[uint32]int64 `protobuf:"bytes,1,rep,name=V" protobuf_key:"fixed32,1,opt,name=key" protobuf_val:"fixed64,2,opt,name=value"`
}

var schemaMapFixed32Sfixed64 = &ref.Schema{Keep: false, Fields: []*ref.Field{
	{Num: 1, Kind: ref.Sfixed64, Card: ref.Map, Key: ref.Fixed32},
}}

func (x *MapFixed32Sfixed64) dump() *ref.M {
	if x == nil {
		return nil
	}
	m := ref.New(schemaMapFixed32Sfixed64)
	for k, v := range x.V {
		m.F[0].Map = append(m.F[0].Map, ref.Entry{K: ref.Val{U: uint64(k)}, V: ref.Val{U: uint64(v)}})
	}
	return m
}

func (x *MapFixed32Sfixed64) fill(m *ref.M) {
	for _, e := range m.F[0].Map {
		if x.V == nil {
			x.V = map[uint32]int64{}
		}
		x.V[uint32(e.K.U)] = int64(e.V.U)
	}
}

func (x *MapFixed32Sfixed64) schema() *ref.Schema { return schemaMapFixed32Sfixed64 }

type MapFixed32Float struct {
	V map[uint32]float32 `protobuf:"bytes,1,rep,name=V" protobuf_key:"fixed32,1,opt,name=key" protobuf_val:"fixed32,2,opt,name=value"`
}

var schemaMapFixed32Float = &ref.Schema{Keep: false, Fields: []*ref.Field{
	{Num: 1, Kind: ref.Float, Card: ref.Map, Key: ref.Fixed32},
}}

func (x *MapFixed32Float) dump() *ref.M {
	if x == nil {
		return nil
	}
	m := ref.New(schemaMapFixed32Float)
	for k, v := range x.V {
		m.F[0].Map = append(m.F[0].Map, ref.Entry{K: ref.Val{U: uint64(k)}, V: ref.Val{U: uint64(math.Float32bits(v))}})
	}
	return m
}

func (x *MapFixed32Float) fill(m *ref.M) {
	for _, e := range m.F[0].Map {
		if x.V == nil {
			x.V = map[uint32]float32{}
		}
		x.V[uint32(e.K.U)] = math.Float32frombits(uint32(e.V.U))
	}
}

func (x *MapFixed32Float) schema() *ref.Schema { return schemaMapFixed32Float }

type MapFixed32Double struct {
	V map[uint32]float64 `protobuf:"bytes,1,rep,name=V" protobuf_key:"fixed32,1,opt,name=key" protobuf_val:"fixed64,2,opt,name=value"`
}

var schemaMapFixed32Double = &ref.Schema{Keep: false, Fields: []*ref.Field{
	{Num: 1, Kind: ref.Double, Card: ref.Map, Key: ref.Fixed32},
}}

func (x *MapFixed32Double) dump() *ref.M {
	if x == nil {
		return nil
	}
	m := ref.New(schemaMapFixed32Double)
	for k, v := range x.V {
		m.F[0].Map = append(m.F[0].Map, ref.Entry{K: ref.Val{U: uint64(k)}, V: ref.Val{U: math.Float64bits(v)}})
	}
	return m
}

func (x *MapFixed32Double) fill(m *ref.M) {
	for _, e := range m.F[0].Map {
		if x.V == nil {
			x.V = map[uint32]float64{}
		}
		x.V[uint32(e.K.U)] = math.Float64frombits(e.V.U)
	}
}

func (x *MapFixed32Double) schema() *ref.Schema { return schemaMapFixed32Double }

type MapFixed32String struct {
	V map[uint32]string `protobuf:"bytes,1,rep,name=V" protobuf_key:"fixed32,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"`
}

var schemaMapFixed32String = &ref.Schema{Keep: false, Fields: []*ref.Field{
	{Num: 1, Kind: ref.String, Card: ref.Map, Key: ref.Fixed32},
}}

func (x *MapFixed32String) dump() *ref.M {
	if x == nil {
		return nil
	}
	m := ref.New(schemaMapFixed32String)
	for k, v := range x.V {
		m.F[0].Map = append(m.F[0].Map, ref.Entry{K: ref.Val{U: uint64(k)}, V: ref.Val{B: []byte(v)}})
	}
	return m
}

func (x *MapFixed32String) fill(m *ref.M) {
	for _, e := range m.F[0].Map {
		if x.V == nil {
			x.V = map[uint32]string{}
		}
		x.V[uint32(e.K.U)] = string(e.V.B)
	}
}

func (x *MapFixed32String) schema() *ref.Schema { return schemaMapFixed32String }

type MapFixed32Bytes struct {
	V map[uint32][]byte `protobuf:"bytes,1,rep,name=V" protobuf_key:"fixed32,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"`
}

var schemaMapFixed32Bytes = &ref.Schema{Keep: false, Fields: []*ref.Field{
	{Num: 1, Kind: ref.Bytes, Card: ref.Map, Key: ref.Fixed32},
}}

func (x *MapFixed32Bytes) dump() *ref.M {
	if x == nil {
		return nil
	}
	m := ref.New(schemaMapFixed32Bytes)
	for k, v := range x.V {
		m.F[0].Map = append(m.F[0].Map, ref.Entry{K: ref.Val{U: uint64(k)}, V: ref.Val{B: v}})
	}
	return m
}

func (x *MapFixed32Bytes) fill(m *ref.M) {
	for _, e := range m.F[0].Map {
		if x.V == nil {
			x.V = map[uint32][]byte{}
		}
		x.V[uint32(e.K.U)] = e.V.B
	}
}

func (x *MapFixed32Bytes) schema() *ref.Schema { return schemaMapFixed32Bytes }

type MapFixed64Int32 struct {
	V map[uint64]int32 `protobuf:"bytes,1,rep,name=V" protobuf_key:"fixed64,1,opt,name=key" protobuf_val:"varint,2,opt,name=value"`
}

var schemaMapFixed64Int32 = &ref.Schema{Keep: false, Fields: []*ref.Field{
	{Num: 1, Kind: ref.Int32, Card: ref.Map, Key: ref.Fixed64},
}}

func (x *MapFixed64Int32) dump() *ref.M {
	if x == nil {
		return nil
	}
	m := ref.New(schemaMapFixed64Int32)
	for k, v := range x.V {
		m.F[0].Map = append(m.F[0].Map, ref.Entry{K: ref.Val{U: k}, V: ref.Val{U: uint64(uint32(v))}})
	}
	return m
}

func (x *MapFixed64Int32) fill(m *ref.M) {
	for _, e := range m.F[0].Map {
		if x.V == nil {
			x.V = map[uint64]int32{}
		}
		x.V[uint64(e.K.U)] = int32(e.V.U)
	}
}

func (x *MapFixed64Int32) schema() *ref.Schema { return schemaMapFixed64Int32 }

type MapFixed64Int64 struct {
	V map[uint64]int64 `protobuf:"bytes,1,rep,name=V" protobuf_key:"fixed64,1,opt,name=key" protobuf_val:"varint,2,opt,name=value"`
}

var schemaMapFixed64Int64 = &ref.Schema{Keep: false, Fields: []*ref.Field{
	{Num: 1, Kind: ref.Int64, Card: ref.Map, Key: ref.Fixed64},
}}

func (x *MapFixed64Int64) dump() *ref.M {
	if x == nil {
		return nil
	}
	m := ref.New(schemaMapFixed64Int64)
	for k, v := range x.V {
		m.F[0].Map = append(m.F[0].Map, ref.Entry{K: ref.Val{U: k}, V: ref.Val{U: uint64(v)}})
	}
	return m
}

func (x *MapFixed64Int64) fill(m *ref.M) {
	for _, e := range m.F[0].Map {
		if x.V == nil {
			x.V = map[uint64]int64{}
		}
		x.V[uint64(e.K.U)] = int64(e.V.U)
	}
}

func (x *MapFixed64Int64) schema() *ref.Schema { return schemaMapFixed64Int64 }

type MapFixed64Uint32 struct {
	V map[uint64]uint32 `protobuf:"bytes,1,rep,name=V" protobuf_key:"fixed64,1,opt,name=key" protobuf_val:"varint,2,opt,name=value"`
}

var schemaMapFixed64Uint32 = &ref.Schema{Keep: false, Fields: []*ref.Field{
	{Num: 1, Kind: ref.Uint32, Card: ref.Map, Key: ref.Fixed64},
}}

func (x *MapFixed64Uint32) dump() *ref.M {
	if x == nil {
		return nil
	}
	m := ref.New(schemaMapFixed64Uint32)
	for k, v := range x.V {
		m.F[0].Map = append(m.F[0].Map, ref.Entry{K: ref.Val{U: k}, V: ref.Val{U: uint64(v)}})
	}
	return m
}

func (x *MapFixed64Uint32) fill(m *ref.M) {
	for _, e := range m.F[0].Map {
		if x.V == nil {
			x.V = map[uint64]uint32{}
		}
		x.V[uint64(e.K.U)] = uint32(e.V.U)
	}
}

func (x *MapFixed64Uint32) schema() *ref.Schema { return schemaMapFixed64Uint32 }

type MapFixed64Uint64 struct {
	V map[uint64]uint64 `protobuf:"bytes,1,rep,name=V" protobuf_key:"fixed64,1,opt,name=key" protobuf_val:"varint,2,opt,name=value"`
}

var schemaMapFixed64Uint64 = &ref.Schema{Keep: false, Fields: []*ref.Field{
	{Num: 1, Kind: ref.Uint64, Card: ref.Map, Key: ref.Fixed64},
}}

func (x *MapFixed64Uint64) dump() *ref.M {
	if x == nil {
		return nil
	}
	m := ref.New(schemaMapFixed64Uint64)
	for k, v := range x.V {
		m.F[0].Map = append(m.F[0].Map, ref.Entry{K: ref.Val{U: k}, V: ref.Val{U: v}})
	}
	return m
}

func (x *MapFixed64Uint64) fill(m *ref.M) {
	for _, e := range m.F[0].Map {
		if x.V == nil {
			x.V = map[uint64]uint64{}
		}
		x.V[uint64(e.K.U)] = uint64(e.V.U)
	}
}

func (x *MapFixed64Uint64) schema() *ref.Schema { return schemaMapFixed64Uint64 }

type MapFixed64Sint32 struct {
	V map[uint64]int32 `protobuf:"bytes,1,rep,name=V" protobuf_key:"fixed64,1,opt,name=key" protobuf_val:"zigzag32,2,opt,name=value"`
}

var schemaMapFixed64Sint32 = &ref.Schema{Keep: false, Fields: []*ref.Field{
	{Num: 1, Kind: ref.Sint32, Card: ref.Map, Key: ref.Fixed64},
}}

func (x *MapFixed64Sint32) dump() *ref.M {
	if x == nil {
		return nil
	}
	m := ref.New(schemaMapFixed64Sint32)
	for k, v := range x.V {
		m.F[0].Map = append(m.F[0].Map, ref.Entry{K: ref.Val{U: k}, V: ref.Val{U: uint64(uint32(v))}})
	}
	return m
}

func (x *MapFixed64Sint32) fill(m *ref.M) {
	for _, e := range m.F[0].Map {
		if x.V == nil {
			x.V = map[uint64]int32{}
		}
		x.V[uint64(e.K.U)] = int32(e.V.U)
	}
}

func (x *MapFixed64Sint32) schema() *ref.Schema { return schemaMapFixed64Sint32 }

type MapFixed64Sint64 struct {
	V map[uint64]int64 `protobuf:"bytes,1,rep,name=V" protobuf_key:"fixed64,1,opt,name=key" protobuf_val:"zigzag64,2,opt,name=value"`
}

var schemaMapFixed64Sint64 = &ref.Schema{Keep: false, Fields: []*ref.Field{
	{Num: 1, Kind: ref.Sint64, Card: ref.Map, Key: ref.Fixed64},
}}

func (x *MapFixed64Sint64) dump() *ref.M {
	if x == nil {
		return nil
	}
	m := ref.New(schemaMapFixed64Sint64)
	for k, v := range x.V {
		m.F[0].Map = append(m.F[0].Map, ref.Entry{K: ref.Val{U: k}, V: ref.Val{U: uint64(v)}})
	}
	return m
}

func (x *MapFixed64Sint64) fill(m *ref.M) {
	for _, e := range m.F[0].Map {
		if x.V == nil {
			x.V = map[uint64]int64{}
		}
		x.V[uint64(e.K.U)] = int64(e.V.U)
	}
}

func (x *MapFixed64Sint64) schema() *ref.Schema { return schemaMapFixed64Sint64 }

type MapFixed64Bool struct {
	V map[uint64]bool `protobuf:"bytes,1,rep,name=V" protobuf_key:"fixed64,1,opt,name=key" protobuf_val:"varint,2,opt,name=value"`
}

var schemaMapFixed64Bool = &ref.Schema{Keep: false, Fields: []*ref.Field{
	{Num: 1, Kind: ref.Bool, Card: ref.Map, Key: ref.Fixed64},
}}

func (x *MapFixed64Bool) dump() *ref.M {
	if x == nil {
		return nil
	}
	m := ref.New(schemaMapFixed64Bool)
	for k, v := range x.V {
		m.F[0].Map = append(m.F[0].Map, ref.Entry{K: ref.Val{U: k}, V: ref.Val{U: sym.B2U(v)}})
	}
	return m
}

func (x *MapFixed64Bool) fill(m *ref.M) {
	for _, e := range m.F[0].Map {
		if x.V == nil {
			x.V = map[uint64]bool{}
		}
		x.V[uint64(e.K.U)] = (e.V.U != 0)
	}
}

func (x *MapFixed64Bool) schema() *ref.Schema { return schemaMapFixed64Bool }

type MapFixed64Fixed32 struct {
	V map[uint64]uint32 `protobuf:"bytes,1,rep,name=V" protobuf_key:"fixed64,1,opt,name=key" protobuf_val:"fixed32,2,opt,name=value"`
}

var schemaMapFixed64Fixed32 = &ref.Schema{Keep: false, Fields: []*ref.Field{
	{Num: 1, Kind: ref.Fixed32, Card: ref.Map, Key: ref.Fixed64},
}}

func (x *MapFixed64Fixed32) dump() *ref.M {
	if x == nil {
		return nil
	}
	m := ref.New(schemaMapFixed64Fixed32)
	for k, v := range x.V {
		m.F[0].Map = append(m.F[0].Map, ref.Entry{K: ref.Val{U: k}, V: ref.Val{U: uint64(v)}})
	}
	return m
}

func (x *MapFixed64Fixed32) fill(m *ref.M) {
	for _, e := range m.F[0].Map {
		if x.V == nil {
			x.V = map[uint64]uint32{}
		}
		x.V[uint64(e.K.U)] = uint32(e.V.U)
	}
}

func (x *MapFixed64Fixed32) schema() *ref.Schema { return schemaMapFixed64Fixed32 }

type MapFixed64Fixed64 struct {
	V map[uint64]uint64 `protobuf:"bytes,1,rep,name=V" protobuf_key:"fixed64,1,opt,name=key" protobuf_val:"fixed64,2,opt,name=value"`
}

var schemaMapFixed64Fixed64 = &ref.Schema{Keep: false, Fields: []*ref.Field{
	{Num: 1, Kind: ref.Fixed64, Card: ref.Map, Key: ref.Fixed64},
}}

func (x *MapFixed64Fixed64) dump() *ref.M {
	if x == nil {
		return nil
	}
	m := ref.New(schemaMapFixed64Fixed64)
	for k, v := range x.V {
		m.F[0].Map = append(m.F[0].Map, ref.Entry{K: ref.Val{U: k}, V: ref.Val{U: v}})
	}
	return m
}

func (x *MapFixed64Fixed64) fill(m *ref.M) {
	for _, e := range m.F[0].Map {
		if x.V == nil {
			x.V = map[uint64]uint64{}
		}
		x.V[uint64(e.K.U)] = uint64(e.V.U)
	}
}

func (x *MapFixed64Fixed64) schema() *ref.Schema { return schemaMapFixed64Fixed64 }

type MapFixed64Sfixed32 struct {
	V map[uint64]int32 `protobuf:"bytes,1,rep,name=V" protobuf_key:"fixed64,1,opt,name=key" protobuf_val:"fixed32,2,opt,name=value"`
}

var schemaMapFixed64Sfixed32 = &ref.Schema{Keep: false, Fields: []*ref.Field{
	{Num: 1, Kind: ref.Sfixed32, Card: ref.Map, Key: ref.Fixed64},
}}

func (x *MapFixed64Sfixed32) dump() *ref.M {
	if x == nil {
		return nil
	}
	m := ref.New(schemaMapFixed64Sfixed32)
	for k, v := range x.V {
		m.F[0].Map = append(m.F[0].Map, ref.Entry{K: ref.Val{U: k}, V: ref.Val{U: uint64(uint32(v))}})
	}
	return m
}

func (x *MapFixed64Sfixed32) fill(m *ref.M) {
	for _, e := range m.F[0].Map {
		if x.V == nil {
			x.V = map[uint64]int32{}
		}
		x.V[uint64(e.K.U)] = int32(e.V.U)
	}
}

func (x *MapFixed64Sfixed32) schema() *ref.Schema { return schemaMapFixed64Sfixed32 }

type MapFixed64Sfixed64 struct {
	V map[uint64]int64 `protobuf:"bytes,1,rep,name=V" protobuf_key:"fixed64,1,opt,name=key" protobuf_val:"fixed64,2,opt,name=value"`
}

var schemaMapFixed64Sfixed64 = &ref.Schema{Keep: false, Fields: []*ref.Field{
	{Num: 1, Kind: ref.Sfixed64, Card: ref.Map, Key: ref.Fixed64},
}}

func (x *MapFixed64Sfixed64) dump() *ref.M {
	if x == nil {
		return nil
	}
	m := ref.New(schemaMapFixed64Sfixed64)
	for k, v := range x.V {
		m.F[0].Map = append(m.F[0].Map, ref.Entry{K: ref.Val{U: k}, V: ref.Val{U: uint64(v)}})
	}
	return m
}

func (x *MapFixed64Sfixed64) fill(m *ref.M) {
	for _, e := range m.F[0].Map {
		if x.V == nil {
			x.V = map[uint64]int64{}
		}
		x.V[uint64(e.K.U)] = int64(e.V.U)
	}
}

func (x *MapFixed64Sfixed64) schema() *ref.Schema { return schemaMapFixed64Sfixed64 }

type MapFixed64Float struct {
	V map[uint64]float32 `protobuf:"bytes,1,rep,name=V" protobuf_key:"fixed64,1,opt,name=key" protobuf_val:"fixed32,2,opt,name=value"`
}

var schemaMapFixed64Float = &ref.Schema{Keep: false, Fields: []*ref.Field{
	{Num: 1, Kind: ref.Float, Card: ref.Map, Key: ref.Fixed64},
}}

func (x *MapFixed64Float) dump() *ref.M {
	if x == nil {
		return nil
	}
	m := ref.New(schemaMapFixed64Float)
	for k, v := range x.V {
		m.F[0].Map = append(m.F[0].Map, ref.Entry{K: ref.Val{U: k}, V: ref.Val{U: uint64(math.Float32bits(v))}})
	}
	return m
}

func (x *MapFixed64Float) fill(m *ref.M) {
	for _, e := range m.F[0].Map {
		if x.V == nil {
			x.V = map[uint64]float32{}
		}
		x.V[uint64(e.K.U)] = math.Float32frombits(uint32(e.V.U))
	}
}

func (x *MapFixed64Float) schema() *ref.Schema { return schemaMapFixed64Float }

type MapFixed64Double struct {
	V map[uint64]float64 `protobuf:"bytes,1,rep,name=V" protobuf_key:"fixed64,1,opt,name=key" protobuf_val:"fixed64,2,opt,name=value"`
}

var schemaMapFixed64Double = &ref.Schema{Keep: false, Fields: []*ref.Field{
	{Num: 1, Kind: ref.Double, Card: ref.Map, Key: ref.Fixed64},
}}

func (x *MapFixed64Double) dump() *ref.M {
	if x == nil {
		return nil
	}
	m := ref.New(schemaMapFixed64Double)
	for k, v := range x.V {
		m.F[0].Map = append(m.F[0].Map, ref.Entry{K: ref.Val{U: k}, V: ref.Val{U: math.Float64bits(v)}})
	}
	return m
}

func (x *MapFixed64Double) fill(m *ref.M) {
	for _, e := range m.F[0].Map {
		if x.V == nil {
			x.V = map[uint64]float64{}
		}
		x.V[uint64(e.K.U)] = math.Float64frombits(e.V.U)
	}
}

func (x *MapFixed64Double) schema() *ref.Schema { return schemaMapFixed64Double }

type MapFixed64String struct {
	V map[uint64]string `protobuf:"bytes,1,rep,name=V" protobuf_key:"fixed64,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"`
}

var schemaMapFixed64String = &ref.Schema{Keep: false, Fields: []*ref.Field{
	{Num: 1, Kind: ref.String, Card: ref.Map, Key: ref.Fixed64},
}}

func (x *MapFixed64String) dump() *ref.M {
	if x == nil {
		return nil
	}
	m := ref.New(schemaMapFixed64String)
	for k, v := range x.V {
		m.F[0].Map = append(m.F[0].Map, ref.Entry{K: ref.Val{U: k}, V: ref.Val{B: []byte(v)}})
	}
	return m
}

func (x *MapFixed64String) fill(m *ref.M) {
	for _, e := range m.F[0].Map {
		if x.V == nil {
			x.V = map[uint64]string{}
		}
		x.V[uint64(e.K.U)] = string(e.V.B)
	}
}

func (x *MapFixed64String) schema() *ref.Schema { return schemaMapFixed64String }

type MapFixed64Bytes struct {
	V map[uint64][]byte `protobuf:"bytes,1,rep,name=V" protobuf_key:"fixed64,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"`
}

var schemaMapFixed64Bytes = &ref.Schema{Keep: false, Fields: []*ref.Field{
	{Num: 1, Kind: ref.Bytes, Card: ref.Map, Key: ref.Fixed64},
}}

func (x *MapFixed64Bytes) dump() *ref.M {
	if x == nil {
		return nil
	}
	m := ref.New(schemaMapFixed64Bytes)
	for k, v := range x.V {
		m.F[0].Map = append(m.F[0].Map, ref.Entry{K: ref.Val{U: k}, V: ref.Val{B: v}})
	}
	return m
}

func (x *MapFixed64Bytes) fill(m *ref.M) {
	for _, e := range m.F[0].Map {
		if x.V == nil {
			x.V = map[uint64][]byte{}
		}
		x.V[uint64(e.K.U)] = e.V.B
	}
}

func (x *MapFixed64Bytes) schema() *ref.Schema { return schemaMapFixed64Bytes }

type MapSfixed32Int32 struct {
	V map[int32]int32 `protobuf:"bytes,1,rep,name=V" protobuf_key:"fixed32,1,opt,name=key" protobuf_val:"varint,2,opt,name=value"`
}

var schemaMapSfixed32Int32 = &ref.Schema{Keep: false, Fields: []*ref.Field{
	{Num: 1, Kind: ref.Int32, Card: ref.Map, Key: ref.Sfixed32},
}}

func (x *MapSfixed32Int32) dump() *ref.M {
	if x == nil {
		return nil
	}
	m := ref.New(schemaMapSfixed32Int32)
	for k, v := range x.V {
		m.F[0].Map = append(m.F[0].Map, ref.Entry{K: ref.Val{U: uint64(uint32(k))}, V: ref.Val{U: uint64(uint32(v))}})
	}
	return m
}

func (x *MapSfixed32Int32) fill(m *ref.M) {
	for _, e := range m.F[0].Map {
		if x.V == nil {
			x.V = map[int32]int32{}
		}
		x.V[int32(e.K.U)] = int32(e.V.U)
	}
}

func (x *MapSfixed32Int32) schema() *ref.Schema { return schemaMapSfixed32Int32 }

type MapSfixed32Int64 struct {
	V map[int32]int64 `protobuf:"bytes,1,rep,name=V" protobuf_key:"fixed32,1,opt,name=key" protobuf_val:"varint,2,opt,name=value"`
}

var schemaMapSfixed32Int64 = &ref.Schema{Keep: false, Fields: []*ref.Field{
	{Num: 1, Kind: ref.Int64, Card: ref.Map, Key: ref.Sfixed32},
}}

func (x *MapSfixed32Int64) dump() *ref.M {
	if x == nil {
		return nil
	}
	m := ref.New(schemaMapSfixed32Int64)
	for k, v := range x.V {
		m.F[0].Map = append(m.F[0].Map, ref.Entry{K: ref.Val{U: uint64(uint32(k))}, V: ref.Val{U: uint64(v)}})
	}
	return m
}

func (x *MapSfixed32Int64) fill(m *ref.M) {
	for _, e := range m.F[0].Map {
		if x.V == nil {
			x.V = map[int32]int64{}
		}
		x.V[int32(e.K.U)] = int64(e.V.U)
	}
}

func (x *MapSfixed32Int64) schema() *ref.Schema { return schemaMapSfixed32Int64 }

type MapSfixed32Uint32 struct {
	V map[int32]uint32 `protobuf:"bytes,1,rep,name=V" protobuf_key:"fixed32,1,opt,name=key" protobuf_val:"varint,2,opt,name=value"`
}

var schemaMapSfixed32Uint32 = &ref.Schema{Keep: false, Fields: []*ref.Field{
	{Num: 1, Kind: ref.Uint32, Card: ref.Map, Key: ref.Sfixed32},
}}

func (x *MapSfixed32Uint32) dump() *ref.M {
	if x == nil {
		return nil
	}
	m := ref.New(schemaMapSfixed32Uint32)
	for k, v := range x.V {
		m.F[0].Map = append(m.F[0].Map, ref.Entry{K: ref.Val{U: uint64(uint32(k))}, V: ref.Val{U: uint64(v)}})
	}
	return m
}

func (x *MapSfixed32Uint32) fill(m *ref.M) {
	for _, e := range m.F[0].Map {
		if x.V == nil {
			x.V = map[int32]uint32{}
		}
		x.V[int32(e.K.U)] = uint32(e.V.U)
	}
}

func (x *MapSfixed32Uint32) schema() *ref.Schema { return schemaMapSfixed32Uint32 }

type MapSfixed32Uint64 struct {
	V map[int32]uint64 `protobuf:"bytes,1,rep,name=V" protobuf_key:"fixed32,1,opt,name=key" protobuf_val:"varint,2,opt,name=value"`
}

var schemaMapSfixed32Uint64 = &ref.Schema{Keep: false, Fields: []*ref.Field{
	{Num: 1, Kind: ref.Uint64, Card: ref.Map, Key: ref.Sfixed32},
}}

func (x *MapSfixed32Uint64) dump() *ref.M {
	if x == nil {
		return nil
	}
	m := ref.New(schemaMapSfixed32Uint64)
	for k, v := range x.V {
		m.F[0].Map = append(m.F[0].Map, ref.Entry{K: ref.Val{U: uint64(uint32(k))}, V: ref.Val{U: v}})
	}
	return m
}

func (x *MapSfixed32Uint64) fill(m *ref.M) {
	for _, e := range m.F[0].Map {
		if x.V == nil {
			x.V = map[int32]uint64{}
		}
		x.V[int32(e.K.U)] = uint64(e.V.U)
	}
}

func (x *MapSfixed32Uint64) schema() *ref.Schema { return schemaMapSfixed32Uint64 }

type MapSfixed32Sint32 struct {
	V map[int32]int32 `protobuf:"bytes,1,rep,name=V" protobuf_key:"fixed32,1,opt,name=key" protobuf_val:"zigzag32,2,opt,name=value"`
}

var schemaMapSfixed32Sint32 = &ref.Schema{Keep: false, Fields: []*ref.Field{
	{Num: 1, Kind: ref.Sint32, Card: ref.Map, Key: ref.Sfixed32},
}}

func (x *MapSfixed32Sint32) dump() *ref.M {
	if x == nil {
		return nil
	}
	m := ref.New(schemaMapSfixed32Sint32)
	for k, v := range x.V {
		m.F[0].Map = append(m.F[0].Map, ref.Entry{K: ref.Val{U: uint64(uint32(k))}, V: ref.Val{U: uint64(uint32(v))}})
	}
	return m
}

func (x *MapSfixed32Sint32) fill(m *ref.M) {
	for _, e := range m.F[0].Map {
		if x.V == nil {
			x.V = map[int32]int32{}
		}
		x.V[int32(e.K.U)] = int32(e.V.U)
	}
}

func (x *MapSfixed32Sint32) schema() *ref.Schema { return schemaMapSfixed32Sint32 }

type MapSfixed32Sint64 struct {
	V map[int32]int64 `protobuf:"bytes,1,rep,name=V" protobuf_key:"fixed32,1,opt,name=key" protobuf_val:"zigzag64,2,opt,name=value"`
}

var schemaMapSfixed32Sint64 = &ref.Schema{Keep: false, Fields: []*ref.Field{
	{Num: 1, Kind: ref.Sint64, Card: ref.Map, Key: ref.Sfixed32},
}}

func (x *MapSfixed32Sint64) dump() *ref.M {
	if x == nil {
		return nil
	}
	m := ref.New(schemaMapSfixed32Sint64)
	for k, v := range x.V {
		m.F[0].Map = append(m.F[0].Map, ref.Entry{K: ref.Val{U: uint64(uint32(k))}, V: ref.Val{U: uint64(v)}})
	}
	return m
}

func (x *MapSfixed32Sint64) fill(m *ref.M) {
	for _, e := range m.F[0].Map {
		if x.V == nil {
			x.V = map[int32]int64{}
		}
		x.V[int32(e.K.U)] = int64(e.V.U)
	}
}

func (x *MapSfixed32Sint64) schema() *ref.Schema { return schemaMapSfixed32Sint64 }

type MapSfixed32Bool struct {
	V map[int32]bool `protobuf:"bytes,1,rep,name=V" protobuf_key:"fixed32,1,opt,name=key" protobuf_val:"varint,2,opt,name=value"`
}

var schemaMapSfixed32Bool = &ref.Schema{Keep: false, Fields: []*ref.Field{
	{Num: 1, Kind: ref.Bool, Card: ref.Map, Key: ref.Sfixed32},
}}

func (x *MapSfixed32Bool) dump() *ref.M {
	if x == nil {
		return nil
	}
	m := ref.New(schemaMapSfixed32Bool)
	for k, v := range x.V {
		m.F[0].Map = append(m.F[0].Map, ref.Entry{K: ref.Val{U: uint64(uint32(k))}, V: ref.Val{U: sym.B2U(v)}})
	}
	return m
}

func (x *MapSfixed32Bool) fill(m *ref.M) {
	for _, e := range m.F[0].Map {
		if x.V == nil {
			x.V = map[int32]bool{}
		}
		x.V[int32(e.K.U)] = (e.V.U != 0)
	}
}

func (x *MapSfixed32Bool) schema() *ref.Schema { return schemaMapSfixed32Bool }

type MapSfixed32Fixed32 struct {
	V map[int32]uint32 `protobuf:"bytes,1,rep,name=V" protobuf_key:"fixed32,1,opt,name=key" protobuf_val:"fixed32,2,opt,name=value"`
}

var schemaMapSfixed32Fixed32 = &ref.Schema{Keep: false, Fields: []*ref.Field{
	{Num: 1, Kind: ref.Fixed32, Card: ref.Map, Key: ref.Sfixed32},
}}

func (x *MapSfixed32Fixed32) dump() *ref.M {
	if x == nil {
		return nil
	}
	m := ref.New(schemaMapSfixed32Fixed32)
	for k, v := range x.V {
		m.F[0].Map = append(m.F[0].Map, ref.Entry{K: ref.Val{U: uint64(uint32(k))}, V: ref.Val{U: uint64(v)}})
	}
	return m
}

func (x *MapSfixed32Fixed32) fill(m *ref.M) {
	for _, e := range m.F[0].Map {
		if x.V == nil {
			x.V = map[int32]uint32{}
		}
		x.V[int32(e.K.U)] = uint32(e.V.U)
	}
}

func (x *MapSfixed32Fixed32) schema() *ref.Schema { return schemaMapSfixed32Fixed32 }

type MapSfixed32Fixed64 struct {
	V map[int32]uint64 `protobuf:"bytes,1,rep,name=V" protobuf_key:"fixed32,1,opt,name=key" protobuf_val:"fixed64,2,opt,name=value"`
}

var schemaMapSfixed32Fixed64 = &ref.Schema{Keep: false, Fields: []*ref.Field{
	{Num: 1, Kind: ref.Fixed64, Card: ref.Map, Key: ref.Sfixed32},
}}

func (x *MapSfixed32Fixed64) dump() *ref.M {
	if x == nil {
		return nil
	}
	m := ref.New(schemaMapSfixed32Fixed64)
	for k, v := range x.V {
		m.F[0].Map = append(m.F[0].Map, ref.Entry{K: ref.Val{U: uint64(uint32(k))}, V: ref.Val{U: v}})
	}
	return m
}

func (x *MapSfixed32Fixed64) fill(m *ref.M) {
	for _, e := range m.F[0].Map {
		if x.V == nil {
			x.V = map[int32]uint64{}
		}
		x.V[int32(e.K.U)] = uint64(e.V.U)
	}
}

func (x *MapSfixed32Fixed64) schema() *ref.Schema { return schemaMapSfixed32Fixed64 }

type MapSfixed32Sfixed32 struct {
	V map[int32]int32 `protobuf:"bytes,1,rep,name=V" protobuf_key:"fixed32,1,opt,name=key" protobuf_val:"fixed32,2,opt,name=value"`
}

var schemaMapSfixed32Sfixed32 = &ref.Schema{Keep: false, Fields: []*ref.Field{
	{Num: 1, Kind: ref.Sfixed32, Card: ref.Map, Key: ref.Sfixed32},
}}

func (x *MapSfixed32Sfixed32) dump() *ref.M {
	if x == nil {
		return nil
	}
	m := ref.New(schemaMapSfixed32Sfixed32)
	for k, v := range x.V {
		m.F[0].Map = append(m.F[0].Map, ref.Entry{K: ref.Val{U: uint64(uint32(k))}, V: ref.Val{U: uint64(uint32(v))}})
	}
	return m
}

func (x *MapSfixed32Sfixed32) fill(m *ref.M) {
	for _, e := range m.F[0].Map {
		if x.V == nil {
			x.V = map[int32]int32{}
		}
		x.V[int32(e.K.U)] = int32(e.V.U)
	}
}

func (x *MapSfixed32Sfixed32) schema() *ref.Schema { return schemaMapSfixed32Sfixed32 }

type MapSfixed32Sfixed64 struct {
	V map[int32]int64 `protobuf:"bytes,1,rep,name=V" protobuf_key:"fixed32,1,opt,name=key" protobuf_val:"fixed64,2,opt,name=value"`
}

var schemaMapSfixed32Sfixed64 = &ref.Schema{Keep: false, Fields: []*ref.Field{
	{Num: 1, Kind: ref.Sfixed64, Card: ref.Map, Key: ref.Sfixed32},
}}

func (x *MapSfixed32Sfixed64) dump() *ref.M {
	if x == nil {
		return nil
	}
	m := ref.New(schemaMapSfixed32Sfixed64)
	for k, v := range x.V {
		m.F[0].Map = append(m.F[0].Map, ref.Entry{K: ref.Val{U: uint64(uint32(k))}, V: ref.Val{U: uint64(v)}})
	}
	return m
}

func (x *MapSfixed32Sfixed64) fill(m *ref.M) {
	for _, e := range m.F[0].Map {
		if x.V == nil {
			x.V = map[int32]int64{}
		}
		x.V[int32(e.K.U)] = int64(e.V.U)
	}
}

func (x *MapSfixed32Sfixed64) schema() *ref.Schema { return schemaMapSfixed32Sfixed64 }

type MapSfixed32Float struct {
	V map[int32]float32 `protobuf:"bytes,1,rep,name=V" protobuf_key:"fixed32,1,opt,name=key" protobuf_val:"fixed32,2,opt,name=value"`
}

var schemaMapSfixed32Float = &ref.Schema{Keep: false, Fields: []*ref.Field{
	{Num: 1, Kind: ref.Float, Card: ref.Map, Key: ref.Sfixed32},
}}

func (x *MapSfixed32Float) dump() *ref.M {
	if x == nil {
		return nil
	}
	m := ref.New(schemaMapSfixed32Float)
	for k, v := range x.V {
		m.F[0].Map = append(m.F[0].Map, ref.Entry{K: ref.Val{U: uint64(uint32(k))}, V: ref.Val{U: uint64(math.Float32bits(v))}})
	}
	return m
}

func (x *MapSfixed32Float) fill(m *ref.M) {
	for _, e := range m.F[0].Map {
		if x.V == nil {
			x.V = map[int32]float32{}
		}
		x.V[int32(e.K.U)] = math.Float32frombits(uint32(e.V.U))
	}
}

func (x *MapSfixed32Float) schema() *ref.Schema { return schemaMapSfixed32Float }

type MapSfixed32Double struct {
	V map[int32]float64 `protobuf:"bytes,1,rep,name=V" protobuf_key:"fixed32,1,opt,name=key" protobuf_val:"fixed64,2,opt,name=value"`
}

var schemaMapSfixed32Double = &ref.Schema{Keep: false, Fields: []*ref.Field{
	{Num: 1, Kind: ref.Double, Card: ref.Map, Key: ref.Sfixed32},
}}

func (x *MapSfixed32Double) dump() *ref.M {
	if x == nil {
		return nil
	}
	m := ref.New(schemaMapSfixed32Double)
	for k, v := range x.V {
		m.F[0].Map = append(m.F[0].Map, ref.Entry{K: ref.Val{U: uint64(uint32(k))}, V: ref.Val{U: math.Float64bits(v)}})
	}
	return m
}

func (x *MapSfixed32Double) fill(m *ref.M) {
	for _, e := range m.F[0].Map {
		if x.V == nil {
			x.V = map[int32]float64{}
		}
		x.V[int32(e.K.U)] = math.Float64frombits(e.V.U)
	}
}

func (x *MapSfixed32Double) schema() *ref.Schema { return schemaMapSfixed32Double }

type MapSfixed32String struct {
	V map[int32]string `protobuf:"bytes,1,rep,name=V" protobuf_key:"fixed32,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"`
}

var schemaMapSfixed32String = &ref.Schema{Keep: false, Fields: []*ref.Field{
	{Num: 1, Kind: ref.String, Card: ref.Map, Key: ref.Sfixed32},
}}

func (x *MapSfixed32String) dump() *ref.M {
	if x == nil {
		return nil
	}
	m := ref.New(schemaMapSfixed32String)
	for k, v := range x.V {
		m.F[0].Map = append(m.F[0].Map, ref.Entry{K: ref.Val{U: uint64(uint32(k))}, V: ref.Val{B: []byte(v)}})
	}
	return m
}

func (x *MapSfixed32String) fill(m *ref.M) {
	for _, e := range m.F[0].Map {
		if x.V == nil {
			x.V = map[int32]string{}
		}
		x.V[int32(e.K.U)] = string(e.V.B)
	}
}

func (x *MapSfixed32String) schema() *ref.Schema { return schemaMapSfixed32String }

type MapSfixed32Bytes struct {
	V map[int32][]byte `protobuf:"bytes,1,rep,name=V" protobuf_key:"fixed32,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"`
}

var schemaMapSfixed32Bytes = &ref.Schema{Keep: false, Fields: []*ref.Field{
	{Num: 1, Kind: ref.Bytes, Card: ref.Map, Key: ref.Sfixed32},
}}

func (x *MapSfixed32Bytes) dump() *ref.M {
	if x == nil {
		return nil
	}
	m := ref.New(schemaMapSfixed32Bytes)
	for k, v := range x.V {
		m.F[0].Map = append(m.F[0].Map, ref.Entry{K: ref.Val{U: uint64(uint32(k))}, V: ref.Val{B: v}})
	}
	return m
}

func (x *MapSfixed32Bytes) fill(m *ref.M) {
	for _, e := range m.F[0].Map {
		if x.V == nil {
			x.V = map[int32][]byte{}
		}
		x.V[int32(e.K.U)] = e.V.B
	}
}

func (x *MapSfixed32Bytes) schema() *ref.Schema { return schemaMapSfixed32Bytes }

type MapSfixed64Int32 struct {
	V map[int64]int32 `protobuf:"bytes,1,rep,name=V" protobuf_key:"fixed64,1,opt,name=key" protobuf_val:"varint,2,opt,name=value"`
}

var schemaMapSfixed64Int32 = &ref.Schema{Keep: false, Fields: []*ref.Field{
	{Num: 1, Kind: ref.Int32, Card: ref.Map, Key: ref.Sfixed64},
}}

func (x *MapSfixed64Int32) dump() *ref.M {
	if x == nil {
		return nil
	}
	m := ref.New(schemaMapSfixed64Int32)
	for k, v := range x.V {
		m.F[0].Map = append(m.F[0].Map, ref.Entry{K: ref.Val{U: uint64(k)}, V: ref.Val{U: uint64(uint32(v))}})
	}
	return m
}

func (x *MapSfixed64Int32) fill(m *ref.M) {
	for _, e := range m.F[0].Map {
		if x.V == nil {
			x.V = map[int64]int32{}
		}
		x.V[int64(e.K.U)] = int32(e.V.U)
	}
}

func (x *MapSfixed64Int32) schema() *ref.Schema { return schemaMapSfixed64Int32 }

type MapSfixed64Int64 struct {
	V map[int64]int64 `protobuf:"bytes,1,rep,name=V" protobuf_key:"fixed64,1,opt,name=key" protobuf_val:"varint,2,opt,name=value"`
}

var schemaMapSfixed64Int64 = &ref.Schema{Keep: false, Fields: []*ref.Field{
	{Num: 1, Kind: ref.Int64, Card: ref.Map, Key: ref.Sfixed64},
}}

func (x *MapSfixed64Int64) dump() *ref.M {
	if x == nil {
		return nil
	}
	m := ref.New(schemaMapSfixed64Int64)
	for k, v := range x.V {
		m.F[0].Map = append(m.F[0].Map, ref.Entry{K: ref.Val{U: uint64(k)}, V: ref.Val{U: uint64(v)}})
	}
	return m
}

func (x *MapSfixed64Int64) fill(m *ref.M) {
	for _, e := range m.F[0].Map {
		if x.V == nil {
			x.V = map[int64]int64{}
		}
		x.V[int64(e.K.U)] = int64(e.V.U)
	}
}

func (x *MapSfixed64Int64) schema() *ref.Schema { return schemaMapSfixed64Int64 }

type MapSfixed64Uint32 struct {
	V map[int64]uint32 `protobuf:"bytes,1,rep,name=V" protobuf_key:"fixed64,1,opt,name=key" protobuf_val:"varint,2,opt,name=value"`
}

var schemaMapSfixed64Uint32 = &ref.Schema{Keep: false, Fields: []*ref.Field{
	{Num: 1, Kind: ref.Uint32, Card: ref.Map, Key: ref.Sfixed64},
}}

func (x *MapSfixed64Uint32) dump() *ref.M {
	if x == nil {
		return nil
	}
	m := ref.New(schemaMapSfixed64Uint32)
	for k, v := range x.V {
		m.F[0].Map = append(m.F[0].Map, ref.Entry{K: ref.Val{U: uint64(k)}, V: ref.Val{U: uint64(v)}})
	}
	return m
}

func (x *MapSfixed64Uint32) fill(m *ref.M) {
	for _, e := range m.F[0].Map {
		if x.V == nil {
			x.V = map[int64]uint32{}
		}
		x.V[int64(e.K.U)] = uint32(e.V.U)
	}
}

func (x *MapSfixed64Uint32) schema() *ref.Schema { return schemaMapSfixed64Uint32 }

type MapSfixed64Uint64 struct {
	V map[int64]uint64 `protobuf:"bytes,1,rep,name=V" protobuf_key:"fixed64,1,opt,name=key" protobuf_val:"varint,2,opt,name=value"`
}

var schemaMapSfixed64Uint64 = &ref.Schema{Keep: false, Fields: []*ref.Field{
	{Num: 1, Kind: ref.Uint64, Card: ref.Map, Key: ref.Sfixed64},
}}

func (x *MapSfixed64Uint64) dump() *ref.M {
	if x == nil {
		return nil
	}
	m := ref.New(schemaMapSfixed64Uint64)
	for k, v := range x.V {
		m.F[0].Map = append(m.F[0].Map, ref.Entry{K: ref.Val{U: uint64(k)}, V: ref.Val{U: v}})
	}
	return m
}

func (x *MapSfixed64Uint64) fill(m *ref.M) {
	for _, e := range m.F[0].Map {
		if x.V == nil {
			x.V = map[int64]uint64{}
		}
		x.V[int64(e.K.U)] = uint64(e.V.U)
	}
}

func (x *MapSfixed64Uint64) schema() *ref.Schema { return schemaMapSfixed64Uint64 }

type MapSfixed64Sint32 struct {
	V map[int64]int32 `protobuf:"bytes,1,rep,name=V" protobuf_key:"fixed64,1,opt,name=key" protobuf_val:"zigzag32,2,opt,name=value"`
}

var schemaMapSfixed64Sint32 = &ref.Schema{Keep: false, Fields: []*ref.Field{
	{Num: 1, Kind: ref.Sint32, Card: ref.Map, Key: ref.Sfixed64},
}}

func (x *MapSfixed64Sint32) dump() *ref.M {
	if x == nil {
		return nil
	}
	m := ref.New(schemaMapSfixed64Sint32)
	for k, v := range x.V {
		m.F[0].Map = append(m.F[0].Map, ref.Entry{K: ref.Val{U: uint64(k)}, V: ref.Val{U: uint64(uint32(v))}})
	}
	return m
}

func (x *MapSfixed64Sint32) fill(m *ref.M) {
	for _, e := range m.F[0].Map {
		if x.V == nil {
			x.V = map[int64]int32{}
		}
		x.V[int64(e.K.U)] = int32(e.V.U)
	}
}

func (x *MapSfixed64Sint32) schema() *ref.Schema { return schemaMapSfixed64Sint32 }

type MapSfixed64Sint64 struct {
	V map[int64]int64 `protobuf:"bytes,1,rep,name=V" protobuf_key:"fixed64,1,opt,name=key" protobuf_val:"zigzag64,2,opt,name=value"`
}

var schemaMapSfixed64Sint64 = &ref.Schema{Keep: false, Fields: []*ref.Field{
	{Num: 1, Kind: ref.Sint64, Card: ref.Map, Key: ref.Sfixed64},
}}

func (x *MapSfixed64Sint64) dump() *ref.M {
	if x == nil {
		return nil
	}
	m := ref.New(schemaMapSfixed64Sint64)
	for k, v := range x.V {
		m.F[0].Map = append(m.F[0].Map, ref.Entry{K: ref.Val{U: uint64(k)}, V: ref.Val{U: uint64(v)}})
	}
	return m
}

func (x *MapSfixed64Sint64) fill(m *ref.M) {
	for _, e := range m.F[0].Map {
		if x.V == nil {
			x.V = map[int64]int64{}
		}
		x.V[int64(e.K.U)] = int64(e.V.U)
	}
}

func (x *MapSfixed64Sint64) schema() *ref.Schema { return schemaMapSfixed64Sint64 }

type MapSfixed64Bool struct {
	V map[int64]bool `protobuf:"bytes,1,rep,name=V" protobuf_key:"fixed64,1,opt,name=key" protobuf_val:"varint,2,opt,name=value"`
}

var schemaMapSfixed64Bool = &ref.Schema{Keep: false, Fields: []*ref.Field{
	{Num: 1, Kind: ref.Bool, Card: ref.Map, Key: ref.Sfixed64},
}}

func (x *MapSfixed64Bool) dump() *ref.M {
	if x == nil {
		return nil
	}
	m := ref.New(schemaMapSfixed64Bool)
	for k, v := range x.V {
		m.F[0].Map = append(m.F[0].Map, ref.Entry{K: ref.Val{U: uint64(k)}, V: ref.Val{U: sym.B2U(v)}})
	}
	return m
}

func (x *MapSfixed64Bool) fill(m *ref.M) {
	for _, e := range m.F[0].Map {
		if x.V == nil {
			x.V = map[int64]bool{}
		}
		x.V[int64(e.K.U)] = (e.V.U != 0)
	}
}

func (x *MapSfixed64Bool) schema() *ref.Schema { return schemaMapSfixed64Bool }

type MapSfixed64Fixed32 struct {
	V map[int64]uint32 `protobuf:"bytes,1,rep,name=V" protobuf_key:"fixed64,1,opt,name=key" protobuf_val:"fixed32,2,opt,name=value"`
}

var schemaMapSfixed64Fixed32 = &ref.Schema{Keep: false, Fields: []*ref.Field{
	{Num: 1, Kind: ref.Fixed32, Card: ref.Map, Key: ref.Sfixed64},
}}

func (x *MapSfixed64Fixed32) dump() *ref.M {
	if x == nil {
		return nil
	}
	m := ref.New(schemaMapSfixed64Fixed32)
	for k, v := range x.V {
		m.F[0].Map = append(m.F[0].Map, ref.Entry{K: ref.Val{U: uint64(k)}, V: ref.Val{U: uint64(v)}})
	}
	return m
}

func (x *MapSfixed64Fixed32) fill(m *ref.M) {
	for _, e := range m.F[0].Map {
		if x.V == nil {
			x.V = map[int64]uint32{}
		}
		x.V[int64(e.K.U)] = uint32(e.V.U)
	}
}

func (x *MapSfixed64Fixed32) schema() *ref.Schema { return schemaMapSfixed64Fixed32 }

type MapSfixed64Fixed64 struct {
	V map[int64]uint64 `protobuf:"bytes,1,rep,name=V" protobuf_key:"fixed64,1,opt,name=key" protobuf_val:"fixed64,2,opt,name=value"`
}

var schemaMapSfixed64Fixed64 = &ref.Schema{Keep: false, Fields: []*ref.Field{
	{Num: 1, Kind: ref.Fixed64, Card: ref.Map, Key: ref.Sfixed64},
}}

func (x *MapSfixed64Fixed64) dump() *ref.M {
	if x == nil {
		return nil
	}
	m := ref.New(schemaMapSfixed64Fixed64)
	for k, v := range x.V {
		m.F[0].Map = append(m.F[0].Map, ref.Entry{K: ref.Val{U: uint64(k)}, V: ref.Val{U: v}})
	}
	return m
}

func (x *MapSfixed64Fixed64) fill(m *ref.M) {
	for _, e := range m.F[0].Map {
		if x.V == nil {
			x.V = map[int64]uint64{}
		}
		x.V[int64(e.K.U)] = uint64(e.V.U)
	}
}

func (x *MapSfixed64Fixed64) schema() *ref.Schema { return schemaMapSfixed64Fixed64 }

type MapSfixed64Sfixed32 struct {
	V map[int64]int32 `protobuf:"bytes,1,rep,name=V" protobuf_key:"fixed64,1,opt,name=key" protobuf_val:"fixed32,2,opt,name=value"`
}

var schemaMapSfixed64Sfixed32 = &ref.Schema{Keep: false, Fields: []*ref.Field{
	{Num: 1, Kind: ref.Sfixed32, Card: ref.Map, Key: ref.Sfixed64},
}}

func (x *MapSfixed64Sfixed32) dump() *ref.M {
	if x == nil {
		return nil
	}
	m := ref.New(schemaMapSfixed64Sfixed32)
	for k, v := range x.V {
		m.F[0].Map = append(m.F[0].Map, ref.Entry{K: ref.Val{U: uint64(k)}, V: ref.Val{U: uint64(uint32(v))}})
	}
	return m
}

func (x *MapSfixed64Sfixed32) fill(m *ref.M) {
	for _, e := range m.F[0].Map {
		if x.V == nil {
			x.V = map[int64]int32{}
		}
		x.V[int64(e.K.U)] = int32(e.V.U)
	}
}

func (x *MapSfixed64Sfixed32) schema() *ref.Schema { return schemaMapSfixed64Sfixed32 }

type MapSfixed64Sfixed64 struct {
	V map[int64]int64 `protobuf:"bytes,1,rep,name=V" protobuf_key:"fixed64,1,opt,name=key" protobuf_val:"fixed64,2,opt,name=value"`
}

var schemaMapSfixed64Sfixed64 = &ref.Schema{Keep: false, Fields: []*ref.Field{
	{Num: 1, Kind: ref.Sfixed64, Card: ref.Map, Key: ref.Sfixed64},
}}

func (x *MapSfixed64Sfixed64) dump() *ref.M {
	if x == nil {
		return nil
	}
	m := ref.New(schemaMapSfixed64Sfixed64)
	for k, v := range x.V {
		m.F[0].Map = append(m.F[0].Map, ref.Entry{K: ref.Val{U: uint64(k)}, V: ref.Val{U: uint64(v)}})
	}
	return m
}

func (x *MapSfixed64Sfixed64) fill(m *ref.M) {
	for _, e := range m.F[0].Map {
		if x.V == nil {
			x.V = map[int64]int64{}
		}
		x.V[int64(e.K.U)] = int64(e.V.U)
	}
}

func (x *MapSfixed64Sfixed64) schema() *ref.Schema { return schemaMapSfixed64Sfixed64 }

type MapSfixed64Float struct {
	V map[int64]float32 `protobuf:"bytes,1,rep,name=V" protobuf_key:"fixed64,1,opt,name=key" protobuf_val:"fixed32,2,opt,name=value"`
}

var schemaMapSfixed64Float = &ref.Schema{Keep: false, Fields: []*ref.Field{
	{Num: 1, Kind: ref.Float, Card: ref.Map, Key: ref.Sfixed64},
}}

func (x *MapSfixed64Float) dump() *ref.M {
	if x == nil {
		return nil
	}
	m := ref.New(schemaMapSfixed64Float)
	for k, v := range x.V {
		m.F[0].Map = append(m.F[0].Map, ref.Entry{K: ref.Val{U: uint64(k)}, V: ref.Val{U: uint64(math.Float32bits(v))}})
	}
	return m
}

func (x *MapSfixed64Float) fill(m *ref.M) {
	for _, e := range m.F[0].Map {
		if x.V == nil {
			x.V = map[int64]float32{}
		}
		x.V[int64(e.K.U)] = math.Float32frombits(uint32(e.V.U))
	}
}

func (x *MapSfixed64Float) schema() *ref.Schema { return schemaMapSfixed64Float }

type MapSfixed64Double struct {
	V map[int64]float64 `protobuf:"bytes,1,rep,name=V" protobuf_key:"fixed64,1,opt,name=key" protobuf_val:"fixed64,2,opt,name=value"`
}

var schemaMapSfixed64Double = &ref.Schema{Keep: false, Fields: []*ref.Field{
	{Num: 1, Kind: ref.Double, Card: ref.Map, Key: ref.Sfixed64},
}}

func (x *MapSfixed64Double) dump() *ref.M {
	if x == nil {
		return nil
	}
	m := ref.New(schemaMapSfixed64Double)
	for k, v := range x.V {
		m.F[0].Map = append(m.F[0].Map, ref.Entry{K: ref.Val{U: uint64(k)}, V: ref.Val{U: math.Float64bits(v)}})
	}
	return m
}

func (x *MapSfixed64Double) fill(m *ref.M) {
	for _, e := range m.F[0].Map {
		if x.V == nil {
			x.V = map[int64]float64{}
		}
		x.V[int64(e.K.U)] = math.Float64frombits(e.V.U)
	}
}

func (x *MapSfixed64Double) schema() *ref.Schema { return schemaMapSfixed64Double }

type MapSfixed64String struct {
	V map[int64]string `protobuf:"bytes,1,rep,name=V" protobuf_key:"fixed64,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"`
}

var schemaMapSfixed64String = &ref.Schema{Keep: false, Fields: []*ref.Field{
	{Num: 1, Kind: ref.String, Card: ref.Map, Key: ref.Sfixed64},
}}

func (x *MapSfixed64String) dump() *ref.M {
	if x == nil {
		return nil
	}
	m := ref.New(schemaMapSfixed64String)
	for k, v := range x.V {
		m.F[0].Map = append(m.F[0].Map, ref.Entry{K: ref.Val{U: uint64(k)}, V: ref.Val{B: []byte(v)}})
	}
	return m
}

func (x *MapSfixed64String) fill(m *ref.M) {
	for _, e := range m.F[0].Map {
		if x.V == nil {
			x.V = map[int64]string{}
		}
		x.V[int64(e.K.U)] = string(e.V.B)
	}
}

func (x *MapSfixed64String) schema() *ref.Schema { return schemaMapSfixed64String }

type MapSfixed64Bytes struct {
	V map[int64][]byte `protobuf:"bytes,1,rep,name=V" protobuf_key:"fixed64,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"`
}

var schemaMapSfixed64Bytes = &ref.Schema{Keep: false, Fields: []*ref.Field{
	{Num: 1, Kind: ref.Bytes, Card: ref.Map, Key: ref.Sfixed64},
}}

func (x *MapSfixed64Bytes) dump() *ref.M {
	if x == nil {
		return nil
	}
	m := ref.New(schemaMapSfixed64Bytes)
	for k, v := range x.V {
		m.F[0].Map = append(m.F[0].Map, ref.Entry{K: ref.Val{U: uint64(k)}, V: ref.Val{B: v}})
	}
	return m
}

func (x *MapSfixed64Bytes) fill(m *ref.M) {
	for _, e := range m.F[0].Map {
		if x.V == nil {
			x.V = map[int64][]byte{}
		}
		x.V[int64(e.K.U)] = e.V.B
	}
}

func (x *MapSfixed64Bytes) schema() *ref.Schema { return schemaMapSfixed64Bytes }

type MapStringInt32 struct {
	V map[string]int32 `protobuf:"bytes,1,rep,name=V" protobuf_key:"bytes,1,opt,name=key" protobuf_val:"varint,2,opt,name=value"`
}

var schemaMapStringInt32 = &ref.Schema{Keep: false, Fields: []*ref.Field{
	{Num: 1, Kind: ref.Int32, Card: ref.Map, Key: ref.String},
}}

func (x *MapStringInt32) dump() *ref.M {
	if x == nil {
		return nil
	}
	m := ref.New(schemaMapStringInt32)
	for k, v := range x.V {
		m.F[0].Map = append(m.F[0].Map, ref.Entry{K: ref.Val{B: []byte(k)}, V: ref.Val{U: uint64(uint32(v))}})
	}
	return m
}

func (x *MapStringInt32) fill(m *ref.M) {
	for _, e := range m.F[0].Map {
		if x.V == nil {
			x.V = map[string]int32{}
		}
		x.V[string(e.K.B)] = int32(e.V.U)
	}
}

func (x *MapStringInt32) schema() *ref.Schema { return schemaMapStringInt32 }

type MapStringInt64 struct {
	V map[string]int64 `protobuf:"bytes,1,rep,name=V" protobuf_key:"bytes,1,opt,name=key" protobuf_val:"varint,2,opt,name=value"`
}

var schemaMapStringInt64 = &ref.Schema{Keep: false, Fields: []*ref.Field{
	{Num: 1, Kind: ref.Int64, Card: ref.Map, Key: ref.String},
}}

func (x *MapStringInt64) dump() *ref.M {
	if x == nil {
		return nil
	}
	m := ref.New(schemaMapStringInt64)
	for k, v := range x.V {
		m.F[0].Map = append(m.F[0].Map, ref.Entry{K: ref.Val{B: []byte(k)}, V: ref.Val{U: uint64(v)}})
	}
	return m
}

func (x *MapStringInt64) fill(m *ref.M) {
	for _, e := range m.F[0].Map {
		if x.V == nil {
			x.V = map[string]int64{}
		}
		x.V[string(e.K.B)] = int64(e.V.U)
	}
}

func (x *MapStringInt64) schema() *ref.Schema { return schemaMapStringInt64 }

type MapStringUint32 struct {
	V map[string]uint32 `protobuf:"bytes,1,rep,name=V" protobuf_key:"bytes,1,opt,name=key" protobuf_val:"varint,2,opt,name=value"`
}

var schemaMapStringUint32 = &ref.Schema{Keep: false, Fields: []*ref.Field{
	{Num: 1, Kind: ref.Uint32, Card: ref.Map, Key: ref.String},
}}

func (x *MapStringUint32) dump() *ref.M {
	if x == nil {
		return nil
	}
	m := ref.New(schemaMapStringUint32)
	for k, v := range x.V {
		m.F[0].Map = append(m.F[0].Map, ref.Entry{K: ref.Val{B: []byte(k)}, V: ref.Val{U: uint64(v)}})
	}
	return m
}

func (x *MapStringUint32) fill(m *ref.M) {
	for _, e := range m.F[0].Map {
		if x.V == nil {
			x.V = map[string]uint32{}
		}
		x.V[string(e.K.B)] = uint32(e.V.U)
	}
}

func (x *MapStringUint32) schema() *ref.Schema { return schemaMapStringUint32 }

type MapStringUint64 struct {
	V map[string]uint64 `protobuf:"bytes,1,rep,name=V" protobuf_key:"bytes,1,opt,name=key" protobuf_val:"varint,2,opt,name=value"`
}

var schemaMapStringUint64 = &ref.Schema{Keep: false, Fields: []*ref.Field{
	{Num: 1, Kind: ref.Uint64, Card: ref.Map, Key: ref.String},
}}

func (x *MapStringUint64) dump() *ref.M {
	if x == nil {
		return nil
	}
	m := ref.New(schemaMapStringUint64)
	for k, v := range x.V {
		m.F[0].Map = append(m.F[0].Map, ref.Entry{K: ref.Val{B: []byte(k)}, V: ref.Val{U: v}})
	}
	return m
}

func (x *MapStringUint64) fill(m *ref.M) {
	for _, e := range m.F[0].Map {
		if x.V == nil {
			x.V = map[string]uint64{}
		}
		x.V[string(e.K.B)] = uint64(e.V.U)
	}
}

func (x *MapStringUint64) schema() *ref.Schema { return schemaMapStringUint64 }

type MapStringSint32 struct {
	V map[string]int32 `protobuf:"bytes,1,rep,name=V" protobuf_key:"bytes,1,opt,name=key" protobuf_val:"zigzag32,2,opt,name=value"`
}

var schemaMapStringSint32 = &ref.Schema{Keep: false, Fields: []*ref.Field{
	{Num: 1, Kind: ref.Sint32, Card: ref.Map, Key: ref.String},
}}

func (x *MapStringSint32) dump() *ref.M {
	if x == nil {
		return nil
	}
	m := ref.New(schemaMapStringSint32)
	for k, v := range x.V {
		m.F[0].Map = append(m.F[0].Map, ref.Entry{K: ref.Val{B: []byte(k)}, V: ref.Val{U: uint64(uint32(v))}})
	}
	return m
}

func (x *MapStringSint32) fill(m *ref.M) {
	for _, e := range m.F[0].Map {
		if x.V == nil {
			x.V = map[string]int32{}
		}
		x.V[string(e.K.B)] = int32(e.V.U)
	}
}

func (x *MapStringSint32) schema() *ref.Schema { return schemaMapStringSint32 }

type MapStringSint64 struct {
	V map[string]int64 `protobuf:"bytes,1,rep,name=V" protobuf_key:"bytes,1,opt,name=key" protobuf_val:"zigzag64,2,opt,name=value"`
}

var schemaMapStringSint64 = &ref.Schema{Keep: false, Fields: []*ref.Field{
	{Num: 1, Kind: ref.Sint64, Card: ref.Map, Key: ref.String},
}}

func (x *MapStringSint64) dump() *ref.M {
	if x == nil {
		return nil
	}
	m := ref.New(schemaMapStringSint64)
	for k, v := range x.V {
		m.F[0].Map = append(m.F[0].Map, ref.Entry{K: ref.Val{B: []byte(k)}, V: ref.Val{U: uint64(v)}})
	}
	return m
}

func (x *MapStringSint64) fill(m *ref.M) {
	for _, e := range m.F[0].Map {
		if x.V == nil {
			x.V = map[string]int64{}
		}
		x.V[string(e.K.B)] = int64(e.V.U)
	}
}

func (x *MapStringSint64) schema() *ref.Schema { return schemaMapStringSint64 }

type MapStringBool struct {
	V map[string]bool `protobuf:"bytes,1,rep,name=V" protobuf_key:"bytes,1,opt,name=key" protobuf_val:"varint,2,opt,name=value"`
}

var schemaMapStringBool = &ref.Schema{Keep: false, Fields: []*ref.Field{
	{Num: 1, Kind: ref.Bool, Card: ref.Map, Key: ref.String},
}}

func (x *MapStringBool) dump() *ref.M {
	if x == nil {
		return nil
	}
	m := ref.New(schemaMapStringBool)
	for k, v := range x.V {
		m.F[0].Map = append(m.F[0].Map, ref.Entry{K: ref.Val{B: []byte(k)}, V: ref.Val{U: sym.B2U(v)}})
	}
	return m
}

func (x *MapStringBool) fill(m *ref.M) {
	for _, e := range m.F[0].Map {
		if x.V == nil {
			x.V = map[string]bool{}
		}
		x.V[string(e.K.B)] = (e.V.U != 0)
	}
}

func (x *MapStringBool) schema() *ref.Schema { return schemaMapStringBool }

type MapStringFixed32 struct {
	V map[string]uint32 `protobuf:"bytes,1,rep,name=V" protobuf_key:"bytes,1,opt,name=key" protobuf_val:"fixed32,2,opt,name=value"`
}

var schemaMapStringFixed32 = &ref.Schema{Keep: false, Fields: []*ref.Field{
	{Num: 1, Kind: ref.Fixed32, Card: ref.Map, Key: ref.String},
}}

func (x *MapStringFixed32) dump() *ref.M {
	if x == nil {
		return nil
	}
	m := ref.New(schemaMapStringFixed32)
	for k, v := range x.V {
		m.F[0].Map = append(m.F[0].Map, ref.Entry{K: ref.Val{B: []byte(k)}, V: ref.Val{U: uint64(v)}})
	}
	return m
}

func (x *MapStringFixed32) fill(m *ref.M) {
	for _, e := range m.F[0].Map {
		if x.V == nil {
			x.V = map[string]uint32{}
		}
		x.V[string(e.K.B)] = uint32(e.V.U)
	}
}

func (x *MapStringFixed32) schema() *ref.Schema { return schemaMapStringFixed32 }

type MapStringFixed64 struct {
	V map[string]uint64 `protobuf:"bytes,1,rep,name=V" protobuf_key:"bytes,1,opt,name=key" protobuf_val:"fixed64,2,opt,name=value"`
}

var schemaMapStringFixed64 = &ref.Schema{Keep: false, Fields: []*ref.Field{
	{Num: 1, Kind: ref.Fixed64, Card: ref.Map, Key: ref.String},
}}

func (x *MapStringFixed64) dump() *ref.M {
	if x == nil {
		return nil
	}
	m := ref.New(schemaMapStringFixed64)
	for k, v := range x.V {
		m.F[0].Map = append(m.F[0].Map, ref.Entry{K: ref.Val{B: []byte(k)}, V: ref.Val{U: v}})
	}
	return m
}

func (x *MapStringFixed64) fill(m *ref.M) {
	for _, e := range m.F[0].Map {
		if x.V == nil {
			x.V = map[string]uint64{}
		}
		x.V[string(e.K.B)] = uint64(e.V.U)
	}
}

func (x *MapStringFixed64) schema() *ref.Schema { return schemaMapStringFixed64 }

type MapStringSfixed32 struct {
	V map[string]int32 `protobuf:"bytes,1,rep,name=V" protobuf_key:"bytes,1,opt,name=key" protobuf_val:"fixed32,2,opt,name=value"`
}

var schemaMapStringSfixed32 = &ref.Schema{Keep: false, Fields: []*ref.Field{
	{Num: 1, Kind: ref.Sfixed32, Card: ref.Map, Key: ref.String},
}}

func (x *MapStringSfixed32) dump() *ref.M {
	if x == nil {
		return nil
	}
	m := ref.New(schemaMapStringSfixed32)
	for k, v := range x.V {
		m.F[0].Map = append(m.F[0].Map, ref.Entry{K: ref.Val{B: []byte(k)}, V: ref.Val{U: uint64(uint32(v))}})
	}
	return m
}

func (x *MapStringSfixed32) fill(m *ref.M) {
	for _, e := range m.F[0].Map {
		if x.V == nil {
			x.V = map[string]int32{}
		}
		x.V[string(e.K.B)] = int32(e.V.U)
	}
}

func (x *MapStringSfixed32) schema() *ref.Schema { return schemaMapStringSfixed32 }

type MapStringSfixed64 struct {
	V map[string]int64 `protobuf:"bytes,1,rep,name=V" protobuf_key:"bytes,1,opt,name=key" protobuf_val:"fixed64,2,opt,name=value"`
}

var schemaMapStringSfixed64 = &ref.Schema{Keep: false, Fields: []*ref.Field{
	{Num: 1, Kind: ref.Sfixed64, Card: ref.Map, Key: ref.String},
}}

func (x *MapStringSfixed64) dump() *ref.M {
	if x == nil {
		return nil
	}
	m := ref.New(schemaMapStringSfixed64)
	for k, v := range x.V {
		m.F[0].Map = append(m.F[0].Map, ref.Entry{K: ref.Val{B: []byte(k)}, V: ref.Val{U: uint64(v)}})
	}
	return m
}

func (x *MapStringSfixed64) fill(m *ref.M) {
	for _, e := range m.F[0].Map {
		if x.V == nil {
			x.V = map[string]int64{}
		}
		x.V[string(e.K.B)] = int64(e.V.U)
	}
}

func (x *MapStringSfixed64) schema() *ref.Schema { return schemaMapStringSfixed64 }

type MapStringFloat struct {
	V map[string]float32 `protobuf:"bytes,1,rep,name=V" protobuf_key:"bytes,1,opt,name=key" protobuf_val:"fixed32,2,opt,name=value"`
}

var schemaMapStringFloat = &ref.Schema{Keep: false, Fields: []*ref.Field{
	{Num: 1, Kind: ref.Float, Card: ref.Map, Key: ref.String},
}}

func (x *MapStringFloat) dump() *ref.M {
	if x == nil {
		return nil
	}
	m := ref.New(schemaMapStringFloat)
	for k, v := range x.V {
		m.F[0].Map = append(m.F[0].Map, ref.Entry{K: ref.Val{B: []byte(k)}, V: ref.Val{U: uint64(math.Float32bits(v))}})
	}
	return m
}

func (x *MapStringFloat) fill(m *ref.M) {
	for _, e := range m.F[0].Map {
		if x.V == nil {
			x.V = map[string]float32{}
		}
		x.V[string(e.K.B)] = math.Float32frombits(uint32(e.V.U))
	}
}

func (x *MapStringFloat) schema() *ref.Schema { return schemaMapStringFloat }

type MapStringDouble struct {
	V map[string]float64 `protobuf:"bytes,1,rep,name=V" protobuf_key:"bytes,1,opt,name=key" protobuf_val:"fixed64,2,opt,name=value"`
}

var schemaMapStringDouble = &ref.Schema{Keep: false, Fields: []*ref.Field{
	{Num: 1, Kind: ref.Double, Card: ref.Map, Key: ref.String},
}}

func (x *MapStringDouble) dump() *ref.M {
	if x == nil {
		return nil
	}
	m := ref.New(schemaMapStringDouble)
	for k, v := range x.V {
		m.F[0].Map = append(m.F[0].Map, ref.Entry{K: ref.Val{B: []byte(k)}, V: ref.Val{U: math.Float64bits(v)}})
	}
	return m
}

func (x *MapStringDouble) fill(m *ref.M) {
	for _, e := range m.F[0].Map {
		if x.V == nil {
			x.V = map[string]float64{}
		}
		x.V[string(e.K.B)] = math.Float64frombits(e.V.U)
	}
}

func (x *MapStringDouble) schema() *ref.Schema { return schemaMapStringDouble }

type MapStringString struct {
	V map[string]string `protobuf:"bytes,1,rep,name=V" protobuf_key:"bytes,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"`
}

var schemaMapStringString = &ref.Schema{Keep: false, Fields: []*ref.Field{
	{Num: 1, Kind: ref.String, Card: ref.Map, Key: ref.String},
}}

func (x *MapStringString) dump() *ref.M {
	if x == nil {
		return nil
	}
	m := ref.New(schemaMapStringString)
	for k, v := range x.V {
		m.F[0].Map = append(m.F[0].Map, ref.Entry{K: ref.Val{B: []byte(k)}, V: ref.Val{B: []byte(v)}})
	}
	return m
}

func (x *MapStringString) fill(m *ref.M) {
	for _, e := range m.F[0].Map {
		if x.V == nil {
			x.V = map[string]string{}
		}
		x.V[string(e.K.B)] = string(e.V.B)
	}
}

func (x *MapStringString) schema() *ref.Schema { return schemaMapStringString }

type MapStringBytes struct {
	V map[string][]byte `protobuf:"bytes,1,rep,name=V" protobuf_key:"bytes,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"`
}

var schemaMapStringBytes = &ref.Schema{Keep: false, Fields: []*ref.Field{
	{Num: 1, Kind: ref.Bytes, Card: ref.Map, Key: ref.String},
}}

func (x *MapStringBytes) dump() *ref.M {
	if x == nil {
		return nil
	}
	m := ref.New(schemaMapStringBytes)
	for k, v := range x.V {
		m.F[0].Map = append(m.F[0].Map, ref.Entry{K: ref.Val{B: []byte(k)}, V: ref.Val{B: v}})
	}
	return m
}

func (x *MapStringBytes) fill(m *ref.M) {
	for _, e := range m.F[0].Map {
		if x.V == nil {
			x.V = map[string][]byte{}
		}
		x.V[string(e.K.B)] = e.V.B
	}
}

func (x *MapStringBytes) schema() *ref.Schema { return schemaMapStringBytes }

type Leaf struct {
	A int32 `protobuf:"varint,1,opt,name=A,proto3"`
}

var schemaLeaf = &ref.Schema{Keep: false, Fields: []*ref.Field{
	{Num: 1, Kind: ref.Int32, Card: ref.Implicit},
}}

func (x *Leaf) dump() *ref.M {
	if x == nil {
		return nil
	}
	m := ref.New(schemaLeaf)
	m.F[0].V = ref.Val{U: uint64(uint32(x.A))}
	return m
}

func (x *Leaf) fill(m *ref.M) {
	x.A = int32(m.F[0].V.U)
}

func (x *Leaf) schema() *ref.Schema { return schemaLeaf }

type MapInt32Msg struct {
	V map[int32]*Leaf `protobuf:"bytes,1,rep,name=V" protobuf_key:"varint,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"`
}

var schemaMapInt32Msg = &ref.Schema{Keep: false, Fields: []*ref.Field{
	{Num: 1, Kind: ref.Msg, Card: ref.Map, Key: ref.Int32},
}}

func init() {
	schemaMapInt32Msg.Fields[0].Sub = schemaLeaf
}

func (x *MapInt32Msg) dump() *ref.M {
	if x == nil {
		return nil
	}
	m := ref.New(schemaMapInt32Msg)
	for k, v := range x.V {
		m.F[0].Map = append(m.F[0].Map, ref.Entry{K: ref.Val{U: uint64(uint32(k))}, V: ref.Val{M: v.dump()}})
	}
	return m
}

func (x *MapInt32Msg) fill(m *ref.M) {
	for _, e := range m.F[0].Map {
		if x.V == nil {
			x.V = map[int32]*Leaf{}
		}
		v := new(Leaf)
		v.fill(e.V.M)
		x.V[int32(e.K.U)] = v
	}
}

func (x *MapInt32Msg) schema() *ref.Schema { return schemaMapInt32Msg }

type MapInt64Msg struct {
	V map[int64]*Leaf `protobuf:"bytes,1,rep,name=V" protobuf_key:"varint,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"`
}

var schemaMapInt64Msg = &ref.Schema{Keep: false, Fields: []*ref.Field{
	{Num: 1, Kind: ref.Msg, Card: ref.Map, Key: ref.Int64},
}}

func init() {
	schemaMapInt64Msg.Fields[0].Sub = schemaLeaf
}

func (x *MapInt64Msg) dump() *ref.M {
	if x == nil {
		return nil
	}
	m := ref.New(schemaMapInt64Msg)
	for k, v := range x.V {
		m.F[0].Map = append(m.F[0].Map, ref.Entry{K: ref.Val{U: uint64(k)}, V: ref.Val{M: v.dump()}})
	}
	return m
}

func (x *MapInt64Msg) fill(m *ref.M) {
	for _, e := range m.F[0].Map {
		if x.V == nil {
			x.V = map[int64]*Leaf{}
		}
		v := new(Leaf)
		v.fill(e.V.M)
		x.V[int64(e.K.U)] = v
	}
}

func (x *MapInt64Msg) schema() *ref.Schema { return schemaMapInt64Msg }

type MapUint32Msg struct {
	V map[uint32]*Leaf `protobuf:"bytes,1,rep,name=V" protobuf_key:"varint,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"`
}

var schemaMapUint32Msg = &ref.Schema{Keep: false, Fields: []*ref.Field{
	{Num: 1, Kind: ref.Msg, Card: ref.Map, Key: ref.Uint32},
}}

func init() {
	schemaMapUint32Msg.Fields[0].Sub = schemaLeaf
}

func (x *MapUint32Msg) dump() *ref.M {
	if x == nil {
		return nil
	}
	m := ref.New(schemaMapUint32Msg)
	for k, v := range x.V {
		m.F[0].Map = append(m.F[0].Map, ref.Entry{K: ref.Val{U: uint64(k)}, V: ref.Val{M: v.dump()}})
	}
	return m
}

func (x *MapUint32Msg) fill(m *ref.M) {
	for _, e := range m.F[0].Map {
		if x.V == nil {
			x.V = map[uint32]*Leaf{}
		}
		v := new(Leaf)
		v.fill(e.V.M)
		x.V[uint32(e.K.U)] = v
	}
}

func (x *MapUint32Msg) schema() *ref.Schema { return schemaMapUint32Msg }

type MapUint64Msg struct {
	V map[uint64]*Leaf `protobuf:"bytes,1,rep,name=V" protobuf_key:"varint,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"`
}

var schemaMapUint64Msg = &ref.Schema{Keep: false, Fields: []*ref.Field{
	{Num: 1, Kind: ref.Msg, Card: ref.Map, Key: ref.Uint64},
}}

func init() {
	schemaMapUint64Msg.Fields[0].Sub = schemaLeaf
}

func (x *MapUint64Msg) dump() *ref.M {
	if x == nil {
		return nil
	}
	m := ref.New(schemaMapUint64Msg)
	for k, v := range x.V {
		m.F[0].Map = append(m.F[0].Map, ref.Entry{K: ref.Val{U: k}, V: ref.Val{M: v.dump()}})
	}
	return m
}

func (x *MapUint64Msg) fill(m *ref.M) {
	for _, e := range m.F[0].Map {
		if x.V == nil {
			x.V = map[uint64]*Leaf{}
		}
		v := new(Leaf)
		v.fill(e.V.M)
		x.V[uint64(e.K.U)] = v
	}
}

func (x *MapUint64Msg) schema() *ref.Schema { return schemaMapUint64Msg }

type MapSint32Msg struct {
	V map[int32]*Leaf `protobuf:"bytes,1,rep,name=V" protobuf_key:"zigzag32,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"`
}

var schemaMapSint32Msg = &ref.Schema{Keep: false, Fields: []*ref.Field{
	{Num: 1, Kind: ref.Msg, Card: ref.Map, Key: ref.Sint32},
}}

func init() {
	schemaMapSint32Msg.Fields[0].Sub = schemaLeaf
}

func (x *MapSint32Msg) dump() *ref.M {
	if x == nil {
		return nil
	}
	m := ref.New(schemaMapSint32Msg)
	for k, v := range x.V {
		m.F[0].Map = append(m.F[0].Map, ref.Entry{K: ref.Val{U: uint64(uint32(k))}, V: ref.Val{M: v.dump()}})
	}
	return m
}

func (x *MapSint32Msg) fill(m *ref.M) {
	for _, e := range m.F[0].Map {
		if x.V == nil {
			x.V = map[int32]*Leaf{}
		}
		v := new(Leaf)
		v.fill(e.V.M)
		x.V[int32(e.K.U)] = v
	}
}

func (x *MapSint32Msg) schema() *ref.Schema { return schemaMapSint32Msg }

type MapSint64Msg struct {
	V map[int64]*Leaf `protobuf:"bytes,1,rep,name=V" protobuf_key:"zigzag64,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"`
}

var schemaMapSint64Msg = &ref.Schema{Keep: false, Fields: []*ref.Field{
	{Num: 1, Kind: ref.Msg, Card: ref.Map, Key: ref.Sint64},
}}

func init() {
	schemaMapSint64Msg.Fields[0].Sub = schemaLeaf
}

func (x *MapSint64Msg) dump() *ref.M {
	if x == nil {
		return nil
	}
	m := ref.New(schemaMapSint64Msg)
	for k, v := range x.V {
		m.F[0].Map = append(m.F[0].Map, ref.Entry{K: ref.Val{U: uint64(k)}, V: ref.Val{M: v.dump()}})
	}
	return m
}

func (x *MapSint64Msg) fill(m *ref.M) {
	for _, e := range m.F[0].Map {
		if x.V == nil {
			x.V = map[int64]*Leaf{}
		}
		v := new(Leaf)
		v.fill(e.V.M)
		x.V[int64(e.K.U)] = v
	}
}

func (x *MapSint64Msg) schema() *ref.Schema { return schemaMapSint64Msg }

type MapBoolMsg struct {
	V map[bool]*Leaf `protobuf:"bytes,1,rep,name=V" protobuf_key:"varint,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"`
}

var schemaMapBoolMsg = &ref.Schema{Keep: false, Fields: []*ref.Field{
	{Num: 1, Kind: ref.Msg, Card: ref.Map, Key: ref.Bool},
}}

func init() {
	schemaMapBoolMsg.Fields[0].Sub = schemaLeaf
}

func (x *MapBoolMsg) dump() *ref.M {
	if x == nil {
		return nil
	}
	m := ref.New(schemaMapBoolMsg)
	for k, v := range x.V {
		m.F[0].Map = append(m.F[0].Map, ref.Entry{K: ref.Val{U: sym.B2U(k)}, V: ref.Val{M: v.dump()}})
	}
	return m
}

func (x *MapBoolMsg) fill(m *ref.M) {
	for _, e := range m.F[0].Map {
		if x.V == nil {
			x.V = map[bool]*Leaf{}
		}
		v := new(Leaf)
		v.fill(e.V.M)
		x.V[(e.K.U != 0)] = v
	}
}

func (x *MapBoolMsg) schema() *ref.Schema { return schemaMapBoolMsg }

type MapFixed32Msg struct {
	V map[uint32]*Leaf `protobuf:"bytes,1,rep,name=V" protobuf_key:"fixed32,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"`
}

var schemaMapFixed32Msg = &ref.Schema{Keep: false, Fields: []*ref.Field{
	{Num: 1, Kind: ref.Msg, Card: ref.Map, Key: ref.Fixed32},
}}

func init() {
	schemaMapFixed32Msg.Fields[0].Sub = schemaLeaf
}

func (x *MapFixed32Msg) dump() *ref.M {
	if x == nil {
		return nil
	}
	m := ref.New(schemaMapFixed32Msg)
	for k, v := range x.V {
		m.F[0].Map = append(m.F[0].Map, ref.Entry{K: ref.Val{U: uint64(k)}, V: ref.Val{M: v.dump()}})
	}
	return m
}

func (x *MapFixed32Msg) fill(m *ref.M) {
	for _, e := range m.F[0].Map {
		if x.V == nil {
			x.V = map[uint32]*Leaf{}
		}
		v := new(Leaf)
		v.fill(e.V.M)
		x.V[uint32(e.K.U)] = v
	}
}

func (x *MapFixed32Msg) schema() *ref.Schema { return schemaMapFixed32Msg }

type MapFixed64Msg struct {
	V map[uint64]*Leaf `protobuf:"bytes,1,rep,name=V" protobuf_key:"fixed64,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"`
}

var schemaMapFixed64Msg = &ref.Schema{Keep: false, Fields: []*ref.Field{
	{Num: 1, Kind: ref.Msg, Card: ref.Map, Key: ref.Fixed64},
}}

func init() {
	schemaMapFixed64Msg.Fields[0].Sub = schemaLeaf
}

func (x *MapFixed64Msg) dump() *ref.M {
	if x == nil {
		return nil
	}
	m := ref.New(schemaMapFixed64Msg)
	for k, v := range x.V {
		m.F[0].Map = append(m.F[0].Map, ref.Entry{K: ref.Val{U: k}, V: ref.Val{M: v.dump()}})
	}
	return m
}

func (x *MapFixed64Msg) fill(m *ref.M) {
	for _, e := range m.F[0].Map {
		if x.V == nil {
			x.V = map[uint64]*Leaf{}
		}
		v := new(Leaf)
		v.fill(e.V.M)
		x.V[uint64(e.K.U)] = v
	}
}

func (x *MapFixed64Msg) schema() *ref.Schema { return schemaMapFixed64Msg }

type MapSfixed32Msg struct {
	V map[int32]*Leaf `protobuf:"bytes,1,rep,name=V" protobuf_key:"fixed32,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"`
}

var schemaMapSfixed32Msg = &ref.Schema{Keep: false, Fields: []*ref.Field{
	{Num: 1, Kind: ref.Msg, Card: ref.Map, Key: ref.Sfixed32},
}}

func init() {
	schemaMapSfixed32Msg.Fields[0].Sub = schemaLeaf
}

func (x *MapSfixed32Msg) dump() *ref.M {
	if x == nil {
		return nil
	}
	m := ref.New(schemaMapSfixed32Msg)
	for k, v := range x.V {
		m.F[0].Map = append(m.F[0].Map, ref.Entry{K: ref.Val{U: uint64(uint32(k))}, V: ref.Val{M: v.dump()}})
	}
	return m
}

func (x *MapSfixed32Msg) fill(m *ref.M) {
	for _, e := range m.F[0].Map {
		if x.V == nil {
			x.V = map[int32]*Leaf{}
		}
		v := new(Leaf)
		v.fill(e.V.M)
		x.V[int32(e.K.U)] = v
	}
}

func (x *MapSfixed32Msg) schema() *ref.Schema { return schemaMapSfixed32Msg }

type MapSfixed64Msg struct {
	V map[int64]*Leaf `protobuf:"bytes,1,rep,name=V" protobuf_key:"fixed64,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"`
}

var schemaMapSfixed64Msg = &ref.Schema{Keep: false, Fields: []*ref.Field{
	{Num: 1, Kind: ref.Msg, Card: ref.Map, Key: ref.Sfixed64},
}}

func init() {
	schemaMapSfixed64Msg.Fields[0].Sub = schemaLeaf
}

func (x *MapSfixed64Msg) dump() *ref.M {
	if x == nil {
		return nil
	}
	m := ref.New(schemaMapSfixed64Msg)
	for k, v := range x.V {
		m.F[0].Map = append(m.F[0].Map, ref.Entry{K: ref.Val{U: uint64(k)}, V: ref.Val{M: v.dump()}})
	}
	return m
}

func (x *MapSfixed64Msg) fill(m *ref.M) {
	for _, e := range m.F[0].Map {
		if x.V == nil {
			x.V = map[int64]*Leaf{}
		}
		v := new(Leaf)
		v.fill(e.V.M)
		x.V[int64(e.K.U)] = v
	}
}

func (x *MapSfixed64Msg) schema() *ref.Schema { return schemaMapSfixed64Msg }

type MapStringMsg struct {
	V map[string]*Leaf `protobuf:"bytes,1,rep,name=V" protobuf_key:"bytes,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"`
}

var schemaMapStringMsg = &ref.Schema{Keep: false, Fields: []*ref.Field{
	{Num: 1, Kind: ref.Msg, Card: ref.Map, Key: ref.String},
}}

func init() {
	schemaMapStringMsg.Fields[0].Sub = schemaLeaf
}

func (x *MapStringMsg) dump() *ref.M {
	if x == nil {
		return nil
	}
	m := ref.New(schemaMapStringMsg)
	for k, v := range x.V {
		m.F[0].Map = append(m.F[0].Map, ref.Entry{K: ref.Val{B: []byte(k)}, V: ref.Val{M: v.dump()}})
	}
	return m
}

func (x *MapStringMsg) fill(m *ref.M) {
	for _, e := range m.F[0].Map {
		if x.V == nil {
			x.V = map[string]*Leaf{}
		}
		v := new(Leaf)
		v.fill(e.V.M)
		x.V[string(e.K.B)] = v
	}
}

func (x *MapStringMsg) schema() *ref.Schema { return schemaMapStringMsg }

type MapInt32Val struct {
	V map[int32]Leaf `protobuf:"bytes,1,rep,name=V" protobuf_key:"varint,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"`
}

var schemaMapInt32Val = &ref.Schema{Keep: false, Fields: []*ref.Field{
	{Num: 1, Kind: ref.Msg, Card: ref.Map, Key: ref.Int32},
}}

func init() {
	schemaMapInt32Val.Fields[0].Sub = schemaLeaf
}

func (x *MapInt32Val) dump() *ref.M {
	if x == nil {
		return nil
	}
	m := ref.New(schemaMapInt32Val)
	for k, v := range x.V {
		w := v
		m.F[0].Map = append(m.F[0].Map, ref.Entry{K: ref.Val{U: uint64(uint32(k))}, V: ref.Val{M: w.dump()}})
	}
	return m
}

func (x *MapInt32Val) fill(m *ref.M) {
	for _, e := range m.F[0].Map {
		if x.V == nil {
			x.V = map[int32]Leaf{}
		}
		var v Leaf
		v.fill(e.V.M)
		x.V[int32(e.K.U)] = v
	}
}

func (x *MapInt32Val) schema() *ref.Schema { return schemaMapInt32Val }

type MapStringVal struct {
	V map[string]Leaf `protobuf:"bytes,1,rep,name=V" protobuf_key:"bytes,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"`
}

var schemaMapStringVal = &ref.Schema{Keep: false, Fields: []*ref.Field{
	{Num: 1, Kind: ref.Msg, Card: ref.Map, Key: ref.String},
}}

func init() {
	schemaMapStringVal.Fields[0].Sub = schemaLeaf
}

func (x *MapStringVal) dump() *ref.M {
	if x == nil {
		return nil
	}
	m := ref.New(schemaMapStringVal)
	for k, v := range x.V {
		w := v
		m.F[0].Map = append(m.F[0].Map, ref.Entry{K: ref.Val{B: []byte(k)}, V: ref.Val{M: w.dump()}})
	}
	return m
}

func (x *MapStringVal) fill(m *ref.M) {
	for _, e := range m.F[0].Map {
		if x.V == nil {
			x.V = map[string]Leaf{}
		}
		var v Leaf
		v.fill(e.V.M)
		x.V[string(e.K.B)] = v
	}
}

func (x *MapStringVal) schema() *ref.Schema { return schemaMapStringVal }

type MapFixed64Val struct {
	V map[uint64]Leaf `protobuf:"bytes,1,rep,name=V" protobuf_key:"fixed64,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"`
}

var schemaMapFixed64Val = &ref.Schema{Keep: false, Fields: []*ref.Field{
	{Num: 1, Kind: ref.Msg, Card: ref.Map, Key: ref.Fixed64},
}}

func init() {
	schemaMapFixed64Val.Fields[0].Sub = schemaLeaf
}

func (x *MapFixed64Val) dump() *ref.M {
	if x == nil {
		return nil
	}
	m := ref.New(schemaMapFixed64Val)
	for k, v := range x.V {
		w := v
		m.F[0].Map = append(m.F[0].Map, ref.Entry{K: ref.Val{U: k}, V: ref.Val{M: w.dump()}})
	}
	return m
}

func (x *MapFixed64Val) fill(m *ref.M) {
	for _, e := range m.F[0].Map {
		if x.V == nil {
			x.V = map[uint64]Leaf{}
		}
		var v Leaf
		v.fill(e.V.M)
		x.V[uint64(e.K.U)] = v
	}
}

func (x *MapFixed64Val) schema() *ref.Schema { return schemaMapFixed64Val }

type MapBoolVal struct {
	V map[bool]Leaf `protobuf:"bytes,1,rep,name=V" protobuf_key:"varint,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"`
}

var schemaMapBoolVal = &ref.Schema{Keep: false, Fields: []*ref.Field{
	{Num: 1, Kind: ref.Msg, Card: ref.Map, Key: ref.Bool},
}}

func init() {
	schemaMapBoolVal.Fields[0].Sub = schemaLeaf
}

func (x *MapBoolVal) dump() *ref.M {
	if x == nil {
		return nil
	}
	m := ref.New(schemaMapBoolVal)
	for k, v := range x.V {
		w := v
		m.F[0].Map = append(m.F[0].Map, ref.Entry{K: ref.Val{U: sym.B2U(k)}, V: ref.Val{M: w.dump()}})
	}
	return m
}

func (x *MapBoolVal) fill(m *ref.M) {
	for _, e := range m.F[0].Map {
		if x.V == nil {
			x.V = map[bool]Leaf{}
		}
		var v Leaf
		v.fill(e.V.M)
		x.V[(e.K.U != 0)] = v
	}
}

func (x *MapBoolVal) schema() *ref.Schema { return schemaMapBoolVal }

type Nest struct {
	P             *Nest   `protobuf:"bytes,1,opt,name=P"`
	L             []*Nest `protobuf:"bytes,2,rep,name=L"`
	A             int32   `protobuf:"varint,3,opt,name=A,proto3"`
	S             string  `protobuf:"bytes,4,opt,name=S,proto3"`
	unknownFields []byte
}

var schemaNest = &ref.Schema{Keep: true, Fields: []*ref.Field{
	{Num: 1, Kind: ref.Msg, Card: ref.Explicit},
	{Num: 2, Kind: ref.Msg, Card: ref.Rep},
	{Num: 3, Kind: ref.Int32, Card: ref.Implicit},
	{Num: 4, Kind: ref.String, Card: ref.Implicit},
}}

func init() {
	schemaNest.Fields[0].Sub = schemaNest
	schemaNest.Fields[1].Sub = schemaNest
}

func (x *Nest) dump() *ref.M {
	if x == nil {
		return nil
	}
	m := ref.New(schemaNest)
	if x.P != nil {
		m.F[0] = ref.Slot{Set: true, V: ref.Val{M: x.P.dump()}}
	}
	for i := range x.L {
		m.F[1].List = append(m.F[1].List, ref.Val{M: x.L[i].dump()})
	}
	m.F[2].V = ref.Val{U: uint64(uint32(x.A))}
	m.F[3].V = ref.Val{B: []byte(x.S)}
	m.Unknown = x.unknownFields
	return m
}

func (x *Nest) fill(m *ref.M) {
	if m.F[0].Set {
		x.P = new(Nest)
		x.P.fill(m.F[0].V.M)
	}
	for _, e := range m.F[1].List {
		v := new(Nest)
		v.fill(e.M)
		x.L = append(x.L, v)
	}
	x.A = int32(m.F[2].V.U)
	x.S = string(m.F[3].V.B)
	x.unknownFields = m.Unknown
}

func (x *Nest) schema() *ref.Schema { return schemaNest }

type NestVal struct {
	V Leaf   `protobuf:"bytes,1,opt,name=V"`
	L []Leaf `protobuf:"bytes,2,rep,name=L"`
	P *Leaf  `protobuf:"bytes,3,opt,name=P"`
}

var schemaNestVal = &ref.Schema{Keep: false, Fields: []*ref.Field{
	{Num: 1, Kind: ref.Msg, Card: ref.Implicit},
	{Num: 2, Kind: ref.Msg, Card: ref.Rep},
	{Num: 3, Kind: ref.Msg, Card: ref.Explicit},
}}

func init() {
	schemaNestVal.Fields[0].Sub = schemaLeaf
	schemaNestVal.Fields[1].Sub = schemaLeaf
	schemaNestVal.Fields[2].Sub = schemaLeaf
}

func (x *NestVal) dump() *ref.M {
	if x == nil {
		return nil
	}
	m := ref.New(schemaNestVal)
	m.F[0] = ref.Slot{Set: true, V: ref.Val{M: x.V.dump()}}
	for i := range x.L {
		m.F[1].List = append(m.F[1].List, ref.Val{M: x.L[i].dump()})
	}
	if x.P != nil {
		m.F[2] = ref.Slot{Set: true, V: ref.Val{M: x.P.dump()}}
	}
	return m
}

func (x *NestVal) fill(m *ref.M) {
	if m.F[0].Set {
		x.V.fill(m.F[0].V.M)
	}
	for _, e := range m.F[1].List {
		var v Leaf
		v.fill(e.M)
		x.L = append(x.L, v)
	}
	if m.F[2].Set {
		x.P = new(Leaf)
		x.P.fill(m.F[2].V.M)
	}
}

func (x *NestVal) schema() *ref.Schema { return schemaNestVal }

type Rec struct {
	P *Rec            `protobuf:"bytes,1,opt,name=P"`
	L []*Rec          `protobuf:"bytes,2,rep,name=L"`
	M map[int32]*Rec  `protobuf:"bytes,3,rep,name=M" protobuf_key:"varint,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"`
	S map[string]*Rec `protobuf:"bytes,4,rep,name=S" protobuf_key:"bytes,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"`
	B map[bool]*Rec   `protobuf:"bytes,5,rep,name=B" protobuf_key:"varint,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"`
	V map[int64]*Rec  `protobuf:"bytes,6,rep,name=V" protobuf_key:"varint,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"`
}

var schemaRec = &ref.Schema{Keep: false, Fields: []*ref.Field{
	{Num: 1, Kind: ref.Msg, Card: ref.Explicit},
	{Num: 2, Kind: ref.Msg, Card: ref.Rep},
	{Num: 3, Kind: ref.Msg, Card: ref.Map, Key: ref.Int32},
	{Num: 4, Kind: ref.Msg, Card: ref.Map, Key: ref.String},
	{Num: 5, Kind: ref.Msg, Card: ref.Map, Key: ref.Bool},
	{Num: 6, Kind: ref.Msg, Card: ref.Map, Key: ref.Int64},
}}

func init() {
	schemaRec.Fields[0].Sub = schemaRec
	schemaRec.Fields[1].Sub = schemaRec
	schemaRec.Fields[2].Sub = schemaRec
	schemaRec.Fields[3].Sub = schemaRec
	schemaRec.Fields[4].Sub = schemaRec
	schemaRec.Fields[5].Sub = schemaRec
}

func (x *Rec) dump() *ref.M {
	if x == nil {
		return nil
	}
	m := ref.New(schemaRec)
	if x.P != nil {
		m.F[0] = ref.Slot{Set: true, V: ref.Val{M: x.P.dump()}}
	}
	for i := range x.L {
		m.F[1].List = append(m.F[1].List, ref.Val{M: x.L[i].dump()})
	}
	for k, v := range x.M {
		m.F[2].Map = append(m.F[2].Map, ref.Entry{K: ref.Val{U: uint64(uint32(k))}, V: ref.Val{M: v.dump()}})
	}
	for k, v := range x.S {
		m.F[3].Map = append(m.F[3].Map, ref.Entry{K: ref.Val{B: []byte(k)}, V: ref.Val{M: v.dump()}})
	}
	for k, v := range x.B {
		m.F[4].Map = append(m.F[4].Map, ref.Entry{K: ref.Val{U: sym.B2U(k)}, V: ref.Val{M: v.dump()}})
	}
	for k, v := range x.V {
		m.F[5].Map = append(m.F[5].Map, ref.Entry{K: ref.Val{U: uint64(k)}, V: ref.Val{M: v.dump()}})
	}
	return m
}

func (x *Rec) fill(m *ref.M) {
	if m.F[0].Set {
		x.P = new(Rec)
		x.P.fill(m.F[0].V.M)
	}
	for _, e := range m.F[1].List {
		v := new(Rec)
		v.fill(e.M)
		x.L = append(x.L, v)
	}
	for _, e := range m.F[2].Map {
		if x.M == nil {
			x.M = map[int32]*Rec{}
		}
		v := new(Rec)
		v.fill(e.V.M)
		x.M[int32(e.K.U)] = v
	}
	for _, e := range m.F[3].Map {
		if x.S == nil {
			x.S = map[string]*Rec{}
		}
		v := new(Rec)
		v.fill(e.V.M)
		x.S[string(e.K.B)] = v
	}
	for _, e := range m.F[4].Map {
		if x.B == nil {
			x.B = map[bool]*Rec{}
		}
		v := new(Rec)
		v.fill(e.V.M)
		x.B[(e.K.U != 0)] = v
	}
	for _, e := range m.F[5].Map {
		if x.V == nil {
			x.V = map[int64]*Rec{}
		}
		v := new(Rec)
		v.fill(e.V.M)
		x.V[int64(e.K.U)] = v
	}
}

func (x *Rec) schema() *ref.Schema { return schemaRec }

type UnkDirect struct {
	A             int32 `protobuf:"varint,2,opt,name=A,proto3"`
	unknownFields []byte
}

var schemaUnkDirect = &ref.Schema{Keep: true, Fields: []*ref.Field{
	{Num: 2, Kind: ref.Int32, Card: ref.Implicit},
}}

func (x *UnkDirect) dump() *ref.M {
	if x == nil {
		return nil
	}
	m := ref.New(schemaUnkDirect)
	m.F[0].V = ref.Val{U: uint64(uint32(x.A))}
	m.Unknown = x.unknownFields
	return m
}

func (x *UnkDirect) fill(m *ref.M) {
	x.A = int32(m.F[0].V.U)
	x.unknownFields = m.Unknown
}

func (x *UnkDirect) schema() *ref.Schema { return schemaUnkDirect }

type UnkOld struct {
	A                int32  `protobuf:"varint,2,opt,name=A,proto3"`
	XXX_unrecognized []byte `json:"-"`
}

var schemaUnkOld = &ref.Schema{Keep: true, Fields: []*ref.Field{
	{Num: 2, Kind: ref.Int32, Card: ref.Implicit},
}}

func (x *UnkOld) dump() *ref.M {
	if x == nil {
		return nil
	}
	m := ref.New(schemaUnkOld)
	m.F[0].V = ref.Val{U: uint64(uint32(x.A))}
	m.Unknown = x.XXX_unrecognized
	return m
}

func (x *UnkOld) fill(m *ref.M) {
	x.A = int32(m.F[0].V.U)
	x.XXX_unrecognized = m.Unknown
}

func (x *UnkOld) schema() *ref.Schema { return schemaUnkOld }

type UnkPtr struct {
	A             int32 `protobuf:"varint,2,opt,name=A,proto3"`
	unknownFields *[]byte
}

var schemaUnkPtr = &ref.Schema{Keep: true, Fields: []*ref.Field{
	{Num: 2, Kind: ref.Int32, Card: ref.Implicit},
}}

func (x *UnkPtr) dump() *ref.M {
	if x == nil {
		return nil
	}
	m := ref.New(schemaUnkPtr)
	m.F[0].V = ref.Val{U: uint64(uint32(x.A))}
	if x.unknownFields != nil {
		m.Unknown = *x.unknownFields
	}
	return m
}

func (x *UnkPtr) fill(m *ref.M) {
	x.A = int32(m.F[0].V.U)
	if len(m.Unknown) > 0 {
		u := m.Unknown
		x.unknownFields = &u
	}
}

func (x *UnkPtr) schema() *ref.Schema { return schemaUnkPtr }

type UnkNone struct {
	A int32 `protobuf:"varint,2,opt,name=A,proto3"`
}

var schemaUnkNone = &ref.Schema{Keep: false, Fields: []*ref.Field{
	{Num: 2, Kind: ref.Int32, Card: ref.Implicit},
}}

func (x *UnkNone) dump() *ref.M {
	if x == nil {
		return nil
	}
	m := ref.New(schemaUnkNone)
	m.F[0].V = ref.Val{U: uint64(uint32(x.A))}
	return m
}

func (x *UnkNone) fill(m *ref.M) {
	x.A = int32(m.F[0].V.U)
}

func (x *UnkNone) schema() *ref.Schema { return schemaUnkNone }

type UnkNest struct {
	A             int32                `protobuf:"varint,2,opt,name=A,proto3"`
	N             *UnkDirect           `protobuf:"bytes,3,opt,name=N"`
	P             *UnkPtr              `protobuf:"bytes,4,opt,name=P"`
	L             []*UnkOld            `protobuf:"bytes,5,rep,name=L"`
	M             map[int32]*UnkDirect `protobuf:"bytes,6,rep,name=M" protobuf_key:"varint,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"`
	unknownFields []byte
}

var schemaUnkNest = &ref.Schema{Keep: true, Fields: []*ref.Field{
	{Num: 2, Kind: ref.Int32, Card: ref.Implicit},
	{Num: 3, Kind: ref.Msg, Card: ref.Explicit},
	{Num: 4, Kind: ref.Msg, Card: ref.Explicit},
	{Num: 5, Kind: ref.Msg, Card: ref.Rep},
	{Num: 6, Kind: ref.Msg, Card: ref.Map, Key: ref.Int32},
}}

func init() {
	schemaUnkNest.Fields[1].Sub = schemaUnkDirect
	schemaUnkNest.Fields[2].Sub = schemaUnkPtr
	schemaUnkNest.Fields[3].Sub = schemaUnkOld
	schemaUnkNest.Fields[4].Sub = schemaUnkDirect
}

func (x *UnkNest) dump() *ref.M {
	if x == nil {
		return nil
	}
	m := ref.New(schemaUnkNest)
	m.F[0].V = ref.Val{U: uint64(uint32(x.A))}
	if x.N != nil {
		m.F[1] = ref.Slot{Set: true, V: ref.Val{M: x.N.dump()}}
	}
	if x.P != nil {
		m.F[2] = ref.Slot{Set: true, V: ref.Val{M: x.P.dump()}}
	}
	for i := range x.L {
		m.F[3].List = append(m.F[3].List, ref.Val{M: x.L[i].dump()})
	}
	for k, v := range x.M {
		m.F[4].Map = append(m.F[4].Map, ref.Entry{K: ref.Val{U: uint64(uint32(k))}, V: ref.Val{M: v.dump()}})
	}
	m.Unknown = x.unknownFields
	return m
}

func (x *UnkNest) fill(m *ref.M) {
	x.A = int32(m.F[0].V.U)
	if m.F[1].Set {
		x.N = new(UnkDirect)
		x.N.fill(m.F[1].V.M)
	}
	if m.F[2].Set {
		x.P = new(UnkPtr)
		x.P.fill(m.F[2].V.M)
	}
	for _, e := range m.F[3].List {
		v := new(UnkOld)
		v.fill(e.M)
		x.L = append(x.L, v)
	}
	for _, e := range m.F[4].Map {
		if x.M == nil {
			x.M = map[int32]*UnkDirect{}
		}
		v := new(UnkDirect)
		v.fill(e.V.M)
		x.M[int32(e.K.U)] = v
	}
	x.unknownFields = m.Unknown
}

func (x *UnkNest) schema() *ref.Schema { return schemaUnkNest }

type Nums struct {
	F15           int32 `protobuf:"varint,15,opt,name=F15,proto3"`
	F16           int32 `protobuf:"varint,16,opt,name=F16,proto3"`
	F999          int32 `protobuf:"varint,999,opt,name=F999,proto3"`
	F1000         int32 `protobuf:"varint,1000,opt,name=F1000,proto3"`
	F1001         int32 `protobuf:"varint,1001,opt,name=F1001,proto3"`
	F1002         int32 `protobuf:"varint,1002,opt,name=F1002,proto3"`
	F2047         int32 `protobuf:"varint,2047,opt,name=F2047,proto3"`
	F2048         int32 `protobuf:"varint,2048,opt,name=F2048,proto3"`
	F18999        int32 `protobuf:"varint,18999,opt,name=F18999,proto3"`
	F262143       int32 `protobuf:"varint,262143,opt,name=F262143,proto3"`
	F262144       int32 `protobuf:"varint,262144,opt,name=F262144,proto3"`
	F536870911    int32 `protobuf:"varint,536870911,opt,name=F536870911,proto3"`
	unknownFields []byte
}

var schemaNums = &ref.Schema{Keep: true, Fields: []*ref.Field{
	{Num: 15, Kind: ref.Int32, Card: ref.Implicit},
	{Num: 16, Kind: ref.Int32, Card: ref.Implicit},
	{Num: 999, Kind: ref.Int32, Card: ref.Implicit},
	{Num: 1000, Kind: ref.Int32, Card: ref.Implicit},
	{Num: 1001, Kind: ref.Int32, Card: ref.Implicit},
	{Num: 1002, Kind: ref.Int32, Card: ref.Implicit},
	{Num: 2047, Kind: ref.Int32, Card: ref.Implicit},
	{Num: 2048, Kind: ref.Int32, Card: ref.Implicit},
	{Num: 18999, Kind: ref.Int32, Card: ref.Implicit},
	{Num: 262143, Kind: ref.Int32, Card: ref.Implicit},
	{Num: 262144, Kind: ref.Int32, Card: ref.Implicit},
	{Num: 536870911, Kind: ref.Int32, Card: ref.Implicit},
}}

func (x *Nums) dump() *ref.M {
	if x == nil {
		return nil
	}
	m := ref.New(schemaNums)
	m.F[0].V = ref.Val{U: uint64(uint32(x.F15))}
	m.F[1].V = ref.Val{U: uint64(uint32(x.F16))}
	m.F[2].V = ref.Val{U: uint64(uint32(x.F999))}
	m.F[3].V = ref.Val{U: uint64(uint32(x.F1000))}
	m.F[4].V = ref.Val{U: uint64(uint32(x.F1001))}
	m.F[5].V = ref.Val{U: uint64(uint32(x.F1002))}
	m.F[6].V = ref.Val{U: uint64(uint32(x.F2047))}
	m.F[7].V = ref.Val{U: uint64(uint32(x.F2048))}
	m.F[8].V = ref.Val{U: uint64(uint32(x.F18999))}
	m.F[9].V = ref.Val{U: uint64(uint32(x.F262143))}
	m.F[10].V = ref.Val{U: uint64(uint32(x.F262144))}
	m.F[11].V = ref.Val{U: uint64(uint32(x.F536870911))}
	m.Unknown = x.unknownFields
	return m
}

func (x *Nums) fill(m *ref.M) {
	x.F15 = int32(m.F[0].V.U)
	x.F16 = int32(m.F[1].V.U)
	x.F999 = int32(m.F[2].V.U)
	x.F1000 = int32(m.F[3].V.U)
	x.F1001 = int32(m.F[4].V.U)
	x.F1002 = int32(m.F[5].V.U)
	x.F2047 = int32(m.F[6].V.U)
	x.F2048 = int32(m.F[7].V.U)
	x.F18999 = int32(m.F[8].V.U)
	x.F262143 = int32(m.F[9].V.U)
	x.F262144 = int32(m.F[10].V.U)
	x.F536870911 = int32(m.F[11].V.U)
	x.unknownFields = m.Unknown
}

func (x *Nums) schema() *ref.Schema { return schemaNums }

type NumsHigh struct {
	A             int32           `protobuf:"varint,536870911,opt,name=A,proto3"`
	B             string          `protobuf:"bytes,1001,opt,name=B,proto3"`
	C             []int32         `protobuf:"varint,262144,rep,packed,name=C"`
	D             map[int32]int32 `protobuf:"bytes,2048,rep,name=D" protobuf_key:"varint,1,opt,name=key" protobuf_val:"varint,2,opt,name=value"`
	unknownFields []byte
}

var schemaNumsHigh = &ref.Schema{Keep: true, Fields: []*ref.Field{
	{Num: 536870911, Kind: ref.Int32, Card: ref.Implicit},
	{Num: 1001, Kind: ref.String, Card: ref.Implicit},
	{Num: 262144, Kind: ref.Int32, Card: ref.Packed},
	{Num: 2048, Kind: ref.Int32, Card: ref.Map, Key: ref.Int32},
}}

func (x *NumsHigh) dump() *ref.M {
	if x == nil {
		return nil
	}
	m := ref.New(schemaNumsHigh)
	m.F[0].V = ref.Val{U: uint64(uint32(x.A))}
	m.F[1].V = ref.Val{B: []byte(x.B)}
	for _, v := range x.C {
		m.F[2].List = append(m.F[2].List, ref.Val{U: uint64(uint32(v))})
	}
	for k, v := range x.D {
		m.F[3].Map = append(m.F[3].Map, ref.Entry{K: ref.Val{U: uint64(uint32(k))}, V: ref.Val{U: uint64(uint32(v))}})
	}
	m.Unknown = x.unknownFields
	return m
}

func (x *NumsHigh) fill(m *ref.M) {
	x.A = int32(m.F[0].V.U)
	x.B = string(m.F[1].V.B)
	for _, e := range m.F[2].List {
		x.C = append(x.C, int32(e.U))
	}
	for _, e := range m.F[3].Map {
		if x.D == nil {
			x.D = map[int32]int32{}
		}
		x.D[int32(e.K.U)] = int32(e.V.U)
	}
	x.unknownFields = m.Unknown
}

func (x *NumsHigh) schema() *ref.Schema { return schemaNumsHigh }

// message is what every generated message type offers.
type message interface {
	dump() *ref.M
	fill(*ref.M)
	schema() *ref.Schema
}

var newMsg = []func() message{
	func() message { return new(Scalars) },
	func() message { return new(Opts) },
	func() message { return new(Lists) },
	func() message { return new(Packs) },
	func() message { return new(OneInt32) },
	func() message { return new(OneInt64) },
	func() message { return new(OneUint32) },
	func() message { return new(OneUint64) },
	func() message { return new(OneSint32) },
	func() message { return new(OneSint64) },
	func() message { return new(OneBool) },
	func() message { return new(OneFixed32) },
	func() message { return new(OneFixed64) },
	func() message { return new(OneSfixed32) },
	func() message { return new(OneSfixed64) },
	func() message { return new(OneFloat) },
	func() message { return new(OneDouble) },
	func() message { return new(OneString) },
	func() message { return new(OneBytes) },
	func() message { return new(OptInt32) },
	func() message { return new(OptInt64) },
	func() message { return new(OptUint32) },
	func() message { return new(OptUint64) },
	func() message { return new(OptSint32) },
	func() message { return new(OptSint64) },
	func() message { return new(OptBool) },
	func() message { return new(OptFixed32) },
	func() message { return new(OptFixed64) },
	func() message { return new(OptSfixed32) },
	func() message { return new(OptSfixed64) },
	func() message { return new(OptFloat) },
	func() message { return new(OptDouble) },
	func() message { return new(OptString) },
	func() message { return new(LstInt32) },
	func() message { return new(LstInt64) },
	func() message { return new(LstUint32) },
	func() message { return new(LstUint64) },
	func() message { return new(LstSint32) },
	func() message { return new(LstSint64) },
	func() message { return new(LstBool) },
	func() message { return new(LstFixed32) },
	func() message { return new(LstFixed64) },
	func() message { return new(LstSfixed32) },
	func() message { return new(LstSfixed64) },
	func() message { return new(LstFloat) },
	func() message { return new(LstDouble) },
	func() message { return new(LstString) },
	func() message { return new(LstBytes) },
	func() message { return new(PckInt32) },
	func() message { return new(PckInt64) },
	func() message { return new(PckUint32) },
	func() message { return new(PckUint64) },
	func() message { return new(PckSint32) },
	func() message { return new(PckSint64) },
	func() message { return new(PckBool) },
	func() message { return new(PckFixed32) },
	func() message { return new(PckFixed64) },
	func() message { return new(PckSfixed32) },
	func() message { return new(PckSfixed64) },
	func() message { return new(PckFloat) },
	func() message { return new(PckDouble) },
	func() message { return new(MapInt32Int32) },
	func() message { return new(MapInt32Int64) },
	func() message { return new(MapInt32Uint32) },
	func() message { return new(MapInt32Uint64) },
	func() message { return new(MapInt32Sint32) },
	func() message { return new(MapInt32Sint64) },
	func() message { return new(MapInt32Bool) },
	func() message { return new(MapInt32Fixed32) },
	func() message { return new(MapInt32Fixed64) },
	func() message { return new(MapInt32Sfixed32) },
	func() message { return new(MapInt32Sfixed64) },
	func() message { return new(MapInt32Float) },
	func() message { return new(MapInt32Double) },
	func() message { return new(MapInt32String) },
	func() message { return new(MapInt32Bytes) },
	func() message { return new(MapInt64Int32) },
	func() message { return new(MapInt64Int64) },
	func() message { return new(MapInt64Uint32) },
	func() message { return new(MapInt64Uint64) },
	func() message { return new(MapInt64Sint32) },
	func() message { return new(MapInt64Sint64) },
	func() message { return new(MapInt64Bool) },
	func() message { return new(MapInt64Fixed32) },
	func() message { return new(MapInt64Fixed64) },
	func() message { return new(MapInt64Sfixed32) },
	func() message { return new(MapInt64Sfixed64) },
	func() message { return new(MapInt64Float) },
	func() message { return new(MapInt64Double) },
	func() message { return new(MapInt64String) },
	func() message { return new(MapInt64Bytes) },
	func() message { return new(MapUint32Int32) },
	func() message { return new(MapUint32Int64) },
	func() message { return new(MapUint32Uint32) },
	func() message { return new(MapUint32Uint64) },
	func() message { return new(MapUint32Sint32) },
	func() message { return new(MapUint32Sint64) },
	func() message { return new(MapUint32Bool) },
	func() message { return new(MapUint32Fixed32) },
	func() message { return new(MapUint32Fixed64) },
	func() message { return new(MapUint32Sfixed32) },
	func() message { return new(MapUint32Sfixed64) },
	func() message { return new(MapUint32Float) },
	func() message { return new(MapUint32Double) },
	func() message { return new(MapUint32String) },
	func() message { return new(MapUint32Bytes) },
	func() message { return new(MapUint64Int32) },
	func() message { return new(MapUint64Int64) },
	func() message { return new(MapUint64Uint32) },
	func() message { return new(MapUint64Uint64) },
	func() message { return new(MapUint64Sint32) },
	func() message { return new(MapUint64Sint64) },
	func() message { return new(MapUint64Bool) },
	func() message { return new(MapUint64Fixed32) },
	func() message { return new(MapUint64Fixed64) },
	func() message { return new(MapUint64Sfixed32) },
	func() message { return new(MapUint64Sfixed64) },
	func() message { return new(MapUint64Float) },
	func() message { return new(MapUint64Double) },
	func() message { return new(MapUint64String) },
	func() message { return new(MapUint64Bytes) },
	func() message { return new(MapSint32Int32) },
	func() message { return new(MapSint32Int64) },
	func() message { return new(MapSint32Uint32) },
	func() message { return new(MapSint32Uint64) },
	func() message { return new(MapSint32Sint32) },
	func() message { return new(MapSint32Sint64) },
	func() message { return new(MapSint32Bool) },
	func() message { return new(MapSint32Fixed32) },
	func() message { return new(MapSint32Fixed64) },
	func() message { return new(MapSint32Sfixed32) },
	func() message { return new(MapSint32Sfixed64) },
	func() message { return new(MapSint32Float) },
	func() message { return new(MapSint32Double) },
	func() message { return new(MapSint32String) },
	func() message { return new(MapSint32Bytes) },
	func() message { return new(MapSint64Int32) },
	func() message { return new(MapSint64Int64) },
	func() message { return new(MapSint64Uint32) },
	func() message { return new(MapSint64Uint64) },
	func() message { return new(MapSint64Sint32) },
	func() message { return new(MapSint64Sint64) },
	func() message { return new(MapSint64Bool) },
	func() message { return new(MapSint64Fixed32) },
	func() message { return new(MapSint64Fixed64) },
	func() message { return new(MapSint64Sfixed32) },
	func() message { return new(MapSint64Sfixed64) },
	func() message { return new(MapSint64Float) },
	func() message { return new(MapSint64Double) },
	func() message { return new(MapSint64String) },
	func() message { return new(MapSint64Bytes) },
	func() message { return new(MapBoolInt32) },
	func() message { return new(MapBoolInt64) },
	func() message { return new(MapBoolUint32) },
	func() message { return new(MapBoolUint64) },
	func() message { return new(MapBoolSint32) },
	func() message { return new(MapBoolSint64) },
	func() message { return new(MapBoolBool) },
	func() message { return new(MapBoolFixed32) },
	func() message { return new(MapBoolFixed64) },
	func() message { return new(MapBoolSfixed32) },
	func() message { return new(MapBoolSfixed64) },
	func() message { return new(MapBoolFloat) },
	func() message { return new(MapBoolDouble) },
	func() message { return new(MapBoolString) },
	func() message { return new(MapBoolBytes) },
	func() message { return new(MapFixed32Int32) },
	func() message { return new(MapFixed32Int64) },
	func() message { return new(MapFixed32Uint32) },
	func() message { return new(MapFixed32Uint64) },
	func() message { return new(MapFixed32Sint32) },
	func() message { return new(MapFixed32Sint64) },
	func() message { return new(MapFixed32Bool) },
	func() message { return new(MapFixed32Fixed32) },
	func() message { return new(MapFixed32Fixed64) },
	func() message { return new(MapFixed32Sfixed32) },
	func() message { return new(MapFixed32Sfixed64) },
	func() message { return new(MapFixed32Float) },
	func() message { return new(MapFixed32Double) },
	func() message { return new(MapFixed32String) },
	func() message { return new(MapFixed32Bytes) },
	func() message { return new(MapFixed64Int32) },
	func() message { return new(MapFixed64Int64) },
	func() message { return new(MapFixed64Uint32) },
	func() message { return new(MapFixed64Uint64) },
	func() message { return new(MapFixed64Sint32) },
	func() message { return new(MapFixed64Sint64) },
	func() message { return new(MapFixed64Bool) },
	func() message { return new(MapFixed64Fixed32) },
	func() message { return new(MapFixed64Fixed64) },
	func() message { return new(MapFixed64Sfixed32) },
	func() message { return new(MapFixed64Sfixed64) },
	func() message { return new(MapFixed64Float) },
	func() message { return new(MapFixed64Double) },
	func() message { return new(MapFixed64String) },
	func() message { return new(MapFixed64Bytes) },
	func() message { return new(MapSfixed32Int32) },
	func() message { return new(MapSfixed32Int64) },
	func() message { return new(MapSfixed32Uint32) },
	func() message { return new(MapSfixed32Uint64) },
	func() message { return new(MapSfixed32Sint32) },
	func() message { return new(MapSfixed32Sint64) },
	func() message { return new(MapSfixed32Bool) },
	func() message { return new(MapSfixed32Fixed32) },
	func() message { return new(MapSfixed32Fixed64) },
	func() message { return new(MapSfixed32Sfixed32) },
	func() message { return new(MapSfixed32Sfixed64) },
	func() message { return new(MapSfixed32Float) },
	func() message { return new(MapSfixed32Double) },
	func() message { return new(MapSfixed32String) },
	func() message { return new(MapSfixed32Bytes) },
	func() message { return new(MapSfixed64Int32) },
	func() message { return new(MapSfixed64Int64) },
	func() message { return new(MapSfixed64Uint32) },
	func() message { return new(MapSfixed64Uint64) },
	func() message { return new(MapSfixed64Sint32) },
	func() message { return new(MapSfixed64Sint64) },
	func() message { return new(MapSfixed64Bool) },
	func() message { return new(MapSfixed64Fixed32) },
	func() message { return new(MapSfixed64Fixed64) },
	func() message { return new(MapSfixed64Sfixed32) },
	func() message { return new(MapSfixed64Sfixed64) },
	func() message { return new(MapSfixed64Float) },
	func() message { return new(MapSfixed64Double) },
	func() message { return new(MapSfixed64String) },
	func() message { return new(MapSfixed64Bytes) },
	func() message { return new(MapStringInt32) },
	func() message { return new(MapStringInt64) },
	func() message { return new(MapStringUint32) },
	func() message { return new(MapStringUint64) },
	func() message { return new(MapStringSint32) },
	func() message { return new(MapStringSint64) },
	func() message { return new(MapStringBool) },
	func() message { return new(MapStringFixed32) },
	func() message { return new(MapStringFixed64) },
	func() message { return new(MapStringSfixed32) },
	func() message { return new(MapStringSfixed64) },
	func() message { return new(MapStringFloat) },
	func() message { return new(MapStringDouble) },
	func() message { return new(MapStringString) },
	func() message { return new(MapStringBytes) },
	func() message { return new(Leaf) },
	func() message { return new(MapInt32Msg) },
	func() message { return new(MapInt64Msg) },
	func() message { return new(MapUint32Msg) },
	func() message { return new(MapUint64Msg) },
	func() message { return new(MapSint32Msg) },
	func() message { return new(MapSint64Msg) },
	func() message { return new(MapBoolMsg) },
	func() message { return new(MapFixed32Msg) },
	func() message { return new(MapFixed64Msg) },
	func() message { return new(MapSfixed32Msg) },
	func() message { return new(MapSfixed64Msg) },
	func() message { return new(MapStringMsg) },
	func() message { return new(MapInt32Val) },
	func() message { return new(MapStringVal) },
	func() message { return new(MapFixed64Val) },
	func() message { return new(MapBoolVal) },
	func() message { return new(Nest) },
	func() message { return new(NestVal) },
	func() message { return new(Rec) },
	func() message { return new(UnkDirect) },
	func() message { return new(UnkOld) },
	func() message { return new(UnkPtr) },
	func() message { return new(UnkNone) },
	func() message { return new(UnkNest) },
	func() message { return new(Nums) },
	func() message { return new(NumsHigh) },
	func() message { return new(OneofA) },
	func() message { return new(OneofB) },
}

const (
	TScalars             = 0
	TOpts                = 1
	TLists               = 2
	TPacks               = 3
	TOneInt32            = 4
	TOneInt64            = 5
	TOneUint32           = 6
	TOneUint64           = 7
	TOneSint32           = 8
	TOneSint64           = 9
	TOneBool             = 10
	TOneFixed32          = 11
	TOneFixed64          = 12
	TOneSfixed32         = 13
	TOneSfixed64         = 14
	TOneFloat            = 15
	TOneDouble           = 16
	TOneString           = 17
	TOneBytes            = 18
	TOptInt32            = 19
	TOptInt64            = 20
	TOptUint32           = 21
	TOptUint64           = 22
	TOptSint32           = 23
	TOptSint64           = 24
	TOptBool             = 25
	TOptFixed32          = 26
	TOptFixed64          = 27
	TOptSfixed32         = 28
	TOptSfixed64         = 29
	TOptFloat            = 30
	TOptDouble           = 31
	TOptString           = 32
	TLstInt32            = 33
	TLstInt64            = 34
	TLstUint32           = 35
	TLstUint64           = 36
	TLstSint32           = 37
	TLstSint64           = 38
	TLstBool             = 39
	TLstFixed32          = 40
	TLstFixed64          = 41
	TLstSfixed32         = 42
	TLstSfixed64         = 43
	TLstFloat            = 44
	TLstDouble           = 45
	TLstString           = 46
	TLstBytes            = 47
	TPckInt32            = 48
	TPckInt64            = 49
	TPckUint32           = 50
	TPckUint64           = 51
	TPckSint32           = 52
	TPckSint64           = 53
	TPckBool             = 54
	TPckFixed32          = 55
	TPckFixed64          = 56
	TPckSfixed32         = 57
	TPckSfixed64         = 58
	TPckFloat            = 59
	TPckDouble           = 60
	TMapInt32Int32       = 61
	TMapInt32Int64       = 62
	TMapInt32Uint32      = 63
	TMapInt32Uint64      = 64
	TMapInt32Sint32      = 65
	TMapInt32Sint64      = 66
	TMapInt32Bool        = 67
	TMapInt32Fixed32     = 68
	TMapInt32Fixed64     = 69
	TMapInt32Sfixed32    = 70
	TMapInt32Sfixed64    = 71
	TMapInt32Float       = 72
	TMapInt32Double      = 73
	TMapInt32String      = 74
	TMapInt32Bytes       = 75
	TMapInt64Int32       = 76
	TMapInt64Int64       = 77
	TMapInt64Uint32      = 78
	TMapInt64Uint64      = 79
	TMapInt64Sint32      = 80
	TMapInt64Sint64      = 81
	TMapInt64Bool        = 82
	TMapInt64Fixed32     = 83
	TMapInt64Fixed64     = 84
	TMapInt64Sfixed32    = 85
	TMapInt64Sfixed64    = 86
	TMapInt64Float       = 87
	TMapInt64Double      = 88
	TMapInt64String      = 89
	TMapInt64Bytes       = 90
	TMapUint32Int32      = 91
	TMapUint32Int64      = 92
	TMapUint32Uint32     = 93
	TMapUint32Uint64     = 94
	TMapUint32Sint32     = 95
	TMapUint32Sint64     = 96
	TMapUint32Bool       = 97
	TMapUint32Fixed32    = 98
	TMapUint32Fixed64    = 99
	TMapUint32Sfixed32   = 100
	TMapUint32Sfixed64   = 101
	TMapUint32Float      = 102
	TMapUint32Double     = 103
	TMapUint32String     = 104
	TMapUint32Bytes      = 105
	TMapUint64Int32      = 106
	TMapUint64Int64      = 107
	TMapUint64Uint32     = 108
	TMapUint64Uint64     = 109
	TMapUint64Sint32     = 110
	TMapUint64Sint64     = 111
	TMapUint64Bool       = 112
	TMapUint64Fixed32    = 113
	TMapUint64Fixed64    = 114
	TMapUint64Sfixed32   = 115
	TMapUint64Sfixed64   = 116
	TMapUint64Float      = 117
	TMapUint64Double     = 118
	TMapUint64String     = 119
	TMapUint64Bytes      = 120
	TMapSint32Int32      = 121
	TMapSint32Int64      = 122
	TMapSint32Uint32     = 123
	TMapSint32Uint64     = 124
	TMapSint32Sint32     = 125
	TMapSint32Sint64     = 126
	TMapSint32Bool       = 127
	TMapSint32Fixed32    = 128
	TMapSint32Fixed64    = 129
	TMapSint32Sfixed32   = 130
	TMapSint32Sfixed64   = 131
	TMapSint32Float      = 132
	TMapSint32Double     = 133
	TMapSint32String     = 134
	TMapSint32Bytes      = 135
	TMapSint64Int32      = 136
	TMapSint64Int64      = 137
	TMapSint64Uint32     = 138
	TMapSint64Uint64     = 139
	TMapSint64Sint32     = 140
	TMapSint64Sint64     = 141
	TMapSint64Bool       = 142
	TMapSint64Fixed32    = 143
	TMapSint64Fixed64    = 144
	TMapSint64Sfixed32   = 145
	TMapSint64Sfixed64   = 146
	TMapSint64Float      = 147
	TMapSint64Double     = 148
	TMapSint64String     = 149
	TMapSint64Bytes      = 150
	TMapBoolInt32        = 151
	TMapBoolInt64        = 152
	TMapBoolUint32       = 153
	TMapBoolUint64       = 154
	TMapBoolSint32       = 155
	TMapBoolSint64       = 156
	TMapBoolBool         = 157
	TMapBoolFixed32      = 158
	TMapBoolFixed64      = 159
	TMapBoolSfixed32     = 160
	TMapBoolSfixed64     = 161
	TMapBoolFloat        = 162
	TMapBoolDouble       = 163
	TMapBoolString       = 164
	TMapBoolBytes        = 165
	TMapFixed32Int32     = 166
	TMapFixed32Int64     = 167
	TMapFixed32Uint32    = 168
	TMapFixed32Uint64    = 169
	TMapFixed32Sint32    = 170
	TMapFixed32Sint64    = 171
	TMapFixed32Bool      = 172
	TMapFixed32Fixed32   = 173
	TMapFixed32Fixed64   = 174
	TMapFixed32Sfixed32  = 175
	TMapFixed32Sfixed64  = 176
	TMapFixed32Float     = 177
	TMapFixed32Double    = 178
	TMapFixed32String    = 179
	TMapFixed32Bytes     = 180
	TMapFixed64Int32     = 181
	TMapFixed64Int64     = 182
	TMapFixed64Uint32    = 183
	TMapFixed64Uint64    = 184
	TMapFixed64Sint32    = 185
	TMapFixed64Sint64    = 186
	TMapFixed64Bool      = 187
	TMapFixed64Fixed32   = 188
	TMapFixed64Fixed64   = 189
	TMapFixed64Sfixed32  = 190
	TMapFixed64Sfixed64  = 191
	TMapFixed64Float     = 192
	TMapFixed64Double    = 193
	TMapFixed64String    = 194
	TMapFixed64Bytes     = 195
	TMapSfixed32Int32    = 196
	TMapSfixed32Int64    = 197
	TMapSfixed32Uint32   = 198
	TMapSfixed32Uint64   = 199
	TMapSfixed32Sint32   = 200
	TMapSfixed32Sint64   = 201
	TMapSfixed32Bool     = 202
	TMapSfixed32Fixed32  = 203
	TMapSfixed32Fixed64  = 204
	TMapSfixed32Sfixed32 = 205
	TMapSfixed32Sfixed64 = 206
	TMapSfixed32Float    = 207
	TMapSfixed32Double   = 208
	TMapSfixed32String   = 209
	TMapSfixed32Bytes    = 210
	TMapSfixed64Int32    = 211
	TMapSfixed64Int64    = 212
	TMapSfixed64Uint32   = 213
	TMapSfixed64Uint64   = 214
	TMapSfixed64Sint32   = 215
	TMapSfixed64Sint64   = 216
	TMapSfixed64Bool     = 217
	TMapSfixed64Fixed32  = 218
	TMapSfixed64Fixed64  = 219
	TMapSfixed64Sfixed32 = 220
	TMapSfixed64Sfixed64 = 221
	TMapSfixed64Float    = 222
	TMapSfixed64Double   = 223
	TMapSfixed64String   = 224
	TMapSfixed64Bytes    = 225
	TMapStringInt32      = 226
	TMapStringInt64      = 227
	TMapStringUint32     = 228
	TMapStringUint64     = 229
	TMapStringSint32     = 230
	TMapStringSint64     = 231
	TMapStringBool       = 232
	TMapStringFixed32    = 233
	TMapStringFixed64    = 234
	TMapStringSfixed32   = 235
	TMapStringSfixed64   = 236
	TMapStringFloat      = 237
	TMapStringDouble     = 238
	TMapStringString     = 239
	TMapStringBytes      = 240
	TLeaf                = 241
	TMapInt32Msg         = 242
	TMapInt64Msg         = 243
	TMapUint32Msg        = 244
	TMapUint64Msg        = 245
	TMapSint32Msg        = 246
	TMapSint64Msg        = 247
	TMapBoolMsg          = 248
	TMapFixed32Msg       = 249
	TMapFixed64Msg       = 250
	TMapSfixed32Msg      = 251
	TMapSfixed64Msg      = 252
	TMapStringMsg        = 253
	TMapInt32Val         = 254
	TMapStringVal        = 255
	TMapFixed64Val       = 256
	TMapBoolVal          = 257
	TNest                = 258
	TNestVal             = 259
	TRec                 = 260
	TUnkDirect           = 261
	TUnkOld              = 262
	TUnkPtr              = 263
	TUnkNone             = 264
	TUnkNest             = 265
	TNums                = 266
	TNumsHigh            = 267
	TOneofA              = 268
	TOneofB              = 269
)
