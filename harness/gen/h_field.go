package gen

import (
	"reflect"
	"strings"

	"github.com/cloudwego/prutal"
	"github.com/cloudwego/prutal/internal/zzverif/ref"
	"github.com/cloudwego/prutal/internal/zzverif/sym"
)

type kindInfo struct {
	name, goType string
	kind         ref.Kind
}

var kinds = []kindInfo{
	{"double", "float64", ref.Double}, {"float", "float32", ref.Float}, {"int32", "int32", ref.Int32}, {"int64", "int64", ref.Int64},
	{"uint32", "uint32", ref.Uint32}, {"uint64", "uint64", ref.Uint64}, {"sint32", "int32", ref.Sint32}, {"sint64", "int64", ref.Sint64},
	{"fixed32", "uint32", ref.Fixed32}, {"fixed64", "uint64", ref.Fixed64}, {"sfixed32", "int32", ref.Sfixed32}, {"sfixed64", "int64", ref.Sfixed64},
	{"bool", "bool", ref.Bool}, {"string", "string", ref.String}, {"bytes", "[]byte", ref.Bytes},
	{"E", "E", ref.Int32}, {"M", "M", ref.Msg},
}

func isKey(k ref.Kind) bool {
	return k != ref.Double && k != ref.Float && k != ref.Bytes && k != ref.Msg
}

var syntaxes = []string{"syntax = \"proto2\";", "syntax = \"proto3\";", "edition = \"2023\";"}

var fieldNums = []struct {
	s string
	n int
}{{"1", 1}, {"15", 15}, {"16", 16}, {"0x7ff", 2047}, {"04000", 2048}, {"536870911", 1<<29 - 1}}

var subSchema = &ref.Schema{Fields: []*ref.Field{{Num: 1, Kind: ref.Int32, Card: ref.Explicit}}}

// HField: every combination of field type, label, syntax and options that
// protobuf allows; the generated field has the Go type and the encoding the
// declaration asks for.
func HField() {
	syn := sym.Param("syn")
	ki := sym.Choose(len(kinds))
	k, num := kinds[ki], fieldNums[ki%len(fieldNums)]
	f := &ref.Field{Num: num.n, Kind: k.kind}
	if k.kind == ref.Msg {
		f.Sub = subSchema
	}
	packable := k.kind.Scalar()
	sub := "message M { optional int32 y = 1; }"
	if syn == 2 {
		sub = "message M { int32 y = 1 [features.field_presence = EXPLICIT]; }"
	}
	fileOpt, opts, decl := "", []string{}, ""
	goType := k.goType
	labels := [][]string{{"optional", "required", "repeated"}, {"", "optional", "repeated"}, {"", "repeated"}}[syn]
	li := sym.Choose(len(labels) + 3)
	label, where := "", "message"
	fileRep, filePres := "", ""
	if syn == 2 {
		switch sym.Choose(5) {
		case 1:
			fileRep = "EXPANDED"
		case 2:
			fileRep = "PACKED"
		case 3:
			filePres = "EXPLICIT"
		case 4:
			filePres = "IMPLICIT"
		}
		if fileRep+filePres != "" && sym.Param("full") == 0 {
			sym.Assume(k.name == "sint32" || k.name == "string" || k.name == "M")
		}
		if fileRep != "" {
			fileOpt = "option features.repeated_field_encoding = " + fileRep + ";\n"
		}
		if filePres != "" {
			fileOpt = "option features.field_presence = " + filePres + ";\n"
		}
	}
	noptr := false
	switch {
	case li < len(labels):
		label = labels[li]
		if label == "repeated" {
			f.Card = ref.Rep
			if packable {
				packed := syn == 1 || syn == 2 && fileRep != "EXPANDED"
				switch sym.Choose(3) {
				case 1:
					packed = true
					opts = append(opts, []string{"packed = true", "packed = true", "features.repeated_field_encoding = PACKED"}[syn])
				case 2:
					packed = false
					opts = append(opts, []string{"packed = false", "packed=false", "features.repeated_field_encoding = EXPANDED"}[syn])
				}
				if packed {
					f.Card = ref.Packed
				}
			}
			if k.kind == ref.Msg {
				noptr = sym.Choose(2) == 1
				if !noptr {
					goType = "*" + goType
				}
			}
			goType = "[]" + goType
		} else {
			explicit := syn == 0 || label == "optional" || syn == 2 && filePres != "IMPLICIT"
			if k.kind == ref.Msg {
				explicit = true
				noptr = sym.Choose(2) == 1
			} else if syn == 2 {
				switch sym.Choose(3) {
				case 1:
					explicit = true
					opts = append(opts, "features.field_presence = EXPLICIT")
				case 2:
					explicit = false
					opts = append(opts, "features.field_presence = IMPLICIT")
				}
			}
			if explicit {
				f.Card = ref.Explicit
				if k.kind != ref.Bytes && !noptr {
					goType = "*" + goType
				}
			}
		}
		decl = label + " " + k.name + " x = " + num.s
	case li == len(labels): // oneof member
		where = "oneof"
		f.Card = ref.Implicit // the wrapper struct by itself
		if k.kind == ref.Msg {
			goType = "*" + goType
		}
		decl = k.name + " x = " + num.s
	case li == len(labels)+1: // map value
		f.Card, f.Key = ref.Map, ref.Sint64
		if k.kind == ref.Msg {
			noptr = sym.Choose(2) == 1
			if !noptr {
				goType = "*" + goType
			}
		}
		goType = "map[int64]" + goType
		decl = "map<sint64, " + k.name + "> x = " + num.s
	default: // map key
		sym.Assume(isKey(k.kind) && k.name != "E")
		f.Card, f.Key, f.Kind = ref.Map, k.kind, ref.Fixed32
		goType = "map[" + goType + "]uint32"
		decl = "map<" + k.name + ", fixed32> x = " + num.s
	}
	msgComment, fieldComment := "", ""
	if noptr {
		switch sym.Choose(4) {
		case 0:
			opts = append(opts, "(gogoproto.nullable) = false")
		case 1:
			fieldComment = "//prutalgen:no_pointer\n"
		case 2:
			fieldComment = "// about x\n//prutalgen:some_thing, no_pointer\n"
		case 3:
			msgComment = "//prutalgen:no_pointer\n"
		}
	}
	if len(opts) > 0 {
		decl += " [" + strings.Join(opts, ", ") + "]"
	}
	body := fieldComment + decl + ";\n"
	if where == "oneof" {
		body = "oneof o {\n" + body + "}\n"
	}
	text := syntaxes[syn] + "\noption go_package = \"x/a\";\n" + fileOpt +
		"enum E { E0 = 0; E1 = 1; }\n" + sub + "\n\n" + msgComment + "message A {\n" + body + "}\n"

	u, ok := generate(text, sym.Param("getter") != 0)
	sym.Assert(ok, "a valid .proto file is refused")
	u.valid()
	name := "A"
	if where == "oneof" {
		name = "A_X"
	}
	st := u.structOf(name)
	sym.Assert(st != nil && st.NumFields() == 1, "the generated message does not have exactly its field")
	if s := strings.ReplaceAll(typeStr(st.Field(0).Type()), "uint8", "byte"); s != goType {
		sym.Assert(false, "the generated field has another Go type than declared: "+s)
	}
	byValue := k.kind == ref.Msg && noptr
	roundTrip(runtimeType(st), f, byValue)
	sym.Reach(label + " " + where)
}

// roundTrip decodes and encodes a value of the field through a type of the
// generated shape.
func roundTrip(t reflect.Type, f *ref.Field, byValue bool) {
	s := &ref.Schema{Fields: []*ref.Field{f}}
	m := ref.New(s)
	in := ref.New(s) // as m, but written even if zero
	v := arbVal(f.Kind)
	n := 0
	switch f.Card {
	case ref.Rep, ref.Packed:
		m.F[0].List = []ref.Val{v, v}
		in = m
	case ref.Map:
		m.F[0].Map = []ref.Entry{{K: arbVal(f.Key), V: v}}
		in = m
	default:
		m.F[0] = ref.Slot{Set: true, V: v}
		g := *f
		g.Card = ref.Explicit
		in = ref.New(&ref.Schema{Fields: []*ref.Field{&g}})
		in.F[0] = m.F[0]
	}
	p := reflect.New(t)
	err := prutal.Unmarshal(ref.Encode(nil, in), p.Interface())
	sym.Assert(err == nil, "the generated type does not decode what its declaration describes")
	rv := p.Elem().Field(0)
	switch f.Card {
	case ref.Rep, ref.Packed:
		sym.Assert(rv.Len() == 2, "the generated type decodes another number of elements")
		same(rv.Index(0), f.Kind, v)
		same(rv.Index(1), f.Kind, m.F[0].List[1])
	case ref.Map:
		sym.Assert(rv.Len() == 1, "the generated type decodes another number of entries")
		for it := rv.MapRange(); it.Next(); n++ {
			same(it.Key(), f.Key, m.F[0].Map[0].K)
			same(it.Value(), f.Kind, v)
		}
		sym.Assert(n == 1, "the generated type decodes another number of entries")
	default:
		if rv.Kind() == reflect.Pointer {
			sym.Assert(!rv.IsNil(), "the generated type does not decode its field")
		}
		same(rv, f.Kind, v)
	}
	out, err := prutal.Marshal(p.Interface())
	sym.Assert(err == nil, "the generated type is not encoded")
	want := ref.Encode(nil, m)
	if f.Kind == ref.Bytes && f.Card == ref.Explicit && len(v.B) == 0 {
		return // presence of empty bytes is not kept
	}
	sym.Assert(string(out) == string(want), "the generated type is not encoded as its declaration says")
	if byValue {
		return
	}
	out, err = prutal.Marshal(reflect.New(t).Interface())
	sym.Assert(err == nil && len(out) == 0, "an empty generated message has an encoding")
}

// arbVal returns an arbitrary small value or one with the top bit set.
func arbVal(k ref.Kind) ref.Val {
	switch k {
	case ref.Bool:
		return ref.Val{U: sym.B2U(sym.Bool())}
	case ref.String, ref.Bytes:
		return ref.Val{B: sym.Bytes(sym.Choose(2))}
	case ref.Msg:
		m := ref.New(subSchema)
		m.F[0] = ref.Slot{Set: true, V: ref.Val{U: uint64(sym.U32() & 0x7f)}}
		return ref.Val{M: m}
	case ref.Int32, ref.Uint32, ref.Sint32, ref.Fixed32, ref.Sfixed32, ref.Float:
		if sym.Choose(2) == 0 {
			return ref.Val{U: uint64(sym.U32() & 0x3f)}
		}
		return ref.Val{U: uint64(sym.U32()>>2 | 1<<31)}
	}
	if sym.Choose(2) == 0 {
		return ref.Val{U: sym.U64() & 0x3f}
	}
	return ref.Val{U: sym.U64()>>2 | 1<<63}
}

// same checks a decoded Go value.
func same(rv reflect.Value, k ref.Kind, v ref.Val) {
	if rv.Kind() == reflect.Pointer {
		rv = rv.Elem()
	}
	switch k {
	case ref.String:
		sym.Assert(rv.String() == string(v.B), "the generated type decodes another value")
	case ref.Bytes:
		sym.Assert(string(rv.Bytes()) == string(v.B), "the generated type decodes another value")
	case ref.Msg:
		same(rv.Field(0), ref.Int32, v.M.F[0].V)
	case ref.Bool:
		sym.Assert(sym.B2U(rv.Bool()) == v.U, "the generated type decodes another value")
	case ref.Float, ref.Double:
		// bit patterns are checked through the encoding
	case ref.Uint32, ref.Fixed32, ref.Uint64, ref.Fixed64:
		sym.Assert(rv.Uint() == v.U, "the generated type decodes another value")
	case ref.Int32, ref.Sint32, ref.Sfixed32:
		sym.Assert(uint32(rv.Int()) == uint32(v.U), "the generated type decodes another value")
	default:
		sym.Assert(uint64(rv.Int()) == v.U, "the generated type decodes another value")
	}
}

func SetupGen() {
	for _, s := range syntaxes {
		load(file{"warm.proto", s + "\noption go_package = \"x/a\";\npackage a;\nmessage A {\n repeated int32 x = 1 [packed = true, (g.n) = false]; // hello\n map<string, A> m = 2; oneof o { bool c = 3; } enum E { X = 0; } reserved 4 to 9; E e = 11; }\nservice S { rpc R(A) returns (stream A); }\n"})
	}
}
