package codec

import (
	"reflect"

	"github.com/cloudwego/prutal"
	"github.com/cloudwego/prutal/internal/zzverif/ref"
	"github.com/cloudwego/prutal/internal/zzverif/sym"
)

// structWith returns a struct type with one field A of type t and the given
// protobuf tags.
func structWith(t reflect.Type, tag, more string) reflect.Type {
	return reflect.StructOf([]reflect.StructField{{Name: "A", Type: t, Tag: reflect.StructTag("protobuf:\"" + tag + "\"" + more)}})
}

// tagCheck uses a struct with an int32 field tagged tag: it must work with the
// number and encoding stated, or be refused everywhere.
func tagCheck(tag string, num uint64, enc int) {
	p := reflect.New(structWith(reflect.TypeOf(int32(0)), tag, ""))
	p.Elem().Field(0).SetInt(-3)
	b, err := prutal.Marshal(p.Interface())
	n, err1 := prutal.Size(p.Interface())
	q := reflect.New(p.Type().Elem())
	if enc < 0 || num < 1 || num > 1<<29-1 {
		sym.Reach("refused")
		sym.Assert(err != nil, "a field with an invalid tag is encoded")
		sym.Assert(err1 != nil, "a field with an invalid tag is sized")
		sym.Assert(prutal.Unmarshal(nil, q.Interface()) != nil, "a field with an invalid tag is decoded")
		return
	}
	sym.Reach("accepted")
	sym.Assert(err == nil && err1 == nil, "a field with a valid tag is refused")
	wt := []uint64{0, 0, 5}[enc]
	want := ref.AppendUvarint(nil, num<<3|wt)
	want = append(want, [][]byte{{0xfd, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 1}, {5}, {0xfd, 0xff, 0xff, 0xff}}[enc]...)
	sym.Assert(n == len(want) && string(b) == string(want), "the field is not encoded as its tag says")
	other := ref.AppendUvarint(nil, (num^1)<<3|0)
	if num != 1 {
		want = append(append(other, 9), want...)
	}
	err = prutal.Unmarshal(want, q.Interface())
	sym.Assert(err == nil && q.Elem().Field(0).Int() == -3, "the field is not decoded as its tag says")
}

func digits(n int) (string, uint64) {
	b := make([]byte, n)
	var v uint64
	for i := range b {
		d := sym.Int(0, 9)
		b[i] = byte('0' + d)
		v = v*10 + uint64(d)
	}
	return string(b), v
}

var tagEncs = []string{"varint", "zigzag32", "fixed32"}

// HTagNum: the field number of a struct tag, as any sequence of digits.
func HTagNum() {
	pres := []string{"", "0", "00", "9", "10", "99", "123", "999", "1600", "26214", "204", "209715", "26843545", "3355443", "5368709", "53687091", "42949672", "429496729",
		"99999999", "999999999", "1844674407370955161", "18446744073709551616", "100000000000000000000000"}
	pre := pres[sym.Choose(len(pres))]
	d, v := digits(sym.Param("n"))
	e := sym.Param("enc")
	for i, hi := 0, uint64(0); i < len(pre); i++ {
		hi = hi*10 + uint64(pre[i]-'0')
		if hi > 1<<40 {
			hi = 1 << 40
		}
		if i == len(pre)-1 {
			for range d {
				hi *= 10
			}
			v += hi
		}
	}
	s := pre + d
	switch sym.Choose(3) {
	case 0:
		s = tagEncs[e] + "," + s + ",opt,name=a,proto3"
	case 1:
		s = s + "," + tagEncs[e]
	case 2:
		s = tagEncs[e] + ", " + s + " ,req,json=a,name=a,def=7"
	}
	tagCheck(s, v, e)
}

// HTagText: names and default values in a tag never act as options.
func HTagText() {
	key := []string{"name=", "json=", "enum=", "def="}[sym.Choose(4)]
	b := sym.Bytes(sym.Param("n"))
	for _, c := range b {
		sym.Assume(c != '"' && c != '\\' && c != '\n' && c < 0x7f && c >= 0x20)
		if key != "def=" {
			sym.Assume(c != ',')
		}
	}
	s := string(b)
	if key == "def=" {
		s += []string{"", ",7", ",rep", ",packed", ",fixed64", ",group", ",bytes", ",req", ", 8 ", ",varint"}[sym.Choose(10)]
	}
	e := sym.Choose(3)
	tagCheck(tagEncs[e]+",5,opt,"+key+s, 5, e)
}

// HTagBad: tags without a usable encoding or number.
func HTagBad() {
	t := []string{"5,opt", "varint,opt", "group,5,opt", "varint,x5,opt", "varint,-5,opt", "varint,5x,opt", "int32,5,opt,name=a", "zigzag,5",
		"varint,0,opt", ",", "varint", "5", "varint,536870912", "varint,18446744073709551617,opt", "varint,4294967297,opt", "varint,99999999999999999999999,opt"}
	tagCheck(t[sym.Choose(len(t))], 0, -1)
}

// HTagDup: two fields never share a number.
func HTagDup() {
	d1, v1 := digits(sym.Param("n"))
	d2, v2 := digits(sym.Param("n"))
	if hi := uint64(sym.Param("hi")); hi > 0 {
		// a concrete leading digit makes the number large
		for i := uint64(0); i < uint64(len(d1)); i++ {
			hi *= 10
		}
		v1, v2 = v1+hi, v2+hi
		d1, d2 = string(rune('0'+sym.Param("hi")))+d1, string(rune('0'+sym.Param("hi")))+d2
	}
	sym.Assume(v1 > 0 && v2 > 0)
	ft := reflect.TypeOf(int32(0))
	st := reflect.StructOf([]reflect.StructField{
		{Name: "A", Type: ft, Tag: reflect.StructTag("protobuf:\"varint," + d1 + ",opt,name=a\"")},
		{Name: "B", Type: ft, Tag: reflect.StructTag("protobuf:\"varint," + d2 + ",opt,name=b\"")}})
	p := reflect.New(st)
	p.Elem().Field(0).SetInt(1)
	p.Elem().Field(1).SetInt(2)
	b, err := prutal.Marshal(p.Interface())
	if v1 == v2 {
		sym.Assert(err != nil, "two fields share a number")
		sym.Reach("refused")
		return
	}
	sym.Assert(err == nil, "two fields with different numbers are refused")
	x := append(ref.AppendUvarint(nil, v1<<3), 1)
	y := append(ref.AppendUvarint(nil, v2<<3), 2)
	sym.Assert(string(b) == string(x)+string(y) || string(b) == string(y)+string(x), "the fields are not encoded as their tags say")
	q := reflect.New(st)
	err = prutal.Unmarshal(append(y, x...), q.Interface())
	sym.Assert(err == nil && q.Elem().Field(0).Int() == 1 && q.Elem().Field(1).Int() == 2, "the fields are not decoded as their tags say")
	sym.Reach("accepted")
}

type tagSub struct {
	X int32 `protobuf:"varint,1,opt,name=x"`
}

type tagIface interface{ f() }

type (
	tagEnum  int32
	tagBytes []byte
	tagStr   string
	tagFunc  func()
)

// the Go types a field can be built from
var tagBase = []reflect.Type{
	reflect.TypeOf(int32(0)), reflect.TypeOf(int64(0)), reflect.TypeOf(uint32(0)), reflect.TypeOf(uint64(0)),
	reflect.TypeOf(false), reflect.TypeOf(float32(0)), reflect.TypeOf(float64(0)), reflect.TypeOf(""), reflect.TypeOf([]byte(nil)),
	reflect.TypeOf(tagSub{}), reflect.TypeOf(tagEnum(0)), reflect.TypeOf(tagStr("")),
	// not representable
	reflect.TypeOf(int(0)), reflect.TypeOf(int8(0)), reflect.TypeOf(uint8(0)), reflect.TypeOf(int16(0)), reflect.TypeOf(uint(0)), reflect.TypeOf(uintptr(0)),
	reflect.TypeOf(complex64(0)), reflect.TypeOf([4]int32{}), reflect.TypeOf((chan int)(nil)), reflect.TypeOf(tagFunc(nil)),
	reflect.TypeOf((*tagIface)(nil)).Elem(), reflect.TypeOf((*any)(nil)).Elem(), reflect.TypeOf([4]byte{}), reflect.TypeOf([]string(nil)),
	reflect.TypeOf(map[int32]int32(nil)), reflect.TypeOf((*int32)(nil)), reflect.TypeOf((*tagSub)(nil)), reflect.TypeOf(tagBytes(nil)),
}

var tagWords = []string{"varint", "zigzag32", "zigzag64", "fixed32", "fixed64", "bytes"}

// scalarFits reports whether a scalar Go kind can have the encoding.
func scalarFits(t reflect.Type, enc string) bool {
	switch t.Kind() {
	case reflect.Int32:
		return enc == "varint" || enc == "zigzag32" || enc == "fixed32"
	case reflect.Int64:
		return enc == "varint" || enc == "zigzag64" || enc == "fixed64"
	case reflect.Uint32:
		return enc == "varint" || enc == "fixed32"
	case reflect.Uint64:
		return enc == "varint" || enc == "fixed64"
	case reflect.Bool:
		return enc == "varint"
	case reflect.Float32:
		return enc == "fixed32"
	case reflect.Float64:
		return enc == "fixed64"
	case reflect.String:
		return enc == "bytes"
	}
	return false
}

// elemFits reports whether t can be the element of a list or the value of a map.
func elemFits(t reflect.Type, enc string) bool {
	if t == reflect.TypeOf([]byte(nil)) || t == reflect.TypeOf(tagSub{}) || t == reflect.TypeOf((*tagSub)(nil)) {
		return enc == "bytes"
	}
	return scalarFits(t, enc)
}

func singularFits(t reflect.Type, enc string) bool {
	if t == reflect.TypeOf((*[]byte)(nil)) {
		return enc == "bytes"
	}
	if t.Kind() == reflect.Pointer && t != reflect.TypeOf((*tagSub)(nil)) {
		return scalarFits(t.Elem(), enc)
	}
	return elemFits(t, enc)
}

func keyFits(t reflect.Type, enc string) bool { return scalarFits(t, enc) }

// accepts uses a struct type with one field and checks that it is supported
// exactly when it should be, and that it is safe to use if it is.
func accepts(t reflect.Type, tag, more string, want bool) {
	if !want {
		p := reflect.New(structWith(t, tag, more))
		_, e1 := prutal.Marshal(p.Interface())
		_, e2 := prutal.Size(p.Interface())
		e3 := prutal.Unmarshal(nil, p.Interface())
		sym.Assert(e1 != nil && e2 != nil && e3 != nil, "a field whose Go type cannot hold what its tag says is accepted")
		sym.Reach("refused")
		return
	}
	st := structWith(t, tag, more)
	p := reflect.New(st)
	b, e1 := prutal.Marshal(p.Interface())
	_, e2 := prutal.Size(p.Interface())
	e3 := prutal.Unmarshal(nil, p.Interface())
	sym.Assert(e1 == nil && e2 == nil && e3 == nil, "a field of a supported type is refused")
	if t.Kind() != reflect.Struct {
		sym.Assert(len(b) == 0, "an empty message has an encoding")
	}
	// whatever arrives for the field, memory stays intact
	in := append([]byte{8 | byte(sym.Choose(6))}, sym.Bytes(sym.Param("b"))...)
	if err := prutal.Unmarshal(in, p.Interface()); err != nil {
		sym.Reach("undecodable")
		return
	}
	b, err := prutal.Marshal(p.Interface())
	sym.Assert(err == nil, "a decoded message is not encoded")
	n, err := prutal.Size(p.Interface())
	sym.Assert(err == nil && n == len(b), "size differs from the length of the encoding")
	q := reflect.New(st)
	err = prutal.Unmarshal(b, q.Interface())
	sym.Assert(err == nil, "an encoded message is not decoded")
	c, err := prutal.Marshal(q.Interface())
	sym.Assert(err == nil && len(c) == len(b), "decoding and encoding again gives another message")
	if t.Kind() != reflect.Map {
		sym.Assert(string(c) == string(b), "decoding and encoding again gives another message")
	}
	sym.Reach("used")
}

// HAccField: every shape of field type under every encoding.
func HAccField() {
	base := tagBase[sym.Choose(len(tagBase))]
	enc := tagWords[sym.Choose(len(tagWords))]
	card := sym.Choose(3)
	tag := enc + ",1," + []string{"opt", "rep", "rep,packed"}[card]
	var t reflect.Type
	var want bool
	switch sym.Choose(8) {
	case 0:
		t = base
		want = card == 0 && singularFits(t, enc)
		if t.Kind() == reflect.Slice && t.Elem().Kind() != reflect.Uint8 {
			want = card == 1 && elemFits(t.Elem(), enc) || card == 2 && enc != "bytes" && scalarFits(t.Elem(), enc)
		}
		if t.Kind() == reflect.Map {
			want = card == 1 && enc == "bytes"
		}
	case 1:
		t = reflect.PointerTo(base)
		want = card == 0 && singularFits(t, enc)
		if base == reflect.TypeOf(tagSub{}) {
			want = card == 0 && enc == "bytes"
		}
	case 2:
		t = reflect.SliceOf(base)
		want = card == 1 && elemFits(base, enc) || card == 2 && enc != "bytes" && scalarFits(base, enc)
		if base.Kind() == reflect.Uint8 { // []byte
			want = card == 0 && enc == "bytes"
		}
	case 3:
		t = reflect.SliceOf(reflect.PointerTo(base))
		want = card == 1 && base == reflect.TypeOf(tagSub{}) && enc == "bytes"
	case 4:
		t = reflect.SliceOf(reflect.SliceOf(base))
		want = card == 1 && base.Kind() == reflect.Uint8 && enc == "bytes"
	case 5:
		t = reflect.PointerTo(reflect.PointerTo(base))
	case 6:
		t = reflect.PointerTo(reflect.SliceOf(base))
		want = card == 0 && singularFits(t, enc)
	case 7:
		t = reflect.PointerTo(reflect.MapOf(reflect.TypeOf(int32(0)), base))
	}
	accepts(t, tag, ` protobuf_key:"varint,1,opt,name=key" protobuf_val:"varint,2,opt,name=value"`, want)
}

// HAccMap: every shape of map key and value under every encoding.
func HAccMap() {
	card := sym.Choose(3)
	kt, vt := tagBase[0], tagBase[0]
	ke, ve := "varint", "varint"
	base := tagBase[sym.Choose(len(tagBase))]
	enc := tagWords[sym.Choose(len(tagWords))]
	want := card == 1
	if sym.Choose(2) == 0 {
		sym.Assume(base.Comparable())
		kt, ke = base, enc
		want = want && keyFits(kt, ke)
	} else {
		vt, ve = base, enc
		switch sym.Choose(4) {
		case 1:
			vt = reflect.PointerTo(base)
		case 2:
			vt = reflect.SliceOf(base)
		case 3:
			vt = reflect.MapOf(kt, base)
		}
		want = want && elemFits(vt, ve)
	}
	tag := tagWords[[]int{5, 0, 3}[sym.Choose(3)]]
	want = want && tag == "bytes"
	accepts(reflect.MapOf(kt, vt), tag+",1,"+[]string{"opt", "rep", "rep,packed"}[card],
		" protobuf_key:\""+ke+",1,opt,name=key\" protobuf_val:\""+ve+",2,opt,name=value\"", want)
}

// Types with a field that is called like the holder of unknown fields but
// cannot or must not be used as one, next to types that do hold them.
type (
	ushString struct {
		A             int32 `protobuf:"varint,1,opt,name=a"`
		unknownFields string
		B             int64 `protobuf:"varint,2,opt,name=b"`
	}
	ushNamed struct {
		A             int32 `protobuf:"varint,1,opt,name=a"`
		unknownFields tagBytes
		B             int64 `protobuf:"varint,2,opt,name=b"`
	}
	ushInts struct {
		A                int32 `protobuf:"varint,1,opt,name=a"`
		XXX_unrecognized []int32
		B                int64 `protobuf:"varint,2,opt,name=b"`
	}
	ushInt struct {
		A             int32 `protobuf:"varint,1,opt,name=a"`
		unknownFields int64
		B             int64 `protobuf:"varint,2,opt,name=b"`
	}
	ushPtr struct {
		A             int32 `protobuf:"varint,1,opt,name=a"`
		unknownFields *string
		B             int64 `protobuf:"varint,2,opt,name=b"`
	}
	ushPtrInts struct {
		A             int32 `protobuf:"varint,1,opt,name=a"`
		unknownFields *[]uint32
		B             int64 `protobuf:"varint,2,opt,name=b"`
	}
	ushPtrNamed struct {
		A                int32 `protobuf:"varint,1,opt,name=a"`
		XXX_unrecognized *tagBytes
		B                int64 `protobuf:"varint,2,opt,name=b"`
	}
	ushPtrArray struct {
		A             int32 `protobuf:"varint,1,opt,name=a"`
		unknownFields *[24]byte
		B             int64 `protobuf:"varint,2,opt,name=b"`
	}
	ushStrings struct {
		A             int32 `protobuf:"varint,1,opt,name=a"`
		unknownFields []string
		B             int64 `protobuf:"varint,2,opt,name=b"`
	}
	ushPtrPtr struct {
		A             int32 `protobuf:"varint,1,opt,name=a"`
		unknownFields **[]byte
		B             int64 `protobuf:"varint,2,opt,name=b"`
	}
	ushEmb struct {
		Guard         [2]uint64
		unknownFields []byte
	}
	ushEmbedded struct {
		A int32 `protobuf:"varint,1,opt,name=a"`
		ushEmb
		B int64 `protobuf:"varint,2,opt,name=b"`
	}
	ushEmbeddedPtr struct {
		A int32 `protobuf:"varint,1,opt,name=a"`
		*ushEmb
		B int64 `protobuf:"varint,2,opt,name=b"`
	}
	ushBoth struct {
		A                int32 `protobuf:"varint,1,opt,name=a"`
		unknownFields    string
		XXX_unrecognized []byte
		B                int64 `protobuf:"varint,2,opt,name=b"`
	}
	ushLate struct {
		A             int32 `protobuf:"varint,1,opt,name=a"`
		B             int64 `protobuf:"varint,2,opt,name=b"`
		Guard         [2]uint64
		unknownFields []byte
	}
	ushLatePtr struct {
		A                int32 `protobuf:"varint,1,opt,name=a"`
		B                int64 `protobuf:"varint,2,opt,name=b"`
		Guard            [2]uint64
		XXX_unrecognized *[]byte
	}
)

// HAccUnk: whatever field holds or seems to hold unknown fields, known fields
// decode, nothing else of the message changes, and the encoding carries the
// unknown fields exactly when they are held.
func HAccUnk() {
	var x any
	var a *int32
	var b *int64
	var other func() bool // reports that nothing else was changed
	holds := false
	switch sym.Choose(15) {
	case 0:
		v := &ushString{unknownFields: "keep"}
		x, a, b, other = v, &v.A, &v.B, func() bool { return v.unknownFields == "keep" }
	case 1:
		v := &ushNamed{unknownFields: tagBytes("keep")}
		x, a, b, other = v, &v.A, &v.B, func() bool { return string(v.unknownFields) == "keep" }
	case 2:
		v := &ushInts{XXX_unrecognized: []int32{1, 2, 3}}
		x, a, b, other = v, &v.A, &v.B, func() bool {
			u := v.XXX_unrecognized
			return len(u) == 3 && u[0] == 1 && u[1] == 2 && u[2] == 3
		}
	case 3:
		v := &ushInt{unknownFields: 77}
		x, a, b, other = v, &v.A, &v.B, func() bool { return v.unknownFields == 77 }
	case 4:
		s := "keep"
		v := &ushPtr{unknownFields: &s}
		x, a, b, other = v, &v.A, &v.B, func() bool { return v.unknownFields == &s && s == "keep" }
	case 5:
		s := []byte("keep")
		p := &s
		v := &ushPtrPtr{unknownFields: &p}
		x, a, b, other = v, &v.A, &v.B, func() bool { return v.unknownFields == &p && p == &s && string(s) == "keep" }
	case 6:
		v := &ushEmbedded{}
		v.unknownFields = []byte("keep")
		x, a, b, other = v, &v.A, &v.B, func() bool { return string(v.unknownFields) == "keep" && v.Guard == [2]uint64{} }
	case 7:
		e := &ushEmb{unknownFields: []byte("keep")}
		v := &ushEmbeddedPtr{ushEmb: e}
		x, a, b, other = v, &v.A, &v.B, func() bool { return v.ushEmb == e && string(e.unknownFields) == "keep" && e.Guard == [2]uint64{} }
	case 8:
		v := &ushBoth{unknownFields: "keep"}
		x, a, b, other = v, &v.A, &v.B, func() bool { return v.unknownFields == "keep" }
		holds = true
	case 9:
		v := &ushLate{Guard: [2]uint64{1, 2}}
		x, a, b, other = v, &v.A, &v.B, func() bool { return v.Guard == [2]uint64{1, 2} }
		holds = true
	case 10:
		v := &ushLatePtr{Guard: [2]uint64{1, 2}}
		x, a, b, other = v, &v.A, &v.B, func() bool { return v.Guard == [2]uint64{1, 2} }
		holds = true
	case 11:
		s := []uint32{7, 8}
		v := &ushPtrInts{unknownFields: &s}
		x, a, b, other = v, &v.A, &v.B, func() bool { return v.unknownFields == &s && len(s) == 2 && s[0] == 7 && s[1] == 8 }
	case 12:
		s := tagBytes("keep")
		v := &ushPtrNamed{XXX_unrecognized: &s}
		x, a, b, other = v, &v.A, &v.B, func() bool { return v.XXX_unrecognized == &s && string(s) == "keep" }
	case 13:
		s := [24]byte{1, 2, 3}
		v := &ushPtrArray{unknownFields: &s}
		x, a, b, other = v, &v.A, &v.B, func() bool { return v.unknownFields == &s && s == [24]byte{1, 2, 3} }
	case 14:
		v := &ushStrings{unknownFields: []string{"keep", "it"}}
		x, a, b, other = v, &v.A, &v.B, func() bool {
			u := v.unknownFields
			return len(u) == 2 && u[0] == "keep" && u[1] == "it"
		}
	}
	u := append([]byte{5<<3 | 2, byte(sym.Param("n"))}, sym.Bytes(sym.Param("n"))...)
	va, vb := sym.Int(1, 127), sym.Int(1, 127)
	in := append([]byte{8, byte(va)}, u...)
	in = append(in, 16, byte(vb))
	for i := sym.Choose(2); i >= 0; i-- { // once or twice
		err := prutal.Unmarshal(in, x)
		sym.Assert(err == nil, "valid input is rejected")
		sym.Assert(*a == int32(va) && *b == int64(vb), "a field is not decoded")
		sym.Assert(other(), "decoding changes memory that belongs to no protobuf field")
	}
	out, err := prutal.Marshal(x)
	sym.Assert(err == nil, "a decoded message is not encoded")
	n, err := prutal.Size(x)
	sym.Assert(err == nil && n == len(out), "size differs from the length of the encoding")
	want := []byte{8, byte(va), 16, byte(vb)}
	if holds {
		want = append(want, u...)
	}
	sym.Assert(string(out) == string(want), "the encoding has not the known and unknown fields")
	sym.Assert(other(), "encoding changes the message")
	sym.Reach("done")
}
