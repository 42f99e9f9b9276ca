package gen

import (
	"go/ast"
	"go/constant"
	"go/types"
	"strconv"

	"github.com/cloudwego/prutal/internal/zzverif/sym"
)

// intLit is the value of a protobuf integer literal; ok is false if the text
// is not one literal. Values are capped well above every limit.
func intLit(s string) (v uint64, ok bool) {
	if s == "" {
		return 0, false
	}
	base := uint64(10)
	if s[0] == '0' && len(s) > 1 {
		base = 8
		s = s[1:]
		if s[0] == 'x' || s[0] == 'X' {
			base = 16
			s = s[1:]
			if s == "" {
				return 0, false
			}
		}
	}
	for i := 0; i < len(s); i++ {
		d := digit(s[i])
		if d >= base {
			return 0, false
		}
		if v = v*base + d; v > 1<<40 {
			v = 1 << 40
		}
	}
	return v, true
}

func digit(c byte) uint64 {
	switch {
	case '0' <= c && c <= '9':
		return uint64(c - '0')
	case 'a' <= c && c <= 'f':
		return uint64(c-'a') + 10
	case 'A' <= c && c <= 'F':
		return uint64(c-'A') + 10
	}
	return 99
}

// hexDigits returns n arbitrary hexadecimal digits.
func hexDigits(n int) string {
	b := sym.Bytes(n)
	for _, c := range b {
		sym.Assume(c >= '0' && c <= '9' || c >= 'a' && c <= 'f' || c >= 'A' && c <= 'F')
	}
	return string(b)
}

// decDigits returns n arbitrary decimal digits.
func decDigits(n int) string {
	b := sym.Bytes(n)
	for _, c := range b {
		sym.Assume(c >= '0' && c <= '9')
	}
	return string(b)
}

// tagNum returns the field number in a generated struct tag.
func tagNum(tag string) uint64 {
	i := 0
	for tag[i] != ',' {
		i++
	}
	v := uint64(0)
	for i++; tag[i] != ','; i++ {
		v = v*10 + digit(tag[i])
	}
	return v
}

var numPrefixes = []string{"", "0", "0x", "1", "19", "18999", "199", "5368709", "53687091", "0x1fffff", "0X2000000", "04447", "0x100000000", "42949672", "214748364", "922337203685477580", "1844674407370955161", "0x1000000000000000"}

// HNum: a field number is accepted exactly if it is an integer literal for a
// number fields may have, and is the number the field gets.
func HNum() {
	where := sym.Choose(3)
	lit := numPrefixes[sym.Choose(len(numPrefixes))] + hexDigits(int(sym.Param("n")))
	body := []string{"int32 x = ", "oneof o { int32 x = ", "map<int32, int32> x = "}[where] + lit + []string{";", "; }", ";"}[where]
	u, ok := generate("syntax = \"proto3\";\noption go_package = \"x/a\";\nmessage A {\n"+body+"\n}\n", false)
	v, valid := intLit(lit)
	valid = valid && v >= 1 && v <= 1<<29-1 && !(v >= 19000 && v <= 19999)
	sym.Assert(ok == valid, "a field number is refused although valid or accepted although not")
	if ok {
		u.valid()
		name := "A"
		if where == 1 {
			name = "A_X"
		}
		sym.Assert(tagNum(u.structOf(name).Tag(0)) == v, "a field gets another number than declared")
		sym.Reach("accepted")
	} else {
		sym.Reach("refused")
	}
}

// HNumSet: fields and reserved ranges; exactly the numbers that occur twice or
// are reserved are refused.
func HNumSet() {
	n := int(sym.Param("n"))
	a, b, c, d := decDigits(n), decDigits(n), decDigits(1), decDigits(n)
	va, vb, vc, vd := mustInt(a), mustInt(b), mustInt(c), mustInt(d)
	sym.Assume(va > 0 && vb > 0 && vc > 0)
	res := ""
	var lo, hi uint64 = 1, 0
	switch sym.Choose(5) {
	case 1:
		res, lo, hi = "reserved "+c+";", vc, vc
	case 2:
		res, lo, hi = "reserved 300, "+c+" to "+d+";", vc, vd
		sym.Assume(vc <= vd)
	case 3:
		res, lo, hi = "reserved 1000; reserved "+c+" to max;", vc, 1<<29-1
	case 4:
		res, lo, hi = "reserved 0x"+c+" to 0x"+c+";", vc, vc
	}
	body := "int32 x = " + a + ";\n"
	shape := sym.Choose(4)
	switch shape {
	case 0:
		body += "string y = " + b + ";"
	case 1:
		body += "oneof o { int32 z = 3000; string y = " + b + "; }"
	case 2:
		body += "message B { int32 q = " + a + "; } map<int32, B> y = " + b + ";"
	case 3:
		body = "repeated int32 y = " + b + ";\nmessage B { reserved " + b + "; int32 q = 2000; }" + body
	}
	if shape&1 == 0 {
		body = res + body
	} else {
		body += res
	}
	_, ok := load(file{"a.proto", "syntax = \"proto3\";\noption go_package = \"x/a\";\nmessage A {\n"+body+"\n}\n"})
	bad := va == vb || lo <= va && va <= hi || lo <= vb && vb <= hi || shape == 1 && hi > 3000
	sym.Assert(ok == !bad, "fields are refused although their numbers are valid or accepted although they are not")
	if ok {
		sym.Reach("accepted")
	} else {
		sym.Reach("refused")
	}
}

// mustInt assumes that the text is a literal.
func mustInt(s string) uint64 {
	v, ok := intLit(s)
	sym.Assume(ok)
	return v
}

var enumPrefixes = []string{"", "0", "0x", "1900", "214748364", "0x7ffffff", "0x8000000", "02000000000", "0x10000000"}

// HEnumNum: an enum value may have any 32-bit number, and gets it.
func HEnumNum() {
	lit := enumPrefixes[sym.Choose(len(enumPrefixes))] + hexDigits(int(sym.Param("n")))
	neg := sym.Choose(2) == 1
	sign := ""
	if neg {
		sign = "-"
	}
	nested := sym.Param("nested") != 0
	text := "enum E { Z = 0; option allow_alias = true; V = " + sign + lit + "; }\n"
	name := "E"
	if nested {
		text = "message A {\n" + text + "}\n"
		name = "A_E"
	}
	u, ok := generate("syntax = \"proto3\";\noption go_package = \"x/a\";\n"+text, false)
	v, valid := intLit(lit)
	valid = valid && (v <= 1<<31-1 || neg && v == 1<<31)
	sym.Assert(ok == valid, "an enum number is refused although valid or accepted although not")
	if !ok {
		sym.Reach("refused")
		return
	}
	sym.Reach("accepted")
	u.valid()
	want := int64(v)
	if neg {
		want = -want
	}
	cn := "E_V"
	if nested {
		cn = "A_V"
	}
	got, isInt := u.constVal(cn)
	sym.Assert(isInt && got == want, "an enum value gets another number than declared")
	ks, vs := u.mapVar(name + "_name")
	sym.Assert(len(ks) == len(vs) && len(vs) >= 1, "the name table of an enum is wrong")
	if want != 0 {
		sym.Assert(len(vs) == 2 && vs[1] == `"V"` && ks[1] == strconv.FormatInt(want, 10), "the name table of an enum is wrong")
	} else {
		sym.Assert(len(vs) == 1 && vs[0] == `"Z"`, "the name table of an enum is wrong")
	}
	ks, vs = u.mapVar(name + "_value")
	sym.Assert(len(vs) == 2 && ks[1] == `"V"` && vs[1] == strconv.FormatInt(want, 10), "the value table of an enum is wrong")
}

// HEnumSet: exactly the enum numbers that occur twice without allow_alias or
// are reserved are refused.
func HEnumSet() {
	n := int(sym.Param("n"))
	a, b, c := decDigits(n), decDigits(n), decDigits(1)
	va, vb, vc := int64(mustInt(a)), int64(mustInt(b)), int64(mustInt(c))
	if sym.Choose(2) == 1 {
		a, va = "-"+a, -va
	}
	if sym.Choose(2) == 1 {
		b, vb = "- "+b, -vb
	}
	lo, hi := int64(1), int64(0)
	res := ""
	switch sym.Choose(4) {
	case 1:
		res, lo, hi = "reserved "+c+";", vc, vc
	case 2:
		res, lo, hi = "reserved "+c+" to max;", vc, 1<<31-1
	case 3:
		res, lo, hi = "reserved 0x500 to 0x600, 0"+c+";", vc, vc
		sym.Assume(vc < 8)
	}
	alias := sym.Choose(3)
	text := "enum E { " + []string{"", "option allow_alias = true; ", "option allow_alias = false; "}[alias] + "V = " + a + "; W = " + b + "; " + res + " }\n"
	_, ok := load(file{"a.proto", "syntax = \"proto2\";\noption go_package = \"x/a\";\n"+text})
	bad := va == vb && alias != 1 || lo <= va && va <= hi || lo <= vb && vb <= hi
	sym.Assert(ok == !bad, "enum values are refused although their numbers are valid or accepted although they are not")
	if ok {
		sym.Reach("accepted")
	} else {
		sym.Reach("refused")
	}
}

// HEnumNeg: reserved ranges of enums may include negative numbers.
func HEnumNeg() {
	c := decDigits(1)
	v := int64(mustInt(c))
	res := []string{"-3 to " + c, "-3", "-1" + c + " to -6"}[sym.Choose(3)]
	_, ok := load(file{"a.proto", "syntax = \"proto2\";\noption go_package = \"x/a\";\nenum E { V = 100; W = "+c+"; reserved "+res+"; }\n"})
	bad := res[len(res)-1] == c[0] && res != "-3" && v >= -3
	sym.Assert(ok || bad, "an enum with a negative reserved range is refused")
	sym.Reach("done")
}

// ident returns an arbitrary identifier of n characters.
func ident(n int) string {
	b := sym.Bytes(n)
	for i, c := range b {
		sym.Assume(c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c == '_' || i > 0 && c >= '0' && c <= '9')
	}
	return string(b)
}

// HReservedName: exactly the names that are reserved are refused.
func HReservedName() {
	n := int(sym.Param("n"))
	a, b := ident(n), ident(n)
	res := "reserved \"foo\", '" + b + "';"
	if sym.Choose(2) == 1 {
		res = "reserved \"" + b + "\"; reserved \"foo\", \"b\" \"ar\";"
	}
	var body string
	bad := a == b
	switch sym.Choose(6) {
	case 0:
		body = "message A { " + res + " int32 " + a + " = 1; }"
	case 1:
		body = "message A { oneof o { int32 " + a + " = 1; } " + res + " }"
	case 2:
		body = "message A { map<int32, int32> " + a + " = 1; " + res + " }"
	case 3:
		body = "message A { message B { " + res + " } int32 " + a + " = 1; }"
		bad = false
	case 4:
		body = "enum E { " + res + " " + a + " = 0; }"
	case 5:
		body = "message A { enum E { Zero = 0; " + res + " } int32 " + a + " = 1; }"
		bad = false
	}
	_, ok := load(file{"a.proto", "syntax = \"proto3\";\noption go_package = \"x/a\";\n"+body+"\n"})
	sym.Assert(ok == !bad, "a name is refused although not reserved or accepted although reserved")
	if ok {
		sym.Reach("accepted")
	} else {
		sym.Reach("refused")
	}
}

// constVal returns the value of an integer constant.
func (u *unit) constVal(name string) (int64, bool) {
	c, _ := u.pkg.Scope().Lookup(name).(*types.Const)
	if c == nil {
		return 0, false
	}
	return constant.Int64Val(c.Val())
}

// mapVar returns the keys and values of a map variable's initial value, as
// written (signs included).
func (u *unit) mapVar(name string) (ks, vs []string) {
	for _, d := range u.file.Decls {
		g, _ := d.(*ast.GenDecl)
		if g == nil {
			continue
		}
		for _, s := range g.Specs {
			v, _ := s.(*ast.ValueSpec)
			if v == nil || v.Names[0].Name != name || len(v.Values) == 0 {
				continue
			}
			for _, e := range v.Values[0].(*ast.CompositeLit).Elts {
				kv := e.(*ast.KeyValueExpr)
				ks = append(ks, litText(kv.Key))
				vs = append(vs, litText(kv.Value))
			}
		}
	}
	return ks, vs
}

func litText(e ast.Expr) string {
	switch e := e.(type) {
	case *ast.BasicLit:
		return e.Value
	case *ast.UnaryExpr:
		return e.Op.String() + litText(e.X)
	}
	return "?"
}
