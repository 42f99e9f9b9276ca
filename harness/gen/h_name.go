package gen

import (
	"go/ast"
	"go/constant"
	"go/types"
	"reflect"
	"strconv"
	"strings"

	"github.com/cloudwego/prutal/internal/zzverif/sym"
)

// camel is the Go name of a protobuf name in the code of protoc-gen-go.
func camel(s string) string {
	var b []byte
	up := true // a lower-case letter starts a word
	for i := 0; i < len(s); i++ {
		c := s[i]
		switch {
		case c == '_':
			if i == 0 {
				b = append(b, 'X')
			} else if i+1 == len(s) || s[i+1] < 'a' || s[i+1] > 'z' {
				b = append(b, '_')
			}
			up = true
		case c >= 'a' && c <= 'z':
			if up {
				c -= 'a' - 'A'
			}
			b = append(b, c)
			up = false
		case c >= '0' && c <= '9':
			b = append(b, c)
			up = true
		default:
			b = append(b, c)
			up = false
		}
	}
	return string(b)
}

func identifier(n int) string {
	b := sym.Bytes(n)
	for i, c := range b {
		sym.Assume(c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c == '_' || i > 0 && c >= '0' && c <= '9')
	}
	return string(b)
}

// goNames are the Go names of fields and oneofs of a message; oneofs gives the
// name of the oneof that starts with a field.
func goNames(fields []string, oneofs map[int]string) (fs []string, of map[int]string) {
	used := map[string]bool{}
	for _, m := range []string{"Reset", "String", "ProtoMessage", "Marshal", "Unmarshal", "ExtensionRangeArray", "ExtensionMap", "Descriptor"} {
		used[m] = true
	}
	of = map[int]string{}
	for i, f := range fields {
		g := camel(f)
		for used[g] || used["Get"+g] {
			g += "_"
		}
		used[g], used["Get"+g] = true, true
		fs = append(fs, g)
		if o, ok := oneofs[i]; ok {
			g := camel(o)
			for used[g] {
				g += "_"
			}
			used[g] = true
			of[i] = g
		}
	}
	return
}

// HName: the declarations of a file appear in the generated code under the
// names of protoc-gen-go, with all their content, whatever their names are.
func HName() {
	n := int(sym.Param("n"))
	what := int(sym.Param("what"))
	names := []string{"OuterOne", "Inn", "Top", "Kin", "Uno", "Zero", "second", "union", "three"}
	pres := [][]string{{""}, {"", "a_"}, {"", "_9"}, {""}, {"", "a_b"}, {""}, {"", "get_firs", "rese", "Strin", "thre", "_"}, {"", "secon", "unmarsha", "get_firs", "get_thre"}, {"", "get_secon", "in", "ki"}}[what]
	pre := pres[sym.Choose(len(pres))]
	x := identifier(n)
	sym.Assume(pre+x != "inf" && pre+x != "nan")
	names[what] = pre + x
	getter := sym.Param("getter") != 0
	noPrefix := sym.Param("nop") != 0
	line := ""
	if noPrefix {
		line = "//prutalgen:no_enum_prefix\n"
	}
	text := line + "syntax = \"proto3\";\noption go_package = \"x/a\";\n" +
		"message " + names[0] + " {\n message " + names[1] + " { int32 zed = 1; }\n enum " + names[3] + " { " + names[5] + " = 0; Ein = 7; }\n" +
		" int32 first = 1;\n string " + names[6] + " = 2;\n oneof " + names[7] + " { bool " + names[8] + " = 3; " + names[1] + " inn = 4; " + names[3] + " kin = 5; }\n}\n" +
		"enum " + names[2] + " { " + names[4] + " = 0; Due = 3; }\nservice Serv { rpc Call(" + names[0] + ") returns (" + names[0] + "); }\n"
	ps, ok := load(file{"a.proto", text})
	fields := []string{"first", names[6], names[8], "inn", "kin"}
	distinct(append(fields, names[7])...)
	distinct(names[0], names[2])
	distinct(names[1], names[3], names[6], names[7])
	outer := camel(names[0])
	sym.Assert(ok, "a valid file is refused because of a name")
	u := newImporter().check("x/a", code(ps[0], getter))

	// protoc-gen-go has the same limits: Go names that differ in Proto only by
	// case or underscores, and getters of oneofs named like fields
	inner, kin, top := nested(names[0], names[1]), nested(names[0], names[3]), camel(names[2])
	fs, of := goNames(fields, map[int]string{2: names[7]})
	wrap := make([]string, len(fields))
	for i := 2; i < len(fields); i++ {
		wrap[i] = outer + "_" + fs[i]
		for wrap[i] == inner || wrap[i] == kin {
			wrap[i] += "_"
		}
	}
	cpre, kpre := top+"_", outer+"_"
	consts := []string{cpre + names[4], cpre + "Due", kpre + names[5], kpre + "Ein"}
	if noPrefix {
		consts = []string{camel(names[4]), "Due", camel(names[5]), "Ein"}
	}
	all := append([]string{outer, inner, kin, top, "is" + outer + "_" + of[2], top + "_name", top + "_value", kin + "_name", kin + "_value"}, consts...)
	for _, w := range wrap[2:] {
		all = append(all, w)
	}
	for i := range all {
		for j := range all[:i] {
			sym.Assume(all[i] != all[j])
		}
	}
	if getter {
		for _, f := range fs {
			sym.Assume("Get"+of[2] != f && of[2] != f)
		}
	}
	u.valid()
	sc := u.pkg.Scope()
	for _, n := range all {
		sym.Assert(sc.Lookup(n) != nil, "a declaration is missing from the generated code or has another name: "+n)
	}
	sym.Assert(len(sc.Names()) == len(all), "the generated code has declarations the file has not")
	st := u.structOf(outer)
	sym.Assert(st.NumFields() == 3, "a message has another number of fields than declared")
	for i, f := range []string{fs[0], fs[1], of[2]} {
		sym.Assert(st.Field(i).Name() == f, "a field has another name than protoc-gen-go's")
		pb := reflect.StructTag(st.Tag(i)).Get("protobuf")
		if i < 2 {
			sym.Assert(strings.HasSuffix(pb, ",opt,name="+fields[i]) || strings.HasSuffix(pb, ",opt,name="+fields[i]+",proto3"), "a struct tag has another name than the field")
			sym.Assert(reflect.StructTag(st.Tag(i)).Get("json") == fields[i]+",omitempty", "a JSON tag has another name than the field")
		} else {
			sym.Assert(reflect.StructTag(st.Tag(i)).Get("protobuf_oneof") == names[7], "a oneof has another name in its tag")
		}
	}
	for i := 2; i < len(fields); i++ {
		s := u.structOf(wrap[i])
		sym.Assert(s != nil && s.NumFields() == 1 && s.Field(0).Name() == fs[i], "a oneof member has another name than protoc-gen-go's")
	}
	for i, v := range []int64{0, 3, 0, 7} {
		c, ok := sc.Lookup(consts[i]).(*types.Const)
		sym.Assert(ok, "an enum value is not a constant")
		got, _ := constant.Int64Val(c.Val())
		e := top
		if i > 1 {
			e = kin
		}
		_, tn := goTypeOf(c.Type())
		sym.Assert(got == v && tn == e, "an enum value has another number or type than declared")
	}
	checkMaps(u, top, names[4], 0, "Due", 3)
	checkMaps(u, kin, names[5], 0, "Ein", 7)
	if getter {
		o := sc.Lookup(outer).(*types.TypeName)
		ms := types.NewMethodSet(types.NewPointer(o.Type()))
		for _, f := range append(append([]string{}, fs...), of[2]) {
			sym.Assert(ms.Lookup(u.pkg, "Get"+f) != nil, "a getter is missing")
		}
	}
	sv := ps[0].Services
	sym.Assert(len(sv) == 1 && len(sv[0].Methods) == 1 && sv[0].Methods[0].Request.GoName() == outer, "a method refers to another type than declared")
	sym.Reach("done")
}

// nested is the Go name of a type declared in a message.
func nested(outer, name string) string {
	// the path is converted as a whole, a dot before a lower-case letter is dropped
	if name[0] >= 'a' && name[0] <= 'z' {
		return camel(outer) + camel(name)
	}
	return camel(outer) + "_" + camel(name)
}

// checkMaps checks the name and value maps of an enum with two values.
func checkMaps(u *unit, e, n1 string, v1 int, n2 string, v2 int) {
	found := 0
	for _, d := range u.file.Decls {
		g, ok := d.(*ast.GenDecl)
		if !ok {
			continue
		}
		for _, s := range g.Specs {
			v, ok := s.(*ast.ValueSpec)
			if !ok || len(v.Names) != 1 || v.Names[0].Name != e+"_name" && v.Names[0].Name != e+"_value" {
				continue
			}
			found++
			es := v.Values[0].(*ast.CompositeLit).Elts
			sym.Assert(len(es) == 2, "an enum map has another number of entries than values")
			for i, el := range es {
				k, w := el.(*ast.KeyValueExpr).Key.(*ast.BasicLit), el.(*ast.KeyValueExpr).Value.(*ast.BasicLit)
				if v.Names[0].Name == e+"_value" {
					k, w = w, k
				}
				num, name := v1, n1
				if i == 1 {
					num, name = v2, n2
				}
				sym.Assert(k.Value == strconv.Itoa(num) && w.Value == strconv.Quote(name), "an enum map has an entry the enum has not")
			}
		}
	}
	sym.Assert(found == 2, "an enum has no maps of its names and values")
}
