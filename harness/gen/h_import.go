package gen

import (
	"go/types"
	"strings"
	"unicode"

	"github.com/cloudwego/prutal/internal/zzverif/sym"
)

// HImport: whatever Go packages the files of a program are given, the
// generated code compiles and refers to the types of the right package.
func HImport() {
	n := int(sym.Param("n"))
	b := sym.Bytes(n)
	for _, c := range b {
		sym.Assume(c >= 'a' && c <= 'z' || c == '-' || c == '.' || c == '/' || c >= '0' && c <= '9')
	}
	base := string(b)
	sym.Assume(base[0] != '/' && base[n-1] != '/' && !strings.Contains(base, "//") && base[0] != '.' && !strings.Contains(base, "/."))
	pre := []string{"x/", "x/strcon", "x/pruta", "x/strin", "x/int3", "x/g", ""}[sym.Choose(7)]
	gb := pre + base
	name := ""
	form := sym.Choose(3)
	sym.Assume(form == 0 || pre == "x/" || sym.Param("full") != 0)
	switch form {
	case 1:
		name = []string{"b", "a", "c", "strconv", "x"}[sym.Choose(5)]
		gb += ";" + name
	case 2:
		gb = " " + gb + " ; b "
		name = "b"
	}
	gc := []string{"x/c", "y/a", "z/" + base, "x/a", "x/c;b", pre + base}[sym.Choose(6)]
	sym.Assume(form == 0 || gc == "x/c" || gc == "y/a" || sym.Param("full") != 0)
	sym.Assume(pre == "x/" || strings.HasPrefix(gc, "z/") || gc == "x/a" || sym.Param("full") != 0)
	pathB, pathC := pre+base, strings.Split(gc, ";")[0]
	sym.Assume(pathB != pathC || !strings.Contains(gb+gc, ";")) // one name for one package
	sym.Assume(pathB != "x/a" || name == "" || name == "a")
	files := []file{
		{"a.proto", `syntax = "proto3";
option go_package = "x/a";
package a;
import "b.proto";
import "c.proto";
enum U { U0 = 0; }
message A {
	b.T bt = 1;
	c.T ct = 2;
	U u = 3;
	map<string, b.T> bm = 4;
	repeated b.E be = 5;
	oneof o { c.E ce = 6; b.T.N bn = 7; }
	c.E ce2 = 8;
	b.E be2 = 9;
}
`},
		{"b.proto", "syntax = \"proto3\";\noption go_package = \"" + gb + "\";\npackage b;\nmessage T { message N { int32 x = 1; } }\nenum E { E0 = 0; }\n"},
		{"c.proto", "syntax = \"proto3\";\noption go_package = \"" + gc + "\";\npackage c;\nmessage T { int32 x = 1; }\nenum E { E0 = 0; }\n"},
	}
	if pathB == pathC {
		files[2].text = strings.NewReplacer("T", "T2", "E", "E2").Replace(files[2].text)
		files[0].text = strings.NewReplacer("c.T", "c.T2", "c.E", "c.E2").Replace(files[0].text)
	}
	ps, ok := load(files...)
	sym.Assert(ok, "a valid program is refused")
	for _, p := range ps {
		if p.Package == "b" {
			sym.Assert(p.GoImport == pathB, "a file gets another Go import path than declared")
			if name != "" {
				sym.Assert(p.GoPackage == name, "a file gets another Go package name than declared")
			}
		}
		ident := p.GoPackage != "_"
		for i, c := range p.GoPackage {
			ident = ident && (c == '_' || unicode.IsLetter(c) || i > 0 && unicode.IsDigit(c))
		}
		sym.Assert(ident, "the package name is not a Go identifier")
	}
	us := checkAll(ps, true)
	for _, u := range us {
		u.valid()
	}
	t2, e2 := "T", "E"
	if pathB == pathC {
		t2, e2 = "T2", "E2"
	}
	st := us["x/a"].structOf("A")
	want := func(t types.Type, path, name string) {
		p, n := goTypeOf(t)
		sym.Assert(p == path && n == name, "a field has a type of another package")
	}
	at := func(i int) types.Type { return st.Field(i).Type() }
	want(at(0), pathB, "T")
	want(at(1), pathC, t2)
	want(at(2), "x/a", "U")
	want(at(3).(*types.Map).Elem(), pathB, "T")
	want(at(4).(*types.Slice).Elem(), pathB, "E")
	want(at(6), pathC, e2)
	want(at(7), pathB, "E")
	want(us["x/a"].structOf("A_Ce").Field(0).Type(), pathC, e2)
	want(us["x/a"].structOf("A_Bn").Field(0).Type(), pathB, "T_N")
	sym.Reach("done")
}
