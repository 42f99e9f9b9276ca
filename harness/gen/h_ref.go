package gen

import (
	"go/types"
	"strings"

	"github.com/cloudwego/prutal/internal/zzverif/sym"
	"github.com/cloudwego/prutal/prutalgen/pkg/prutalgen"
)

// decl is a type declared in one of the files.
type decl struct {
	full   string // fully-qualified protobuf name
	goPath string
	goName string
}

// resolveName resolves a type name the way the protobuf language specifies:
// the innermost scope is searched first, and the first part of a qualified
// name decides. vague is set where refusing is right but prutalgen accepts more.
func resolveName(ds []decl, scope, name string) (d *decl, vague bool) {
	find := func(full string) *decl {
		for i := range ds {
			if ds[i].full == full {
				return &ds[i]
			}
		}
		return nil
	}
	if name[0] == '.' {
		return find(name[1:]), true
	}
	first, rest, qualified := strings.Cut(name, ".")
	for {
		at := first
		if scope != "" {
			at = scope + "." + first
		}
		if !qualified {
			if d := find(at); d != nil {
				return d, false
			}
		} else {
			for i := range ds {
				if f := ds[i].full; strings.HasPrefix(f, at+".") || f == at && ds[i].goName[0] != 'e' {
					return find(at + "." + rest), true
				}
			}
		}
		if scope == "" {
			return nil, false
		}
		if i := strings.LastIndexByte(scope, '.'); i >= 0 {
			scope = scope[:i]
		} else {
			scope = ""
		}
	}
}

// letter returns an arbitrary one-letter name.
func letter() string {
	c := sym.Byte()
	sym.Assume(c >= 'A' && c <= 'C')
	return string([]byte{c})
}

func distinct(ns ...string) {
	for i := range ns {
		for j := range ns[:i] {
			sym.Assume(ns[i] != ns[j])
		}
	}
}

func join(a, b string) string {
	if a == "" {
		return b
	}
	return a + "." + b
}

func pkgLine(p string) string {
	if p == "" {
		return ""
	}
	return "package " + p + ";\n"
}

// goTypeOf returns import path and name of the named type a field refers to.
func goTypeOf(t types.Type) (string, string) {
	if p, ok := t.(*types.Pointer); ok {
		t = p.Elem()
	}
	n, ok := t.(*types.Named)
	if !ok {
		return "", t.String()
	}
	return n.Obj().Pkg().Path(), n.Obj().Name()
}

func refName(parts int) string {
	var ps []string
	for i := 0; i < parts; i++ {
		ps = append(ps, letter())
	}
	return strings.Join(ps, ".")
}

// HRefNest: references inside one file.
func HRefNest() {
	pkg := []string{"", "A", "A.B"}[sym.Choose(3)]
	m1, m2, m3, e4, m5 := letter(), letter(), letter(), letter(), letter()
	distinct(m1, m5)
	distinct(m2, e4)
	ref := refName(1 + sym.Choose(int(sym.Param("parts"))))
	if sym.Choose(2) == 1 {
		ref = "." + join(pkg, ref)
	}
	at := sym.Choose(3)
	r := []string{"", "", ""}
	field := ref + " x = 1; "
	r[at] = field
	text := "syntax = \"proto3\";\n" + pkgLine(pkg) + "option go_package = \"x/a\";\n" +
		"message " + m1 + " { " + r[0] +
		"message " + m2 + " { " + r[1] + "message " + m3 + " { " + r[2] + " int32 y = 2; } } " +
		"enum " + e4 + " { Z = 0; } }\nmessage " + m5 + " { int32 z = 3; }\n"
	p1 := join(pkg, m1)
	ds := []decl{{p1, "x/a", m1}, {p1 + "." + m2, "x/a", m1 + "_" + m2}, {p1 + "." + m2 + "." + m3, "x/a", m1 + "_" + m2 + "_" + m3},
		{p1 + "." + e4, "x/a", m1 + "_" + e4}, {join(pkg, m5), "x/a", m5}}
	scope := []string{p1, ds[1].full, ds[2].full}[at]
	want, vague := resolveName(ds, scope, ref)
	sym.Assume(want != nil || sym.Param("und") != 0)
	u, ok := generate(text, false)
	if want == nil {
		sym.Assert(!ok || vague, "a reference to an undeclared type is accepted")
		sym.Reach("undeclared")
		return
	}
	sym.Assert(ok, "a valid reference to a type is refused")
	u.valid()
	st := u.structOf([]string{ds[0].goName, ds[1].goName, ds[2].goName}[at])
	p, n := goTypeOf(st.Field(0).Type())
	sym.Assert(p == want.goPath && n == want.goName, "a reference means another type")
	sym.Reach("resolved")
}

// HRefFile: references to types of imported files, directly or through public
// imports, in any packages.
func HRefFile() {
	pkgs := []string{"", "A", "A.B", "B"}
	pa, pb, pc := pkgs[sym.Choose(4)], pkgs[sym.Choose(4)], "A"
	public := sym.Choose(2) == 1
	if public || sym.Param("und") != 0 {
		pc = pkgs[sym.Choose(4)]
	}
	n := sym.Param("names")
	ma, mb, mc := "A", letter(), letter()
	if n > 2 {
		ma = letter()
	}
	ref := refName(1 + sym.Choose(int(sym.Param("parts"))))
	if sym.Choose(2) == 1 {
		ref = "." + ref
	}
	ds := []decl{{join(pa, ma), "x/a", ma}, {join(pb, mb), "x/b", mb}, {join(pb, mb) + ".B", "x/b", mb + "_B"}}
	if public {
		ds = append(ds, decl{join(pc, mc), "x/c", mc})
	}
	for i := range ds {
		for _, p := range []string{pa, pb, pc} {
			// no package has the name of a type
			sym.Assume(ds[i].full != p && !strings.HasPrefix(p, ds[i].full+"."))
		}
		for j := range ds[:i] {
			sym.Assume(ds[i].full != ds[j].full)
		}
	}
	imp := "import "
	if public {
		imp = "import public "
	}
	files := []file{
		{"a.proto", "syntax = \"proto3\";\n" + pkgLine(pa) + "option go_package = \"x/a\";\nimport \"b.proto\";\nmessage " + ma + " { " + ref + " x = 1; }\n"},
		{"b.proto", "syntax = \"proto3\";\n" + pkgLine(pb) + "option go_package = \"x/b\";\n" + imp + "\"c.proto\";\nmessage " + mb + " { message B { int32 y = 1; } }\n"},
		{"c.proto", "syntax = \"proto3\";\n" + pkgLine(pc) + "option go_package = \"x/c\";\nmessage " + mc + " { int32 y = 1; }\n"},
	}
	want, vague := resolveName(ds, join(pa, ma), ref)
	sym.Assume(want != nil || sym.Param("und") != 0)
	us, ok := generateAll(files, false)
	if want == nil {
		sym.Assert(!ok || vague, "a reference to an undeclared type is accepted")
		sym.Reach("undeclared")
		return
	}
	sym.Assert(ok, "a valid reference to a type of an imported file is refused")
	for _, u := range us {
		u.valid()
	}
	p, name := goTypeOf(us["x/a"].structOf(ma).Field(0).Type())
	sym.Assert(p == want.goPath && name == want.goName, "a reference means another type")
	sym.Reach("resolved " + p)
}

// generateAll loads the first file and generates Go code for it and all it
// imports, one package per Go import path.
func generateAll(files []file, getter bool) (map[string]*unit, bool) {
	ps, ok := load(files...)
	if !ok {
		return nil, false
	}
	return checkAll(ps, getter), true
}

func checkAll(ps []*prutalgen.Proto, getter bool) map[string]*unit {
	im := newImporter()
	us := map[string]*unit{}
	for i := len(ps) - 1; i >= 0; i-- { // imported files first
		if p := ps[i].GoImport; us[p] == nil && (i == 0 || p != ps[0].GoImport) {
			var srcs []string
			for _, x := range ps {
				if x.GoImport == p {
					srcs = append(srcs, code(x, getter))
				}
			}
			us[p] = im.check(p, srcs...)
		}
	}
	return us
}
