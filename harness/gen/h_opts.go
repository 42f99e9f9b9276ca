package gen

import (
	"path"
	"strings"

	"github.com/cloudwego/prutal/internal/zzverif/sym"
	"github.com/cloudwego/prutal/prutalgen/pkg/prutalgen"
	"github.com/cloudwego/prutal/prutalgen/pkg/utils/args"
)

// HOpts: the go_opt arguments select the Go packages of files and the places
// of generated files as protoc's do.
func HOpts() {
	n := int(sym.Param("n"))
	pre := []string{"", "M", "Mb.proto=", "Mb.prot", "Msub/../b.proto=x/", "paths=source_relativ", "paths=impor", "m"}[sym.Choose(8)]
	b := sym.Bytes(n)
	for _, c := range b {
		sym.Assume(c > 0x20 && c < 0x7f)
	}
	first := pre + string(b)
	second := []string{"", "Mb.proto=x/z", "paths=source_relative", "paths=import", "Mc.proto=x/c=d"}[sym.Choose(5)]
	all := []string{first, second}
	if sym.Bool() {
		all = []string{second, first}
	}
	var o args.GoOpts
	if sym.Bool() {
		sym.Assert(o.Set(strings.Join(all, ",")) == nil, "options are refused")
	} else {
		sym.Assert(o.Set(all[0]) == nil && o.Set(all[1]) == nil, "options are refused")
	}
	want := map[string]string{}
	gt := prutalgen.GenByImport
	for _, a := range strings.Split(strings.Join(all, ","), ",") {
		switch {
		case a == "paths=import":
			gt = prutalgen.GenByImport
		case a == "paths=source_relative":
			gt = prutalgen.GenBySourceRelative
		case len(a) > 0 && a[0] == 'M':
			for i := range a {
				if a[i] == '=' {
					want[path.Clean(a[1:i])] = a[i+1:]
					break
				}
			}
		}
	}
	sym.Assert(o.GenPathType() == gt, "the paths option has not its effect")
	got := o.Proto2pkg()
	sym.Assert(len(got) == len(want), "M options name other files than given")
	for k, v := range want {
		g, ok := got[k]
		sym.Assert(ok && g == v, "M options give other packages than given")
	}
	sym.Reach("done")
}

// HPackageOpt: the Go package of a file is that of its M option, or else of
// its go_package option, for loaded and imported files.
func HPackageOpt() {
	n := int(sym.Param("n"))
	val := func() (s, imp, pkg string) {
		b := sym.Bytes(n)
		for _, c := range b {
			sym.Assume(c >= 'a' && c <= 'z' || c == '_')
		}
		sym.Assume(string(b) != "go" && string(b) != "if")
		imp = []string{"x/", ""}[sym.Choose(2)] + string(b)
		pkg = path.Base(imp)
		s = imp
		if sym.Bool() {
			pkg = "p" + string(b)
			s += ";" + pkg
		}
		return
	}
	var ms, mi, mp, gs, gi, gp string
	hasM, hasG := sym.Bool(), sym.Bool()
	if hasM {
		ms, mi, mp = val()
	}
	if hasG {
		gs, gi, gp = val()
	}
	imported := sym.Bool()
	opt := ""
	if hasG {
		opt = "option go_package = \"" + gs + "\";\n"
	}
	name, text := "sub/b.proto", "syntax = \"proto3\";\npackage b;\n"+opt+"message B {}\n"
	prutalgen.RegisterEmbeddedProto("sub/b.proto", nil)
	if sym.Bool() {
		prutalgen.RegisterEmbeddedProto("sub/b.proto", []byte(text))
	} else {
		sym.WriteFile("inc/sub/b.proto", []byte(text))
	}
	m := map[string]string{"other.proto": "x/other"}
	if hasM {
		m["sub/b.proto"] = ms
	}
	if imported {
		name = "a.proto"
		sym.WriteFile("inc/a.proto", []byte("syntax = \"proto3\";\noption go_package = \"x/a\";\nimport \"sub/b.proto\";\nmessage A { b.B b = 1; }\n"))
	}
	ps, ok := loadFiles([]string{sym.Dir() + "/inc"}, m, name)
	sym.Assert(ok == (hasM || hasG), "a file without Go package is accepted, or one with it refused")
	if !ok {
		sym.Reach("refused")
		return
	}
	p := ps[len(ps)-1]
	if hasM {
		gi, gp = mi, mp
	}
	sym.Assert(p.GoImport == gi, "a file has another Go import path than given")
	sym.Assert(gp == "_" || p.GoPackage == gp, "a file has another Go package name than given")
	sym.Reach("accepted")
}
