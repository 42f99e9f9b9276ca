package gen

import (
	"github.com/cloudwego/prutal/internal/zzverif/sym"
)

// HService: the services of a file are handed to code generators with the
// methods, types, streams, options and comments they are declared with.
func HService() {
	n := int(sym.Param("n"))
	x := identifier(n)
	what := sym.Choose(3) // service, method or type
	serv, meth, typ := "Serv", "do_it", "Req"
	pre := []string{"", "strea", "rp", "_", "get_"}[sym.Choose(5)]
	switch what {
	case 0:
		serv = pre + x
	case 1:
		meth = pre + x
	case 2:
		typ = pre + x
	}
	distinct(typ, "Rep")
	types := []string{typ, "Rep", "." + "p." + typ, "p.Rep.In", "Rep.In", "b.Rep"}
	goNames := []string{camel(typ), "Rep", camel(typ), "Rep_In", "Rep_In", "b.Rep"}
	imports := []string{"x/a", "x/a", "x/a", "x/a", "x/a", "x/b"}
	ri, ro := sym.Choose(len(types)), sym.Choose(len(types))
	if sym.Param("full") == 0 {
		sym.Assume(pre != "_" && pre != "rp")
		sym.Assume(ri == 0 || ro <= 1)
		sym.Assume(what == 2 || ri+ro == 0)
		sym.Assume(ri+ro == 0 || pre == "strea")
	}
	si, so := sym.Choose(2) == 1, sym.Choose(2) == 1
	str := func(b bool) string {
		if b {
			return "stream "
		}
		return ""
	}
	end := []string{";", "{}", " { option deprecated = true; option (a.b) = \"c\"; }"}[sym.Choose(3)]
	if sym.Param("full") == 0 {
		sym.Assume(end == ";" || ri+ro == 0 && pre == "" && what < 2)
		sym.Assume(!si && !so || what == 1 && (pre == "" || pre == "strea"))
	}
	text := "syntax = \"proto3\";\npackage p;\noption go_package = \"x/a\";\nimport \"b.proto\";\n" +
		"message " + typ + " {}\nmessage Rep { message In {} }\n" +
		"// about S\nservice " + serv + " {\n rpc first(Rep) returns (stream Rep);\n option (s.t) = 5;\n // about M\n rpc " + meth + "(" + str(si) + types[ri] + ") returns (" + str(so) + types[ro] + ")" + end + "\n rpc last(stream Rep) returns (Rep);\n}\nservice Other {}\n"
	ps, ok := load(file{"a.proto", text}, file{"b.proto", "syntax = \"proto2\"; package b; option go_package = \"x/b\"; message Rep {}"})
	sym.Assert(ok, "a valid service is refused")
	ss := ps[0].Services
	sym.Assert(len(ss) == 2 && ss[0].Name == serv && ss[1].Name == "Other" && ss[0].Proto == ps[0], "services are not reported as declared")
	s := ss[0]
	sym.Assert(s.GoName == camel(serv), "a service has another Go name than protoc-gen-go's")
	v, ok := s.Options.Get("(s.t)")
	sym.Assert(ok && v == "5" && len(s.Options) == 1 && s.HeadComment == "// about S", "options or comments of a service are not reported as declared")
	sym.Assert(len(s.Methods) == 3 && len(ss[1].Methods) == 0, "a service has other methods than declared")
	m := s.Methods[1]
	sym.Assert(m.Name == meth && m.GoName == camel(meth) && m.HeadComment == "// about M" && m.Service == s, "a method is not reported as declared")
	sym.Assert(m.RequestStream == si && m.ReturnStream == so, "the streams of a method are not reported as declared")
	sym.Assert(!s.Methods[0].RequestStream && s.Methods[0].ReturnStream && s.Methods[2].RequestStream && !s.Methods[2].ReturnStream, "the streams of a method are not reported as declared")
	sym.Assert(m.Request.GoName() == goNames[ri] && m.Return.GoName() == goNames[ro], "a method has other types than declared")
	sym.Assert(m.Request.GoImport() == imports[ri] && m.Return.GoImport() == imports[ro] && m.Request.IsMessage() && m.Request.IsExternalType() == (imports[ri] != "x/a"), "a method has other types than declared")
	if end[0] == ' ' {
		a, ok1 := m.Options.Get("deprecated")
		b, ok2 := m.Options.Get("(a.b)")
		sym.Assert(ok1 && ok2 && a == "true" && b == "c", "options of a method are not reported as declared")
	} else {
		sym.Assert(len(m.Options) == 0, "options of a method are not reported as declared")
	}
	sym.Reach("done")
}
