package gen

import (
	"strings"

	"github.com/cloudwego/prutal/internal/zzverif/sym"
)

// comment returns comment lines that name directive d in some way, with one
// arbitrary character, and whether they give it.
func directiveComment(d string, form int) (text string, set bool) {
	c := sym.Byte()
	sym.Assume(c > 0 && c < 0x80 && c != '\n' && c != '\r')
	blank := c == ' ' || c == '\t' || c == '\v' || c == '\f'
	s := string([]byte{c})
	switch form {
	case 0:
		return "//prutalgen:" + d + s, blank || c == ','
	case 1:
		return "//prutalgen:" + s + d, blank || c == ','
	case 2:
		return "//prutalgen:x" + s + " " + d, c == ','
	case 3:
		return "// text\n//prutalgen:" + d + "," + s, true
	case 4:
		return "//" + s + "prutalgen:" + d, false
	case 5:
		return "//prutalgen:" + s + "x\n//prutalgen: " + d + " ,z", true
	case 6:
		sym.Assume(c != '*')
		return "/*" + s + "prutalgen:" + d + "*/", false
	}
	return "// " + s + " //prutalgen:" + d, false
}

// HDirective: directives in comments and the options they stand for have
// their effect where they are given, and nowhere else; the more specific
// place decides, and directives before options.
func HDirective() {
	what := int(sym.Param("what"))
	d := []string{"no_pointer", "no_enum_prefix", "no_enum_mapping", "unknown_fields"}[what]
	neg := what == 3 && sym.Choose(2) == 1
	if neg {
		d = "no_" + d
	}
	form := sym.Choose(8)
	comment, set := directiveComment(d, form)
	places := [][]string{{"field", "message"}, {"value", "enum", "file"}, {"enum", "file"}, {"message", "file"}}[what]
	place := places[sym.Choose(len(places))]
	inline := place != "file" && !strings.Contains(comment, "\n") && sym.Choose(2) == 1
	head := map[string]string{}
	tail := map[string]string{}
	if inline {
		tail[place] = comment
	} else {
		head[place] = comment + "\n"
	}
	// options: 0 none, 1 true, 2 false
	general, specific := 0, 0
	optText := []string{"", " = true;\n", " = false;\n"}
	fileOpt, enumOpt, msgOpt, fieldOpt := "", "", "", ""
	switch what {
	case 0:
		if specific = sym.Choose(3); specific > 0 {
			fieldOpt = " [(gogoproto.nullable)" + strings.TrimSuffix(optText[specific], ";\n") + "]"
		}
	case 1:
		if general, specific = sym.Choose(3), sym.Choose(3); general > 0 {
			fileOpt = "option (gogoproto.goproto_enum_prefix_all)" + optText[general]
		}
		if specific > 0 {
			enumOpt = "option (gogoproto.goproto_enum_prefix)" + optText[specific]
		}
	case 3:
		if general, specific = sym.Choose(3), sym.Choose(3); general > 0 {
			fileOpt = "option (gogoproto.goproto_unrecognized_all)" + optText[general]
		}
		if specific > 0 {
			msgOpt = "option (gogoproto.goproto_unrecognized)" + optText[specific]
		}
	}
	deep := sym.Choose(2) == 1 // the declarations with the directive are nested
	if sym.Param("full") == 0 {
		opts := general != 0 || specific != 0
		sym.Assume(!opts && !deep || form == 3 || form == 7 && !inline && !deep)
		sym.Assume(!neg || form == 0 || form == 3 && deep)
		sym.Assume(!opts || !deep && !inline)
	}
	open, end := "", ""
	pe, pv, pm := "Ea_", "Ea_", "Ma"
	if deep {
		open, end = "message Top {\n", "}\n"
		pe, pv, pm = "Top_Ea_", "Top_", "Top_Ma"
	}
	text := head["file"] + "syntax = \"proto3\";\noption go_package = \"x/a\";\n" + fileOpt + open + "\n" +
		head["enum"] + "enum Ea {" + "\n" + enumOpt + "\n" + head["value"] + "one = 0;" + tail["value"] + "\n\n two = 1;\n}" + tail["enum"] + "\n\n" +
		"enum Eb {\n three = 0;\n}\n\n" +
		head["message"] + "message Ma {\n" + msgOpt + "\n" + head["field"] + "Mb first = 1" + fieldOpt + ";" + tail["field"] + "\n\n Mb second = 2;\n optional int32 third = 3;\n}" + tail["message"] + "\n\n" +
		"message Mb {\n int32 one = 1;\n}\n" + end
	u, ok := generate(text, false)
	sym.Assert(ok, "a file is refused because of a comment or option")
	u.valid()
	sc := u.pkg.Scope()
	has := func(n string) bool { return sc.Lookup(n) != nil }
	mb, eb := "Mb", "Eb_"
	if deep {
		mb, eb = "Top_Mb", "Top_"
	}
	// without directive and options
	first, second, third := true, true, true // pointers
	prefixed := []bool{true, true, true}     // one, two, three
	maps := []bool{true, true}               // Ea, Eb
	unknown := []bool{false, false}          // Ma, Mb
	switch what {
	case 0:
		first = specific != 2
		if set {
			first = false
			if place == "message" {
				second, third = false, false
			}
		}
	case 1:
		for i := range prefixed {
			prefixed[i] = general != 2
			if i < 2 && specific != 0 {
				prefixed[i] = specific == 1
			}
			if set && (place == "file" || i == 0 || i == 1 && place == "enum") {
				prefixed[i] = false
			}
		}
	case 2:
		if set {
			maps[0], maps[1] = false, place != "file"
		}
	case 3:
		for i := range unknown {
			unknown[i] = general == 1
			if i == 0 && specific != 0 {
				unknown[i] = specific == 1
			}
			if set && (i == 0 || place == "file") {
				unknown[i] = !neg
			}
		}
	}
	st := u.structOf(pm)
	for i, ptr := range []bool{first, second, third} {
		t := []string{mb, mb, "int32"}[i]
		if ptr {
			t = "*" + t
		}
		sym.Assert(typeStr(st.Field(i).Type()) == t, "no_pointer or nullable has an effect on another field, or none")
	}
	for i, n := range []string{"one", "two", "three"} {
		full, p := n, pv
		if i == 2 {
			p = eb
		}
		if !deep && i < 2 {
			p = pe
		}
		full = p + n
		sym.Assert(has(full) == prefixed[i] && has(camel(n)) == !prefixed[i], "no_enum_prefix has an effect on another enum value, or none")
	}
	for i, n := range []string{"Ea", "Eb"} {
		if deep {
			n = "Top_" + n
		}
		sym.Assert(has(n+"_name") == maps[i] && has(n+"_value") == maps[i], "no_enum_mapping has an effect on another enum, or none")
	}
	for i, n := range []string{pm, mb} {
		s := u.structOf(n)
		last := s.Field(s.NumFields() - 1)
		sym.Assert((last.Name() == "unknownFields" && typeStr(last.Type()) == "[]byte") == unknown[i], "unknown_fields has an effect on another message, or none")
	}
	sym.Reach("done")
}
