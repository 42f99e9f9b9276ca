package gen

import (
	"github.com/cloudwego/prutal/internal/zzverif/sym"
)

// unescape is the value of the inside of a string literal by the protobuf
// language specification; ok is false if it is not one, ext is set if it uses
// escapes that prutalgen does not support.
func unescape(s string) (val []byte, ok, ext bool) {
	isHex := func(i int) bool { return i < len(s) && digit(s[i]) < 16 }
	isOct := func(i int) bool { return i < len(s) && digit(s[i]) < 8 }
	for i := 0; i < len(s); i++ {
		c := s[i]
		if c == 0 || c == '\n' {
			return nil, false, ext
		}
		if c != '\\' {
			val = append(val, c)
			continue
		}
		if i++; i == len(s) {
			return nil, false, ext
		}
		switch c = s[i]; {
		case c == 'a':
			val = append(val, 7)
		case c == 'b':
			val = append(val, 8)
		case c == 'f':
			val = append(val, 12)
		case c == 'n':
			val = append(val, 10)
		case c == 'r':
			val = append(val, 13)
		case c == 't':
			val = append(val, 9)
		case c == 'v':
			val = append(val, 11)
		case c == '?':
			val, ext = append(val, c), true
		case c == '\\' || c == '\'' || c == '"':
			val = append(val, c)
		case c == 'x' || c == 'X':
			if !isHex(i + 1) {
				return nil, false, ext
			}
			v := digit(s[i+1])
			if i++; isHex(i + 1) {
				i++
				v = v*16 + digit(s[i])
			} else {
				ext = true
			}
			val = append(val, byte(v))
		case '0' <= c && c <= '7':
			v := digit(c)
			n := 1
			for ; n < 3 && isOct(i+1); n++ {
				i++
				v = v*8 + digit(s[i])
			}
			if n < 3 {
				ext = true
			}
			if v > 255 {
				return nil, true, true
			}
			val = append(val, byte(v))
		case c == 'u' || c == 'U':
			return nil, true, true
		default:
			return nil, false, ext
		}
	}
	return val, true, ext
}

// HStr: a string literal has exactly the value it spells; other text in its
// place is refused.
func HStr() {
	n := int(sym.Param("n"))
	layout := sym.Choose(5)
	quote := []string{"\"", "'", "\"", "'", "\""}[layout]
	pre := []string{"", "\\", "\\x", "\\0", "\\37", "\\\\", "é"}[sym.Choose(7)]
	if sym.Param("full") == 0 {
		sym.Assume(layout == 0 || pre == "")
	}
	b := sym.Bytes(n)
	for _, c := range b {
		sym.Assume(c < 0x80)
	}
	s := pre + string(b)
	for i := 0; i < len(s); i++ {
		if s[i] == '\\' {
			i++
			sym.Assume(i < len(s)) // must not escape the closing quote
			continue
		}
		sym.Assume(s[i] != quote[0])
	}
	lit, head, tail := quote+s+quote, "", ""
	switch layout {
	case 1:
		lit, tail = lit+" \"b\"", "b"
	case 2:
		lit, head = "'f\"'"+lit, "f\""
	case 3:
		lit, head = "\"/*\"/* \" */\n"+lit, "/*"
	case 4:
		lit, tail = lit+"// '\n'x'", "x"
	}
	ps, ok := load(file{"a.proto", "syntax = \"proto3\";\noption go_package = \"x/a\";\noption java_package = " + lit + ";\n"})
	val, valid, ext := unescape(s)
	if !valid {
		sym.Assert(!ok, "text that is not a string literal is accepted")
		sym.Reach("refused")
		return
	}
	if !ok {
		sym.Assert(ext, "a valid string literal is refused")
		sym.Reach("unsupported")
		return
	}
	sym.Reach("accepted")
	if ext && val == nil {
		return
	}
	got, _ := ps[0].Options.Get("java_package")
	sym.Assert(got == head+string(val)+tail, "a string literal gets another value than it spells")
}
