package gen

import (
	"go/types"
	"strings"

	"github.com/cloudwego/prutal/internal/zzverif/sym"
)

// {} marks the places for comments; those marked {-} must stay on the line.
const commented = `{}syntax {-}= "proto3";{}
option go_package = "x/a";{}
{}package a;
{}
{}message A {{}
	{}int32 {-}x {-}= 1{-};{}
	{}oneof o {{}
		{}string s = 2;{}
		{}M m = 3 [{-}deprecated = true{}];{}
	}{}
	{}reserved 5 {-}to 9{-};{}
	{}reserved {-}"foo"{-};{}
	{}map<{-}int32, {-}E> e = 10;{}
	{}enum N {{} {}Z = 0;{}
	}{}
	{}message M { repeated int32 v = 1; }{}
}{}

{}enum E {{}
	{}option allow_alias = true;{}
	{}F = 0;{}
	{}G = {-}- {-}1;{}
}{}
{}service S {{}
	{}rpc R(A) {-}returns ({-}stream A);{}
}{}
{}`

var commentSig string

func SetupComment() {
	SetupGen()
	t := strings.ReplaceAll(strings.ReplaceAll(commented, "{-}", ""), "{}", "")
	u, ok := generate(t, true)
	if !ok || u.err != nil {
		panic("comment template")
	}
	commentSig = u.sig()
}

// sig describes all declarations of a package.
func (u *unit) sig() string {
	var b strings.Builder
	q := func(*types.Package) string { return "" }
	for _, n := range u.pkg.Scope().Names() {
		o := u.pkg.Scope().Lookup(n)
		b.WriteString(types.ObjectString(o, q))
		b.WriteString("\n")
		if t, ok := o.Type().(*types.Named); ok {
			b.WriteString(types.TypeString(t.Underlying(), q))
			for i := 0; i < t.NumMethods(); i++ {
				b.WriteString("\n " + types.ObjectString(t.Method(i), q))
			}
			b.WriteString("\n")
		}
	}
	return b.String()
}

// HComment: a comment of arbitrary text anywhere changes neither the validity
// nor the declarations of the generated code.
func HComment() {
	parts := strings.Split(commented, "{")
	n := 0
	for i := range parts {
		if strings.HasPrefix(parts[i], "}") || strings.HasPrefix(parts[i], "-}") {
			n++
		}
	}
	at := int(sym.Param("lo")) + sym.Choose(int(sym.Param("cnt")))
	sym.Assume(at < n)
	text := sym.Bytes(int(sym.Param("n")))
	for _, c := range text {
		sym.Assume(c > 0 && c < 0x80)
	}
	form := sym.Choose(3)
	var c string
	if form == 0 {
		for _, c := range text {
			sym.Assume(c != '\n' && c != '\r')
		}
		c = "//" + string(text) + "\n"
	} else {
		for i := 1; i < len(text); i++ {
			sym.Assume(text[i-1] != '*' || text[i] != '/')
		}
		c = "/*" + string(text) + "*/"
		if form == 2 {
			c = "\n" + c + " // z\n"
		}
	}
	k := 0
	var b strings.Builder
	for i, p := range parts {
		rest, inline := strings.CutPrefix(p, "-}")
		place := inline
		if !inline {
			rest, place = strings.CutPrefix(p, "}")
		}
		if i == 0 || !place {
			if i > 0 {
				b.WriteString("{")
			}
			b.WriteString(p)
			continue
		}
		if k == at {
			b.WriteString(c)
		}
		k++
		b.WriteString(rest)
	}
	u, ok := generate(b.String(), true)
	sym.Assert(ok, "a file is refused because of a comment")
	u.valid()
	sym.Assert(u.sig() == commentSig, "a comment changes the generated declarations")
	sym.Reach("done")
}
