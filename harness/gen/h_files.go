package gen

import (
	"os"
	"path"
	"strings"

	"github.com/cloudwego/prutal/internal/zzverif/sym"
	"github.com/cloudwego/prutal/prutalgen/pkg/prutalgen"
)

// loadFiles loads a file of the scratch directory.
func loadFiles(includes []string, m map[string]string, name string) (ps []*prutalgen.Proto, ok bool) {
	defer func() {
		if r := recover(); r != nil {
			if _, is := r.(*rejected); !is {
				panic(r)
			}
			ps, ok = nil, false
		}
	}()
	l := prutalgen.NewLoader(includes, m)
	l.SetLogger(logger{})
	return l.LoadProto(name), true
}

// HGraph: for every import graph, each file is loaded once, importing files
// come before what they import, and cycles and missing files are refused.
func HGraph() {
	n := int(sym.Param("n")) // files, the last one may be missing
	var edge [6][6]bool
	cyclic := sym.Param("cyclic") != 0
	for i := 0; i < n; i++ {
		for j := 0; j < n; j++ {
			if j > i || cyclic && (i > 0 || j > 0) {
				edge[i][j] = sym.Bool()
			}
		}
	}
	rev := sym.Bool() // order of import statements
	missing := !cyclic && sym.Bool()
	// reachability
	reach := edge
	for k := 0; k < n; k++ {
		for i := 0; i < n; i++ {
			for j := 0; j < n; j++ {
				if reach[i][k] && reach[k][j] {
					reach[i][j] = true
				}
			}
		}
	}
	bad := false
	count := 1
	for i := 0; i < n; i++ {
		if reach[0][i] && i > 0 {
			count++
		}
		bad = bad || reach[i][i] && (i == 0 || reach[0][i])
	}
	bad = bad || missing && reach[0][n-1]
	for i := 0; i < n; i++ {
		if missing && i == n-1 {
			break
		}
		text := "syntax = \"proto3\";\noption go_package = \"x/" + string(rune('a'+i)) + "\";\npackage " + string(rune('a'+i)) + ";\n"
		uses := ""
		for k := 0; k < n; k++ {
			j := k
			if rev {
				j = n - 1 - k
			}
			if edge[i][j] {
				text += "import \"" + string(rune('a'+j)) + ".proto\";\n"
				uses += " " + string(rune('a'+j)) + ".M f" + string(rune('a'+j)) + " = " + string(rune('1'+j)) + ";\n"
			}
		}
		sym.WriteFile(string(rune('a'+i))+".proto", []byte(text+"message M {\n"+uses+"}\n"))
	}
	ps, ok := loadFiles([]string{sym.Dir()}, nil, "a.proto")
	if bad {
		sym.Assert(!ok, "an import cycle or a missing file is accepted")
		sym.Reach("refused")
		return
	}
	sym.Assert(ok, "a valid set of files is refused")
	sym.Assert(len(ps) == count, "not every imported file is loaded exactly once")
	at := map[string]int{}
	for i, p := range ps {
		b := path.Base(p.ProtoFile)
		_, dup := at[b]
		sym.Assert(!dup, "a file is loaded twice")
		at[b] = i
	}
	sym.Assert(at["a.proto"] == 0, "the loaded file is not the first")
	for i := 0; i < n; i++ {
		if i > 0 && !reach[0][i] {
			continue
		}
		pi, ok := at[string(rune('a'+i))+".proto"]
		sym.Assert(ok, "an imported file is not loaded")
		imports := 0
		for j := 0; j < n; j++ {
			if edge[i][j] {
				imports++
				sym.Assert(pi < at[string(rune('a'+j))+".proto"], "a file comes after a file it imports")
			}
		}
		p := ps[pi]
		sym.Assert(len(p.Imports) == imports && len(p.Messages) == 1 && len(p.Messages[0].Fields) == imports, "a file is not loaded as it is written")
		for _, f := range p.Messages[0].Fields {
			sym.Assert(f.Type.IsExternalType() && f.Type.IsMessage() && strings.HasSuffix(f.Type.GoImport(), "/"+f.Name[1:]), "a reference to an imported type is lost")
		}
	}
	sym.Reach("accepted")
}

// HSearch: files are searched in the include directories in order; the
// generated file is written where its import path or source path says.
func HSearch() {
	var has [3]bool
	dirs := []string{"i1", "i2", "i2/sub"}
	names := []string{"b.proto", "sub/b.proto", "c.proto"}
	name := names[sym.Choose(3)]
	for i := range has {
		has[i] = sym.Bool()
		if has[i] {
			sym.WriteFile(dirs[i]+"/"+name, []byte("syntax = \"proto3\";\noption go_package = \"x/d"+string(rune('0'+i))+"\";\npackage b;\nmessage M { int32 d = "+string(rune('1'+i))+"; }\n"))
		}
	}
	sym.WriteFile("a.proto", []byte("syntax = \"proto3\";\noption go_package = \"x/a;q\";\nimport \""+name+"\";\nmessage A { b.M m = 1; }\n"))
	var incl []string
	for _, d := range dirs {
		incl = append(incl, sym.Dir()+"/"+d)
	}
	want := -1
	for i := range has {
		if has[i] && want < 0 {
			want = i
		}
	}
	// i2/sub/b.proto is also found as sub/b.proto in i2
	if name == "sub/b.proto" {
		want = -1
		switch {
		case has[0]:
			want = 0
		case has[1]:
			want = 1
		case has[2]:
			want = 2
		}
	}
	rel := sym.Bool()
	ps, ok := loadFiles(append(incl, sym.Dir()), nil, "a.proto")
	if want < 0 {
		sym.Assert(!ok, "an import of a missing file is accepted")
		sym.Reach("missing")
		return
	}
	sym.Assert(ok && len(ps) == 2, "an import is not found in the include directories")
	sym.Assert(ps[1].ProtoFile == path.Join(sym.Dir(), dirs[want], name), "an import is read from another include directory than the first that has it")
	sym.Assert(ps[1].Messages[0].Fields[0].FieldNumber == int32(want)+1, "an import is read from another include directory than the first that has it")
	before := len(sym.Files())
	arg := "-go_opt=a"
	if want == 0 && name == "b.proto" {
		arg += string(sym.Bytes(1))
	}
	os.Args = []string{"/usr/bin/prutalgen", arg, "it's.proto"}
	g := prutalgen.NewGoCodeGen()
	g.Format = sym.Param("format") != 0
	gt, file := prutalgen.GenByImport, "out/x/a/a.pb.go"
	if rel {
		gt, file = prutalgen.GenBySourceRelative, "a.pb.go"
	}
	sym.Assert(g.Gen(ps[0], gt, sym.Dir()+"/out") == nil, "generated code is not written")
	sym.Assert(len(sym.Files()) == before+1, "generating one file writes other files")
	src, ok := sym.ReadFile(file)
	sym.Assert(ok, "generated code is not written where it belongs")
	sym.Assert(strings.Contains(src, "\npackage q\n"), "generated code has another package than declared")
	im := newImporter()
	im.check(ps[1].GoImport, code(ps[1], false))
	u := im.check("x/a", src)
	u.valid()
	p, _ := goTypeOf(u.structOf("A").Field(0).Type())
	sym.Assert(p == "x/d"+string(rune('0'+want)), "a reference to an imported type is lost")
	sym.Reach("done")
}
