// Package gen drives the code generator the way a user does: .proto text in,
// Go source out. The source is type-checked and, where it declares messages
// without methods the codec needs, handed to the codec as run-time types.
package gen

import (
	"errors"
	"go/ast"
	"go/parser"
	"go/token"
	"go/types"
	"reflect"
	"strings"

	"github.com/cloudwego/prutal/internal/zzverif/sym"
	"github.com/cloudwego/prutal/prutalgen/pkg/prutalgen"
)

type rejected struct{ msg string }

// logger ends the run when the generator reports a fatal error.
type logger struct{}

func (logger) Fatalf(format string, v ...any) { panic(&rejected{format}) }
func (logger) Printf(format string, v ...any) {}

type file struct{ name, text string }

// load loads the first file; ok is false if the generator refuses it.
func load(files ...file) (ps []*prutalgen.Proto, ok bool) {
	for _, f := range files {
		prutalgen.RegisterEmbeddedProto(f.name, []byte(f.text))
	}
	defer func() {
		if r := recover(); r != nil {
			if _, is := r.(*rejected); !is {
				panic(r)
			}
			ps, ok = nil, false
		}
	}()
	l := prutalgen.NewLoader(nil, nil)
	l.SetLogger(logger{})
	return l.LoadProto(files[0].name), true
}

// code generates the Go source of a loaded file.
func code(p *prutalgen.Proto, getter bool) string {
	g := prutalgen.NewGoCodeGen()
	g.Getter = getter
	w := prutalgen.NewCodeWriter("// Code generated.", p.GoPackage)
	g.ProtoGen(p, w)
	return string(w.Bytes())
}

// unit is the generated source of one Go package, checked.
type unit struct {
	src  string
	file *ast.File
	pkg  *types.Package
	err  error
}

type importer struct{ pkgs map[string]*types.Package }

func (m *importer) Import(path string) (*types.Package, error) {
	if p := m.pkgs[path]; p != nil {
		return p, nil
	}
	p := types.NewPackage(path, path[strings.LastIndexByte(path, '/')+1:])
	if path != "strconv" && path != "github.com/cloudwego/prutal" {
		return nil, errors.New("no package " + path)
	}
	if path == "strconv" {
		sig := types.NewSignatureType(nil, nil, nil, types.NewTuple(types.NewVar(0, p, "i", types.Typ[types.Int])), types.NewTuple(types.NewVar(0, p, "", types.Typ[types.String])), false)
		p.Scope().Insert(types.NewFunc(0, p, "Itoa", sig))
	}
	p.MarkComplete()
	return p, nil
}

// check parses and type-checks generated sources of one Go package.
func (m *importer) check(path string, srcs ...string) *unit {
	u := &unit{src: srcs[0]}
	fset := token.NewFileSet()
	var fs []*ast.File
	for _, s := range srcs {
		f, err := parser.ParseFile(fset, "a.pb.go", s, parser.SkipObjectResolution)
		if err != nil {
			u.err = err
			return u
		}
		fs = append(fs, f)
	}
	u.file = fs[0]
	conf := types.Config{Importer: m}
	u.pkg, u.err = conf.Check(path, fset, fs, nil)
	m.pkgs[path] = u.pkg
	return u
}

func newImporter() *importer { return &importer{pkgs: map[string]*types.Package{}} }

// generate loads and generates one file and checks the code; ok is false if
// the generator refuses the file.
func generate(text string, getter bool) (u *unit, ok bool) {
	ps, ok := load(file{"a.proto", text})
	if !ok {
		return nil, false
	}
	u = newImporter().check("x/a", code(ps[0], getter))
	return u, true
}

func (u *unit) valid() {
	if u.err != nil {
		sym.Assert(false, "the generated code is not valid Go: "+u.err.Error())
	}
}

// structOf returns the struct type declared under a name.
func (u *unit) structOf(name string) *types.Struct {
	o := u.pkg.Scope().Lookup(name)
	if o == nil {
		return nil
	}
	s, _ := o.Type().Underlying().(*types.Struct)
	return s
}

func typeStr(t types.Type) string {
	return types.TypeString(t, func(p *types.Package) string {
		if p.Path() == "x/a" {
			return ""
		}
		return p.Path()
	})
}

var basicTypes = map[types.BasicKind]reflect.Type{
	types.Int32: reflect.TypeOf(int32(0)), types.Int64: reflect.TypeOf(int64(0)), types.Uint32: reflect.TypeOf(uint32(0)), types.Uint64: reflect.TypeOf(uint64(0)),
	types.Bool: reflect.TypeOf(false), types.Float32: reflect.TypeOf(float32(0)), types.Float64: reflect.TypeOf(float64(0)), types.String: reflect.TypeOf(""),
	types.Byte: reflect.TypeOf(byte(0)),
}

// runtimeType returns a reflect type of the same shape as a generated type.
func runtimeType(t types.Type) reflect.Type {
	switch t := t.Underlying().(type) {
	case *types.Basic:
		return basicTypes[t.Kind()]
	case *types.Pointer:
		return reflect.PointerTo(runtimeType(t.Elem()))
	case *types.Slice:
		return reflect.SliceOf(runtimeType(t.Elem()))
	case *types.Map:
		return reflect.MapOf(runtimeType(t.Key()), runtimeType(t.Elem()))
	case *types.Struct:
		var fs []reflect.StructField
		for i := 0; i < t.NumFields(); i++ {
			fs = append(fs, reflect.StructField{Name: t.Field(i).Name(), Type: runtimeType(t.Field(i).Type()), Tag: reflect.StructTag(t.Tag(i))})
		}
		return reflect.StructOf(fs)
	}
	return nil
}
