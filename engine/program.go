package engine

import (
	"encoding/json"
	"fmt"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"sync/atomic"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

var intrinsics = map[string]Intrinsic{}

// Program is the loaded target: SSA of /repo's current tree plus harnesses.
type Program struct {
	Prog *ssa.Program
	Pkgs map[string]*ssa.Package

	layout layoutCache
	types  typeReg
	shared sharedMem
	shMu   sync.Mutex
	ssaMu  sync.Mutex
	fnMu   sync.RWMutex
	fns    map[*ssa.Function]*Fn
	codes  []*Fn
	strMu  sync.Mutex
	strs   map[string]uint64
	gMu    sync.Mutex

	globals map[*ssa.Global]uint64
	zeroObj *Obj

	rtErrorType  types.Type
	reflectType  types.Type
	rtypePtr     types.Type
	reflectValue types.Type
	mapIterT     types.Type

	symPath string
	InScope func(path string) bool
	hitMu   sync.Mutex
	hits    map[string]bool

	// snapshot after package initialisation and harness setup
	baseObjs   []*Obj
	baseMaps   map[uint64]*MapObj
	baseNative map[uint64]any
	baseIters  []*iter
	InitNotes  []string

	SrcFiles  int
	linknames map[string]string
	stateID  atomic.Uint32
}

// LoadConfig describes what to load.
type LoadConfig struct {
	Dir      string
	Overlay  map[string]string // target path -> source path
	Patterns []string
	SymPath  string
	InScope  func(path string) bool
	Env      []string
}

func Load(cfg LoadConfig) (*Program, error) {
	ov := map[string][]byte{}
	for dst, src := range cfg.Overlay {
		b, err := os.ReadFile(src)
		if err != nil {
			return nil, err
		}
		ov[dst] = b
	}
	pc := &packages.Config{
		Mode:    packages.LoadAllSyntax,
		Dir:     cfg.Dir,
		Overlay: ov,
		Env:     cfg.Env,
	}
	pkgs, err := packages.Load(pc, cfg.Patterns...)
	if err != nil {
		return nil, err
	}
	var errs []string
	packages.Visit(pkgs, nil, func(p *packages.Package) {
		for _, e := range p.Errors {
			errs = append(errs, e.Error())
		}
	})
	if len(errs) > 0 {
		return nil, fmt.Errorf("load: %s", strings.Join(errs, "\n"))
	}
	linknames := map[string]string{}
	packages.Visit(pkgs, nil, func(p *packages.Package) {
		if !cfg.InScope(p.PkgPath) {
			return
		}
		for _, f := range p.Syntax {
			for _, cg := range f.Comments {
				for _, c := range cg.List {
					if fs := strings.Fields(c.Text); len(fs) == 3 && fs[0] == "//go:linkname" {
						linknames[p.PkgPath+"."+fs[1]] = fs[2]
					}
				}
			}
		}
	})
	prog, _ := ssautil.AllPackages(pkgs, ssa.InstantiateGenerics)
	prog.Build()
	p0 := &Program{Prog: prog, Pkgs: map[string]*ssa.Package{}, symPath: cfg.SymPath, InScope: cfg.InScope, linknames: linknames}
	for _, pk := range prog.AllPackages() {
		p0.Pkgs[pk.Pkg.Path()] = pk
		if cfg.InScope(pk.Pkg.Path()) {
			p0.SrcFiles++
		}
	}
	return p0, nil
}

// Fresh returns an unbooted instance sharing the loaded SSA.
func (p0 *Program) Fresh() *Program {
	p := &Program{Prog: p0.Prog, Pkgs: p0.Pkgs, fns: map[*ssa.Function]*Fn{},
		strs: map[string]uint64{}, globals: map[*ssa.Global]uint64{}, symPath: p0.symPath,
		InScope: p0.InScope, hits: map[string]bool{}, linknames: p0.linknames, SrcFiles: p0.SrcFiles}
	p.types.byT = map[types.Type]*RType{}
	p.types.byAddr = map[uint64]*RType{}
	p.types.itabs = map[itabKey]*Itab{}
	p.types.itabA = map[uint64]*Itab{}
	p.shared.objs = make([]*Obj, 1<<20)
	p.newShared(nil, "pad", true)
	p.zeroObj = p.newShared(nil, "zerobase", true)
	if pk := p.Pkgs["reflect"]; pk != nil {
		p.reflectType = pk.Type("Type").Type()
		p.reflectValue = pk.Type("Value").Type()
		p.mapIterT = pk.Type("MapIter").Type()
		p.rtypePtr = types.NewPointer(pk.Type("rtype").Type())
	}
	if pk := p.Pkgs["runtime"]; pk != nil {
		if t := pk.Type("errorString"); t != nil {
			p.rtErrorType = t.Type()
		}
	}
	return p
}

func (p *Program) hit(f *Fn) {
	p.hitMu.Lock()
	f.Hits++
	p.hits[f.Name] = true
	p.hitMu.Unlock()
}

// HitFunctions lists in-scope functions executed symbolically so far.
func (p *Program) HitFunctions() []string { return sortedKeys(p.hits) }

func (p *Program) helper(name string) *Fn {
	pk := p.Pkgs[p.symPath]
	if pk == nil {
		return nil
	}
	f := pk.Func(name)
	if f == nil {
		return nil
	}
	return p.fn(f)
}

func (p *Program) lookupIntrinsic(f *Fn) Intrinsic {
	name := f.F.String()
	if o := f.F.Origin(); o != nil && o != f.F {
		if x := intrinsics[o.String()]; x != nil {
			return x
		}
	}
	if x := intrinsics[name]; x != nil {
		return x
	}
	if pk := fnPkg(f.F); pk != nil && pk.Path() == p.symPath && f.F.Parent() == nil && f.F.Signature.Recv() == nil {
		if x := symIntrinsics[f.F.Name()]; x != nil {
			return x
		}
	}
	if f.F.Blocks == nil {
		if t, ok := p.linknames[f.F.String()]; ok {
			if x := intrinsics["linkname:"+t]; x != nil {
				return x
			}
			return unsupportedIntrinsic(f.F.String() + " (linkname " + t + ")")
		}
	}
	if pk := fnPkg(f.F); pk != nil && !allowReal(pk.Path(), name, f.F) {
		return unsupportedIntrinsic(name)
	}
	return nil
}

// skipInit reports packages whose initialisers are not executed: the runtime
// and OS layers, modelled by intrinsics or unused by the code under check.
func skipInit(path string) bool {
	switch path {
	case "internal/strconv", "internal/itoa", "internal/stringslite", "internal/fmtsort":
		return false
	}
	if i := strings.IndexByte(path, '/'); i >= 0 {
		switch path[:i] {
		case "internal", "runtime", "vendor", "net", "crypto", "testing", "log":
			return true
		}
	}
	switch path {
	case "runtime", "syscall", "os", "time", "reflect", "sync", "unsafe", "log", "context", "net",
		"testing", "errors", "plugin", "flag", "os/exec", "os/signal", "os/user", "io/fs", "path/filepath", "io/ioutil",
		"sync/atomic", "iter", "weak", "unique", "embed", "go/build":
		return true
	}
	return false
}

// initSets reports whether the initialisers of its package use a global.
func (p *Program) initSets(g *ssa.Global) bool {
	if g.Pkg.Pkg.Path() == "os" && (g.Name() == "Stdout" || g.Name() == "Stderr") {
		return false // nil; only passed on to loggers, whose output is dropped
	}
	for n, m := range g.Pkg.Members {
		f, ok := m.(*ssa.Function)
		if !ok || n != "init" && !strings.HasPrefix(n, "init#") {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				for _, op := range in.Operands(nil) {
					if op != nil && *op == ssa.Value(g) {
						return true
					}
				}
			}
		}
	}
	return false
}

// Boot runs package initialisers and the setup functions concretely.
func (p *Program) Boot(pkgs []string, setups []string, params map[string]int64) (err error) {
	st := p.newState(nil, nil)
	st.boot = true
	st.lim.MaxSteps = 2_000_000_000
	st.lim.MaxBytes = 8 << 30
	st.lim.RealFmt = true
	b := NewBuilder(NewVarTable())
	st.b = b
	st.params = params
	defer func() {
		if r := recover(); r != nil {
			switch r := r.(type) {
			case *pathEnd:
				err = fmt.Errorf("boot: %s", r.msg)
			case *targetPanic:
				err = fmt.Errorf("boot: panic: %s\n%s", r.msg, r.trace)
			default:
				panic(r)
			}
		}
	}()
	done := map[string]bool{}
	var visit func(tp *types.Package)
	visit = func(tp *types.Package) {
		if done[tp.Path()] {
			return
		}
		done[tp.Path()] = true
		imps := append([]*types.Package(nil), tp.Imports()...)
		sort.Slice(imps, func(i, j int) bool { return imps[i].Path() < imps[j].Path() })
		for _, im := range imps {
			visit(im)
		}
		if skipInit(tp.Path()) {
			return
		}
		sp := p.Pkgs[tp.Path()]
		if sp == nil {
			return
		}
		f := sp.Func("init")
		if f == nil {
			return
		}
		// imports are handled here; the init guard makes the nested calls no-ops
		st.call(nil, p.fn(f), nil, 0, nil)
	}
	for _, pk := range pkgs {
		sp := p.Pkgs[pk]
		if sp == nil {
			return fmt.Errorf("boot: package %s not loaded", pk)
		}
		visit(sp.Pkg)
	}
	for _, s := range setups {
		i := strings.LastIndexByte(s, '.')
		sp := p.Pkgs[s[:i]]
		if sp == nil || sp.Func(s[i+1:]) == nil {
			return fmt.Errorf("boot: no setup function %s", s)
		}
		st.call(nil, p.fn(sp.Func(s[i+1:])), nil, 0, nil)
	}
	// commit the snapshot
	for i, o := range st.ovl {
		o.owner = 0
		p.shared.objs[i] = o
	}
	for _, o := range st.objs {
		o.owner = 0
	}
	p.baseObjs = st.objs
	p.baseMaps = st.maps
	for _, m := range p.baseMaps {
		m.owner = 0
	}
	p.baseNative = st.native
	p.baseIters = st.iters
	p.hits = map[string]bool{}
	for _, f := range p.codes {
		f.Hits = 0
	}
	return nil
}

func (p *Program) newState(b *Builder, sol *Solver) *State {
	lim := DefaultLimits()
	st := &State{P: p, b: b, sol: sol, lim: &lim, id: p.stateID.Add(1)}
	st.ovl = map[uint32]*Obj{}
	st.lovl = map[uint32]*Obj{}
	st.maps = map[uint64]*MapObj{}
	st.baseMaps = p.baseMaps
	st.baseN = len(p.baseObjs)
	st.pools = map[uint64][][2]V{}
	st.iters = append([]*iter(nil), p.baseIters...)
	st.native = map[uint64]any{}
	for k, v := range p.baseNative {
		st.native[k] = v
	}
	st.reached = map[string]bool{}
	st.stack = make([]V, 1<<12)
	return st
}

// WriteOverlay writes a go build overlay file.
func WriteOverlay(path string, m map[string]string) error {
	b, err := json.Marshal(map[string]any{"Replace": m})
	if err != nil {
		return err
	}
	os.MkdirAll(filepath.Dir(path), 0o755)
	return os.WriteFile(path, b, 0o644)
}
