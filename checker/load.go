package main

import (
	"fmt"
	"go/ast"
	"go/build"
	"go/parser"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"runtime"
	"sort"
	"strings"
	"sync"

	"golang.org/x/tools/go/ssa"
)

const modPrefix = "github.com/Symantec/tricorder"

// Program is the resolved program: every package of /repo parsed with the
// real build's file selection, type-checked and lowered to SSA. The standard
// library is type-checked from source without function bodies: it is the
// trusted boundary, described by the tables in models.go.
type Program struct {
	Repo  string
	GOOS  string
	Fset  *token.FileSet
	Prog  *ssa.Program
	Pkgs  map[string]*ssa.Package // repo packages by import path
	Types map[string]*types.Package
	Files map[string][]*ast.File
	Infos map[string]*types.Info

	funcs     []*ssa.Function // every repo function, incl. anonymous ones
	immutable map[fieldKey]bool
	fins      map[*ssa.Function]*fnInfo
	ids       map[ssa.Instruction]int
	gstores   map[*ssa.Global][]*ssa.Store
	initOnlyM map[*ssa.Function]int
	callers   map[*ssa.Function][]*ssa.Function
	usedAsVal map[*ssa.Function]bool
	impls     map[string][]types.Type
	mu        sync.Mutex // guards the lazily filled tables
}

type loader struct {
	fset  *token.FileSet
	bctx  build.Context
	repo  string
	pkgs  map[string]*types.Package
	files map[string][]*ast.File
	infos map[string]*types.Info
	order []string // repo packages in dependency order
	errs  []error
}

func (l *loader) Import(path string) (*types.Package, error) {
	if path == "unsafe" {
		return types.Unsafe, nil
	}
	if p := l.pkgs[path]; p != nil {
		return p, nil
	}
	var dir string
	inRepo := path == modPrefix || strings.HasPrefix(path, modPrefix+"/")
	if inRepo {
		dir = filepath.Join(l.repo, strings.TrimPrefix(path, modPrefix))
	} else {
		dir = filepath.Join(l.bctx.GOROOT, "src", path)
		if _, err := os.Stat(dir); err != nil {
			dir = filepath.Join(l.bctx.GOROOT, "src", "vendor", path)
		}
	}
	bp, err := l.bctx.ImportDir(dir, 0)
	if err != nil {
		return nil, fmt.Errorf("%s: %v", path, err)
	}
	var files []*ast.File
	mode := parser.SkipObjectResolution
	if inRepo {
		mode |= parser.ParseComments
	}
	for _, name := range bp.GoFiles {
		f, err := parser.ParseFile(l.fset, filepath.Join(dir, name), nil, mode)
		if err != nil {
			return nil, err
		}
		files = append(files, f)
	}
	conf := types.Config{
		Importer:         l,
		IgnoreFuncBodies: !inRepo,
		FakeImportC:      true,
		Sizes:            types.SizesFor("gc", "amd64"),
		Error: func(err error) {
			if inRepo {
				l.errs = append(l.errs, err)
			}
		},
	}
	info := &types.Info{}
	if inRepo {
		info = &types.Info{
			Types:        make(map[ast.Expr]types.TypeAndValue),
			Defs:         make(map[*ast.Ident]types.Object),
			Uses:         make(map[*ast.Ident]types.Object),
			Implicits:    make(map[ast.Node]types.Object),
			Instances:    make(map[*ast.Ident]types.Instance),
			Scopes:       make(map[ast.Node]*types.Scope),
			Selections:   make(map[*ast.SelectorExpr]*types.Selection),
			FileVersions: make(map[*ast.File]string),
		}
	}
	pkg, err := conf.Check(path, l.fset, files, info)
	if err != nil && inRepo {
		return nil, err
	}
	l.pkgs[path] = pkg
	if inRepo {
		l.files[path] = files
		l.infos[path] = info
		l.order = append(l.order, path)
	}
	return pkg, nil
}

// Load parses, type-checks and builds SSA for every package under repo/go.
func Load(repo, goos string) (*Program, error) {
	repo, err := filepath.Abs(repo)
	if err != nil {
		return nil, err
	}
	bctx := build.Default
	if g := os.Getenv("VERIF_GOROOT"); g != "" {
		bctx.GOROOT = g
	} else if bctx.GOROOT == "" {
		bctx.GOROOT = runtime.GOROOT()
	}
	bctx.GOOS = goos
	bctx.GOARCH = "amd64"
	bctx.CgoEnabled = false
	bctx.GOPATH = ""
	l := &loader{
		fset:  token.NewFileSet(),
		bctx:  bctx,
		repo:  repo,
		pkgs:  make(map[string]*types.Package),
		files: make(map[string][]*ast.File),
		infos: make(map[string]*types.Info),
	}
	var dirs []string
	err = filepath.Walk(repo, func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		if fi.IsDir() {
			b := filepath.Base(p)
			if p != repo && (strings.HasPrefix(b, ".") || strings.HasPrefix(b, "_") || b == "testdata" || b == "vendor") {
				return filepath.SkipDir
			}
			if bp, err := bctx.ImportDir(p, 0); err == nil && len(bp.GoFiles) > 0 {
				dirs = append(dirs, p)
			}
		}
		return nil
	})
	if err != nil {
		return nil, err
	}
	sort.Strings(dirs)
	if len(dirs) == 0 {
		return nil, fmt.Errorf("no Go packages under %s", repo)
	}
	for _, d := range dirs {
		rel, _ := filepath.Rel(repo, d)
		path := modPrefix
		if rel != "." {
			path += "/" + filepath.ToSlash(rel)
		}
		if _, err := l.Import(path); err != nil {
			return nil, fmt.Errorf("type-check %s: %v", path, err)
		}
	}
	if len(l.errs) > 0 {
		return nil, l.errs[0]
	}
	prog := ssa.NewProgram(l.fset, ssa.InstantiateGenerics)
	p := &Program{
		Repo: repo, GOOS: goos, Fset: l.fset, Prog: prog,
		Pkgs:  make(map[string]*ssa.Package),
		Types: l.pkgs, Files: l.files, Infos: l.infos,
		fins: map[*ssa.Function]*fnInfo{}, ids: map[ssa.Instruction]int{}, impls: map[string][]types.Type{},
	}
	created := make(map[*types.Package]bool)
	var createAll func(pkgs []*types.Package)
	createAll = func(pkgs []*types.Package) {
		for _, tp := range pkgs {
			if created[tp] {
				continue
			}
			created[tp] = true
			if l.files[tp.Path()] == nil {
				prog.CreatePackage(tp, nil, nil, true)
			}
			createAll(tp.Imports())
		}
	}
	for _, path := range l.order {
		createAll(l.pkgs[path].Imports())
	}
	for _, path := range l.order {
		p.Pkgs[path] = prog.CreatePackage(l.pkgs[path], l.files[path], l.infos[path], false)
	}
	for _, path := range l.order {
		p.Pkgs[path].Build()
	}
	p.collectFuncs()
	p.computeUses()
	p.computeImmutable()
	return p, nil
}

func (p *Program) collectFuncs() {
	seen := make(map[*ssa.Function]bool)
	var add func(f *ssa.Function)
	add = func(f *ssa.Function) {
		if f == nil || seen[f] || f.Blocks == nil {
			return
		}
		seen[f] = true
		p.funcs = append(p.funcs, f)
		for _, a := range f.AnonFuncs {
			add(a)
		}
	}
	var paths []string
	for path := range p.Pkgs {
		paths = append(paths, path)
	}
	sort.Strings(paths)
	for _, path := range paths {
		pkg := p.Pkgs[path]
		var names []string
		for n := range pkg.Members {
			names = append(names, n)
		}
		sort.Strings(names)
		for _, n := range names {
			switch m := pkg.Members[n].(type) {
			case *ssa.Function:
				add(m)
			case *ssa.Type:
				if nt, ok := m.Type().(*types.Named); ok {
					for i := 0; i < nt.NumMethods(); i++ {
						add(p.Prog.FuncValue(nt.Method(i)))
					}
				}
			}
		}
	}
}

// Pkg returns the repo package go/<rel>.
func (p *Program) Pkg(rel string) *ssa.Package { return p.Pkgs[modPrefix+"/go/"+rel] }

// Pos renders a position relative to the repository.
func (p *Program) Pos(pos token.Pos) string {
	if !pos.IsValid() {
		return "-"
	}
	q := p.Fset.Position(pos)
	f := q.Filename
	if r, err := filepath.Rel(p.Repo, f); err == nil && !strings.HasPrefix(r, "..") {
		f = r
	}
	return fmt.Sprintf("%s:%d", f, q.Line)
}

// InstrPos finds the nearest valid position of an instruction.
func (p *Program) InstrPos(in ssa.Instruction) string {
	if in == nil {
		return "-"
	}
	if in.Pos().IsValid() {
		return p.Pos(in.Pos())
	}
	var ops []*ssa.Value
	for _, o := range in.Operands(ops) {
		if o != nil && *o != nil && (*o).Pos().IsValid() {
			if _, isFn := (*o).(*ssa.Function); !isFn {
				return p.Pos((*o).Pos())
			}
		}
	}
	if b := in.Block(); b != nil {
		for _, i := range b.Instrs {
			if i.Pos().IsValid() {
				return p.Pos(i.Pos())
			}
		}
	}
	if in.Parent() != nil {
		return p.Pos(in.Parent().Pos())
	}
	return "-"
}

func (p *Program) isRepoPkg(tp *types.Package) bool {
	return tp != nil && strings.HasPrefix(tp.Path(), modPrefix)
}

// isRepoStruct: a struct type declared in the repository (or anonymous), whose
// fields the engine tracks one by one. Library structs are atomic values.
func (p *Program) isRepoStruct(t types.Type) bool {
	switch t := types.Unalias(t).(type) {
	case *types.Named:
		if _, ok := t.Underlying().(*types.Struct); !ok {
			return false
		}
		return p.isRepoPkg(t.Obj().Pkg())
	case *types.Struct:
		return true
	}
	return false
}

type fieldKey struct {
	strct string // canonical name of the underlying struct's owner
	idx   int
}

// structKey names a struct by identity of its underlying struct type, so that
// `type Group region` and region share their fields.
func structKey(t types.Type) string {
	st, ok := t.Underlying().(*types.Struct)
	if !ok {
		return types.TypeString(t, nil)
	}
	if k, ok := structKeys.Load(st); ok {
		return k.(string)
	}
	k := types.TypeString(st, nil)
	if n := st.NumFields(); n > 0 {
		k = fmt.Sprintf("struct@%d", st.Field(0).Pos())
	}
	structKeys.Store(st, k)
	return k
}

var structKeys sync.Map

func derefType(t types.Type) types.Type {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return t
}

// computeImmutable finds the struct fields that no function writes except into
// an object that the same function just allocated.
func (p *Program) computeImmutable() {
	mut := make(map[fieldKey]bool)
	all := make(map[fieldKey]bool)
	note := func(fa *ssa.FieldAddr) {
		st := derefType(fa.X.Type())
		k := fieldKey{structKey(st), fa.Field}
		all[k] = true
		_, fresh := fa.X.(*ssa.Alloc)
		for _, r := range *fa.Referrers() {
			switch r := r.(type) {
			case *ssa.UnOp, *ssa.DebugRef:
			case *ssa.Store:
				if r.Addr != fa {
					mut[k] = true // address escapes
				} else if !fresh {
					mut[k] = true
				}
			case *ssa.FieldAddr, *ssa.IndexAddr:
			case *ssa.Call, *ssa.Defer:
				// A method of a library type (mutex...), or &field passed on.
				c := r.(ssa.CallInstruction).Common()
				if f := c.StaticCallee(); f != nil && f.Blocks == nil && f.Signature.Recv() != nil {
					break
				}
				mut[k] = true
			default:
				mut[k] = true
			}
		}
	}
	for _, f := range p.funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				switch in := in.(type) {
				case *ssa.FieldAddr:
					note(in)
				case *ssa.Store:
					// whole-struct store into a non-fresh object
					st := derefType(in.Addr.Type())
					if _, ok := st.Underlying().(*types.Struct); ok {
						if _, fresh := in.Addr.(*ssa.Alloc); !fresh {
							s := st.Underlying().(*types.Struct)
							for i := 0; i < s.NumFields(); i++ {
								mut[fieldKey{structKey(st), i}] = true
							}
						}
					}
				}
			}
		}
	}
	p.immutable = make(map[fieldKey]bool)
	for k := range all {
		if !mut[k] {
			p.immutable[k] = true
		}
	}
}
