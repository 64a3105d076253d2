package main

import (
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// computeUses records callers, address-taken functions and stores to globals.
func (p *Program) computeUses() {
	p.gstores = map[*ssa.Global][]*ssa.Store{}
	p.callers = map[*ssa.Function][]*ssa.Function{}
	p.usedAsVal = map[*ssa.Function]bool{}
	p.initOnlyM = map[*ssa.Function]int{}
	for _, f := range p.funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if s, ok := in.(*ssa.Store); ok {
					if g, ok := s.Addr.(*ssa.Global); ok {
						p.gstores[g] = append(p.gstores[g], s)
					}
				}
				if mc, ok := in.(*ssa.MakeClosure); ok {
					p.callers[mc.Fn.(*ssa.Function)] = append(p.callers[mc.Fn.(*ssa.Function)], f)
				}
				var callee *ssa.Function
				if c, ok := in.(ssa.CallInstruction); ok {
					callee = c.Common().StaticCallee()
					if callee != nil {
						p.callers[callee] = append(p.callers[callee], f)
					}
				}
				for _, o := range in.Operands(nil) {
					if fn, ok := (*o).(*ssa.Function); ok && fn != nil {
						if c, isCall := in.(ssa.CallInstruction); isCall && c.Common().Value == *o {
							// callee position; may still appear as an argument
							n := 0
							for _, a := range c.Common().Args {
								if a == *o {
									n++
								}
							}
							if n == 0 {
								continue
							}
						}
						if _, isMC := in.(*ssa.MakeClosure); isMC {
							continue
						}
						p.usedAsVal[fn] = true
					}
				}
			}
		}
	}
}

// initOnly: f runs only while packages are initialised.
func (p *Program) initOnly(f *ssa.Function) bool {
	p.mu.Lock()
	defer p.mu.Unlock()
	return p.initOnly1(f)
}

func (p *Program) initOnly1(f *ssa.Function) bool {
	if f.Synthetic == "package initializer" || f.Name() == "init" && f.Signature.Recv() == nil || strings.HasPrefix(f.Name(), "init#") {
		return true
	}
	switch p.initOnlyM[f] {
	case 1:
		return true
	case 2, 3:
		return false
	}
	p.initOnlyM[f] = 3
	res := true
	if p.usedAsVal[f] || f.Parent() != nil || f.Signature.Recv() != nil || ast_IsExported(f.Name()) || len(p.callers[f]) == 0 {
		res = false
	}
	if res {
		for _, c := range p.callers[f] {
			if !p.initOnly1(c) {
				res = false
				break
			}
		}
	}
	if res {
		p.initOnlyM[f] = 1
	} else {
		p.initOnlyM[f] = 2
	}
	return res
}

func ast_IsExported(n string) bool { return n != "" && n[0] >= 'A' && n[0] <= 'Z' }

// constGlobal: the variable is assigned only during package initialisation.
func (p *Program) constGlobal(g *ssa.Global) bool {
	if !p.isRepoPkg(g.Pkg.Pkg) {
		return false
	}
	for _, s := range p.gstores[g] {
		if !p.initOnly(s.Parent()) {
			return false
		}
	}
	return true
}

// nonNilGlobal: constGlobal, and what it is assigned is never nil.
func (p *Program) nonNilGlobal(g *ssa.Global) bool {
	if !p.constGlobal(g) || len(p.gstores[g]) == 0 {
		return false
	}
	for _, s := range p.gstores[g] {
		if !p.nonNilVal(s.Val, 0) {
			return false
		}
	}
	return true
}

func (p *Program) nonNilVal(v ssa.Value, d int) bool {
	if d > 8 {
		return false
	}
	switch v := v.(type) {
	case *ssa.Alloc, *ssa.MakeChan, *ssa.MakeMap, *ssa.MakeInterface, *ssa.MakeClosure, *ssa.Function, *ssa.MakeSlice:
		return true
	case *ssa.ChangeType:
		return p.nonNilVal(v.X, d+1)
	case *ssa.ChangeInterface:
		return p.nonNilVal(v.X, d+1)
	case *ssa.Call:
		f := v.Common().StaticCallee()
		if f == nil {
			return false
		}
		if nonNilResult[f.String()] {
			return true
		}
		if f.Blocks == nil || f.Signature.Results().Len() != 1 {
			return false
		}
		n := 0
		for _, b := range f.Blocks {
			if r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
				n++
				if !p.nonNilVal(r.Results[0], d+1) {
					return false
				}
			}
		}
		return n > 0
	}
	return false
}

// globalVal: the constant held by a never-reassigned package variable.
func (ex *Exec) globalVal(g *ssa.Global) *Term {
	if t, ok := ex.gvals[g]; ok {
		return t
	}
	ex.gvals[g] = nil
	if ss := ex.P.gstores[g]; ex.P.constGlobal(g) && len(ss) == 1 {
		if c, ok := ss[0].Val.(*ssa.Const); ok && c.Value != nil {
			t := ex.ts.Const(c.Value, c.Type())
			ex.gvals[g] = t
			return t
		}
		if cv, ok := ss[0].Val.(*ssa.Convert); ok {
			if c, ok := cv.X.(*ssa.Const); ok && c.Value != nil {
				t := ex.convert(ex.ts.Const(c.Value, c.Type()), c.Type(), cv.Type())
				ex.gvals[g] = t
				return t
			}
		}
	}
	return nil
}

func unexportedRepoType(p *Program, t types.Type) bool {
	switch t := types.Unalias(t).(type) {
	case *types.Pointer:
		return unexportedRepoType(p, t.Elem())
	case *types.Slice:
		return unexportedRepoType(p, t.Elem())
	case *types.Named:
		return p.isRepoPkg(t.Obj().Pkg()) && !t.Obj().Exported()
	}
	return false
}

// closedInterface: only this repository can implement the interface.
func (p *Program) closedInterface(t types.Type) bool {
	n, ok := types.Unalias(t).(*types.Named)
	if !ok || !p.isRepoPkg(n.Obj().Pkg()) {
		return false
	}
	it, ok := n.Underlying().(*types.Interface)
	if !ok {
		return false
	}
	for i := 0; i < it.NumMethods(); i++ {
		m := it.Method(i)
		if !m.Exported() {
			return true
		}
		sig := m.Type().(*types.Signature)
		for j := 0; j < sig.Params().Len(); j++ {
			if unexportedRepoType(p, sig.Params().At(j).Type()) {
				return true
			}
		}
		for j := 0; j < sig.Results().Len(); j++ {
			if unexportedRepoType(p, sig.Results().At(j).Type()) {
				return true
			}
		}
	}
	return false
}

func (p *Program) implementers(t types.Type) []types.Type {
	key := types.TypeString(t, nil)
	p.mu.Lock()
	defer p.mu.Unlock()
	if r, ok := p.impls[key]; ok {
		return r
	}
	it := t.Underlying().(*types.Interface)
	var r []types.Type
	var paths []string
	for path := range p.Pkgs {
		paths = append(paths, path)
	}
	sort.Strings(paths)
	for _, path := range paths {
		sc := p.Pkgs[path].Pkg.Scope()
		for _, name := range sc.Names() {
			tn, ok := sc.Lookup(name).(*types.TypeName)
			if !ok || tn.IsAlias() {
				continue
			}
			if _, isI := tn.Type().Underlying().(*types.Interface); isI {
				continue
			}
			if types.Implements(tn.Type(), it) {
				r = append(r, tn.Type())
			} else if pt := types.NewPointer(tn.Type()); types.Implements(pt, it) {
				r = append(r, pt)
			}
		}
	}
	p.impls[key] = r
	return r
}
