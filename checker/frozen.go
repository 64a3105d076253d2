package main

import (
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// frozen is the content of a package-level table that is filled during
// initialisation and only read afterwards.
type frozen struct {
	isMap bool
	keys  []*Term
	vals  []*Term
}

// frozenOf: the table held by an unexported package variable, or nil.
func (ex *Exec) frozenOf(m *Term) *frozen {
	if m.Op != OLoad || m.Args[0].Op != OGlobal {
		return nil
	}
	g := m.Args[0].Aux.(*ssa.Global)
	if ex.frozenM == nil {
		ex.frozenM = map[*ssa.Global]*frozen{}
	}
	if f, ok := ex.frozenM[g]; ok {
		return f
	}
	f := ex.freeze(g)
	ex.frozenM[g] = f
	return f
}

func (ex *Exec) freeze(g *ssa.Global) *frozen {
	p := ex.P
	if ast_IsExported(g.Name()) || !p.constGlobal(g) || len(p.gstores[g]) != 1 {
		return nil
	}
	src := p.gstores[g][0].Val
	for _, fn := range p.funcs {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if s, ok := in.(*ssa.Store); ok && s.Addr == g {
					continue
				}
				for _, op := range in.Operands(nil) {
					if *op != g {
						continue
					}
					u, ok := in.(*ssa.UnOp)
					if !ok || u.Op != token.MUL || !readOnlyUse(u, 0) {
						return nil
					}
				}
			}
		}
	}
	switch v := src.(type) {
	case *ssa.MakeMap:
		f := &frozen{isMap: true}
		for _, r := range *v.Referrers() {
			switch r := r.(type) {
			case *ssa.MapUpdate:
				k, x := ex.initVal(r.Key, 0), ex.initVal(r.Value, 0)
				if r.Map != v || k == nil || !k.isConst() || x == nil || r.Block() != v.Block() {
					return nil
				}
				f.keys, f.vals = append(f.keys, k), append(f.vals, x)
			case *ssa.Store, *ssa.DebugRef:
			default:
				return nil
			}
		}
		return f
	case *ssa.Slice:
		al, ok := v.X.(*ssa.Alloc)
		if !ok || v.Low != nil || v.High != nil || v.Max != nil {
			return nil
		}
		arr, ok := derefType(al.Type()).Underlying().(*types.Array)
		if !ok || arr.Len() > 256 {
			return nil
		}
		f := &frozen{vals: make([]*Term, arr.Len())}
		for _, r := range *al.Referrers() {
			switch r := r.(type) {
			case *ssa.IndexAddr:
				c, ok := r.Index.(*ssa.Const)
				if !ok {
					return nil
				}
				for _, s := range *r.Referrers() {
					st, ok := s.(*ssa.Store)
					if !ok || st.Addr != r {
						return nil
					}
					x := ex.initVal(st.Val, 0)
					if x == nil || f.vals[c.Int64()] != nil {
						return nil
					}
					f.vals[c.Int64()] = x
				}
			case *ssa.Slice, *ssa.DebugRef:
			default:
				return nil
			}
		}
		for i, x := range f.vals {
			if x == nil {
				f.vals[i] = ex.zero(arr.Elem())
			}
		}
		return f
	}
	return nil
}

// initVal evaluates an operand of an initialiser.
func (ex *Exec) initVal(v ssa.Value, d int) *Term {
	if d > 6 {
		return nil
	}
	switch v := v.(type) {
	case *ssa.Const:
		if v.Value == nil {
			switch v.Type().Underlying().(type) {
			case *types.Struct, *types.Array:
				return ex.zero(v.Type())
			}
			return ex.ts.Nil(v.Type())
		}
		return ex.ts.Const(v.Value, v.Type())
	case *ssa.Function:
		return ex.ts.mk(Term{Op: OFunc, Aux: v, T: v.Type()})
	case *ssa.MakeInterface:
		if x := ex.initVal(v.X, d+1); x != nil {
			return ex.ts.mk(Term{Op: OIface, Args: []*Term{x}, Aux: v.X.Type(), T: v.Type()})
		}
	case *ssa.ChangeType:
		return ex.initVal(v.X, d+1)
	case *ssa.Convert:
		if x := ex.initVal(v.X, d+1); x != nil && x.isConst() {
			return ex.convert(x, v.X.Type(), v.Type())
		}
	case *ssa.UnOp:
		al, ok := v.X.(*ssa.Alloc)
		if v.Op != token.MUL || !ok || !ex.P.isRepoStruct(v.Type()) {
			return nil
		}
		u := v.Type().Underlying().(*types.Struct)
		args := make([]*Term, u.NumFields())
		for _, r := range *al.Referrers() {
			switch r := r.(type) {
			case *ssa.FieldAddr:
				for _, s := range *r.Referrers() {
					st, ok := s.(*ssa.Store)
					if !ok || st.Addr != r || args[r.Field] != nil {
						return nil
					}
					if args[r.Field] = ex.initVal(st.Val, d+1); args[r.Field] == nil {
						return nil
					}
				}
			case *ssa.UnOp, *ssa.DebugRef:
				if r != ssa.Instruction(v) {
					return nil
				}
			default:
				return nil
			}
		}
		for i := range args {
			if args[i] == nil {
				args[i] = ex.zero(u.Field(i).Type())
			}
		}
		return ex.structOf(args, v.Type())
	}
	return nil
}

// readOnlyUse: the table v refers to is not changed through v.
func readOnlyUse(v ssa.Value, d int) bool {
	if d > 6 || v.Referrers() == nil {
		return false
	}
	for _, r := range *v.Referrers() {
		switch r := r.(type) {
		case *ssa.Lookup, *ssa.Range, *ssa.DebugRef, *ssa.BinOp:
		case *ssa.UnOp:
			if r.Op != token.MUL {
				return false
			}
		case *ssa.IndexAddr:
			if !readOnlyUse(r, d+1) {
				return false
			}
		case *ssa.FieldAddr:
			if !readOnlyUse(r, d+1) {
				return false
			}
		case *ssa.Slice:
			if !readOnlyUse(r, d+1) {
				return false
			}
		case *ssa.Phi:
			if !readOnlyUse(r, d+1) {
				return false
			}
		case *ssa.Call:
			if b, ok := r.Call.Value.(*ssa.Builtin); ok {
				if b.Name() == "len" || b.Name() == "cap" {
					continue
				}
				return false
			}
			f := r.Call.StaticCallee()
			if f == nil || f.Blocks == nil || r.Call.IsInvoke() {
				return false
			}
			for i, a := range r.Call.Args {
				if a == v && (i >= len(f.Params) || !readOnlyUse(f.Params[i], d+1)) {
					return false
				}
			}
		default:
			return false
		}
	}
	return true
}

// frozenLookup: the entry of a frozen map for a key that is decided.
func (ex *Exec) frozenLookup(st *State, m, k *Term, mt *types.Map) (v, ok *Term, known bool) {
	f := ex.frozenOf(m)
	if f == nil || !f.isMap {
		return nil, nil, false
	}
	for i, key := range f.keys {
		eq, dec := ex.truth(st, ex.ts.Cmp(token.EQL, k, key, mt.Key()))
		if !dec {
			return nil, nil, false
		}
		if eq {
			return f.vals[i], ex.ts.Bool(true), true
		}
	}
	return ex.zero(mt.Elem()), ex.ts.Bool(false), true
}
