package main

import (
	"go/token"
	"go/types"
	"reflect"
	"strings"
	"sync"
)

// reflectModel interprets the reflect package on values whose Go type is known:
// a reflect.Value is a term that carries the type and either the value or the
// address of the variable; using it as a kind it does not have panics.
type reflectModel struct {
	mu     sync.RWMutex
	types  map[string]types.Type
	VT, TT types.Type
}

func newReflectModel(p *Program) *reflectModel {
	return &reflectModel{types: map[string]types.Type{}, VT: p.libType("reflect", "Value"), TT: p.libType("reflect", "Type")}
}

const (
	rType = "reflect: type"
	rVal  = "reflect: value"
	rVar  = "reflect: variable"
	rNone = "reflect: no value"
)

func (m *reflectModel) key(T types.Type) string {
	s := types.TypeString(T, nil)
	m.mu.Lock()
	m.types[s] = T
	m.mu.Unlock()
	return s
}

func (m *reflectModel) rtype(ex *Exec, T types.Type) *Term {
	return ex.ts.mk(Term{Op: OCall, Aux: rType, S: m.key(T), T: m.TT})
}

func (m *reflectModel) value(ex *Exec, T types.Type, x *Term) *Term {
	return ex.ts.mk(Term{Op: OCall, Aux: rVal, S: m.key(T), Args: []*Term{x}, T: m.VT})
}

func (m *reflectModel) variable(ex *Exec, T types.Type, addr *Term) *Term {
	return ex.ts.mk(Term{Op: OCall, Aux: rVar, S: m.key(T), Args: []*Term{addr}, T: m.VT})
}

func (m *reflectModel) none(ex *Exec) *Term {
	return ex.ts.mk(Term{Op: OCall, Aux: rNone, T: m.VT})
}

// of: the Go type behind a reflect.Type or reflect.Value term.
func (m *reflectModel) of(t *Term) (T types.Type, kind string) {
	if t.Op == OZero || t.Op == OStruct && len(t.Args) == 0 || t.Op == OConst {
		if t.T != nil && types.Identical(t.T, m.VT) {
			return nil, rNone
		}
	}
	if t.Op != OCall {
		return nil, ""
	}
	switch t.Aux {
	case rType, rVal, rVar:
		m.mu.RLock()
		defer m.mu.RUnlock()
		return m.types[t.S], t.Aux.(string)
	case rNone:
		return nil, rNone
	}
	return nil, ""
}

// content: the value held.
func (m *reflectModel) content(ex *Exec, st *State, t *Term) *Term {
	T, k := m.of(t)
	if k == rVar {
		return ex.Load(st, t.Args[0], T)
	}
	return t.Args[0]
}

func (m *reflectModel) fromIface(ex *Exec, st *State, x *Term) *Term {
	if x.isNil() {
		return m.none(ex)
	}
	if x.Op == OPhi {
		var vs []*Term
		for _, a := range x.Args {
			v := m.fromIface(ex, st, a)
			if v == nil {
				return nil
			}
			vs = append(vs, v)
		}
		return ex.ts.Phi(vs, m.VT)
	}
	if T := ex.dynType(st, x); T != nil {
		return m.value(ex, T, ex.assertVal(st, x, T))
	}
	return nil
}

var kindOfBasic = map[types.BasicKind]reflect.Kind{
	types.Bool: reflect.Bool, types.Int: reflect.Int, types.Int8: reflect.Int8, types.Int16: reflect.Int16, types.Int32: reflect.Int32,
	types.Int64: reflect.Int64, types.Uint: reflect.Uint, types.Uint8: reflect.Uint8, types.Uint16: reflect.Uint16, types.Uint32: reflect.Uint32,
	types.Uint64: reflect.Uint64, types.Uintptr: reflect.Uintptr, types.Float32: reflect.Float32, types.Float64: reflect.Float64,
	types.Complex64: reflect.Complex64, types.Complex128: reflect.Complex128, types.String: reflect.String, types.UnsafePointer: reflect.UnsafePointer}

func reflectKind(T types.Type) reflect.Kind {
	switch u := T.Underlying().(type) {
	case *types.Basic:
		return kindOfBasic[u.Kind()]
	case *types.Array:
		return reflect.Array
	case *types.Chan:
		return reflect.Chan
	case *types.Signature:
		return reflect.Func
	case *types.Interface:
		return reflect.Interface
	case *types.Map:
		return reflect.Map
	case *types.Pointer:
		return reflect.Pointer
	case *types.Slice:
		return reflect.Slice
	case *types.Struct:
		return reflect.Struct
	}
	return reflect.Invalid
}

// cond: two types are the same or not; a type is never nil.
func (m *reflectModel) cond(next func(ex *Exec, st *State, t *Term) (bool, bool)) func(ex *Exec, st *State, t *Term) (bool, bool) {
	return func(ex *Exec, st *State, t *Term) (bool, bool) {
		if t.Op == OCmp && t.Aux == token.EQL {
			A, ka := m.of(t.Args[0])
			B, kb := m.of(t.Args[1])
			switch {
			case ka == rType && kb == rType:
				return types.Identical(A, B), true
			case ka == rType && t.Args[1].isNil(), kb == rType && t.Args[0].isNil():
				return false, true
			}
		}
		if next != nil {
			return next(ex, st, t)
		}
		return false, false
	}
}

// hook puts the model under a client.
func (m *reflectModel) hook(c *Client) {
	c.Cond = m.cond(c.Cond)
	inner := c.Ext
	c.Ext = func(ex *Exec, c *callCtx) ([]Outcome, bool) {
		if outs, ok := m.call(ex, c); ok {
			return outs, true
		}
		if inner != nil {
			return inner(ex, c)
		}
		return nil, false
	}
}

func (m *reflectModel) call(ex *Exec, c *callCtx) ([]Outcome, bool) {
	n := c.name
	if !strings.HasPrefix(n, "reflect.") && !strings.HasPrefix(n, "(reflect.") && !strings.HasPrefix(n, "(*reflect.") {
		return nil, false
	}
	// one alternative at a time
	for i, a := range c.args {
		if a.Op != OPhi {
			continue
		}
		var outs []Outcome
		for k, x := range a.Args {
			d := *c
			d.args = append([]*Term(nil), c.args...)
			d.args[i] = x
			if k < len(a.Args)-1 {
				d.st = c.st.clone()
			}
			outs = append(outs, ex.external(&d)...)
		}
		return outs, true
	}
	st, a := c.st, c.args
	ret := func(t *Term) ([]Outcome, bool) { return []Outcome{{St: st, Ret: []*Term{t}}}, true }
	boom := func(why string) ([]Outcome, bool) {
		pv := ex.ts.Sym("reflect: "+why, nil)
		ex.emit(st, &Event{Kind: EvPanic, Instr: c.in, Fr: c.fr, Val: pv, Name: "reflect"})
		return []Outcome{{St: st, Panic: true, PV: pv}}, true
	}
	site := ex.site(c.fr, c.in)
	fresh := func(T types.Type, args ...*Term) *Term {
		al := ex.ts.mk(Term{Op: OAlloc, Aux: c.in, S: c.fr.ctx, I: allocLen, Args: args, T: T})
		ex.renew(st, al)
		ex.emit(st, &Event{Kind: EvMake, Instr: c.in, Fr: c.fr, Val: al, Args: args})
		return al
	}
	it := types.Type(types.Typ[types.Int])
	switch n {
	case "reflect.TypeOf":
		v := m.fromIface(ex, st, a[0])
		if v == nil {
			return nil, false
		}
		if T, k := m.of(v); k == rVal {
			return ret(m.rtype(ex, T))
		}
		return ret(ex.ts.Nil(m.TT))
	case "reflect.ValueOf":
		if v := m.fromIface(ex, st, a[0]); v != nil {
			return ret(v)
		}
		return nil, false
	case "reflect.MakeSlice":
		T, k := m.of(a[0])
		if k != rType {
			return nil, false
		}
		if reflectKind(T) != reflect.Slice {
			return boom("MakeSlice of " + m.key(T))
		}
		return ret(m.value(ex, T, fresh(T, a[1])))
	case "reflect.SliceOf", "reflect.PointerTo", "reflect.PtrTo":
		T, k := m.of(a[0])
		if k != rType {
			return nil, false
		}
		if n == "reflect.SliceOf" {
			return ret(m.rtype(ex, types.NewSlice(T)))
		}
		return ret(m.rtype(ex, types.NewPointer(T)))
	case "reflect.Zero":
		if T, k := m.of(a[0]); k == rType {
			return ret(m.value(ex, T, ex.zero(T)))
		}
		return nil, false
	case "reflect.New":
		if T, k := m.of(a[0]); k == rType {
			return ret(m.value(ex, types.NewPointer(T), fresh(types.NewPointer(T))))
		}
		return nil, false
	case "reflect.Indirect":
		T, k := m.of(a[0])
		if k != rVal && k != rVar {
			return nil, false
		}
		if pt, ok := T.Underlying().(*types.Pointer); ok {
			return ret(m.variable(ex, pt.Elem(), m.content(ex, st, a[0])))
		}
		return ret(a[0])
	case "reflect.Copy":
		T, k := m.of(a[0])
		S, k2 := m.of(a[1])
		if k != rVal && k != rVar || k2 != rVal && k2 != rVar {
			return nil, false
		}
		ts, ok := T.Underlying().(*types.Slice)
		ss, ok2 := S.Underlying().(*types.Slice)
		if !ok || !ok2 || !types.Identical(ts.Elem(), ss.Elem()) {
			return boom("Copy of " + m.key(S) + " to " + m.key(T))
		}
		dst := m.content(ex, st, a[0])
		ex.emit(st, &Event{Kind: EvCopy, Instr: c.in, Fr: c.fr, Addr: dst, Val: m.content(ex, st, a[1]), Write: true})
		if o := objOf(dst); o.Op == OAlloc {
			ex.havocReach(st, o, "c"+site)
		} else {
			ex.clobber(st, ex.elemAddr(dst, ex.ts.Sym("?"+site, it), types.NewPointer(ts.Elem())), site)
		}
		return ret(ex.ts.mk(Term{Op: OCall, Aux: "copy", S: site, T: it}))
	case "reflect.Append", "reflect.AppendSlice":
		T, k := m.of(a[0])
		if k != rVal && k != rVar {
			return nil, false
		}
		sl, ok := T.Underlying().(*types.Slice)
		if !ok {
			return boom("Append to " + m.key(T))
		}
		x := m.content(ex, st, a[0])
		if n == "reflect.AppendSlice" {
			S, k2 := m.of(a[1])
			if k2 != rVal && k2 != rVar {
				return nil, false
			}
			if ss, ok := S.Underlying().(*types.Slice); !ok || !types.Identical(ss.Elem(), sl.Elem()) {
				return boom("AppendSlice of " + m.key(S) + " to " + m.key(T))
			}
			y := m.content(ex, st, a[1])
			ex.emit(st, &Event{Kind: EvAppend, Instr: c.in, Fr: c.fr, Addr: x, Args: []*Term{y}})
			return ret(m.value(ex, T, ex.ts.mk(Term{Op: OAppend, I: 1, Args: []*Term{x, y}, T: T})))
		}
		es := ex.sliceElems(st, a[1], nil)
		if es == nil {
			return nil, false
		}
		args := []*Term{x}
		for _, e := range es {
			E, k := m.of(e)
			if k != rVal && k != rVar {
				return nil, false
			}
			if !types.AssignableTo(E, sl.Elem()) {
				return boom("Append of " + m.key(E) + " to " + m.key(T))
			}
			args = append(args, m.content(ex, st, e))
		}
		ex.emit(st, &Event{Kind: EvAppend, Instr: c.in, Fr: c.fr, Addr: x, Args: args[1:]})
		return ret(m.value(ex, T, ex.ts.mk(Term{Op: OAppend, Args: args, T: T})))
	}
	if len(a) == 0 {
		return nil, false
	}
	T, k := m.of(a[0])
	meth := n[strings.LastIndex(n, ".")+1:]
	if k == "" {
		return nil, false
	}
	kindC := func(k reflect.Kind) *Term {
		return ex.ts.Const(ex.ts.Int(int64(k)).C, c.sig.Results().At(0).Type())
	}
	if k == rType {
		switch meth {
		case "Kind":
			return ret(kindC(reflectKind(T)))
		case "Elem":
			switch u := T.Underlying().(type) {
			case *types.Pointer:
				return ret(m.rtype(ex, u.Elem()))
			case *types.Slice:
				return ret(m.rtype(ex, u.Elem()))
			case *types.Array:
				return ret(m.rtype(ex, u.Elem()))
			case *types.Map:
				return ret(m.rtype(ex, u.Elem()))
			case *types.Chan:
				return ret(m.rtype(ex, u.Elem()))
			}
			return boom("Elem of type " + m.key(T))
		case "NumOut", "NumIn", "Out", "In", "IsVariadic":
			sig, ok := T.Underlying().(*types.Signature)
			if !ok {
				return boom(meth + " of type " + m.key(T))
			}
			tup := sig.Results()
			if strings.HasSuffix(meth, "In") {
				tup = sig.Params()
			}
			switch meth {
			case "IsVariadic":
				return ret(ex.ts.Bool(sig.Variadic()))
			case "NumOut", "NumIn":
				return ret(ex.ts.Int(int64(tup.Len())))
			}
			i, ok := ex.Resolve(st, a[1]).intVal()
			if !ok {
				return nil, false
			}
			if i < 0 || int(i) >= tup.Len() {
				return boom(meth + " out of range")
			}
			return ret(m.rtype(ex, tup.At(int(i)).Type()))
		case "Bits":
			if isNumeric(T) {
				return ret(ex.ts.Int(8 * sizeOf(T)))
			}
			return boom("Bits of type " + m.key(T))
		case "Size":
			return ret(ex.ts.Const(ex.ts.Int(sizeOf(T)).C, types.Typ[types.Uintptr]))
		case "Name", "PkgPath":
			s := ""
			switch t := types.Unalias(T).(type) {
			case *types.Named:
				s = t.Obj().Name()
				if meth == "PkgPath" {
					s = ""
					if t.Obj().Pkg() != nil {
						s = t.Obj().Pkg().Path()
					}
				}
			case *types.Basic:
				if meth == "Name" {
					s = t.Name()
				}
			}
			return ret(ex.ts.Str(s))
		case "String":
			return ret(ex.ts.Str(types.TypeString(T, func(p *types.Package) string { return p.Name() })))
		case "AssignableTo", "ConvertibleTo", "Implements":
			U, k2 := m.of(a[1])
			if k2 != rType {
				return nil, false
			}
			switch meth {
			case "AssignableTo":
				return ret(ex.ts.Bool(types.AssignableTo(T, U)))
			case "ConvertibleTo":
				return ret(ex.ts.Bool(types.ConvertibleTo(T, U)))
			}
			if i, ok := U.Underlying().(*types.Interface); ok {
				return ret(ex.ts.Bool(types.Implements(T, i)))
			}
			return boom("Implements")
		case "NumMethod":
			return ret(ex.ts.Int(int64(types.NewMethodSet(T).Len())))
		}
		return nil, false
	}
	// methods of reflect.Value
	switch meth {
	case "IsValid":
		return ret(ex.ts.Bool(k != rNone))
	case "Kind":
		if k == rNone {
			return ret(kindC(reflect.Invalid))
		}
		return ret(kindC(reflectKind(T)))
	case "String":
		if k == rNone {
			return ret(ex.ts.Str("<invalid Value>"))
		}
	}
	if k == rNone {
		return boom(meth + " of no value")
	}
	x := func() *Term { return m.content(ex, st, a[0]) }
	scalar := func(to types.Type, ok bool) ([]Outcome, bool) {
		if !ok {
			return boom(meth + " of " + m.key(T))
		}
		m.read(ex, c, a[0])
		return ret(ex.convert(x(), T, to))
	}
	b := types.Typ
	switch meth {
	case "Type":
		return ret(m.rtype(ex, T))
	case "Int":
		return scalar(b[types.Int64], isInteger(T) && !isUnsigned(T))
	case "Uint":
		return scalar(b[types.Uint64], isInteger(T) && isUnsigned(T))
	case "Float":
		return scalar(b[types.Float64], isFloat(T))
	case "Bool":
		return scalar(b[types.Bool], isBool(T))
	case "String":
		if isString(T) {
			return scalar(b[types.String], true)
		}
		return ret(ex.ts.Str("<" + m.key(T) + " Value>"))
	case "Interface":
		m.read(ex, c, a[0])
		if _, ok := T.Underlying().(*types.Interface); ok {
			return ret(x())
		}
		return ret(ex.ts.mk(Term{Op: OIface, Args: []*Term{x()}, Aux: T, T: c.sig.Results().At(0).Type()}))
	case "CanInterface":
		return ret(ex.ts.Bool(true))
	case "CanSet", "CanAddr":
		return ret(ex.ts.Bool(k == rVar))
	case "CanInt":
		return ret(ex.ts.Bool(isInteger(T) && !isUnsigned(T)))
	case "CanUint":
		return ret(ex.ts.Bool(isInteger(T) && isUnsigned(T)))
	case "CanFloat":
		return ret(ex.ts.Bool(isFloat(T)))
	case "Elem":
		switch u := T.Underlying().(type) {
		case *types.Pointer:
			m.read(ex, c, a[0])
			return ret(m.variable(ex, u.Elem(), x()))
		case *types.Interface:
			m.read(ex, c, a[0])
			if v := m.fromIface(ex, st, x()); v != nil {
				return ret(v)
			}
			return nil, false
		}
		return boom("Elem of " + m.key(T))
	case "Len":
		switch T.Underlying().(type) {
		case *types.Slice, *types.Array, *types.Map, *types.Basic:
			if reflectKind(T) == reflect.Slice || reflectKind(T) == reflect.Array || reflectKind(T) == reflect.Map || isString(T) {
				return ret(ex.lenOf(st, x(), false, T))
			}
		}
		return boom("Len of " + m.key(T))
	case "Cap":
		if reflectKind(T) == reflect.Slice {
			return ret(ex.lenOf(st, x(), true, T))
		}
		return boom("Cap of " + m.key(T))
	case "Index":
		u, ok := T.Underlying().(*types.Slice)
		if !ok {
			if reflectKind(T) == reflect.Array || isString(T) {
				return nil, false
			}
			return boom("Index of " + m.key(T))
		}
		return ret(m.variable(ex, u.Elem(), ex.elemAddr(x(), a[1], types.NewPointer(u.Elem()))))
	case "Slice":
		if reflectKind(T) != reflect.Slice {
			return nil, false
		}
		lo := a[1]
		if v, ok := lo.intVal(); ok && v == 0 {
			lo = nil
		}
		return ret(m.value(ex, T, ex.ts.mk(Term{Op: OSlice, Args: []*Term{x(), lo, a[2], nil}, T: T})))
	case "IsNil":
		switch reflectKind(T) {
		case reflect.Slice, reflect.Pointer, reflect.Map, reflect.Chan, reflect.Func, reflect.Interface, reflect.UnsafePointer:
			m.read(ex, c, a[0])
			return ret(ex.ts.Cmp(token.EQL, x(), ex.ts.Nil(nil), T))
		}
		return boom("IsNil of " + m.key(T))
	case "Convert":
		U, k2 := m.of(a[1])
		if k2 != rType {
			return nil, false
		}
		if !types.ConvertibleTo(T, U) {
			return boom("Convert of " + m.key(T) + " to " + m.key(U))
		}
		return ret(m.value(ex, U, ex.convert(x(), T, U)))
	case "Set", "SetInt", "SetUint", "SetFloat", "SetString", "SetBool":
		if k != rVar {
			return boom(meth + " of an unaddressable value")
		}
		var v *Term
		switch {
		case meth == "Set":
			U, k2 := m.of(a[1])
			if k2 == "" {
				return nil, false
			}
			if k2 == rNone || !types.AssignableTo(U, T) {
				return boom("Set of " + m.key(T))
			}
			v = m.content(ex, st, a[1])
		case meth == "SetInt" && isInteger(T) && !isUnsigned(T):
			v = ex.convert(a[1], b[types.Int64], T)
		case meth == "SetUint" && isInteger(T) && isUnsigned(T):
			v = ex.convert(a[1], b[types.Uint64], T)
		case meth == "SetFloat" && isFloat(T):
			v = ex.convert(a[1], b[types.Float64], T)
		case meth == "SetString" && isString(T), meth == "SetBool" && isBool(T):
			v = a[1]
		default:
			return boom(meth + " of " + m.key(T))
		}
		ex.emit(st, &Event{Kind: EvStore, Instr: c.in, Fr: c.fr, Addr: a[0].Args[0], Val: v, T: T, Write: true})
		ex.Store(st, a[0].Args[0], v, T, site)
		return []Outcome{{St: st}}, true
	case "Call":
		sig, ok := T.Underlying().(*types.Signature)
		if !ok {
			return boom("Call of " + m.key(T))
		}
		if sig.Params().Len() != 0 {
			return boom("Call with too few arguments")
		}
		d := *c
		d.args, d.sig = nil, sig
		var outs []Outcome
		f := x()
		for _, o := range ex.callValue(&d, f) {
			if o.Panic {
				outs = append(outs, o)
				continue
			}
			RT := types.NewSlice(m.VT)
			al := ex.ts.mk(Term{Op: OAlloc, Aux: c.in, S: c.fr.ctx, I: allocLen, Args: []*Term{ex.ts.Int(int64(sig.Results().Len()))}, T: RT})
			ex.renew(o.St, al)
			for i := 0; i < sig.Results().Len() && i < len(o.Ret); i++ {
				addr := ex.elemAddr(al, ex.ts.Int(int64(i)), types.NewPointer(m.VT))
				ex.Store(o.St, addr, m.value(ex, sig.Results().At(i).Type(), o.Ret[i]), m.VT, site)
			}
			outs = append(outs, Outcome{St: o.St, Ret: []*Term{al}})
		}
		return outs, true
	}
	return nil, false
}

// read: shows rules that look for it the reflective read.
func (m *reflectModel) read(ex *Exec, c *callCtx, v *Term) {
	ex.emit(c.st, &Event{Kind: EvExt, Instr: c.in, Fr: c.fr, Name: c.name, Args: c.args})
}

// allocLen marks an allocation whose first argument is its length.
const allocLen = 7

// renew: the allocation made here is a new object.
func (ex *Exec) renew(st *State, a *Term) {
	for c := range st.mem {
		if objOf(c) == a {
			delete(st.mem, c)
		}
	}
	delete(st.pub, a)
	delete(st.pend, a)
	delete(st.havoc, a)
	ex.regen(st, a)
}
