package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Property{ID: "C22", MinObs: 250, Run: runC22,
		Rule: "every function of the type tables is interpreted once per kind (all declared kinds and one undeclared) and once per Go type (all table types, their slices, named variants, platform-sized types); the results are compared with one table that relates kind and Go type"})
	register(&Property{ID: "C25", MinObs: 12, Run: runC25,
		Rule: "the package initialisation is interpreted on all paths for the Go types it registers with the encoder; they are compared with the types of the kind table, the distribution message and the types stored into messages by all entry points"})
}

// kindRow relates a kind to the Go type of its values.
type kindRow struct {
	name  string
	goT   types.Type // nil: no single value (Dist, List, Unknown)
	class string     // int, uint, float, other
	bits  int64
	json  bool // string form of a time or duration
	float bool // converts to and from float64
}

func (p *Program) kindTable() []kindRow {
	b := func(k types.BasicKind) types.Type { return types.Typ[k] }
	return []kindRow{
		{"Bool", b(types.Bool), "", 0, false, false},
		{"Int8", b(types.Int8), "int", 8, false, true},
		{"Int16", b(types.Int16), "int", 16, false, true},
		{"Int32", b(types.Int32), "int", 32, false, true},
		{"Int64", b(types.Int64), "int", 64, false, true},
		{"Uint8", b(types.Uint8), "uint", 8, false, true},
		{"Uint16", b(types.Uint16), "uint", 16, false, true},
		{"Uint32", b(types.Uint32), "uint", 32, false, true},
		{"Uint64", b(types.Uint64), "uint", 64, false, true},
		{"Float32", b(types.Float32), "float", 32, false, true},
		{"Float64", b(types.Float64), "float", 64, false, true},
		{"String", b(types.String), "", 0, false, false},
		{"GoTime", p.libType("time", "Time"), "", 0, false, true},
		{"GoDuration", p.libType("time", "Duration"), "", 0, false, true},
		{"Time", b(types.String), "", 0, true, false},
		{"Duration", b(types.String), "", 0, true, false},
		{"Dist", nil, "", 0, false, false},
		{"List", nil, "", 0, false, false},
		{"Unknown", nil, "", 0, false, false},
	}
}

// constTerm: the declared constant of that name.
func (ex *Exec) constOf(pkg, name string) *Term {
	sp := ex.P.Pkg(pkg)
	if sp == nil {
		return nil
	}
	c, ok := sp.Pkg.Scope().Lookup(name).(*types.Const)
	if !ok {
		return nil
	}
	return ex.ts.Const(c.Val(), c.Type())
}

// apply interprets f on the arguments made by mk, with nothing else running.
func (r *Report) apply(f *ssa.Function, label string, cl *Client, mk func(ex *Exec) []*Term) (*Exec, []Outcome) {
	if cl == nil {
		cl = &Client{}
	}
	ex := NewExec(r.P, cl)
	outs := ex.Run(f, mk(ex), nil, newState())
	r.Ran(ex, r.P.fname(f)+" "+label)
	return ex, outs
}

// otherKind decides that a symbolic value differs from every constant.
func otherKind(s string) *Client {
	return &Client{Cond: func(ex *Exec, st *State, t *Term) (bool, bool) {
		if t.Op != OCmp || t.Aux != token.EQL {
			return false, false
		}
		a, b := t.Args[0], t.Args[1]
		if b.Op == OSym {
			a, b = b, a
		}
		if a.Op == OSym && a.S == s && b.isConst() {
			return false, true
		}
		return false, false
	}}
}

func ifaceOf(t *Term) (types.Type, *Term) {
	if t.Op == OIface {
		return t.Aux.(types.Type), t.Args[0]
	}
	return nil, nil
}

func runC22(r *Report) {
	p := r.P
	T := p.Named("tricorder/types", "Type")
	if !r.Need(T != nil, "types.Type") {
		return
	}
	tab := p.kindTable()
	meth := func(n string) *ssa.Function {
		f := p.Method("tricorder/types", "Type", n)
		r.Need(f != nil, "types.Type."+n)
		return f
	}
	fn := func(pkg, n string) *ssa.Function {
		f := p.Func(pkg, n)
		r.Need(f != nil, pkg+"."+n)
		return f
	}
	kindArg := func(ex *Exec, k kindRow) *Term {
		if k.name == "<undeclared>" {
			return ex.ts.Sym("kind", T)
		}
		return ex.constOf("tricorder/types", k.name)
	}
	all := append(append([]kindRow(nil), tab...), kindRow{name: "<undeclared>"})
	var rows []kindRow
	for _, k := range all {
		ex := NewExec(p, &Client{})
		if r.Need(kindArg(ex, k) != nil, "kind "+k.name) {
			rows = append(rows, k)
		}
	}
	cl := func() *Client { return otherKind("kind") }
	// predicates and sizes
	preds := map[string]func(k kindRow) *bool{}
	yes := func(b bool) *bool { return &b }
	preds["IsInt"] = func(k kindRow) *bool { return yes(k.class == "int") }
	preds["IsUint"] = func(k kindRow) *bool { return yes(k.class == "uint") }
	preds["IsFloat"] = func(k kindRow) *bool { return yes(k.class == "float") }
	preds["CanToFromFloat"] = func(k kindRow) *bool { return yes(k.float) }
	preds["UsesSubType"] = func(k kindRow) *bool { return yes(k.name == "List") }
	preds["SupportsEquality"] = func(k kindRow) *bool {
		if k.name == "<undeclared>" {
			return nil
		}
		return yes(k.name != "List" && k.name != "Dist" && k.name != "Unknown")
	}
	for name, want := range preds {
		f := meth(name)
		if f == nil {
			continue
		}
		for _, k := range rows {
			w := want(k)
			if w == nil {
				continue
			}
			ex, outs := r.apply(f, k.name, cl(), func(ex *Exec) []*Term { return []*Term{kindArg(ex, k)} })
			site := p.fname(f) + " of " + k.name
			r.Check(len(outs) > 0, "predicate", site, fmt.Sprintf("answers %v", *w), "no path returns")
			for _, o := range outs {
				v, ok := false, false
				if !o.Panic {
					v, ok = ex.truth(o.St, o.Ret[0])
				}
				r.Check(ok && v == *w, "predicate", site, fmt.Sprintf("answers %v", *w), "answers %v", o.Ret)
			}
		}
	}
	if f := meth("Bits"); f != nil {
		for _, k := range rows {
			_, outs := r.apply(f, k.name, cl(), func(ex *Exec) []*Term { return []*Term{kindArg(ex, k)} })
			for _, o := range outs {
				v, ok := int64(0), false
				if !o.Panic {
					v, ok = o.Ret[0].intVal()
				}
				r.Check(ok && v == k.bits, "bits", p.fname(f)+" of "+k.name, fmt.Sprintf("answers %d", k.bits), "answers %v", o.Ret)
			}
		}
	}
	// zero values and nil slices
	zero := func(ex *Exec, k kindRow) *Term {
		if k.json {
			return ex.ts.Str("0.000000000")
		}
		return ex.zero(k.goT)
	}
	type made struct {
		f     *ssa.Function
		panic bool
		slice bool
		dist  bool
	}
	for _, m := range []made{{meth("SafeZeroValue"), false, false, false}, {meth("ZeroValue"), true, false, false}, {meth("SafeNilSlice"), false, true, false}, {meth("NilSlice"), true, true, false}, {fn("tricorder/messages", "ZeroValue"), false, false, true}} {
		if m.f == nil {
			continue
		}
		for _, k := range rows {
			ex, outs := r.apply(m.f, k.name, cl(), func(ex *Exec) []*Term { return []*Term{kindArg(ex, k)} })
			site := p.fname(m.f) + " of " + k.name
			goT := k.goT
			if m.dist && k.name == "Dist" {
				goT = types.NewPointer(p.Named("tricorder/messages", "Distribution"))
			}
			r.Check(len(outs) > 0, "value", site, "answers", "no path returns")
			for _, o := range outs {
				if goT == nil {
					if m.panic {
						r.Check(o.Panic, "value", site, "refuses by panicking", "returns %v", o.Ret)
					} else {
						r.Check(!o.Panic && o.Ret[0].isNil() && ex.nonNil(o.St, o.Ret[1]), "value", site, "refuses with an error", "panics: %v, returns %v", o.Panic, o.Ret)
					}
					continue
				}
				if !r.Check(!o.Panic, "value", site, "returns", "panics") {
					continue
				}
				typ, v := ifaceOf(o.Ret[0])
				want, wv := goT, (*Term)(nil)
				if m.slice {
					want = types.NewSlice(goT)
					wv = ex.ts.Nil(want)
				} else if m.dist && k.name == "Dist" {
					wv = ex.ts.Nil(goT)
				} else {
					wv = zero(ex, k)
				}
				if !r.Check(typ != nil && types.Identical(typ, want), "value", site, "has Go type "+want.String(), "returns %v of type %v", o.Ret[0], typ) {
					continue
				}
				r.Check(v == wv || v.isNil() && wv.isNil() || sameConst(v, wv), "value", site, "is the zero value", "returns %v", v)
				if len(o.Ret) > 1 {
					r.Check(o.Ret[1].isNil(), "value", site, "comes without an error", "returns error %v", o.Ret[1])
				}
			}
		}
	}
	// floats
	ft := types.Typ[types.Float64]
	if f := meth("FromFloat"); f != nil {
		for _, k := range rows {
			var arg *Term
			_, outs := r.apply(f, k.name, cl(), func(ex *Exec) []*Term {
				arg = ex.ts.Sym("float", ft)
				return []*Term{kindArg(ex, k), arg}
			})
			site := p.fname(f) + " of " + k.name
			for _, o := range outs {
				if !k.float {
					r.Check(o.Panic, "from-float", site, "refuses by panicking", "returns %v", o.Ret)
					continue
				}
				if !r.Check(!o.Panic, "from-float", site, "returns", "panics") {
					continue
				}
				typ, v := ifaceOf(o.Ret[0])
				r.Check(typ != nil && types.Identical(typ, k.goT), "from-float", site, "has Go type "+k.goT.String(), "returns %v of type %v", o.Ret[0], typ)
				r.Check(v != nil && v.contains(arg), "from-float", site, "is computed from the argument", "returns %v", v)
				if k.name == "Float64" {
					r.Check(v == arg, "from-float", site, "is the argument", "returns %v", v)
				}
			}
		}
	}
	var anyT = types.NewInterfaceType(nil, nil)
	wrap := func(ex *Exec, t types.Type, v *Term) *Term {
		return ex.ts.mk(Term{Op: OIface, Args: []*Term{v}, Aux: t, T: anyT})
	}
	if f := meth("ToFloat"); f != nil {
		for _, k := range rows {
			for _, x := range tab {
				if x.goT == nil || x.json {
					continue
				}
				var arg *Term
				_, outs := r.apply(f, k.name+" on "+x.name, cl(), func(ex *Exec) []*Term {
					arg = ex.ts.Sym("value", x.goT)
					return []*Term{kindArg(ex, k), wrap(ex, x.goT, arg)}
				})
				site := fmt.Sprintf("%s of %s on %v", p.fname(f), k.name, x.goT)
				good := k.float && types.Identical(k.goT, x.goT)
				for _, o := range outs {
					if !good {
						r.Check(o.Panic, "to-float", site, "refuses by panicking", "returns %v", o.Ret)
						continue
					}
					if !r.Check(!o.Panic, "to-float", site, "returns", "panics") {
						continue
					}
					v := o.Ret[0]
					if k.class != "" {
						if v.Op == OConv {
							v = v.Args[0]
						}
						for v.Op == OConv && v.S == "w" {
							v = v.Args[0]
						}
						r.Check(v == arg, "to-float", site, "is the value", "returns %v", o.Ret[0])
					} else {
						r.Check(v.contains(arg), "to-float", site, "is computed from the value", "returns %v", v)
					}
				}
			}
		}
	}
	// from Go values
	fg, fgs := fn("tricorder/types", "FromGoValue"), fn("tricorder/types", "FromGoValueWithSubType")
	type gv struct {
		t         types.Type
		kind, sub string
	}
	var gvs []gv
	named := func(name string, t types.Type) types.Type {
		return types.NewNamed(types.NewTypeName(token.NoPos, nil, name, nil), t, nil)
	}
	for _, k := range tab {
		if k.goT == nil || k.json {
			continue
		}
		gvs = append(gvs, gv{k.goT, k.name, "Unknown"}, gv{types.NewSlice(k.goT), "List", k.name},
			gv{types.NewSlice(types.NewSlice(k.goT)), "Unknown", "Unknown"}, gv{types.NewPointer(k.goT), "Unknown", "Unknown"})
		if b, ok := k.goT.(*types.Basic); ok {
			n := named("Client"+strings.ToUpper(b.Name()[:1])+b.Name()[1:], b)
			gvs = append(gvs, gv{n, "Unknown", "Unknown"}, gv{types.NewSlice(n), "Unknown", "Unknown"})
		}
	}
	for _, t := range []types.Type{types.Typ[types.Int], types.Typ[types.Uint], types.Typ[types.Complex128], types.NewMap(types.Typ[types.String], types.Typ[types.Int])} {
		gvs = append(gvs, gv{t, "Unknown", "Unknown"}, gv{types.NewSlice(t), "Unknown", "Unknown"})
	}
	if d := p.Named("tricorder/messages", "Distribution"); r.Need(d != nil, "messages.Distribution") {
		gvs = append(gvs, gv{types.NewPointer(d), "Dist", "Unknown"})
	}
	gvs = append(gvs, gv{nil, "Unknown", "Unknown"})
	for _, f := range []*ssa.Function{fg, fgs} {
		if f == nil {
			continue
		}
		for _, g := range gvs {
			ex, outs := r.apply(f, fmt.Sprint(g.t), nil, func(ex *Exec) []*Term {
				if g.t == nil {
					return []*Term{ex.ts.Nil(anyT)}
				}
				return []*Term{wrap(ex, g.t, ex.ts.Sym("value", g.t))}
			})
			site := fmt.Sprintf("%s of a value of type %v", p.fname(f), g.t)
			r.Check(len(outs) > 0, "kind-of", site, "answers", "no path returns")
			for _, o := range outs {
				if !r.Check(!o.Panic, "kind-of", site, "answers "+g.kind, "panics") {
					continue
				}
				r.Check(sameConst(o.Ret[0], ex.constOf("tricorder/types", g.kind)), "kind-of", site, "answers "+g.kind, "answers %v", o.Ret[0])
				if len(o.Ret) > 1 {
					r.Check(sameConst(o.Ret[1], ex.constOf("tricorder/types", g.sub)), "kind-of", site, "answers sub-type "+g.sub, "answers %v", o.Ret[1])
				}
			}
		}
	}
}

func sameConst(a, b *Term) bool {
	if a == nil || b == nil || !a.isConst() || !b.isConst() {
		return false
	}
	if a == b {
		return true
	}
	if x, ok := a.strVal(); ok {
		y, ok := b.strVal()
		return ok && x == y
	}
	if x, ok := a.intVal(); ok {
		y, ok := b.intVal()
		return ok && x == y
	}
	return false
}

// gobBasics: what the encoder knows without registration.
func gobBasics(t types.Type) bool {
	if s, ok := t.(*types.Slice); ok {
		t = s.Elem()
	}
	_, ok := t.(*types.Basic)
	return ok
}

func runC25(r *Report) {
	p := r.P
	const pkg = "tricorder/messages"
	known := map[string]bool{}
	sp := p.Pkg(pkg)
	if !r.Need(sp != nil, "package messages") {
		return
	}
	sw := newSweeps()
	ex, fin, _ := r.initRunWith(pkg, nil, sw, func(ex *Exec, st *State, ev *Event) {
		if ev.Kind == EvExt && (ev.Name == "encoding/gob.Register" || ev.Name == "encoding/gob.RegisterName") {
			a := ev.Args[len(ev.Args)-1]
			if t, _ := ifaceOf(a); t != nil {
				st.SetMust("gob:"+types.TypeString(t, nil), nil, "1")
			} else if a.Op == OLoad && a.Args[0].Op == OElem {
				sw.note(st, "gob", a, "")
			}
		}
	})
	if fin == nil {
		return
	}
	// values of a table that is gone through from end to end
	for _, a := range sw.notes("gob") {
		base, idx := a.T.Args[0].Args[0], a.T.Args[0].Args[1]
		n, ok := ex.lenOf(fin, base, false, derefType(base.T)).intVal()
		if !ok || !ex.swept(fin, idx, ex.ts.Int(n)) {
			continue
		}
		for i := int64(0); i < n; i++ {
			if t, _ := ifaceOf(ex.Load(fin, ex.elemAddr(base, ex.ts.Int(i), a.T.Args[0].T), a.T.T)); t != nil {
				known[types.TypeString(t, nil)] = true
			}
		}
	}
	for _, a := range fin.must {
		if strings.HasPrefix(a.K, "gob:") {
			known[strings.TrimPrefix(a.K, "gob:")] = true
		}
	}
	ok := func(t types.Type) bool { return gobBasics(t) || known[types.TypeString(t, nil)] }
	for _, k := range p.kindTable() {
		if k.goT == nil || k.json {
			continue
		}
		for _, t := range []types.Type{k.goT, types.NewSlice(k.goT)} {
			r.Check(ok(t), "registered", types.TypeString(t, nil), "values of the kind table are known to the encoder", "type %v is not registered when the package is initialised", t)
		}
	}
	if d := p.Named(pkg, "Distribution"); r.Need(d != nil, "messages.Distribution") {
		t := types.NewPointer(d)
		r.Check(ok(t), "registered", types.TypeString(t, nil), "the distribution message is known to the encoder", "type %v is not registered", t)
	}
	// what the server stores into messages
	M := p.Named(pkg, "Metric")
	if !r.Need(M != nil, "messages.Metric") {
		return
	}
	n := 0
	var roots []Root
	for _, x := range p.roots("tricorder") {
		if x.Kind == "rpc" || x.Fn.Name() == "ReadMyMetrics" {
			roots = append(roots, x)
		}
	}
	sort.Slice(roots, func(i, j int) bool { return roots[i].Fn.String() < roots[j].Fn.String() })
	r.Min("RPC entry points", 3, len(roots))
	r.runRoots(roots, func(root Root) *Client {
		return &Client{Event: func(ex *Exec, st *State, ev *Event) {
			if ev.Kind != EvStore || ex.muted > 0 {
				return
			}
			b, i, isF := fieldOf(ev.Addr, M)
			if !isF || structOf(M).Field(i).Type().String() != "interface{}" && structOf(M).Field(i).Type().String() != "any" {
				return
			}
			_ = b
			for _, v := range ev.Val.alts() {
				t, _ := ifaceOf(v)
				if t == nil {
					continue // nil, or the list's own slice: C15
				}
				r.mu.Lock()
				n++
				r.mu.Unlock()
				r.Check(ok(t), "stored", fmt.Sprintf("%s %s", p.fname(root.Fn), nthField(M, i)), "what is stored in a message for Go RPC is known to the encoder: "+types.TypeString(t, nil), "%s stores a value of type %v", r.where(ev), t)
			}
		}}
	}, nil)
	r.Min("values stored in messages", 10, n)
}
