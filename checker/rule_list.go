package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Property{ID: "C15", MinObs: 300, Run: runC15,
		Rule: "creating and changing a list is interpreted, with a model of the reflect package, for a slice of every supported element type (each kind, named variants, platform-sized, named slices), mutable or not: the slice kept has the kind's Go type, is new memory when the client may write to its own or the type differs, and holds element k of the client's slice at every index k"})
	register(&Property{ID: "C16", MinObs: 100, Run: runC16,
		Rule: "changing a list is interpreted for all pairs of element kinds: another kind panics on all paths without a store and with no lock held; the kind of an existing list is never stored; contents and time are stored in one critical section and every report takes both from one"})
}

// listModel: the list type, its fields by what is kept in them.
type listModel struct {
	r       *Report
	p       *Program
	L       *types.Named
	S       *types.Struct
	newList *ssa.Function
	change  *ssa.Function
	rm      *reflectModel
	kind    int // field
	content map[int]bool
	moment  map[int]bool
}

func newListModel(r *Report) *listModel {
	p := r.P
	m := &listModel{r: r, p: p, L: p.Named("tricorder", "List"), rm: newReflectModel(p), kind: -1, content: map[int]bool{}, moment: map[int]bool{}}
	if !r.Need(m.L != nil && structUnder(m.L) != nil, "tricorder.List") {
		return nil
	}
	m.S = structUnder(m.L)
	m.newList = p.Func("tricorder", "NewList")
	m.change = p.Method("tricorder", "List", "Change")
	if !r.Need(m.newList != nil && m.change != nil, "NewList and (*List).Change") {
		return nil
	}
	KT := p.Named("tricorder/types", "Type")
	TT := p.libType("time", "Time")
	for i := 0; i < m.S.NumFields(); i++ {
		ft := m.S.Field(i).Type()
		switch {
		case KT != nil && types.Identical(ft, KT):
			m.kind = i
		case types.Identical(ft, TT):
			m.moment[i] = true
		case types.Identical(ft, m.rm.VT):
			m.content[i] = true
		default:
			switch ft.Underlying().(type) {
			case *types.Interface, *types.Slice:
				m.content[i] = true
			}
		}
	}
	if !r.Need(m.kind >= 0 && len(m.content) == 1 && len(m.moment) == 1, "a list with a kind, contents and a time") {
		return nil
	}
	return m
}

// elemCase is a type of slice a client can pass.
type elemCase struct {
	S     types.Type // the slice
	T     types.Type // its elements
	kind  string     // their kind
	goT   types.Type // the Go type of that kind
	named bool
}

func namedType(name string, u types.Type) types.Type {
	return types.NewNamed(types.NewTypeName(token.NoPos, types.NewPackage("example.com/client", "client"), name, nil), u, nil)
}

func (p *Program) elemCases() []elemCase {
	var cs []elemCase
	add := func(T types.Type, row kindRow) {
		cs = append(cs, elemCase{S: types.NewSlice(T), T: T, kind: row.name, goT: row.goT})
	}
	byName := map[string]kindRow{}
	for _, row := range p.kindTable() {
		if row.goT == nil || row.json {
			continue
		}
		byName[row.name] = row
		add(row.goT, row)
		cs = append(cs, elemCase{S: namedType("ListOf"+row.name, types.NewSlice(row.goT)), T: row.goT, kind: row.name, goT: row.goT})
		if _, ok := row.goT.(*types.Basic); ok {
			add(namedType("My"+row.name, row.goT), row)
		}
	}
	for _, x := range []struct {
		k    types.BasicKind
		kind string
	}{{types.Int, "Int64"}, {types.Uint, "Uint64"}} {
		add(types.Typ[x.k], byName[x.kind])
		add(namedType("My"+types.Typ[x.k].Name(), types.Typ[x.k]), byName[x.kind])
	}
	return cs
}

func (c elemCase) String() string {
	return strings.ReplaceAll(types.TypeString(c.S, shortQual), "client.", "")
}

// world: the state after initialisation, with reflection modelled.
func (m *listModel) world() (*Exec, *State) {
	ex, st, _ := m.r.handlersOf("tricorder", m.rm.hook)
	return ex, st
}

func (r *Report) callIn(ex *Exec, label string, f *ssa.Function, args []*Term, st *State) []Outcome {
	fin := r.P.Pkg("tricorder").Func("init")
	return ex.RunWith(label, func(st *State) []Outcome {
		return ex.callFn(ex.entryCtx(label, fin, args, st), f, nil)
	}, st)
}

// slicePart: the slice a content field holds, and its type.
func (m *listModel) slicePart(ex *Exec, st *State, v *Term) (T types.Type, x *Term) {
	if T, k := m.rm.of(v); k == rVal || k == rVar {
		return T, m.rm.content(ex, st, v)
	}
	if T, x := ifaceOf(v); T != nil {
		return T, x
	}
	return nil, nil
}

// keeps: the conversions around core do not change a value of type T.
func keeps(t *Term, T types.Type) *Term {
	for t.Op == OConv {
		to := t.T
		ok := false
		switch {
		case isInteger(T) && isInteger(to):
			sf, st := sizeOf(T), sizeOf(to)
			ok = isUnsigned(T) == isUnsigned(to) && sf <= st || isUnsigned(T) && !isUnsigned(to) && sf < st
		case isFloat(T) && isFloat(to):
			ok = sizeOf(T) <= sizeOf(to)
		default:
			ok = types.Identical(T.Underlying(), to.Underlying())
		}
		if !ok {
			return nil
		}
		t = t.Args[0]
	}
	return t
}

const copied = "a copy of"

// checkContent: what a list keeps is what the client passed.
func (m *listModel) checkContent(ex *Exec, st *State, a *arrays, c elemCase, mutable bool, arg, v *Term, site string) {
	r := m.r
	for _, v := range v.alts() {
		T, x := m.slicePart(ex, st, v)
		if !r.Check(x != nil, "content", site, "what is kept is a slice of a known type", "it is %v", v) {
			continue
		}
		r.Check(types.Identical(T, types.NewSlice(c.goT)), "element-type", site, "the slice kept is a []"+types.TypeString(c.goT, shortQual), "it is a %s", types.TypeString(T, shortQual))
		if x == arg {
			r.Check(!mutable, "copy", site, "a slice the client may change is copied", "the list keeps the client's slice itself")
			r.Check(types.Identical(c.T, c.goT), "copy", site, "a slice of another type is converted", "the list keeps the client's slice itself")
			continue
		}
		part := func(t *Term) bool {
			return t.anyTerm(func(y *Term) bool { return y == arg })
		}
		// append to nothing
		if x.Op == OAppend && x.I == 1 && (x.Args[0].isNil() || ex.emptySlice(st, x.Args[0])) && x.Args[1] == arg {
			r.Check(types.Identical(c.T, c.goT), "copy", site, "the copy holds the client's elements", "")
			continue
		}
		n := ex.lenOf(st, arg, false, c.S)
		fresh := objOf(x).Op == OAlloc && st.isFresh(objOf(x)) || x.Op == OJoin && a.grown(ex, st, x)
		if !r.Check(fresh && (x.Op != OSlice || !part(x)), "copy", site, "what is kept is the client's slice or new memory", "it is %v", x) {
			continue
		}
		r.Check(a.hasLen(ex, st, x, n), "length", site, "the copy is as long as the client's slice", "its length is %v", ex.lenOf(st, x, false, T))
		if s, ok := st.GetMust(copied, x); ok {
			r.Check(s == fmt.Sprint(arg.id), "elements", site, "the copy is made from the client's slice", "it is not")
			continue
		}
		k := ex.ts.Sym("any index", types.Typ[types.Int])
		e := a.at(ex, st, ex.elemAddr(x, k, types.NewPointer(c.goT)))
		if !r.Check(e != nil, "elements", site, "every element of the copy is written", "nothing is known about element k of %v", x) {
			continue
		}
		core := keeps(e, c.T)
		want := ex.elemAddr(arg, k, types.NewPointer(c.T))
		r.Check(core != nil && core.Op == OLoad && core.Args[0] == want, "elements", site, "element k of the copy is element k of the client's slice", "it is %v", e)
	}
}

// listClient: copies are remembered until they are written to.
func (m *listModel) client(a *arrays, ev func(ex *Exec, st *State, ev *Event)) *Client {
	c := &Client{Sequential: true, Split: func(*ssa.Function) bool { return true }}
	c.Event = func(ex *Exec, st *State, e *Event) {
		switch e.Kind {
		case EvCopy:
			if o := e.Addr; o.Op == OAlloc {
				st.DelMust(copied, o)
				if e.Val != nil {
					st.SetMust(copied, o, fmt.Sprint(e.Val.id))
				}
			}
		case EvStore:
			if o := objOf(e.Addr); o.Op == OAlloc {
				st.DelMust(copied, o)
			}
		case EvMake:
			st.DelMust(copied, e.Val)
		}
		if ev != nil {
			ev(ex, st, e)
		}
	}
	a.hook(c)
	m.rm.hook(c)
	return c
}

func runC15(r *Report) {
	m := newListModel(r)
	if m == nil {
		return
	}
	ex, st0 := m.world()
	if ex == nil {
		return
	}
	any := types.NewInterfaceType(nil, nil)
	made, changed := 0, 0
	for _, c := range m.p.elemCases() {
		for _, mutable := range []bool{true, false} {
			label := fmt.Sprintf("NewList(%s, mutable=%v)", c, mutable)
			arg := ex.ts.Sym("client's slice", c.S)
			in := ex.ts.mk(Term{Op: OIface, Args: []*Term{arg}, Aux: c.S, T: any})
			a := newArrays()
			ex.C = m.client(a, nil)
			outs := r.callIn(ex, label, m.newList, []*Term{in, ex.ts.Bool(mutable)}, st0)
			r.Check(ex.err == "" && len(outs) > 0, "converges", label, "the call is analysed", "%s", ex.err)
			for _, o := range outs {
				if !r.Check(!o.Panic, "accepts", label, "lists of "+c.kind+" are accepted", "it panics: %v", o.PV) {
					continue
				}
				for _, l := range o.Ret[0].alts() {
					if !r.Check(l.Op == OAlloc, "new", label, "a new list is returned", "it is %v", l) {
						continue
					}
					made++
					for i := range m.content {
						m.checkContent(ex, o.St, a, c, mutable, arg, ex.Load(o.St, ex.fieldAddr(l, i, l.T), m.S.Field(i).Type()), label)
					}
					k := ex.Load(o.St, ex.fieldAddr(l, m.kind, l.T), m.S.Field(m.kind).Type())
					r.Check(sameConst(k, ex.constOf("tricorder/types", c.kind)), "kind", label, "the list's kind is "+c.kind, "it is %v", k)
				}
			}
			// a change to a list of the same kind
			label = fmt.Sprintf("Change(%s, mutable=%v)", c, mutable)
			self := ex.ts.Sym("list", types.NewPointer(m.L))
			a = newArrays()
			stores := 0
			ex.C = m.client(a, func(ex *Exec, st *State, ev *Event) {
				if ev.Kind != EvStore || ex.muted > 0 {
					return
				}
				if _, i, ok := fieldOf(ev.Addr, m.L); ok && m.content[i] {
					stores++
					m.checkContent(ex, st, a, c, mutable, arg, ev.Val, label)
				}
			})
			ex.C.Load = m.kindIs(ex.constOf("tricorder/types", c.kind))
			outs = r.callIn(ex, label, m.change, []*Term{self, in, ex.ts.Bool(mutable)}, st0)
			r.Check(ex.err == "" && len(outs) > 0, "converges", label, "the call is analysed", "%s", ex.err)
			for _, o := range outs {
				r.Check(!o.Panic, "accepts", label, "a list takes new values of its kind", "it panics: %v", o.PV)
			}
			if stores > 0 {
				changed++
			}
		}
	}
	r.Ran(ex, "lists")
	r.Min("lists made", 60, made)
	r.Min("lists changed", 60, changed)
}

// kindIs: the kind of any list that is already there.
func (m *listModel) kindIs(k *Term) func(ex *Exec, st *State, addr *Term, typ types.Type) *Term {
	return func(ex *Exec, st *State, addr *Term, typ types.Type) *Term {
		if _, i, ok := fieldOf(addr, m.L); ok && i == m.kind {
			return k
		}
		return nil
	}
}

func runC16(r *Report) {
	m := newListModel(r)
	if m == nil {
		return
	}
	p := r.P
	ex, st0 := m.world()
	if ex == nil {
		return
	}
	any := types.NewInterfaceType(nil, nil)
	var kinds []elemCase
	for _, c := range p.elemCases() {
		if _, isN := c.S.(*types.Slice); isN && types.Identical(c.T, c.goT) {
			kinds = append(kinds, c)
		}
	}
	refused, moved := 0, 0
	for _, c := range kinds {
		for _, k := range kinds {
			for _, mutable := range []bool{true, false} {
				if mutable != (c.kind < k.kind) && c.kind != k.kind {
					continue // one of the two suffices, each kind sees both
				}
				label := fmt.Sprintf("Change(%s, mutable=%v) of a list of %s", c, mutable, k.kind)
				arg := ex.ts.Sym("client's slice", c.S)
				in := ex.ts.mk(Term{Op: OIface, Args: []*Term{arg}, Aux: c.S, T: any})
				self := ex.ts.Sym("list", types.NewPointer(m.L))
				a := newArrays()
				same := c.kind == k.kind
				ex.C = m.client(a, func(ex *Exec, st *State, ev *Event) {
					switch ev.Kind {
					case EvStore:
						_, i, ok := fieldOf(ev.Addr, m.L)
						if !ok || st.isFreshObj(ev.Addr) {
							return
						}
						if ex.muted == 0 {
							r.Check(same, "refused", label+": "+r.where(ev), "a change of the element type has no effect", "%s is stored", m.S.Field(i).Name())
							r.Check(i != m.kind, "kind-stays", label+": "+r.where(ev), "the element type of a list stays", "it is stored")
						}
						if m.content[i] || m.moment[i] {
							st.Set("stored", ex.ts.Int(int64(i)), "1")
						}
					case EvUnlock:
						n := len(st.Atoms("stored"))
						if n > 0 && ex.muted == 0 {
							moved++
							r.Check(n == 2, "together", label+": "+r.where(ev), "contents and time are stored in one critical section", "only one of them is")
						}
						for i := 0; i < m.S.NumFields(); i++ {
							st.Del("stored", ex.ts.Int(int64(i)))
						}
					}
				})
				ex.C.Load = m.kindIs(ex.constOf("tricorder/types", k.kind))
				outs := r.callIn(ex, label, m.change, []*Term{self, in, ex.ts.Bool(mutable)}, st0)
				r.Check(ex.err == "" && len(outs) > 0, "converges", label, "the call is analysed", "%s", ex.err)
				for _, o := range outs {
					r.Check(o.Panic != same, "refused", label, "changing panics exactly if the element type differs", "panics: %v", o.Panic)
					r.Check(len(o.St.Atoms("stored")) == 0, "together", label, "contents and time are stored under the list's lock", "they are stored without it")
					r.Check(len(o.St.locks) == 0, "lock-free", label, "no lock is held afterwards", "%v", o.St.locks)
					if o.Panic && !same {
						refused++
					}
				}
			}
		}
	}
	r.Ran(ex, "(*List).Change")
	r.Min("pairs of kinds refused", 150, refused)
	r.Min("changes", 14, moved)
	// nothing else stores the kind of a list, and what stores contents stores both
	r.Check(p.immutable[fieldKey{structKey(m.L), m.kind}], "kind-stays", "tricorder.List", "the element type is only ever stored into new lists", "it is stored elsewhere")
	m.readers(r)
}

// readers: reports take contents and time from one moment.
func (m *listModel) readers(r *Report) {
	p := r.P
	metric := p.Named("tricorder/messages", "Metric")
	if !r.Need(metric != nil, "messages.Metric") {
		return
	}
	n := 0
	for _, root := range p.roots("tricorder") {
		if root.Kind != "rpc" && root.Fn.Name() != "ReadMyMetrics" {
			continue
		}
		c := &Client{}
		c.Event = func(ex *Exec, st *State, ev *Event) {
			if ev.Kind != EvStore {
				return
			}
			_, f, ok := fieldOf(ev.Addr, metric)
			if !ok {
				return
			}
			what := nthField(metric, f)
			if what != "Value" && what != "TimeStamp" {
				return
			}
			site := p.fname(root.Fn) + ": " + r.where(ev)
			for _, v := range ev.Val.alts() {
				es := map[string]bool{}
				v.anyTerm(func(x *Term) bool {
					if x.Op == OLoad {
						if b, i, ok := fieldOf(x.Args[0], m.L); ok && (m.content[i] || m.moment[i]) {
							es[fmt.Sprintf("list %d %s", b.id, x.S)] = true
						}
					}
					return false
				})
				e := "other"
				if len(es) > 0 {
					e = strings.Join(sortedKeys(es), " and ")
					if ex.muted == 0 {
						n++
						r.Check(len(es) == 1, "moment", site, "a report comes from one read of the list", "reads: %s", e)
					}
				}
				other := "TimeStamp"
				if what == other {
					other = "Value"
				}
				if e2, ok := st.Get("moment of "+other, nil); ok {
					if ex.muted == 0 {
						r.Check(e == e2, "moment", site, "the time of a list is of the same moment as its contents", "%s: %s, %s: %s", other, e2, what, e)
					}
					st.Del("moment of "+other, nil)
				} else {
					st.Set("moment of "+what, nil, e)
				}
			}
		}
		ex := NewExec(p, c)
		outs := ex.Run(root.Fn, nil, nil, newState())
		r.Ran(ex, p.fname(root.Fn))
		r.Check(ex.err == "" && len(outs) > 0, "converges", p.fname(root.Fn), "the entry point is analysed", "%s", ex.err)
	}
	r.Min("reports of lists", 4, n)
}
