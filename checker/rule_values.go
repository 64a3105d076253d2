package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Property{ID: "C20", MinObs: 300, Run: runC20,
		Rule: "registering and then reporting a metric is interpreted, with a model of the reflect package, for every type of variable, callback, flag, distribution and list a client can pass (each kind, named variants, platform-sized, pointers to times): the kind, bits, sub-type and the dynamic type of the value reported are those of the kind, the value is the client's unchanged; types of no kind are refused"})
}

// specCase is something a client can register.
type specCase struct {
	label  string
	T      types.Type      // its type
	kind   string          // the kind of the metric; "": refused
	sub    string          // the kind of elements
	goT    types.Type      // of the value reported
	src    types.Type      // of the client's value
	how    string          // "pointer", "callback", "flag", "text flag", "dist", "list"
	called map[string]bool // where the client's callback is
	opt    bool            // the client's value is a pointer
	null   bool            // it is nil
}

type valueModel struct {
	*treeModel
	rm   *reflectModel
	lm   *listModel
	reg  *ssa.Function
	any  types.Type
	rows map[string]kindRow
	flag map[string]types.Type // what the flags of synthetic types give
}

func newValueModel(r *Report) *valueModel {
	m := &valueModel{treeModel: newTreeModel(r), rm: newReflectModel(r.P), any: types.NewInterfaceType(nil, nil), rows: map[string]kindRow{}, flag: map[string]types.Type{}}
	if m.treeModel == nil {
		return nil
	}
	if m.lm = newListModel(r); m.lm == nil {
		return nil
	}
	m.lm.rm = m.rm
	m.reg = r.P.Func("tricorder", "RegisterMetric")
	if !r.Need(m.reg != nil, "tricorder.RegisterMetric") {
		return nil
	}
	for _, row := range r.P.kindTable() {
		m.rows[row.name] = row
	}
	return m
}

func funcType(res ...types.Type) types.Type { return funcTypeOf(nil, res) }

func funcTypeOf(in, out []types.Type) types.Type {
	tuple := func(ts []types.Type) *types.Tuple {
		var vs []*types.Var
		for _, t := range ts {
			vs = append(vs, types.NewParam(token.NoPos, nil, "", t))
		}
		return types.NewTuple(vs...)
	}
	return types.NewSignatureType(nil, nil, nil, tuple(in), tuple(out), false)
}

// flagType: a client's flag, and what its Get method gives (nil: it has none).
func (m *valueModel) flagType(name string, G types.Type) types.Type {
	n := types.NewNamed(types.NewTypeName(token.NoPos, types.NewPackage("example.com/client", "client"), name, nil), types.NewStruct(nil, nil), nil)
	pt := types.NewPointer(n)
	str := types.Type(types.Typ[types.String])
	errT := types.Universe.Lookup("error").Type()
	add := func(name string, in, out []types.Type) {
		s := funcTypeOf(in, out).(*types.Signature)
		n.AddMethod(types.NewFunc(token.NoPos, n.Obj().Pkg(), name, types.NewSignatureType(types.NewParam(token.NoPos, nil, "f", pt), nil, nil, s.Params(), s.Results(), false)))
	}
	add("String", nil, []types.Type{str})
	add("Set", []types.Type{str}, []types.Type{errT})
	if G != nil {
		add("Get", nil, []types.Type{m.any})
		m.flag[types.TypeString(pt, nil)] = G
	}
	return pt
}

func isSynthetic(T types.Type) bool {
	if pt, ok := T.(*types.Pointer); ok {
		T = pt.Elem()
	}
	n, ok := T.(*types.Named)
	return ok && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "example.com/client"
}

// cases: what can be registered, and what is refused.
func (m *valueModel) cases() []specCase {
	var cs []specCase
	name := func(T types.Type) string {
		return strings.ReplaceAll(types.TypeString(T, shortQual), "client.", "")
	}
	add := func(c specCase) {
		if c.label == "" {
			c.label = name(c.T)
		}
		c.called = map[string]bool{}
		cs = append(cs, c)
	}
	single := func(T types.Type, row kindRow) {
		add(specCase{T: types.NewPointer(T), kind: row.name, goT: row.goT, src: T, how: "pointer"})
		add(specCase{T: funcType(T), kind: row.name, goT: row.goT, src: T, how: "callback"})
		add(specCase{label: "flag of " + name(T), T: m.flagType("Flag"+name(T), T), kind: row.name, goT: row.goT, src: T, how: "flag"})
	}
	str := m.rows["String"]
	for _, row := range m.p.kindTable() {
		if row.goT == nil || row.json {
			continue
		}
		single(row.goT, row)
		if _, ok := row.goT.(*types.Basic); ok {
			single(namedType("My"+row.name, row.goT), row)
		}
		add(specCase{T: namedType("Func"+row.name, funcType(row.goT)), kind: row.name, goT: row.goT, src: row.goT, how: "callback"})
	}
	for _, x := range []struct {
		k    types.BasicKind
		kind string
	}{{types.Int, "Int64"}, {types.Uint, "Uint64"}} {
		single(types.Typ[x.k], m.rows[x.kind])
		single(namedType("My"+types.Typ[x.k].Name(), types.Typ[x.k]), m.rows[x.kind])
	}
	single(namedType("MyDuration", types.Typ[types.Int64]), m.rows["Int64"])
	tt := m.rows["GoTime"]
	pt := types.NewPointer(tt.goT)
	add(specCase{T: types.NewPointer(pt), kind: tt.name, goT: tt.goT, src: tt.goT, how: "pointer", opt: true})
	add(specCase{T: funcType(pt), kind: tt.name, goT: tt.goT, src: tt.goT, how: "callback", opt: true})
	add(specCase{label: "**time.Time that is nil", T: types.NewPointer(pt), kind: tt.name, goT: tt.goT, src: tt.goT, how: "pointer", opt: true, null: true})
	add(specCase{label: "flag of *time.Time that is nil", T: m.flagType("FlagNilTime", pt), kind: tt.name, goT: tt.goT, src: tt.goT, how: "flag", opt: true, null: true})
	add(specCase{label: "flag of *time.Time", T: m.flagType("FlagTimePtr", pt), kind: tt.name, goT: tt.goT, src: tt.goT, how: "flag", opt: true})
	add(specCase{label: "flag without value", T: m.flagType("FlagPlain", nil), kind: str.name, goT: str.goT, src: str.goT, how: "text flag"})
	dm := types.NewPointer(m.p.Named("tricorder/messages", "Distribution"))
	for _, d := range []string{"CumulativeDistribution", "NonCumulativeDistribution"} {
		add(specCase{T: types.NewPointer(m.p.Named("tricorder", d)), kind: "Dist", goT: dm, how: "dist"})
	}
	for _, row := range m.p.kindTable() {
		if row.goT != nil && !row.json {
			add(specCase{label: "list of " + row.name, T: types.NewPointer(m.lm.L), kind: "List", sub: row.name, goT: types.NewSlice(row.goT), how: "list"})
		}
	}
	// no metrics
	bad := []types.Type{
		types.Typ[types.Complex64], types.Typ[types.Complex128], types.Typ[types.Uintptr], types.Typ[types.UnsafePointer],
		types.NewStruct(nil, nil), namedType("MyTime", tt.goT.Underlying()),
		types.NewMap(types.Typ[types.String], types.Typ[types.Int]), types.NewSlice(types.Typ[types.Int]), types.NewArray(types.Typ[types.Int], 3),
		types.NewChan(types.SendRecv, types.Typ[types.Int]), m.any, types.NewPointer(types.Typ[types.Int]), types.NewPointer(pt), types.NewPointer(m.rows["GoDuration"].goT),
		types.NewPointer(types.Typ[types.String]), types.NewPointer(types.Typ[types.Bool]),
		funcType(types.Typ[types.Int]),
	}
	for _, T := range bad {
		add(specCase{T: types.NewPointer(T)})
		add(specCase{T: funcType(T)})
		// a flag of no kind is shown as its text
		add(specCase{label: "flag of " + name(T), T: m.flagType("Flag"+fmt.Sprint(len(cs)), T), how: "text flag"})
	}
	for _, T := range []types.Type{types.Typ[types.Int], types.Typ[types.String], tt.goT, types.NewSlice(types.Typ[types.Int]), types.NewMap(types.Typ[types.String], types.Typ[types.Int])} {
		add(specCase{T: T}) // not a variable
	}
	in := types.Type(types.Typ[types.Int])
	add(specCase{T: funcType()})
	add(specCase{T: funcType(in, in)})
	add(specCase{T: funcTypeOf([]types.Type{in}, []types.Type{in})})
	add(specCase{T: funcTypeOf([]types.Type{in, in}, []types.Type{types.Typ[types.String]})})
	return cs
}

// client: calls of a client's flag, lists of the given kind.
func (m *valueModel) client(c specCase, tc treeCase) *Client {
	cl := m.treeModel.client()
	cl.Sequential = true
	cl.Split = func(*ssa.Function) bool { return true }
	cl.Cond = m.cond(tc)
	m.prepare(cl, c)
	return cl
}

func (m *valueModel) prepare(cl *Client, c specCase) {
	ext := cl.Ext
	cl.Ext = func(ex *Exec, cc *callCtx) ([]Outcome, bool) {
		if ext != nil {
			if o, ok := ext(ex, cc); ok {
				return o, true
			}
		}
		if c.how == "flag" || c.how == "text flag" {
			ft := types.TypeString(c.T, nil)
			switch cc.name {
			case "(" + ft + ").Get":
				G := m.flag[ft]
				v := ex.ts.mk(Term{Op: OCall, Aux: "flag value", S: ex.site(cc.fr, cc.in), Args: cc.args[:1], T: G})
				if c.null {
					v = ex.ts.Nil(G)
				}
				return []Outcome{{St: cc.st, Ret: []*Term{ex.ts.mk(Term{Op: OIface, Args: []*Term{v}, Aux: G, T: m.any})}}}, true
			case "(" + ft + ").String":
				v := ex.ts.mk(Term{Op: OCall, Aux: "flag text", S: ex.site(cc.fr, cc.in), Args: cc.args[:1], T: types.Typ[types.String]})
				return []Outcome{{St: cc.st, Ret: []*Term{v}}}, true
			}
		}
		return nil, false
	}
	load := cl.Load
	cl.Load = func(ex *Exec, st *State, addr *Term, typ types.Type) *Term {
		if c.null && addr == c.client(ex) {
			return ex.ts.Nil(typ)
		}
		if c.how == "list" {
			if b, i, ok := fieldOf(addr, m.lm.L); ok && b.Op == OSym {
				switch {
				case i == m.lm.kind:
					return ex.constOf("tricorder/types", c.sub)
				case m.lm.content[i]:
					x := ex.ts.mk(Term{Op: OCall, Aux: "contents", S: "", T: c.goT})
					if types.Identical(typ, m.rm.VT) {
						return m.rm.value(ex, c.goT, x)
					}
					if types.IsInterface(typ) {
						return ex.ts.mk(Term{Op: OIface, Args: []*Term{x}, Aux: c.goT, T: typ})
					}
				}
			}
		}
		if load != nil {
			return load(ex, st, addr, typ)
		}
		return nil
	}
	event := cl.Event
	cl.Event = func(ex *Exec, st *State, ev *Event) {
		if ev.Kind == EvCallback && ev.Val == c.client(ex) {
			c.called[ex.site(ev.Fr, ev.Instr)] = true
		}
		if event != nil {
			event(ex, st, ev)
		}
	}
	m.rm.hook(cl)
}

func (c specCase) client(ex *Exec) *Term { return ex.ts.Sym("client's "+c.label, c.T) }

// spec: the client's thing.
func (c specCase) spec(ex *Exec, any types.Type) *Term {
	x := c.client(ex)
	return ex.ts.mk(Term{Op: OIface, Args: []*Term{x}, Aux: c.T, T: any})
}

// madeMetric: a metric that registration accepted.
type madeMetric struct {
	metric *Term
	st     *State
}

// registered interprets the registration of c.
func (m *valueModel) registered(ex *Exec, c specCase, st0 *State) (made []madeMetric, refused int) {
	r := m.r
	label := "RegisterMetric of " + c.label
	cl := m.client(c, treeCase{walk: dirEntry, final: noEntry})
	entries := map[*Term]bool{}
	event := cl.Event
	cl.Event = func(ex *Exec, st *State, ev *Event) {
		event(ex, st, ev)
		if ev.Kind != EvMapWrite {
			return
		}
		if mt, ok := ev.Addr.mapType(); !ok || !types.Identical(mt, m.mapT) {
			return
		}
		d := ex.Load(st, ex.fieldAddr(ev.Val2, m.metric, m.ET), m.E.Field(m.metric).Type())
		if !d.isNil() {
			entries[ev.Val2] = true
			st.Set("entry", ev.Val2, "1")
		}
	}
	ex.C = cl
	u := ex.ts.Sym("unit", m.reg.Signature.Params().At(2).Type())
	outs := r.callIn(ex, label, m.reg, []*Term{ex.ts.Sym("path", types.Typ[types.String]), c.spec(ex, m.any), u, ex.ts.Sym("description", types.Typ[types.String])}, st0)
	r.Check(ex.err == "" && len(outs) > 0, "converges", label, "the registration is analysed", "%s", ex.err)
	for _, o := range outs {
		var es []*Term
		for e := range entries {
			if _, ok := o.St.Get("entry", e); ok {
				es = append(es, e)
			}
		}
		if len(es) == 0 {
			if o.Panic || !o.Ret[0].isNil() {
				refused++
			}
			continue
		}
		for _, e := range es {
			o.St.Del("entry", e)
			for _, md := range ex.Load(o.St, ex.fieldAddr(e, m.metric, m.ET), m.E.Field(m.metric).Type()).alts() {
				made = append(made, madeMetric{md, o.St})
			}
		}
	}
	return
}

// found: the entries of the tree hold this metric.
func (m *valueModel) found(cl *Client, md *Term, tc treeCase) {
	load := cl.Load
	cl.Load = func(ex *Exec, st *State, addr *Term, typ types.Type) *Term {
		if addr.Op == OField && addr.I == m.metric && structUnder(addr.Args[0].T) == m.E {
			if _, key, _, ok := m.entryKey(addr.Args[0]); ok {
				if R, i, ok := component(key); ok {
					what := tc.walk
					if m.isLast(ex, st, R, i) {
						what = tc.final
					}
					if what != metricItem {
						return ex.ts.Nil(typ)
					}
				}
			}
			return md
		}
		if load != nil {
			return load(ex, st, addr, typ)
		}
		return nil
	}
}

func runC20(r *Report) {
	m := newValueModel(r)
	if m == nil {
		return
	}
	MT := r.P.Named("tricorder/messages", "Metric")
	var get *ssa.Function
	for _, root := range r.P.roots("tricorder") {
		if root.Kind != "rpc" {
			continue
		}
		for _, q := range root.Fn.Params {
			if pt, ok := q.Type().(*types.Pointer); ok && MT != nil && types.Identical(pt.Elem(), MT) {
				get = root.Fn
			}
		}
	}
	if !r.Need(get != nil, "an RPC method that gives one metric") {
		return
	}
	S := structUnder(MT)
	fields := map[string]int{}
	for i := 0; i < S.NumFields(); i++ {
		fields[S.Field(i).Name()] = i
	}
	for _, f := range []string{"Kind", "SubType", "Bits", "Value"} {
		if _, ok := fields[f]; !r.Need(ok, "the field "+f+" of a metric message") {
			return
		}
	}
	cases := m.cases()
	oks := make([]bool, len(cases))
	parallel(len(cases), func(i int) {
		c := cases[i]
		ex, st0, _ := r.handlersOf("tricorder", m.rm.hook)
		if ex == nil {
			return
		}
		defer r.Ran(ex, "reporting a "+c.label)
		made, refused := m.registered(ex, c, st0)
		label := "a metric of type " + c.label
		if c.kind == "" && len(made) == 0 {
			r.Check(refused > 0, "refused", label, "registration refuses what is of no kind", "no path does")
			oks[i] = true
			return
		}
		if !r.Check(len(made) > 0, "accepted", label, "registration accepts it", "it does not") {
			return
		}
		for _, mm := range made {
			tc := treeCase{walk: dirEntry, final: metricItem}
			cl := m.client(c, tc)
			m.found(cl, mm.metric, tc)
			ex.C = cl
			resp := ex.ts.mk(Term{Op: OAlloc, S: "reply", T: types.NewPointer(MT)})
			args := []*Term{ex.ts.Sym("service", get.Params[0].Type()), ex.ts.Sym("asked path", types.Typ[types.String]), resp}
			outs := r.callIn(ex, label, get, args, mm.st)
			r.Check(ex.err == "" && len(outs) > 0, "converges", label, "the report is analysed", "%s", ex.err)
			for _, o := range outs {
				if !r.Check(!o.Panic, "reported", label, "the metric is reported", "that panics: %v", o.PV) || !o.Ret[0].isNil() {
					continue
				}
				oks[i] = true
				load := func(f string) []*Term {
					return ex.Load(o.St, ex.fieldAddr(resp, fields[f], MT), S.Field(fields[f]).Type()).alts()
				}
				c := c
				if c.kind == "" {
					// taken all the same: then it has to be of some kind
					for name, row := range m.rows {
						if k := load("Kind"); row.goT != nil && len(k) == 1 && sameConst(k[0], ex.constOf("tricorder/types", name)) {
							c.kind, c.goT, c.src = name, row.goT, row.goT
							if name != "String" || c.how != "text flag" {
								c.how = "any"
							}
						}
					}
					if !r.Check(c.kind != "", "kind", label, "what is registered has a kind", "it is %v", load("Kind")) {
						continue
					}
				}
				for _, k := range load("Kind") {
					r.Check(sameConst(k, ex.constOf("tricorder/types", c.kind)), "kind", label, "its kind is "+c.kind, "it is %v", k)
				}
				sub := c.sub
				if sub == "" {
					sub = "Unknown"
				}
				for _, k := range load("SubType") {
					r.Check(sameConst(k, ex.constOf("tricorder/types", sub)), "sub-type", label, "its sub-type is "+sub, "it is %v", k)
				}
				bits := m.rows[c.kind].bits
				if c.sub != "" {
					bits = m.rows[c.sub].bits
				}
				for _, k := range load("Bits") {
					n, ok := k.intVal()
					r.Check(ok && n == bits, "bits", label, fmt.Sprintf("its size is %d", bits), "it is %v", k)
				}
				for _, v := range load("Value") {
					T, x := ifaceOf(v)
					if T == nil {
						if T = ex.dynType(o.St, v); T != nil {
							x = ex.assertVal(o.St, v, T)
						}
					}
					if !r.Check(T != nil && types.Identical(T, c.goT), "value type", label, "the Go type of its value is "+types.TypeString(c.goT, shortQual), "it is %v", v) {
						continue
					}
					for _, x := range x.alts() {
						ok, why := m.clients(ex, o.St, c, x)
						r.Check(ok, "value", label, "the value is the client's", "%s", why)
					}
				}
			}
		}
	})
	n := 0
	for _, ok := range oks {
		if ok {
			n++
		}
	}
	r.Min("types registered", 130, n)
}

// clients: x is the value of the client's variable, callback or flag.
func (m *valueModel) clients(ex *Exec, st *State, c specCase, x *Term) (bool, string) {
	if c.how == "dist" || c.how == "any" {
		return true, "" // C10
	}
	if c.how == "list" {
		y := x
		for y.Op == OConv {
			y = y.Args[0]
		}
		return y.Op == OCall && y.Aux == "contents", fmt.Sprintf("it is %v", x)
	}
	core := keeps(x, c.src)
	if core == nil {
		return false, fmt.Sprintf("%v does not keep a %v", x, c.src)
	}
	if c.opt {
		if c.null || core == ex.zero(c.goT) {
			return core == ex.zero(c.goT), fmt.Sprintf("it is %v", x)
		}
		if core.Op != OLoad {
			return false, fmt.Sprintf("it is %v", x)
		}
		core = core.Args[0]
	}
	spec := c.client(ex)
	switch c.how {
	case "pointer":
		return core.Op == OLoad && core.Args[0] == spec, fmt.Sprintf("it is %v", x)
	case "flag":
		return core.Op == OCall && core.Aux == "flag value", fmt.Sprintf("it is %v", x)
	case "text flag":
		return core.Op == OCall && core.Aux == "flag text", fmt.Sprintf("it is %v", x)
	}
	return core.Op == OCall && core.Aux == "callback" && c.called[core.S], fmt.Sprintf("it is %v", x)
}

func init() {
	register(&Property{ID: "C21", MinObs: 500, Run: runC21,
		Rule: "after registering each type of variable, callback, flag, distribution and list (as for C20) with any unit, every interface that shows metrics (RPC methods, ReadMyMetrics, the JSON pages, the HTML and text pages with their templates) is interpreted on a tree that holds it: no path panics, misuses a reflected value or makes a template fail"})
}

// ways: the interfaces that show metrics.
type valueWay struct {
	label string
	root  *ssa.Function // or
	page  string
	vals  map[string]string
}

func (m *valueModel) ways() []valueWay {
	var ws []valueWay
	for _, root := range m.p.roots("tricorder") {
		if root.Kind == "rpc" || root.Fn.Name() == "ReadMyMetrics" {
			ws = append(ws, valueWay{label: m.p.fname(root.Fn), root: root.Fn})
		}
	}
	pages := 0
	for _, x := range []struct{ page, key, val string }{
		{"/metricsapi/", "singleton", ""}, {"/metricsapi/", "singleton", "true"},
		{"/metrics/", "format", ""}, {"/metrics/", "format", "text"},
	} {
		ws = append(ws, valueWay{label: fmt.Sprintf("%s %s=%q", x.page, x.key, x.val), page: x.page, vals: map[string]string{"form:" + x.key: x.val, "header:Accept-Encoding": ""}})
		pages++
	}
	m.r.Min("interfaces that show metrics", 3, len(ws)-pages)
	return ws
}

func runC21(r *Report) {
	m := newValueModel(r)
	if m == nil {
		return
	}
	ways := m.ways()
	cases := m.cases()
	shown := make([]int, len(cases))
	parallel(len(cases), func(i int) {
		c := cases[i]
		ex, st0, pages := r.handlersOf("tricorder", m.rm.hook)
		if ex == nil {
			return
		}
		defer r.Ran(ex, "showing a "+c.label)
		made, _ := m.registered(ex, c, st0)
		for _, mm := range made {
			for _, w := range ways {
				for _, fin := range []string{metricItem, dirEntry} {
					label := fmt.Sprintf("%s on a metric of type %s", w.label, c.label)
					if fin == dirEntry {
						label = fmt.Sprintf("%s above a metric of type %s", w.label, c.label)
					}
					if len(m.shows(ex, c, w, fin, mm, pages, label, nil)) > 0 {
						shown[i]++
					}
				}
			}
		}
	})
	n := 0
	for _, k := range shown {
		n += k
	}
	r.Min("metrics shown", 1000, n)
}

// shows interprets one interface on a tree that holds the metric.
func (m *valueModel) shows(ex *Exec, c specCase, w valueWay, fin string, mm madeMetric, pages map[string]*Term, label string, spy func(h *httpTrack, cl *Client)) []Outcome {
	r := m.r
	tc := treeCase{walk: dirEntry, final: fin}
	g := geometric{}
	var later []func()
	watch := func(cl *Client) {
		split := cl.Split
		cl.Split = func(f *ssa.Function) bool { return split != nil && split(f) || readsTable(f) }
		cl.Back = g.back
		event := cl.Event
		cl.Event = func(ex *Exec, st *State, ev *Event) {
			if event != nil {
				event(ex, st, ev)
			}
			if ex.muted > 0 {
				return
			}
			if ev.Kind == EvLoad && ev.Addr.Op == OElem && ex.frozenOf(ev.Addr.Args[0]) != nil {
				// once the loops around it are known
				st, ev := st.clone(), *ev
				later = append(later, func() { m.inTable(ex, st, &ev, g, label) })
			}
			if ev.Kind != EvExt {
				return
			}
			switch ev.Name {
			case evTmplPanic:
				r.Check(false, "template", label, "the template is executed without error", "%s fails: %v", r.where(ev), ev.Args)
			case evTmplGap:
				r.Check(false, "template", label, "the template is understood", "%s: %v", r.where(ev), ev.Args)
			}
		}
	}
	var outs []Outcome
	if w.root != nil {
		cl := m.client(c, tc)
		m.found(cl, mm.metric, tc)
		watch(cl)
		if spy != nil {
			spy(nil, cl)
		}
		ex.C = cl
		outs = r.callIn(ex, label, w.root, ex.symArgs(w.root), mm.st.clone())
		r.Check(ex.err == "" && len(outs) > 0, "converges", label, "the report is analysed", "%s", ex.err)
	} else {
		H := pages[w.page]
		if !r.Check(H != nil, "pages", w.page, "the page has a handler", "none is registered") {
			return nil
		}
		h := &httpTrack{w: ex.ts.Sym("writer", nil), pieces: map[string]*Term{}, r: r}
		h.inner = requestModel(w.vals, h)
		h.noBody = true
		outs = r.servePage(ex, h, label, H, mm.st.clone(), func(cl *Client) {
			ext := cl.Ext
			tr := m.treeModel.client()
			cl.Inline = tr.Inline
			cl.Ext = func(ex *Exec, cc *callCtx) ([]Outcome, bool) {
				if o, ok := tr.Ext(ex, cc); ok {
					return o, true
				}
				return ext(ex, cc)
			}
			cl.Sequential, cl.Panics = true, false
			cl.Cond = m.cond(tc)
			m.prepare(cl, c)
			m.found(cl, mm.metric, tc)
			watch(cl)
			if spy != nil {
				spy(h, cl)
			}
		})
	}
	for _, f := range later {
		f()
	}
	for _, o := range outs {
		r.Check(!o.Panic, "shown", label, "the metric is shown", "that panics: %v", o.PV)
	}
	return outs
}

// inTable: reading a table of constants stays inside it.
func (m *valueModel) inTable(ex *Exec, st *State, ev *Event, g geometric, label string) {
	f := ex.frozenOf(ev.Addr.Args[0])
	if f == nil || f.isMap {
		return
	}
	idx := ev.Addr.Args[1]
	n := int64(len(f.vals))
	hi, ok := g.bound(ex, idx)
	if !ok {
		return // not bounded by a loop of this form: not decided
	}
	if iv := ex.interval(st, idx, 0); iv.hi != nil && iv.hi.Num().IsInt64() && iv.hi.Num().Int64() < hi {
		hi = iv.hi.Num().Int64()
	}
	m.r.Check(hi < n, "table", label, "a table is read within its length", "%s: up to entry %d of %d", m.r.where(ev), hi, n)
}

// readsTable: f reads a list of texts at a variable index.
func readsTable(f *ssa.Function) bool {
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if x, ok := in.(*ssa.IndexAddr); ok {
				if _, c := x.Index.(*ssa.Const); !c {
					if s, ok := x.X.Type().Underlying().(*types.Slice); ok && isString(s.Elem()) {
						return true
					}
				}
			}
		}
	}
	return false
}

// geometric: the steps of the counters of loops that divide a number by a
// constant as long as it is not below a limit.
type geometric map[*Term][]geoStep

// geoStep: one way round the loop: each of these numbers is divided.
type geoStep []geoDiv

type geoDiv struct {
	j        *Term
	c, limit float64
}

func (g geometric) back(ex *Exec, st *State, next func(j *Term) *Term) {
	if ex.muted > 0 {
		return
	}
	var step geoStep
	var counts []*Term
	for j := range ex.joins {
		if j.T == nil || !isFloat(j.T) && !isInteger(j.T) {
			continue
		}
		v := next(j)
		if v == nil {
			continue
		}
		if isInteger(j.T) && v == ex.ts.Add(j, ex.ts.Int(1), 1, j.T) {
			counts = append(counts, j)
		}
		c := quotient(v, j)
		if c == 0 {
			continue
		}
		limit := 0.0
		for f, b := range st.facts {
			if f.Op != OCmp || f.Aux != token.LEQ && f.Aux != token.LSS {
				continue
			}
			x, y := f.Args[0], f.Args[1]
			if !b {
				x, y = y, x
			}
			if n, ok := number(x); ok && y == j && n > 0 {
				limit = math.Max(limit, n)
			}
			if n, ok := number(y); ok && x == j && n < 0 {
				limit = math.Max(limit, -n)
			}
		}
		if limit > 0 {
			step = append(step, geoDiv{j, c, limit})
		}
	}
	for _, j := range counts {
		g[j] = append(g[j], step)
	}
}

// bound: the greatest value of counter j.
func (g geometric) bound(ex *Exec, j *Term) (int64, bool) {
	info := ex.joins[j]
	if info == nil || len(g[j]) == 0 {
		return 0, false
	}
	entry := func(j *Term) []*Term {
		var vs []*Term
		for v := range ex.joins[j].final {
			if !v.anyTerm(func(t *Term) bool { return t == j }) {
				vs = append(vs, v)
			}
		}
		return vs
	}
	rounds := 0.0
	for _, step := range g[j] {
		best := math.Inf(1)
		for _, d := range step {
			top := 0.0
			vs := entry(d.j)
			for _, v := range vs {
				t := v.T
				for v.Op == OConv && isInteger(v.Args[0].T) {
					t, v = v.Args[0].T, v.Args[0]
				}
				if t == nil || !isInteger(t) {
					top = math.Inf(1)
					break
				}
				top = math.Max(top, math.Exp2(float64(8*sizeOf(t))))
			}
			if len(vs) == 0 || math.IsInf(top, 1) {
				continue
			}
			n := 0.0
			for x := top; x >= d.limit && n < 1000; x /= d.c {
				n++
			}
			best = math.Min(best, n)
		}
		rounds = math.Max(rounds, best)
	}
	if rounds >= 1000 {
		return 0, false
	}
	vs := entry(j)
	hi := int64(math.MinInt64)
	for _, v := range vs {
		x, ok := v.intVal()
		if !ok {
			return 0, false
		}
		hi = max(hi, x+int64(rounds))
	}
	return hi, len(vs) > 0
}

// quotient: v is j divided by the constant returned (0: it is not).
func quotient(v, j *Term) float64 {
	if v.Op == OLin && len(v.Args) == 1 && v.Args[0] == j && (v.C == nil || constant.Sign(v.C) == 0) && isFloat(j.T) {
		if k, _ := constant.Float64Val(constant.ToFloat(v.Coef[0])); k > 0 && k < 1 {
			return 1 / k
		}
	}
	if v.Op == OBin && v.Args[0] == j {
		n, ok := number(v.Args[1])
		switch {
		case !ok || n <= 0:
		case v.Aux == token.QUO && n > 1:
			return n
		case v.Aux == token.SHR:
			return math.Exp2(n)
		}
	}
	return 0
}

func number(t *Term) (float64, bool) {
	if t.Op != OConst || t.C == nil || t.C.Kind() != constant.Int && t.C.Kind() != constant.Float {
		return 0, false
	}
	f, _ := constant.Float64Val(t.C)
	return f, true
}
