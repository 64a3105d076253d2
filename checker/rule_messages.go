package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Property{ID: "C23", MinObs: 300, Run: runC23,
		Rule: "ConvertToJson is interpreted for messages of every kind and element kind, with nil and other lists, with every kind of time stamp: times and durations become their text in the metric's unit, one for one in lists, with the JSON kind; the time stamp becomes the seconds since the epoch, the text it was, or empty; a nil list becomes an empty one; every other field, value and kind is left as it was (so a second conversion changes nothing)"})
	register(&Property{ID: "C24", MinObs: 300, Run: runC24,
		Rule: "ConvertToGoRPC is interpreted for messages of every kind and element kind, well- and ill-formed, with every kind of time stamp, with parsing succeeding or failing at each place: where anything is ill-formed or does not parse an error is returned and every field is as before; otherwise value, kind, sub-type and time stamp are all converted, lists one for one"})
}

// messageModel: a metric message and the vocabulary of durations.
type messageModel struct {
	r     *Report
	p     *Program
	rm    *reflectModel
	M     *types.Named
	S     *types.Struct
	f     map[string]int
	any   types.Type
	vocab map[*ssa.Function]string
	rows  map[string]kindRow
	T, D  types.Type // time.Time, time.Duration
	zeroT bool       // the times are zero
}

func newMessageModel(r *Report) *messageModel {
	p := r.P
	m := &messageModel{r: r, p: p, rm: newReflectModel(p), M: p.Named("tricorder/messages", "Metric"), f: map[string]int{}, any: types.NewInterfaceType(nil, nil), vocab: map[*ssa.Function]string{}, rows: map[string]kindRow{}}
	if !r.Need(m.M != nil && structUnder(m.M) != nil, "messages.Metric") {
		return nil
	}
	m.S = structUnder(m.M)
	for i := 0; i < m.S.NumFields(); i++ {
		m.f[m.S.Field(i).Name()] = i
	}
	for _, x := range []string{"Kind", "SubType", "Value", "TimeStamp", "Unit"} {
		if _, ok := m.f[x]; !r.Need(ok, "the field "+x+" of a metric message") {
			return nil
		}
	}
	for _, x := range []string{"New", "SinceEpoch", "ParseWithUnit"} {
		f := p.Func("tricorder/duration", x)
		if !r.Need(f != nil, "duration."+x) {
			return nil
		}
		m.vocab[f] = x
	}
	for _, x := range []string{"StringUsingUnits", "String", "AsGoTime", "AsGoDuration"} {
		f := p.Method("tricorder/duration", "Duration", x)
		if !r.Need(f != nil, "(duration.Duration)."+x) {
			return nil
		}
		m.vocab[f] = x
	}
	for _, row := range p.kindTable() {
		m.rows[row.name] = row
	}
	m.T, m.D = m.rows["GoTime"].goT, m.rows["GoDuration"].goT
	return m
}

// messageCase: a message.
type messageCase struct {
	kind, sub string
	T         types.Type // of the value; nil: none
	null      bool       // the value is a nil list
	bad       bool       // the value does not fit the kind
	stamp     string     // "none", "time", "text", "empty", "other"
	zeroT     bool       // times are zero
}

func (c messageCase) String() string {
	s := c.kind
	if c.sub != "" {
		s += " of " + c.sub
	}
	t := "nothing"
	if c.T != nil {
		t = types.TypeString(c.T, shortQual)
	}
	if c.null {
		t = "nil " + t
	}
	if c.zeroT {
		t = "zero " + t
	}
	return fmt.Sprintf("%s with %s, time stamp: %s", s, t, c.stamp)
}

func (m *messageModel) cases() []messageCase {
	var cs []messageCase
	add := func(c messageCase) {
		for _, s := range []string{"none", "time", "text", "empty", "other"} {
			c.stamp = s
			cs = append(cs, c)
		}
	}
	for _, row := range m.p.kindTable() {
		switch {
		case row.name == "Dist":
			add(messageCase{kind: row.name, T: types.NewPointer(m.p.Named("tricorder/messages", "Distribution"))})
		case row.goT != nil:
			add(messageCase{kind: row.name, T: row.goT})
			add(messageCase{kind: "List", sub: row.name, T: types.NewSlice(row.goT)})
			add(messageCase{kind: "List", sub: row.name, T: types.NewSlice(row.goT), null: true})
			if row.name == "GoTime" {
				add(messageCase{kind: row.name, T: row.goT, zeroT: true})
				add(messageCase{kind: "List", sub: row.name, T: types.NewSlice(row.goT), zeroT: true})
			}
		}
	}
	return cs
}

func (m *messageModel) value(ex *Exec, c messageCase) *Term {
	if c.T == nil {
		return ex.ts.Nil(m.any)
	}
	x := ex.ts.Sym("value", c.T)
	if c.null {
		x = ex.ts.Nil(c.T)
	}
	return ex.ts.mk(Term{Op: OIface, Args: []*Term{x}, Aux: c.T, T: m.any})
}

func (m *messageModel) stamp(ex *Exec, c messageCase) *Term {
	var T types.Type
	switch c.stamp {
	case "none":
		return ex.ts.Nil(m.any)
	case "time":
		T = m.T
	case "text":
		T = types.Typ[types.String]
	case "empty":
		return ex.ts.mk(Term{Op: OIface, Args: []*Term{ex.ts.Str("")}, Aux: types.Type(types.Typ[types.String]), T: m.any})
	default:
		T = types.Typ[types.Int64]
	}
	return ex.ts.mk(Term{Op: OIface, Args: []*Term{ex.ts.Sym("stamp", T)}, Aux: T, T: m.any})
}

// client: memory of the message, durations as words.
func (m *messageModel) client(c messageCase, a *arrays) *Client {
	cl := &Client{Sequential: true, Split: func(*ssa.Function) bool { return true }}
	cl.Inline = func(f *ssa.Function) bool { return m.vocab[f] == "" }
	cl.Load = func(ex *Exec, st *State, addr *Term, typ types.Type) *Term {
		if b, i, ok := fieldOf(addr, m.M); ok && b.Op == OSym {
			sub := c.sub
			if sub == "" {
				sub = "Unknown"
			}
			switch i {
			case m.f["Kind"]:
				return ex.constOf("tricorder/types", c.kind)
			case m.f["SubType"]:
				return ex.constOf("tricorder/types", sub)
			case m.f["Value"]:
				return m.value(ex, c)
			case m.f["TimeStamp"]:
				return m.stamp(ex, c)
			default:
				return ex.ts.Sym("initial "+m.S.Field(i).Name(), typ)
			}
		}
		return nil
	}
	cl.Ext = func(ex *Exec, cc *callCtx) ([]Outcome, bool) {
		if strings.HasSuffix(cc.name, "(time.Time).IsZero") {
			return []Outcome{{St: cc.st, Ret: []*Term{ex.ts.Bool(c.zeroT)}}}, true
		}
		if cc.fn == nil {
			return nil, false
		}
		w := m.vocab[cc.fn]
		if w == "" {
			return nil, false
		}
		res := cc.fn.Signature.Results()
		x := ex.ts.mk(Term{Op: OCall, Aux: "duration: " + w, Args: cc.args, T: res.At(0).Type()})
		if res.Len() == 1 {
			return []Outcome{{St: cc.st, Ret: []*Term{x}}}, true
		}
		bad := cc.st.clone()
		bad.Set("failed", nil, "1")
		et := res.At(1).Type()
		err := ex.ts.Sym("parse error", et)
		ex.addFact(bad, ex.ts.Cmp(token.EQL, err, ex.ts.Nil(et), et), false)
		return []Outcome{
			{St: cc.st, Ret: []*Term{x, ex.ts.Nil(et)}},
			{St: bad, Ret: []*Term{ex.zero(res.At(0).Type()), err}},
		}, true
	}
	cl.Cond = func(ex *Exec, st *State, t *Term) (bool, bool) {
		if t.Op == OCmp && t.Aux == token.EQL && len(t.Args) == 2 {
			for i, x := range t.Args {
				o := t.Args[1-i]
				if x.Op != OSym {
					continue
				}
				switch {
				case x.S == "value" && o.isNil():
					return false, true
				case x.S == "stamp" && o.isStr(""):
					return false, true
				}
			}
		}
		return false, false
	}
	a.hook(cl)
	m.rm.hook(cl)
	return cl
}

// text: t is x written in the unit u.
func (m *messageModel) text(ex *Exec, t *Term, T types.Type, x, u *Term, zeroT bool) bool {
	var d *Term
	second := ex.constOf("tricorder/units", "Second")
	switch {
	case t.Op == OCall && t.Aux == "duration: StringUsingUnits" && (t.Args[1] == u || sameConst(t.Args[1], u)):
		d = t.Args[0]
	case t.Op == OCall && t.Aux == "duration: String" && sameConst(u, second):
		d = t.Args[0]
	default:
		return false
	}
	for d.Op == OConv {
		d = d.Args[0]
	}
	if types.Identical(T, m.D) {
		return d.Op == OCall && d.Aux == "duration: New" && d.Args[0] == x
	}
	if zeroT {
		return d == ex.zero(d.T) || d.isZeroStruct()
	}
	return d.Op == OCall && d.Aux == "duration: SinceEpoch" && d.Args[0] == x
}

func (t *Term) isZeroStruct() bool {
	if t.Op == OZero {
		return true
	}
	if t.Op != OStruct {
		return false
	}
	for _, a := range t.Args {
		if n, ok := a.intVal(); !ok || n != 0 {
			return false
		}
	}
	return true
}

// converted interprets one conversion and hands over its outcomes.
func (m *messageModel) converted(f *ssa.Function, cases []messageCase, check func(ex *Exec, c messageCase, a *arrays, label string, o Outcome, get, was func(f string) *Term)) {
	r := m.r
	parallel(len(cases), func(i int) {
		c := cases[i]
		a := newArrays()
		ex, st0, _ := r.initRunWith("tricorder/messages", func(f *ssa.Function) bool { return true }, nil, nil, m.rm.hook)
		if ex == nil {
			return
		}
		ex.C = m.client(c, a)
		self := ex.ts.Sym("message", types.NewPointer(m.M))
		label := f.Name() + ": " + c.String()
		load := func(st *State, f string) *Term {
			return ex.Load(st, ex.fieldAddr(self, m.f[f], m.M), m.S.Field(m.f[f]).Type())
		}
		before := st0.clone()
		outs := r.callIn(ex, label, f, []*Term{self}, st0)
		r.Ran(ex, label)
		r.Check(ex.err == "" && len(outs) > 0, "converges", label, "the conversion is analysed", "%s", ex.err)
		for _, o := range outs {
			check(ex, c, a, label, o, func(f string) *Term { return load(o.St, f) }, func(f string) *Term { return load(before, f) })
		}
	})
}

// kept: these fields are as they were.
func (m *messageModel) kept(label string, get, was func(f string) *Term, fields ...string) bool {
	ok := true
	for _, f := range fields {
		x, y := get(f), was(f)
		same := x == y || sameConst(x, y)
		ok = m.r.Check(same, "kept", label, f+" is left as it was", "it becomes %v", x) && ok
	}
	return ok
}

func (m *messageModel) others() []string {
	var fs []string
	for i := 0; i < m.S.NumFields(); i++ {
		switch n := m.S.Field(i).Name(); n {
		case "Kind", "SubType", "Value", "TimeStamp":
		default:
			fs = append(fs, n)
		}
	}
	return fs
}

func runC23(r *Report) {
	m := newMessageModel(r)
	if m == nil {
		return
	}
	f := r.P.Method("tricorder/messages", "Metric", "ConvertToJson")
	if !r.Need(f != nil, "(*messages.Metric).ConvertToJson") {
		return
	}
	toJson := map[string]string{"GoTime": "Time", "GoDuration": "Duration"}
	str := types.Type(types.Typ[types.String])
	m.converted(f, m.cases(), func(ex *Exec, c messageCase, a *arrays, label string, o Outcome, get, was func(f string) *Term) {
		if !r.Check(!o.Panic, "converts", label, "a message that fits its kind is converted", "it panics: %v", o.PV) {
			return
		}
		m.kept(label, get, was, m.others()...)
		u := was("Unit")
		kind := func(f, want string) {
			for _, k := range get(f).alts() {
				r.Check(sameConst(k, ex.constOf("tricorder/types", want)), "kind", label, f+" is "+want, "it is %v", k)
			}
		}
		x := ex.ts.Sym("value", c.T)
		if c.null {
			x = ex.ts.Nil(c.T)
		}
		for _, v := range get("Value").alts() {
			T, got := ifaceOf(v)
			if jk := toJson[c.kind]; jk != "" {
				r.Check(T != nil && types.Identical(T, str) && m.text(ex, got, c.T, x, u, c.zeroT), "text", label, "the value is its text in the metric's unit", "it is %v", v)
				continue
			}
			if jk := toJson[c.sub]; jk != "" && c.kind == "List" {
				if r.Check(T != nil && types.Identical(T, types.NewSlice(str)), "list", label, "the list becomes a list of texts", "it is %v", v) {
					m.eachText(ex, o.St, a, label, c, x, got, u)
				}
				continue
			}
			if c.null {
				r.Check(T != nil && types.Identical(T, c.T) && !got.isNil() && ex.emptySlice(o.St, got), "nil", label, "a nil list becomes an empty one", "it is %v", v)
				continue
			}
			r.Check(v == was("Value"), "kept", label, "the value is left as it was", "it becomes %v", v)
		}
		want := c.kind
		if k := toJson[want]; k != "" {
			want = k
		}
		kind("Kind", want)
		want = c.sub
		if k := toJson[want]; k != "" {
			want = k
		}
		if want == "" {
			want = "Unknown"
		}
		kind("SubType", want)
		for _, v := range get("TimeStamp").alts() {
			T, got := ifaceOf(v)
			ok := T != nil && types.Identical(T, str)
			switch c.stamp {
			case "none", "empty":
				ok = ok && got.isStr("")
			case "text":
				ok = ok && v == was("TimeStamp")
			case "time":
				st := ex.ts.Sym("stamp", m.T)
				second := ex.constOf("tricorder/units", "Second")
				ok = ok && (m.text(ex, got, m.T, st, second, false) || c.zeroT && m.text(ex, got, m.T, st, second, true))
			}
			r.Check(ok, "time stamp", label, "the time stamp becomes text", "it is %v", v)
		}
	})
}

// eachText: list holds the texts of the elements of x, in order.
func (m *messageModel) eachText(ex *Exec, st *State, a *arrays, label string, c messageCase, x, list, u *Term) {
	r := m.r
	elem := c.T.Underlying().(*types.Slice).Elem()
	for _, l := range list.alts() {
		if c.null {
			r.Check(!l.isNil() && ex.emptySlice(st, l), "nil", label, "a nil list becomes an empty one", "it is %v", l)
			continue
		}
		n := ex.lenOf(st, x, false, c.T)
		r.Check(a.hasLen(ex, st, l, n), "length", label, "the list keeps its length", "it is %v", ex.lenOf(st, l, false, types.NewSlice(types.Typ[types.String])))
		k := ex.ts.Sym("any index", types.Typ[types.Int])
		e := a.at(ex, st, ex.elemAddr(l, k, types.NewPointer(types.Typ[types.String])))
		if !r.Check(e != nil, "elements", label, "every element is written", "nothing is known about element k of %v", l) {
			continue
		}
		from := ex.elemAddr(x, k, types.NewPointer(elem))
		ok := false
		if c.zeroT || e.anyTerm(func(t *Term) bool { return t.Op == OLoad && t.Args[0] == from }) {
			ok = m.textOfElem(ex, e, elem, from, u, c.zeroT)
		}
		r.Check(ok, "elements", label, "element k is the text of element k", "it is %v", e)
	}
}

func (m *messageModel) textOfElem(ex *Exec, e *Term, elem types.Type, from, u *Term, zeroT bool) bool {
	if zeroT {
		return m.text(ex, e, elem, nil, u, true)
	}
	ok := false
	e.anyTerm(func(t *Term) bool {
		if t.Op == OLoad && t.Args[0] == from && m.text(ex, e, elem, t, u, false) {
			ok = true
		}
		return ok
	})
	return ok
}

func runC24(r *Report) {
	m := newMessageModel(r)
	if m == nil {
		return
	}
	f := r.P.Method("tricorder/messages", "Metric", "ConvertToGoRPC")
	if !r.Need(f != nil, "(*messages.Metric).ConvertToGoRPC") {
		return
	}
	str := types.Type(types.Typ[types.String])
	toGo := map[string]string{"Time": "GoTime", "Duration": "GoDuration"}
	how := map[string]string{"Time": "AsGoTime", "Duration": "AsGoDuration"}
	cases := m.cases()
	for _, k := range []string{"Time", "Duration"} {
		for _, s := range []string{"none", "time", "text", "empty", "other"} {
			for _, T := range []types.Type{nil, types.Typ[types.Int64], types.NewSlice(str), m.rows[toGo[k]].goT} {
				cases = append(cases, messageCase{kind: k, T: T, bad: true, stamp: s})
			}
			for _, T := range []types.Type{nil, types.Typ[types.String], types.NewSlice(types.Typ[types.Int64]), types.NewSlice(m.any), types.NewSlice(m.rows[toGo[k]].goT)} {
				cases = append(cases, messageCase{kind: "List", sub: k, T: T, bad: true, stamp: s})
			}
		}
	}
	all := make([]string, 0, m.S.NumFields())
	for i := 0; i < m.S.NumFields(); i++ {
		all = append(all, m.S.Field(i).Name())
	}
	// parsed: t is x read in the unit u and turned into a Go value.
	parsed := func(t *Term, word string, x func(*Term) bool, u *Term) bool {
		if t.Op != OCall || t.Aux != "duration: "+word {
			return false
		}
		d := t.Args[0]
		for d.Op == OConv {
			d = d.Args[0]
		}
		return d.Op == OCall && d.Aux == "duration: ParseWithUnit" && x(d.Args[0]) && (d.Args[1] == u || sameConst(d.Args[1], u))
	}
	m.converted(f, cases, func(ex *Exec, c messageCase, a *arrays, label string, o Outcome, get, was func(f string) *Term) {
		if !r.Check(!o.Panic, "converts", label, "no message makes the conversion panic", "it panics: %v", o.PV) {
			return
		}
		failed := c.bad || c.stamp == "other"
		if _, ok := o.St.Get("failed", nil); ok {
			failed = true
		}
		err := o.Ret[0]
		isErr := !err.isNil() && ex.nonNil(o.St, err)
		if failed {
			r.Check(isErr, "error", label, "an error is returned when something cannot be converted", "it is %v", err)
			m.kept(label+", failing", get, was, all...)
			return
		}
		if !r.Check(err.isNil(), "error", label, "what can be converted is", "the error is %v", err) {
			return
		}
		m.kept(label, get, was, m.others()...)
		u := was("Unit")
		is := func(x *Term) func(*Term) bool { return func(t *Term) bool { return t == x } }
		for _, v := range get("Value").alts() {
			T, got := ifaceOf(v)
			switch {
			case toGo[c.kind] != "":
				want := m.rows[toGo[c.kind]].goT
				r.Check(T != nil && types.Identical(T, want) && parsed(got, how[c.kind], is(ex.ts.Sym("value", c.T)), u), "value", label, "the value is read in the metric's unit", "it is %v", v)
			case c.kind == "List" && toGo[c.sub] != "":
				want := m.rows[toGo[c.sub]].goT
				if !r.Check(T != nil && types.Identical(T, types.NewSlice(want)), "list", label, "the list becomes one of Go values", "it is %v", v) {
					continue
				}
				x := ex.ts.Sym("value", c.T)
				if c.null {
					r.Check(got.isNil() || ex.emptySlice(o.St, got), "nil", label, "a nil list stays empty", "it is %v", v)
					continue
				}
				for _, l := range got.alts() {
					r.Check(a.hasLen(ex, o.St, l, ex.lenOf(o.St, x, false, c.T)), "length", label, "the list keeps its length", "it is %v", ex.lenOf(o.St, l, false, T))
					k := ex.ts.Sym("any index", types.Typ[types.Int])
					e := a.at(ex, o.St, ex.elemAddr(l, k, types.NewPointer(want)))
					from := ex.elemAddr(x, k, types.NewPointer(str))
					r.Check(e != nil && parsed(e, how[c.sub], func(t *Term) bool { return t.Op == OLoad && t.Args[0] == from }, u), "elements", label, "element k is read from element k", "it is %v", e)
				}
			default:
				r.Check(v == was("Value"), "kept", label, "the value is left as it was", "it becomes %v", v)
			}
		}
		kind := func(f, was string) {
			want := was
			if k := toGo[want]; k != "" {
				want = k
			}
			if want == "" {
				want = "Unknown"
			}
			for _, k := range get(f).alts() {
				r.Check(sameConst(k, ex.constOf("tricorder/types", want)), "kind", label, f+" is "+want, "it is %v", k)
			}
		}
		kind("Kind", c.kind)
		kind("SubType", c.sub)
		for _, v := range get("TimeStamp").alts() {
			T, got := ifaceOf(v)
			ok := false
			switch c.stamp {
			case "none", "empty":
				ok = v.isNil()
			case "time":
				ok = v == was("TimeStamp")
			case "text":
				ok = T != nil && types.Identical(T, m.T) && parsed(got, "AsGoTime", is(ex.ts.Sym("stamp", str)), ex.constOf("tricorder/units", "Second"))
			}
			r.Check(ok, "time stamp", label, "the time stamp becomes a Go time or nothing", "it is %v", v)
		}
	})
}
