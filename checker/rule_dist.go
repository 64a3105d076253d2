package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// distModel is what the analysis learns about the distribution object from
// the way it is reported to clients.
type distModel struct {
	D      *types.Named   // the distribution struct
	Msg    *types.Named   // messages.Distribution
	role   map[string]int // role -> field index of D
	counts int
	pieces int
	unit   int
	isSet  int
	P      *Program
}

func (m *distModel) name(i int) string { return nthField(m.D, i) }

// newDistModel resolves the roles of the distribution's fields from where
// their values are reported.
func newDistModel(r *Report) *distModel {
	p := r.P
	m := &distModel{D: p.Named("tricorder", "CumulativeDistribution"), Msg: p.Named("tricorder/messages", "Distribution"),
		role: map[string]int{}, counts: -1, pieces: -1, unit: -1, isSet: -1, P: p}
	root := p.Func("tricorder", "ReadMyMetrics")
	if !r.Need(m.D != nil && m.Msg != nil && root != nil, "distribution types and ReadMyMetrics") {
		return nil
	}
	votes := map[string]map[int]bool{}
	vote := func(what string, v *Term) {
		for _, a := range v.alts() {
			if a.Op == OLoad {
				if _, i, ok := fieldOf(a.Args[0], m.D); ok {
					if votes[what] == nil {
						votes[what] = map[int]bool{}
					}
					votes[what][i] = true
				}
			}
		}
	}
	metric := p.Named("tricorder/messages", "Metric")
	c := &Client{Event: func(ex *Exec, st *State, ev *Event) {
		if ex.muted > 0 || ev.Kind != EvStore {
			return
		}
		if _, i, ok := fieldOf(ev.Addr, m.Msg); ok {
			vote(nthField(m.Msg, i), ev.Val)
		}
		if _, i, ok := fieldOf(ev.Addr, metric); ok && nthField(metric, i) == "TimeStamp" {
			for _, a := range ev.Val.alts() {
				if a.Op == OIface {
					vote("TimeStamp", a.Args[0])
				}
			}
		}
	}}
	ex := NewExec(p, c)
	ex.Run(root, nil, nil, newState())
	r.Ran(ex, p.fname(root))
	for _, w := range []string{"Min", "Max", "Sum", "Count", "Generation", "IsNotCumulative", "TimeStamp"} {
		m.role[w] = -1
		if r.Check(len(votes[w]) == 1, "reported-field", "messages.Distribution", w+" is reported from one field of the distribution", "%s is reported from %d fields", w, len(votes[w])) {
			for i := range votes[w] {
				m.role[w] = i
			}
		} else {
			return nil
		}
	}
	s := structOf(m.D)
	for i := 0; i < s.NumFields(); i++ {
		t := s.Field(i).Type()
		switch u := t.Underlying().(type) {
		case *types.Slice:
			if isInteger(u.Elem()) {
				m.counts = i
			} else {
				m.pieces = i
			}
		case *types.Basic:
			if strings.HasSuffix(types.TypeString(t, nil), "/units.Unit") {
				m.unit = i
			} else if u.Kind() == types.Bool && i != m.role["IsNotCumulative"] {
				m.isSet = i
			}
		}
	}
	if !r.Need(m.counts >= 0 && m.pieces >= 0 && m.unit >= 0, "bucket counters, ranges and unit of a distribution") {
		return nil
	}
	return m
}

// distCase is one class of inputs and states of a distribution operation.
type distCase struct {
	op     string // Add, Update, Remove
	typ    string // receiver type
	vt     types.Type
	vt2    types.Type
	unit   string
	set    bool
	empty  int // 1: empty, 0: non-empty, -1: unknown
	rank   map[string]float64
	notCum bool
}

func (c distCase) String() string {
	s := fmt.Sprintf("%s.%s(%s", c.typ, c.op, typeStr(c.vt))
	if c.vt2 != nil {
		s += "," + typeStr(c.vt2)
	}
	s += ") unit=" + c.unit
	if !c.set {
		s = strings.TrimSuffix(s, "unit="+c.unit) + "unit unassigned"
	}
	switch c.empty {
	case 1:
		s += " empty"
	case 0:
		s += " non-empty"
	}
	return s
}

func typeStr(t types.Type) string {
	if t == nil {
		return "nil"
	}
	return types.TypeString(t, shortQual)
}

// section is one critical section (or lock-free region) of an operation.
type section struct {
	init, fin map[int]*Term
	cnt       []Atom
	panicking bool
	st        *State
	ex        *Exec
	site      string
}

func (s *section) changed() []int {
	var r []int
	for i, v := range s.fin {
		if s.init[i] != v {
			r = append(r, i)
		}
	}
	return r
}

type distResult struct {
	ex       *Exec
	outs     []Outcome
	sections []*section
	self     *Term
	args     []*Term
	loads    map[int]map[*Term]bool
}

// timePkg finds time.Duration and friends.
func (p *Program) libType(pkg, name string) types.Type {
	tp := p.Types[pkg]
	if tp == nil {
		return nil
	}
	o := tp.Scope().Lookup(name)
	if o == nil {
		return nil
	}
	return o.Type()
}

// ranked: the assumed order of a term, when the case fixes one.
func (c *distCase) rankOf(m *distModel, self, amount *Term, t *Term) (float64, bool) {
	if c.rank == nil {
		return 0, false
	}
	if t == amount {
		return c.rank["v"], true
	}
	if t.Op == OLoad {
		if b, i, ok := fieldOf(t.Args[0], m.D); ok && b == self {
			switch i {
			case m.role["Min"]:
				return c.rank["min"], true
			case m.role["Max"]:
				return c.rank["max"], true
			}
		}
	}
	if t.Op == OCall {
		n, _ := t.Aux.(string)
		if n == "math.Min" || n == "math.Max" || n == "builtin.min" || n == "builtin.max" {
			a, ok1 := c.rankOf(m, self, amount, t.Args[0])
			b, ok2 := c.rankOf(m, self, amount, t.Args[1])
			if ok1 && ok2 {
				if strings.HasSuffix(strings.ToLower(n), "min") == (a < b) {
					return a, true
				}
				return b, true
			}
		}
	}
	if t.Op == OPhi {
		var r float64
		for i, a := range t.Args {
			v, ok := c.rankOf(m, self, amount, a)
			if !ok || i > 0 && v != r {
				return 0, false
			}
			r = v
		}
		return r, true
	}
	return 0, false
}

// runDist interprets one operation under the assumptions of the case.
func runDist(r *Report, m *distModel, c distCase) *distResult {
	f := r.P.Method("tricorder", c.typ, c.op)
	if !r.Need(f != nil, "method "+c.typ+"."+c.op) {
		return nil
	}
	return runDistOn(r, m, c, f, nil)
}

// runDistOn interprets a function that may change the distribution; mk makes
// its arguments and prepares the rule, if it is not one of the operations.
func runDistOn(r *Report, m *distModel, c distCase, f *ssa.Function, mk func(ex *Exec, cl *Client, self *Term) []*Term) *distResult {
	p := r.P
	res := &distResult{}
	var amount *Term
	ifaceOf := func(ex *Exec, name string, t types.Type) *Term {
		if t == nil {
			return ex.ts.Nil(nil)
		}
		return ex.ts.mk(Term{Op: OIface, Args: []*Term{ex.ts.Sym(name, t)}, Aux: t, T: types.NewInterfaceType(nil, nil)})
	}
	cl := &Client{Panics: false}
	cl.Load = func(ex *Exec, st *State, addr *Term, typ types.Type) *Term {
		b, i, ok := fieldOf(addr, m.D)
		if !ok || b != res.self {
			return nil
		}
		switch i {
		case m.unit:
			if mk != nil {
				return ex.ts.Sym("unit:set", typ)
			}
			return ex.ts.Str(c.unit)
		case m.isSet:
			return ex.ts.Bool(c.set)
		case m.role["IsNotCumulative"]:
			return ex.ts.Bool(c.notCum)
		case m.role["Count"]:
			if c.empty == 1 {
				return ex.ts.Int(0)
			}
			t := ex.ts.mk(Term{Op: OLoad, Args: []*Term{addr}, S: ex.epochOf(st, addr), T: typ})
			if c.empty == 0 {
				ex.assume[t] = ivGE(1)
			}
			return t
		}
		return nil
	}
	cl.Cond = func(ex *Exec, st *State, t *Term) (bool, bool) {
		if t.Op != OCmp || c.rank == nil {
			return false, false
		}
		a, ok1 := c.rankOf(m, res.self, amount, t.Args[0])
		b, ok2 := c.rankOf(m, res.self, amount, t.Args[1])
		if !ok1 || !ok2 {
			return false, false
		}
		switch t.Aux {
		case token.LSS:
			return a < b, true
		case token.LEQ:
			return a <= b, true
		case token.EQL:
			return a == b, true
		}
		return false, false
	}
	cl.Event = func(ex *Exec, st *State, ev *Event) {
		switch ev.Kind {
		case EvStore:
			if ev.Addr.Op == OElem {
				x := ev.Addr.Args[0]
				if x.Op == OLoad {
					if b, i, ok := fieldOf(x.Args[0], m.D); ok && b == res.self && i == m.counts {
						d := ex.ts.Add(ev.Val, ev.Old, -1, types.Typ[types.Int])
						k := "?"
						if n, ok := d.intVal(); ok {
							k = fmt.Sprint(n)
						}
						idx := ev.Addr.Args[1]
						if old, ok := st.Get("cnt", idx); ok {
							k = old + "," + k
						}
						st.Set("cnt", idx, k)
					}
				}
			}
		case EvUnlock:
			if ev.Name == "unheld" || ex.muted > 0 {
				return
			}
			for _, l := range st.locks {
				if l.addr != ev.Addr {
					continue
				}
				if b, _, ok := fieldOf(l.addr, m.D); !ok || b != res.self {
					continue
				}
				s := &section{init: map[int]*Term{}, fin: map[int]*Term{}, panicking: st.panicV != nil, ex: ex, site: r.where(ev), st: st.clone()}
				for _, a := range st.Atoms("cnt") {
					s.cnt = append(s.cnt, a)
				}
				su := structOf(m.D)
				for i := 0; i < su.NumFields(); i++ {
					if strings.HasPrefix(types.TypeString(su.Field(i).Type(), nil), "sync.") {
						continue
					}
					addr := ex.fieldAddr(res.self, i, m.D)
					s.init[i] = ex.Load(l.snap, addr, su.Field(i).Type())
					s.fin[i] = ex.Load(st, addr, su.Field(i).Type())
				}
				res.sections = append(res.sections, s)
				if len(s.changed()) > 0 || len(s.cnt) > 0 {
					n, _ := st.Get("acct", nil)
					st.Set("acct", nil, n+"1")
				}
				for _, a := range s.cnt {
					st.Del("cnt", a.T)
				}
			}
		}
	}
	ex := NewExec(p, cl)
	res.ex = ex
	res.self = ex.ts.Sym("dist", types.NewPointer(m.D))
	if mk != nil {
		res.args = mk(ex, cl, res.self)
		res.outs = ex.Run(f, res.args, nil, newState())
		r.Ran(ex, p.fname(f)+" "+c.op)
		return res
	}
	args := []*Term{res.self, ifaceOf(ex, "value", c.vt)}
	amount = amountOf(ex, args[1], c.unit)
	if c.op == "Update" {
		args = append(args, ifaceOf(ex, "newValue", c.vt2))
		amount = amountOf(ex, args[2], c.unit)
	}
	res.args = args
	res.outs = ex.Run(f, args, nil, newState())
	r.Ran(ex, c.String())
	return res
}

// amountOf: the number a value contributes to a distribution in unit.
func amountOf(ex *Exec, v *Term, unit string) *Term {
	if v.Op != OIface {
		return nil
	}
	x := v.Args[0]
	ft := types.Typ[types.Float64]
	switch types.TypeString(v.Aux.(types.Type), nil) {
	case "float64":
		return x
	case "float32":
		return ex.convert(x, types.Typ[types.Float32], ft)
	case "time.Duration":
		f := ex.convert(x, v.Aux.(types.Type), ft)
		switch unit {
		case "Seconds":
			return ex.ts.Bin(token.QUO, f, ex.ts.Const(constant.MakeInt64(1000000000), ft), ft, ft)
		case "Milliseconds":
			return ex.ts.Bin(token.QUO, f, ex.ts.Const(constant.MakeInt64(1000000), ft), ft, ft)
		}
	}
	return nil
}

// normAmount rewrites equivalent library spellings of a duration in seconds.
func normAmount(ex *Exec, t *Term) *Term {
	return ex.ts.subst(t, func(x *Term) *Term {
		if x.Op == OCall && x.Aux == "(time.Duration).Seconds" {
			ft := types.Typ[types.Float64]
			f := ex.ts.mk(Term{Op: OConv, Args: []*Term{x.Args[0]}, T: ft})
			return ex.ts.Bin(token.QUO, f, ex.ts.Const(constant.MakeInt64(1000000000), ft), ft, ft)
		}
		return nil
	})
}

func distCasesOK(m *distModel, p *Program) []distCase {
	f64, f32, dur := types.Typ[types.Float64], types.Typ[types.Float32], p.libType("time", "Duration")
	var cs []distCase
	for _, typ := range []string{"CumulativeDistribution", "NonCumulativeDistribution"} {
		nc := typ == "NonCumulativeDistribution"
		for _, e := range []int{1, 0} {
			cs = append(cs,
				distCase{op: "Add", typ: typ, vt: f64, unit: "None", set: true, empty: e, notCum: nc},
				distCase{op: "Add", typ: typ, vt: f32, unit: "Bytes", set: true, empty: e, notCum: nc},
				distCase{op: "Add", typ: typ, vt: dur, unit: "Seconds", set: true, empty: e, notCum: nc},
				distCase{op: "Add", typ: typ, vt: dur, unit: "Milliseconds", set: true, empty: e, notCum: nc},
				distCase{op: "Add", typ: typ, vt: f64, unit: "Milliseconds", set: true, empty: e, notCum: nc},
				distCase{op: "Add", typ: typ, vt: f32, unit: "Seconds", set: true, empty: e, notCum: nc})
		}
	}
	for _, op := range []string{"Update", "Remove"} {
		typ := "NonCumulativeDistribution"
		mk := func(a, b types.Type, u string) {
			c := distCase{op: op, typ: typ, vt: a, unit: u, set: true, empty: 0, notCum: true}
			if op == "Update" {
				c.vt2 = b
			}
			cs = append(cs, c)
		}
		mk(f64, f64, "None")
		mk(f32, f64, "Bytes")
		mk(dur, dur, "Seconds")
		mk(dur, f64, "Milliseconds")
		mk(f64, dur, "Seconds")
	}
	return cs
}

// bucketOf checks that idx is the bucket of amount v: the first range whose
// upper bound exceeds v, else the last.
func (m *distModel) bucketOf(ex *Exec, st *State, self, idx, v *Term, endField fieldKey) (bool, string) {
	it := types.Typ[types.Int]
	isPieces := func(t *Term) bool {
		if t.Op != OLoad {
			return false
		}
		b, i, ok := fieldOf(t.Args[0], m.D)
		return ok && b == self && i == m.pieces
	}
	isSlice := func(t *Term) bool {
		if t.Op != OLoad {
			return false
		}
		b, i, ok := fieldOf(t.Args[0], m.D)
		return ok && b == self && (i == m.pieces || i == m.counts)
	}
	// last index: len(pieces)-1
	isLast := func(t *Term) bool {
		t1 := ex.ts.Add(t, ex.ts.Int(1), 1, it)
		return t1.Op == OLen && isSlice(t1.Args[0])
	}
	// v < End of the range at position i ?
	isEndAt := func(t, i *Term) bool {
		if t.Op != OLoad || t.Args[0].Op != OField {
			return false
		}
		fa := t.Args[0]
		if (fieldKey{structKey(derefType(fa.Args[0].T)), fa.I}) != endField {
			return false
		}
		o := fa.Args[0]
		if o.Op == OLoad {
			o = o.Args[0]
		}
		return o.Op == OElem && isPieces(o.Args[0]) && o.Args[1] == i
	}
	less := func(f *Term, i *Term) (neg, ok bool) {
		for f.Op == OUn && f.Aux == token.NOT {
			f, neg = f.Args[0], !neg
		}
		if f.Op != OCmp {
			return false, false
		}
		a, b := normAmount(ex, f.Args[0]), normAmount(ex, f.Args[1])
		if f.Aux == token.LSS && a == v && isEndAt(b, i) {
			return neg, true
		}
		if f.Aux == token.LEQ && b == v && isEndAt(a, i) {
			return !neg, true
		}
		return false, false
	}
	if idx.Op == OPhi {
		for _, a := range idx.Args {
			if ok, why := m.bucketOf(ex, st, self, a, v, endField); !ok {
				return false, why
			}
		}
		return true, ""
	}
	if idx.Op == OCall && idx.Aux == "sort.Search" {
		if !isLast(idx.Args[0]) {
			return false, fmt.Sprintf("the search does not run over all ranges but the last: %v", idx.Args[0])
		}
		bound := ex.ts.Sym("bound:search", it)
		if neg, ok := less(idx.Args[1], bound); !ok || neg {
			return false, fmt.Sprintf("the search condition is not \"value below the upper bound of the range\": %v", idx.Args[1])
		}
		return true, ""
	}
	// a linear scan: find the loop variable whose completed iterations all
	// satisfied "value not below the upper bound"
	var scan func(t *Term) (j *Term, ok bool)
	scan = func(t *Term) (*Term, bool) {
		j := t
		off := ex.ts.Int(0)
		if t.Op == OLin && len(t.Args) == 1 {
			j = t.Args[0]
			off = ex.ts.Add(t, j, -1, it)
			if !off.isConst() {
				return nil, false
			}
		}
		if j.Op != OJoin {
			return nil, false
		}
		info := ex.joins[j]
		if info == nil {
			return nil, false
		}
		init := false
		for x := range info.final {
			d, isC := ex.ts.Add(x, j, -1, it).intVal()
			if isC && d == 1 {
				continue
			}
			if s, isC := ex.ts.Add(x, off, 1, it).intVal(); isC && s == 0 {
				init = true
				continue
			}
			return nil, false
		}
		if !init {
			return nil, false
		}
		place := j.S[:strings.LastIndex(j.S, ":")]
		for f, val := range ex.loopFacts[place] {
			if neg, ok := less(f, t); ok && val == neg {
				return j, true
			}
		}
		return nil, false
	}
	atOrBeyondLast := func(t *Term) bool {
		for f, val := range st.facts {
			if f.Op == OCmp && f.Aux == token.LSS && f.I != 2 && !val && f.Args[0] == t && isLast(f.Args[1]) {
				return true
			}
		}
		return false
	}
	if _, ok := scan(idx); ok {
		for f, val := range st.facts {
			if neg, ok := less(f, idx); ok && val != neg {
				return true, ""
			}
		}
		if atOrBeyondLast(idx) {
			return true, ""
		}
		return false, "the scan may stop at a range that does not contain the value"
	}
	if isLast(idx) {
		for f, val := range st.facts {
			if f.Op == OCmp && f.Aux == token.LSS && f.I != 2 && !val && isLast(f.Args[1]) {
				if _, ok := scan(f.Args[0]); ok {
					return true, ""
				}
			}
		}
	}
	return false, fmt.Sprintf("cannot relate the counter index %v to the range containing the value", idx)
}

// endOf: the field of a range piece reported as its upper (or lower) bound.
func rangeFields(r *Report) (lo, hi fieldKey, cnt fieldKey, ok bool) {
	p := r.P
	rw := p.Named("tricorder/messages", "RangeWithCount")
	root := p.Func("tricorder", "ReadMyMetrics")
	if !r.Need(rw != nil && root != nil, "messages.RangeWithCount") {
		return
	}
	got := map[string]map[fieldKey]bool{}
	c := &Client{Event: func(ex *Exec, st *State, ev *Event) {
		if ev.Kind != EvStore || ex.muted > 0 {
			return
		}
		_, i, isR := fieldOf(ev.Addr, rw)
		if !isR {
			return
		}
		for _, a := range ev.Val.alts() {
			if a.Op == OLoad && a.Args[0].Op == OField {
				fa := a.Args[0]
				n := nthField(rw, i)
				if got[n] == nil {
					got[n] = map[fieldKey]bool{}
				}
				got[n][fieldKey{structKey(derefType(fa.Args[0].T)), fa.I}] = true
			}
		}
	}}
	ex := NewExec(p, c)
	ex.Run(root, nil, nil, newState())
	one := func(n string) fieldKey {
		if !r.Check(len(got[n]) == 1, "reported-field", "messages.RangeWithCount", n+" is reported from one field", "%s is reported from %d fields", n, len(got[n])) {
			return fieldKey{}
		}
		for k := range got[n] {
			return k
		}
		return fieldKey{}
	}
	lo, hi, cnt = one("Lower"), one("Upper"), one("Count")
	return lo, hi, cnt, lo.strct != "" && hi.strct != ""
}

func isNow(t *Term) bool {
	for t.Op == OCall && strings.HasPrefix(t.Aux.(string), "(time.Time).") && len(t.Args) > 0 {
		t = t.Args[0]
	}
	return t.Op == OCall && t.Aux == "time.Now"
}

func init() {
	register(&Property{ID: "C08", MinObs: 60,
		Rule: "every operation on a distribution, taken over every class of accepted input, performs exactly one complete accounting step inside one critical section: counters change by the exact delta, and nothing else changes.",
		Assume: []string{"float64 addition is treated as exact: rounding of the running sum is outside the property",
			"sort.Search returns the smallest index satisfying its predicate"},
		Run: runC08})
	register(&Property{ID: "C09", MinObs: 30,
		Rule:   "for every relative order of the new value and the recorded extremes (a finite set), the recorded minimum and maximum after the operation are the extremes of everything added since the distribution was last empty.",
		Assume: []string{"values are not NaN: comparisons with NaN have no order"},
		Run:    runC09})
	register(&Property{ID: "C14", MinObs: 20,
		Rule: "for every class of rejected input, all ways out of the operation are panics and no critical section on the way changes the object.",
		Run:  runC14})
}

func runC08(r *Report) {
	m := newDistModel(r)
	if m == nil {
		return
	}
	_, hi, _, ok := rangeFields(r)
	if !ok {
		return
	}
	it := types.Typ[types.Int]
	n := 0
	for _, c := range distCasesOK(m, r.P) {
		res := runDist(r, m, c)
		if res == nil {
			continue
		}
		ex := res.ex
		live := 0
		for _, o := range res.outs {
			if o.Panic {
				continue
			}
			live++
			v, _ := o.St.Get("acct", nil)
			r.Check(v == "1", "one-step", c.String(), "a successful call accounts exactly once", "on some path out of %s the distribution is changed in %d critical sections", c.op, len(v))
		}
		r.Check(live > 0, "accepts", c.String(), "the input is accepted", "no path returns normally")
		dSum, dCount := ex.ts.Int(0), int64(0)
		want := map[*Term]int64{}
		switch c.op {
		case "Add":
			dSum, dCount = amountOf(ex, res.args[1], c.unit), 1
			want[dSum]++
		case "Remove":
			a := amountOf(ex, res.args[1], c.unit)
			dSum, dCount = ex.ts.Scale(a, constant.MakeInt64(-1), types.Typ[types.Float64]), -1
			want[a]--
		case "Update":
			a, b := amountOf(ex, res.args[1], c.unit), amountOf(ex, res.args[2], c.unit)
			dSum, dCount = ex.ts.Add(b, a, -1, types.Typ[types.Float64]), 0
			want[a]--
			want[b]++
		}
		for _, s := range res.sections {
			if s.panicking || len(s.changed()) == 0 && len(s.cnt) == 0 {
				continue
			}
			n++
			delta := func(role string, want *Term, ft types.Type) {
				i := m.role[role]
				for _, f := range s.fin[i].alts() {
					d := normAmount(ex, ex.ts.Add(f, s.init[i], -1, ft))
					if want.Op == OConst || d.isConst() {
						r.Check(d == want, "delta", c.String(), role+" changes by the exact amount", "%s becomes %v (was %v): change %v, expected %v", role, f, s.init[i], d, want)
					} else {
						r.Check(d == normAmount(ex, want), "delta", c.String(), role+" changes by the exact amount", "%s becomes %v (was %v): change %v, expected %v", role, f, s.init[i], d, want)
					}
				}
			}
			delta("Sum", dSum, types.Typ[types.Float64])
			delta("Count", ex.ts.Int(dCount), it)
			delta("Generation", ex.ts.Int(1), it)
			ts := m.role["TimeStamp"]
			for _, f := range s.fin[ts].alts() {
				r.Check(isNow(f), "timestamp", c.String(), "the timestamp becomes the time of the operation", "timestamp becomes %v", f)
			}
			for _, i := range s.changed() {
				switch i {
				case m.role["Sum"], m.role["Count"], m.role["Generation"], ts, m.role["Min"], m.role["Max"]:
					continue
				}
				r.Check(false, "frame", c.String(), "nothing but the accounting fields changes", "%s changes field %s", c.op, m.name(i))
			}
			// counters
			left := map[*Term]int64{}
			for a, k := range want {
				left[a] = k
			}
			used := map[*Term]bool{}
			bad := ""
			for _, a := range s.cnt {
				for _, dl := range strings.Split(a.V, ",") {
					hit := false
					for v, k := range left {
						if used[v] {
							continue
						}
						if ok, why := m.bucketOf(ex, s.st, res.self, a.T, v, hi); ok && dl == fmt.Sprint(k) {
							used[v], hit = true, true
							break
						} else if !ok {
							bad = why
						}
					}
					r.Check(hit, "bucket", c.String(), "each counter that changes is the counter of a value of the operation, by the right amount", "counter [%v] changes by %s; %s", a.T, dl, bad)
				}
			}
			missing := 0
			for v := range left {
				if !used[v] {
					missing++
				}
			}
			okMiss := missing == 0
			if missing == 2 && c.op == "Update" {
				// both values in the same range: no counter moves
				for f, val := range s.st.facts {
					if val && f.Op == OCmp && f.Aux == token.EQL && f.I != 2 {
						var a, b *Term
						for v, k := range want {
							if k > 0 {
								a = v
							} else {
								b = v
							}
						}
						o1, _ := m.bucketOf(ex, s.st, res.self, f.Args[0], a, hi)
						o2, _ := m.bucketOf(ex, s.st, res.self, f.Args[1], b, hi)
						o3, _ := m.bucketOf(ex, s.st, res.self, f.Args[1], a, hi)
						o4, _ := m.bucketOf(ex, s.st, res.self, f.Args[0], b, hi)
						okMiss = okMiss || o1 && o2 || o3 && o4
					}
				}
			}
			r.Check(okMiss, "bucket-complete", c.String(), "every value of the operation moves its counter", "%d values move no counter", missing)
		}
	}
	r.Min("accounting steps", 17, n)
	// construction: counters start at zero, one per range
	checkDistCtor(r, m)
}

// checkDistCtor: a new distribution has one zero counter per range and no
// accumulated values.
func checkDistCtor(r *Report, m *distModel) {
	p := r.P
	for _, name := range []string{"NewCumulativeDistribution", "NewNonCumulativeDistribution"} {
		f := p.Method("tricorder", "Bucketer", name)
		if !r.Need(f != nil, "Bucketer."+name) {
			continue
		}
		ex := NewExec(p, &Client{})
		b := ex.ts.Sym("bucketer", types.NewPointer(p.Named("tricorder", "Bucketer")))
		outs := ex.Run(f, []*Term{b}, nil, newState())
		r.Ran(ex, p.fname(f))
		n := 0
		for _, o := range outs {
			if o.Panic {
				continue
			}
			n++
			d := o.Ret[0]
			site := p.fname(f)
			su := structOf(m.D)
			load := func(i int) *Term { return ex.Load(o.St, ex.fieldAddr(d, i, m.D), su.Field(i).Type()) }
			for _, w := range []string{"Count", "Generation", "Sum"} {
				v, isC := load(m.role[w]).intVal()
				r.Check(isC && v == 0, "fresh", site, w+" starts at zero", "%s starts at %v", w, load(m.role[w]))
			}
			want := name == "NewNonCumulativeDistribution"
			v, isC := load(m.role["IsNotCumulative"]).boolVal()
			r.Check(isC && v == want, "fresh", site, "the kind of distribution is recorded", "IsNotCumulative starts as %v", load(m.role["IsNotCumulative"]))
			if m.isSet >= 0 {
				v, isC := load(m.isSet).boolVal()
				r.Check(isC && !v, "fresh", site, "no unit is assigned yet", "unit assigned: %v", load(m.isSet))
			}
			r.Check(isNow(load(m.role["TimeStamp"])), "fresh", site, "the timestamp starts as the time of creation", "timestamp starts as %v", load(m.role["TimeStamp"]))
			cs, ps := load(m.counts), load(m.pieces)
			fresh := cs.Op == OAlloc
			if fresh {
				_, fresh = cs.Aux.(*ssa.MakeSlice)
			}
			r.Check(fresh, "fresh", site, "the counters are storage of their own", "counters are %v", cs)
			if fresh {
				l := ex.lenOf(o.St, cs, false, su.Field(m.counts).Type())
				lp := ex.lenOf(o.St, ps, false, su.Field(m.pieces).Type())
				r.Check(l == lp, "fresh", site, "one counter per range", "%v counters for %v ranges", l, lp)
				r.Check(o.St.havoc[cs] == "", "fresh", site, "the counters start at zero", "the new counters are written to")
			}
		}
		r.Check(n > 0, "fresh", p.fname(f), "a distribution is returned", "no normal return")
	}
}

func runC09(r *Report) {
	m := newDistModel(r)
	if m == nil {
		return
	}
	f64 := types.Typ[types.Float64]
	type ord struct {
		name        string
		v, min, max float64
	}
	orders := []ord{
		{"value below the minimum", 5, 10, 20}, {"value equals the minimum", 10, 10, 20}, {"value between minimum and maximum", 15, 10, 20},
		{"value equals the maximum", 20, 10, 20}, {"value above the maximum", 25, 10, 20},
		{"value below the only value", 5, 10, 10}, {"value equals the only value", 10, 10, 10}, {"value above the only value", 15, 10, 10},
	}
	for _, typ := range []string{"CumulativeDistribution", "NonCumulativeDistribution"} {
		for _, op := range []string{"Add", "Update", "Remove"} {
			if op != "Add" && typ == "CumulativeDistribution" {
				continue
			}
			for _, e := range []int{1, 0} {
				if op != "Add" && e == 1 {
					continue
				}
				for _, o := range orders {
					c := distCase{op: op, typ: typ, vt: f64, unit: "None", set: true, empty: e, notCum: typ[0] == 'N'}
					if op == "Update" {
						c.vt2 = f64
					}
					c.rank = map[string]float64{"v": o.v, "min": o.min, "max": o.max}
					if e == 1 {
						// the stale extremes of an emptied distribution
						c.rank["min"], c.rank["max"] = o.min, o.max
					}
					res := runDist(r, m, c)
					if res == nil {
						continue
					}
					ex := res.ex
					amount := amountOf(ex, res.args[len(res.args)-1], c.unit)
					wantMin, wantMax := o.min, o.max
					if op != "Remove" {
						if e == 1 || o.v < wantMin {
							wantMin = o.v
						}
						if e == 1 || o.v > wantMax {
							wantMax = o.v
						}
					}
					label := c.String() + ", " + o.name
					seen := false
					for _, s := range res.sections {
						if s.panicking || len(s.changed()) == 0 {
							continue
						}
						seen = true
						get := func(role string) (float64, bool, *Term) {
							t := s.fin[m.role[role]]
							v, ok := c.rankOf(m, res.self, amount, t)
							return v, ok, t
						}
						mn, ok1, t1 := get("Min")
						mx, ok2, t2 := get("Max")
						r.Check(ok1 && mn == wantMin, "extreme", label, "the minimum", "the minimum becomes %v", t1)
						r.Check(ok2 && mx == wantMax, "extreme", label, "the maximum", "the maximum becomes %v", t2)
					}
					r.Check(seen, "extreme", label, "the operation is recorded", "no critical section records the operation")
				}
			}
		}
	}
}

func runC14(r *Report) {
	m := newDistModel(r)
	if m == nil {
		return
	}
	p := r.P
	f64, dur := types.Type(types.Typ[types.Float64]), p.libType("time", "Duration")
	str, i64 := types.Type(types.Typ[types.String]), types.Type(types.Typ[types.Int])
	var cs []distCase
	ops := []struct{ typ, op string }{{"CumulativeDistribution", "Add"}, {"NonCumulativeDistribution", "Add"}, {"NonCumulativeDistribution", "Update"}, {"NonCumulativeDistribution", "Remove"}}
	for _, o := range ops {
		for e := 0; e < 2; e++ {
			mk := func(a, b types.Type, unit string, set bool) {
				if o.op != "Update" {
					if b != f64 {
						return
					}
					b = nil
				}
				cs = append(cs, distCase{op: o.op, typ: o.typ, vt: a, vt2: b, unit: unit, set: set, empty: e, notCum: o.typ[0] == 'N'})
			}
			mk(f64, f64, "", false)
			mk(dur, f64, "", false)
			mk(str, f64, "None", true)
			mk(i64, f64, "Seconds", true)
			mk(dur, f64, "None", true)
			mk(dur, f64, "Bytes", true)
			mk(f64, str, "None", true)
			mk(f64, i64, "Milliseconds", true)
			mk(f64, dur, "Celsius", true)
			if o.op != "Add" && e == 1 {
				mk(f64, f64, "None", true) // empty distribution
				mk(dur, dur, "Seconds", true)
			}
		}
		cs = append(cs, distCase{op: o.op, typ: o.typ, vt: nil, vt2: f64, unit: "None", set: true, empty: 0, notCum: o.typ[0] == 'N'})
	}
	for _, c := range cs {
		res := runDist(r, m, c)
		if res == nil {
			continue
		}
		r.Check(len(res.outs) > 0, "rejects", c.String(), "the call ends", "no way out found")
		for _, o := range res.outs {
			r.Check(o.Panic, "rejects", c.String(), "the call panics", "the call returns normally")
			v, _ := o.St.Get("acct", nil)
			r.Check(v == "", "no-effect", c.String(), "the distribution is left as it was", "a critical section changes the distribution before the call panics")
			r.Check(len(o.St.locks) == 0, "unlocked", c.String(), "the lock is released", "the lock is still held after the panic")
		}
		for _, s := range res.sections {
			for _, i := range s.changed() {
				r.Check(false, "no-effect", c.String(), "field "+m.name(i)+" is left as it was", "changed in %s", s.site)
			}
			for _, a := range s.cnt {
				r.Check(false, "no-effect", c.String(), "the counters are left as they were", "counter %v changed in %s", a.T, s.site)
			}
		}
	}
}
