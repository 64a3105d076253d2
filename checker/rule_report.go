package main

import (
	"go/constant"
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Property{ID: "C10", MinObs: 30, Run: runC10,
		Rule: "every figure of a distribution put into a message or on a page is a field (or bucket counter) of one distribution read in one and the same critical section, the average their quotient; the message shares no memory with the distribution"})
}

// countIs: the distributions looked at are empty, or they are not.
func (m *distModel) countIs(empty bool) func(ex *Exec, st *State, addr *Term, typ types.Type) *Term {
	return func(ex *Exec, st *State, addr *Term, typ types.Type) *Term {
		b, i, ok := fieldOf(addr, m.D)
		if !ok || i != m.role["Count"] || st.isFresh(b) {
			return nil
		}
		t := ex.ts.mk(Term{Op: OLoad, Args: []*Term{addr}, S: ex.epochOf(st, addr), T: typ})
		ex.assume[t] = ivGE(1)
		if empty {
			ex.assume[t] = ivInt(0, 0)
		}
		return t
	}
}

// roles: what is reported as a figure is the field that the operations keep as
// that figure, not another one that they do.
func (m *distModel) roles(r *Report) {
	f64 := types.Type(types.Typ[types.Float64])
	acts := map[string]map[int]bool{}
	for _, w := range []string{"Min", "Max", "Sum", "Count", "Generation"} {
		acts[w] = map[int]bool{}
	}
	for _, v := range []float64{5, 15, 25} {
		for _, op := range []string{"Add", "Remove"} {
			c := distCase{op: op, typ: "NonCumulativeDistribution", vt: f64, unit: "None", set: true, empty: 0, notCum: true}
			c.rank = map[string]float64{"v": v, "min": 10, "max": 20}
			// whichever way round they are
			res := runDist(r, m, c)
			if res == nil {
				return
			}
			ex := res.ex
			amount := amountOf(ex, res.args[len(res.args)-1], c.unit)
			sign := int64(1)
			if op == "Remove" {
				sign = -1
			}
			for _, s := range res.sections {
				if s.panicking {
					continue
				}
				for _, i := range s.changed() {
					for _, f := range s.fin[i].alts() {
						d := ex.ts.Add(f, s.init[i], -1, structOf(m.D).Field(i).Type())
						switch n, isC := d.intVal(); {
						case isC && op == "Remove" && n == -1:
							acts["Count"][i] = true
						case isC && op == "Remove" && n == 1:
							acts["Generation"][i] = true
						case f == amount && op == "Add" && v == 5:
							acts["Min"][i] = true
						case f == amount && op == "Add" && v == 25:
							acts["Max"][i] = true
						case op == "Remove" && normAmount(ex, d) == normAmount(ex, ex.ts.Add(ex.ts.Int(0), amount, sign, f64)):
							acts["Sum"][i] = true
						}
					}
				}
			}
		}
	}
	for w, is := range acts {
		if len(is) == 0 {
			continue
		}
		r.Check(is[m.role[w]], "reported-field", "messages.Distribution", w+" is reported from the field that holds it", "it is reported from %s", m.name(m.role[w]))
	}
}

func zeroConst(t *Term) bool {
	return (t.C.Kind() == constant.Int || t.C.Kind() == constant.Float) && constant.Sign(t.C) == 0
}

// figure: t is a field of a distribution; e is the moment it was read.
func (m *distModel) figure(t *Term) (b *Term, i int, e string, ok bool) {
	if t.Op != OLoad {
		return
	}
	b, i, ok = fieldOf(t.Args[0], m.D)
	return b, i, t.S, ok
}

// moments: when the figures in a term were read, by distribution.
func (m *distModel) moments(t *Term) map[string]bool {
	es := map[string]bool{}
	t.anyTerm(func(x *Term) bool {
		if _, i, e, ok := m.figure(x); ok && m.mutable(i) {
			es[e] = true
		}
		if x.Op == OLoad && x.Args[0].Op == OElem {
			if _, i, _, ok := m.figure(x.Args[0].Args[0]); ok && i == m.counts {
				es[x.S] = true
			}
		}
		return false
	})
	return es
}

func (m *distModel) mutable(i int) bool {
	for w, j := range m.role {
		if i == j && w != "IsNotCumulative" {
			return true
		}
	}
	return false
}

// distReport checks one message made in state st.
func (m *distModel) distReport(r *Report, ex *Exec, st *State, a *arrays, d *Term, site string, lo, hi fieldKey) string {
	s := structOf(m.Msg)
	get := func(name string) *Term {
		f := fieldIdx(m.Msg, name)
		return ex.Load(st, ex.fieldAddr(d, f, d.T), s.Field(f).Type())
	}
	r.Check(d.Op == OAlloc && st.isFresh(d), "copy", site, "the message is a new object", "it is %v", d)
	cnt := get("Count")
	self, i, e, ok := m.figure(cnt)
	if !r.Check(ok && i == m.role["Count"], "figure", site, "the count reported is the distribution's", "it is %v", cnt) {
		return ""
	}
	empty, known := ex.truth(st, ex.ts.Cmp(token.EQL, cnt, ex.ts.Int(0), cnt.T))
	zero := func(t *Term) bool {
		return known && empty && (t.isNil() || t.isConst() && zeroConst(t))
	}
	for _, w := range []string{"Min", "Max", "Sum", "Generation", "IsNotCumulative"} {
		v := get(w)
		if w != "Generation" && w != "IsNotCumulative" && zero(v) {
			r.Check(true, "figure", site, w+" of an empty distribution is zero", "")
			continue
		}
		b, i, e2, ok := m.figure(v)
		r.Check(ok && b == self && i == m.role[w], "figure", site, w+" reported is the distribution's", "it is %v", v)
		if w != "IsNotCumulative" && ok {
			r.Check(e2 == e, "moment", site, w+" is of the same moment as the count", "it is read in another critical section")
			if w != "Generation" {
				r.Check(known && !empty, "figure", site, w+" of an empty distribution is zero", "the distribution may be empty")
			}
		}
	}
	avg := get("Average")
	if !zero(avg) {
		good := avg.Op == OBin && avg.Aux == token.QUO && known && !empty
		if good {
			b, i, e1, ok := m.figure(avg.Args[0])
			good = ok && b == self && i == m.role["Sum"] && e1 == e && unconv(avg.Args[1]) == cnt
		}
		r.Check(good, "figure", site, "the average is the sum over the count", "it is %v", avg)
	} else {
		r.Check(true, "figure", site, "Average of an empty distribution is zero", "")
	}
	if med := get("Median"); !zero(med) {
		for e2 := range m.moments(a.resolve(ex, st, med)) {
			r.Check(e2 == e, "moment", site, "Median is of the same moment as the count", "it is computed from figures of another critical section")
		}
	}
	// ranges
	B := unconv(get("Ranges"))
	fresh := B.Op == OAlloc && st.isFresh(B) || a.grown(ex, st, B)
	r.Check(fresh, "copy", site, "the ranges are a new list", "they are %v", B)
	field := func(i int) *Term {
		return ex.Load(st, ex.fieldAddr(self, i, m.D), structOf(m.D).Field(i).Type())
	}
	it := types.Type(types.Typ[types.Int])
	full := false
	for _, i := range []int{m.pieces, m.counts} {
		full = full || a.hasLen(ex, st, B, ex.lenOf(st, field(i), false, it))
	}
	r.Check(full, "ranges", site, "there is one range for each of the distribution's", "the length is %v", ex.lenOf(st, B, false, it))
	rw := r.P.Named("tricorder/messages", "RangeWithCount")
	k := ex.ts.Sym("k", it)
	for _, w := range []string{"Count", "Lower", "Upper"} {
		f := fieldIdx(rw, w)
		ft := types.NewPointer(structOf(rw).Field(f).Type())
		el := ex.ts.mk(Term{Op: OElem, Args: []*Term{B, k}})
		v := a.at(ex, st, ex.ts.Field(ex.ts.mk(Term{Op: OLoad, Args: []*Term{el}}), f, ft))
		if v == nil {
			v = a.at(ex, st, ex.ts.Field(el, f, ft))
		}
		if !r.Check(v != nil, "ranges", site, w+" is filled in for every range", "it is not known what it is") {
			continue
		}
		v = a.resolve(ex, st, v)
		good, same := false, true
		if v.Op == OLoad {
			switch w {
			case "Count":
				if el := v.Args[0]; el.Op == OElem && el.Args[1] == k {
					b, i, _, ok := m.figure(el.Args[0])
					good = ok && b == self && i == m.counts
					same = v.S == e
				}
			default:
				want := lo
				if w == "Upper" {
					want = hi
				}
				if fa := v.Args[0]; fa.Op == OField && (fieldKey{structKey(derefType(fa.Args[0].T)), fa.I}) == want {
					o := fa.Args[0]
					if o.Op == OLoad {
						o = o.Args[0]
					}
					if o.Op == OElem && o.Args[1] == k {
						b, i, _, ok := m.figure(o.Args[0])
						good = ok && b == self && i == m.pieces
					}
				}
			}
		}
		r.Check(good, "ranges", site, w+" of range k is that of the distribution's range k", "it is %v", v)
		r.Check(same, "moment", site, "the counts of the ranges are of the same moment as the count", "they are read in another critical section")
	}
	return e
}

func runC10(r *Report) {
	m := newDistModel(r)
	if m == nil {
		return
	}
	p := r.P
	lo, hi, _, ok := rangeFields(r)
	if !ok {
		return
	}
	m.roles(r)
	metric := p.Named("tricorder/messages", "Metric")
	cases := map[bool]string{true: "an empty distribution", false: "a distribution with values"}
	var roots []Root
	for _, x := range p.roots("tricorder") {
		if x.Kind == "rpc" || x.Fn.Name() == "ReadMyMetrics" {
			roots = append(roots, x)
		}
	}
	r.Min("entry points that report metrics", 3, len(roots))
	n := 0
	for k, root := range append(append([]Root{}, roots...), roots...) {
		empty := k < len(roots)
		a := newArrays()
		c := &Client{Load: m.countIs(empty)}
		c.Event = func(ex *Exec, st *State, ev *Event) {
			if ev.Kind != EvStore {
				return
			}
			_, f, ok := fieldOf(ev.Addr, metric)
			if !ok {
				return
			}
			site := p.fname(root.Fn) + " of " + cases[empty] + ": " + r.where(ev)
			what := nthField(metric, f)
			if what != "Value" && what != "TimeStamp" {
				return
			}
			for _, v := range ev.Val.alts() {
				_, d := ifaceOf(v)
				e := "other"
				switch {
				case d == nil || d.T == nil:
				case what == "TimeStamp":
					if _, i, e2, ok := m.figure(d); ok && i == m.role["TimeStamp"] {
						e = "dist " + e2
					}
				case sameStruct(derefType(d.T), m.Msg):
					if ex.muted == 0 {
						n++
						e = "dist " + m.distReport(r, ex, st, a, d, site, lo, hi)
					} else if _, _, e2, ok := m.figure(ex.Load(st, ex.fieldAddr(d, fieldIdx(m.Msg, "Count"), d.T), types.Typ[types.Uint64])); ok {
						e = "dist " + e2
					}
				}
				other := "TimeStamp"
				if what == other {
					other = "Value"
				}
				if e2, ok := st.Get("moment of "+other, nil); ok {
					if ex.muted == 0 {
						r.Check(e == e2, "moment", site, "the time is of the same moment as the figures", "value: %s, time: %s", e2, e)
					}
					st.Del("moment of "+other, nil)
				} else {
					st.Set("moment of "+what, nil, e)
				}
			}
		}
		a.hook(c)
		ex := NewExec(p, c)
		outs := ex.Run(root.Fn, nil, nil, newState())
		r.Ran(ex, p.fname(root.Fn))
		r.Check(ex.err == "" && len(outs) > 0, "converges", p.fname(root.Fn), "the entry point is analysed", "%s", ex.err)
	}
	r.Min("distributions reported", 6, n)
	// what is printed
	tm := newTreeModel(r)
	if tm == nil {
		return
	}
	printed := 0
	for _, format := range []string{"text"} {
		ex, st, pages := r.handlersOf("tricorder")
		if ex == nil {
			return
		}
		label := "/metrics/ format=" + format
		H := pages["/metrics/"]
		if !r.Check(H != nil, "pages", "/metrics/", "the page has a handler", "none is registered") {
			return
		}
		h := &httpTrack{w: ex.ts.Sym("writer", nil), pieces: map[string]*Term{}, r: r, noBody: true}
		h.inner = requestModel(map[string]string{"form:format": format, "header:Accept-Encoding": ""}, h)
		a := newArrays()
		h.note = func(ex *Exec, st *State, t *Term) {
			if _, ok := st.Get("directory", nil); ok {
				return // several metrics are listed
			}
			for e := range m.moments(a.resolve(ex, st, t)) {
				e2, ok := st.Get("moment", nil)
				if !ok {
					st.Set("moment", nil, e)
					e2 = e
				}
				if ex.muted == 0 {
					printed++
					r.Check(e == e2, "moment", label, "what is printed of a distribution is of one moment", "it is read in several critical sections")
				}
			}
		}
		r.servePage(ex, h, label, H, st.clone(), func(c *Client) {
			inl, ext := c.Inline, c.Ext
			tr := tm.client()
			c.Inline = func(f *ssa.Function) bool { return tr.Inline(f) && inl(f) }
			c.Ext = func(ex *Exec, cc *callCtx) ([]Outcome, bool) {
				if o, ok := tr.Ext(ex, cc); ok {
					return o, true
				}
				return ext(ex, cc)
			}
			c.Cond = tm.cond(treeCase{walk: dirEntry, final: metricItem})
			event := c.Event
			c.Event = func(ex *Exec, st *State, ev *Event) {
				if event != nil {
					event(ex, st, ev)
				}
				if ev.Kind == EvRangeStart && ev.Addr.T != nil && types.Identical(ev.Addr.T.Underlying(), tm.mapT) {
					st.Set("directory", nil, "")
				}
			}
			a.hook(c)
		})
		r.Ran(ex, label)
	}
	r.Min("figures printed", 1, printed)
}
