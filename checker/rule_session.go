package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Typestate of a request: which groups it has entered and not left.
//
//	loose(g)    entered, not yet recorded in a map of visited groups
//	open(M)     the visited-groups map M may hold entered groups
//	closed(M)   every group in M has been left
//	pending(k)  k is the current key of a loop over M and has not been left
//	ranging(M)  a loop over M is under way: clean, partial

type valueStruct struct {
	T       *types.Named
	reg     int
	val     int
	structK string
}

// valueStructs: structs that tie a client variable or callback to its group.
func (p *Program) valueStructs(R *types.Named) []valueStruct {
	var out []valueStruct
	sp := p.Pkg("tricorder")
	for _, n := range sp.Pkg.Scope().Names() {
		tn, ok := sp.Pkg.Scope().Lookup(n).(*types.TypeName)
		if !ok {
			continue
		}
		nt, ok := types.Unalias(tn.Type()).(*types.Named)
		if !ok {
			continue
		}
		st, ok := nt.Underlying().(*types.Struct)
		if !ok {
			continue
		}
		v := valueStruct{T: nt, reg: -1, val: -1, structK: structKey(nt)}
		for i := 0; i < st.NumFields(); i++ {
			ft := st.Field(i).Type()
			if pt, ok := ft.(*types.Pointer); ok && sameStruct(pt.Elem(), R) {
				v.reg = i
			}
			if types.TypeString(ft, nil) == "reflect.Value" {
				v.val = i
			}
		}
		if v.reg >= 0 && v.val >= 0 {
			out = append(out, v)
		}
	}
	return out
}

// clientValue finds the value struct a term's content comes from.
func clientValue(t *Term, vs []valueStruct) (*Term, *valueStruct) {
	var base *Term
	var vsF *valueStruct
	t.anyTerm(func(x *Term) bool {
		if x.Op == OLoad && x.Args[0].Op == OField {
			f := x.Args[0]
			for i := range vs {
				if f.I == vs[i].val && f.Args[0].T != nil && structKey(derefType(f.Args[0].T)) == vs[i].structK {
					base, vsF = f.Args[0], &vs[i]
					return true
				}
			}
		}
		return false
	})
	return base, vsF
}

type sessionRule struct {
	r                             *Report
	m                             *regionModel
	vs                            []valueStruct
	ms                            *types.Named // messages.Metric
	c02, c03, c04                 bool
	reads, enters, leaves, stamps map[string]bool
}

func isVisitMap(t types.Type, R *types.Named) bool {
	mt, ok := t.Underlying().(*types.Map)
	if !ok {
		return false
	}
	pt, ok := mt.Key().Underlying().(*types.Pointer)
	return ok && sameStruct(pt.Elem(), R)
}

func (s *sessionRule) note(set map[string]bool, w string) {
	s.r.mu.Lock()
	set[w] = true
	s.r.mu.Unlock()
}

func (s *sessionRule) client(root Root) *Client {
	r, m := s.r, s.m
	entry := r.P.fname(root.Fn)
	check := func(on bool, ex *Exec, ok bool, rule, what, detail string, a ...any) {
		if on && ex.muted == 0 {
			r.Check(ok, rule, entry, what, detail, a...)
		}
	}
	dropPending := func(ex *Exec, st *State, M *Term) {
		for _, a := range st.Atoms("pending") {
			if a.T.Op == ORangeK && a.T.Args[0] == M {
				st.Del("pending", a.T)
				st.Set("ranging", M, "partial")
			}
		}
	}
	c := &Client{Panics: true}
	c.Kill = func(a Atom) (Atom, bool) {
		switch a.K {
		case "loose", "entering", "open":
			return Atom{K: "leaked"}, true
		}
		return a, false
	}
	if !s.c03 {
		// What these rules say is about metrics that have a group.
		c.Cond = func(ex *Exec, st *State, t *Term) (bool, bool) {
			if t.Op == OCmp && t.Aux == token.EQL && len(t.Args) == 2 {
				for i := 0; i < 2; i++ {
					x, y := t.Args[i], t.Args[1-i]
					if y.isNil() && x.Op == OLoad && x.Args[0].Op == OField && x.Args[0].Args[0].T != nil {
						for _, v := range s.vs {
							if x.Args[0].I == v.reg && structKey(derefType(x.Args[0].Args[0].T)) == v.structK {
								return false, true
							}
						}
					}
				}
			}
			return false, false
		}
	}
	c.Recursive = func(ex *Exec, st *State, fn *ssa.Function, args []*Term) {
		for _, a := range st.MayAtoms("made") {
			if !st.HasMay("closed", a.T) {
				st.SetMay("open", a.T, "")
			}
		}
	}
	c.Event = func(ex *Exec, st *State, ev *Event) {
		where := ""
		if ex.muted == 0 && ev.Fr != nil {
			where = fmt.Sprintf("%s (%s)", r.P.fname(ev.Fr.fn), r.P.InstrPos(ev.Instr))
		}
		switch ev.Kind {
		case EvMake:
			if ev.Val != nil && ev.Val.T != nil && isVisitMap(ev.Val.T, m.R) {
				st.SetMay("made", ev.Val, "")
			}
		case EvSend:
			g, pa, ok := chanPath(st, ev.Addr, m.R)
			if !ok || m.pairs[pa] == "" {
				return
			}
			v := ex.Resolve(st, ev.Val)
			cl := m.class[pa+"|"+msgKey(v)]
			if _, isF := m.kind[pa].Underlying().(*types.Signature); isF {
				return
			}
			switch cl {
			case "enter":
				st.Set("entering", g, pa)
				s.note(s.enters, where)
			case "leave":
				s.note(s.leaves, where)
				if _, ok := st.Get("loose", g); ok {
					st.Del("loose", g)
					return
				}
				if _, ok := st.Get("pending", g); ok {
					M := g.Args[0]
					closed := st.HasMay("closed", M)
					check(s.c03, ex, !closed, "release", "a group is left at most once per request", "%s leaves groups of a request that already left them", where)
					st.Del("pending", g)
					if v, _ := st.Get("ranging", M); v != "partial" {
						st.Set("ranging", M, "releasing")
					} else {
						st.Set("ranging", M, "partial-releasing")
					}
					return
				}
				check(s.c03, ex, false, "release", "only groups the request has entered are left", "%s leaves %s, which is not known to have been entered by this request or is left again", where, g)
			default:
				check(true, ex, false, "messages", "the messages sent to a group are known", "%s sends %s", where, ev.Val)
			}
		case EvRecv:
			g, pa, ok := chanPath(st, ev.Addr, m.R)
			if !ok || !m.replies[pa] {
				return
			}
			if q, ok := st.Get("entering", g); ok && m.pairs[q] == pa {
				st.Del("entering", g)
				_, dup := st.Get("loose", g)
				check(s.c02, ex, !dup, "visit", "a request enters a group at most once", "%s enters a group again before leaving it", where)
				st.Set("loose", g, "")
				st.SetMay("reply", ev.Val, fmt.Sprint(g.id))
			}
		case EvMapWrite:
			M, k := ev.Addr, ev.Val
			if M == nil || M.T == nil || !isVisitMap(M.T, m.R) {
				return
			}
			if _, ok := st.Get("loose", k); !ok {
				check(s.c03, ex, false, "visit", "only groups just entered are recorded as visited", "%s records %s", where, k)
				return
			}
			known, val := false, true
			if v, ok := ev.Res.boolVal(); ok {
				known, val = true, v
			} else {
				val, known = ex.truth(st, ev.Res)
			}
			check(s.c02 || s.c03, ex, known && !val, "visit", "a group is entered only when the request has not entered it before", "%s enters a group that may already be among the visited ones", where)
			rid, okR := replyOf(st, ev.Val2)
			check(s.c02, ex, okR && rid == fmt.Sprint(k.id), "visit", "the time recorded for a group is the one it answered", "%s records %s", where, ev.Val2)
			st.Del("loose", k)
			st.SetMay("open", M, "")
			st.DelMay("closed", M)
		case EvRangeStart:
			if ev.Addr.T != nil && isVisitMap(ev.Addr.T, m.R) {
				st.Set("ranging", ev.Addr, "clean")
			}
		case EvRangeNext:
			M := ev.Addr
			if M.T == nil || !isVisitMap(M.T, m.R) {
				return
			}
			dropPending(ex, st, M)
			st.Set("pending", ev.Val, "")
		case EvRangeEnd:
			M := ev.Addr
			if M.T == nil || !isVisitMap(M.T, m.R) {
				return
			}
			dropPending(ex, st, M)
			v, _ := st.Get("ranging", M)
			st.Del("ranging", M)
			switch v {
			case "clean", "releasing":
				st.DelMay("open", M)
				st.SetMay("closed", M, "")
			case "partial-releasing":
				check(s.c03, ex, false, "release", "every group a request visited is left", "the loop at %s can skip a group", where)
			}
		case EvMapDelete:
			if ev.Addr != nil && ev.Addr.T != nil && isVisitMap(ev.Addr.T, m.R) {
				check(s.c03, ex, false, "release", "visited groups are not forgotten", "%s removes a group from the visited ones", where)
			}
		case EvExt, EvCallback, EvLoad:
			var subj *Term
			switch {
			case ev.Kind == EvLoad:
				if ev.Addr.Op == OAssert || ev.Addr.Op == OCall || ev.Addr.Op == OExtract {
					subj = ev.Addr
				}
			case ev.Kind == EvExt && readsMemory(ev.Name), ev.Kind == EvCallback && strings.HasPrefix(ev.Name, "(reflect.Value).Call"):
				subj = ev.Args[0]
			}
			if subj == nil {
				return
			}
			base, v := clientValue(subj, s.vs)
			if base == nil {
				return
			}
			if ex.muted > 0 || !s.c04 {
				return
			}
			g := ex.Load(st, ex.fieldAddr(base, v.reg, v.T), structOf(v.T).Field(v.reg).Type())
			what := "client variables and callbacks are read only while the request is inside their group"
			if g.isNil() {
				return
			}
			if b, ok := ex.truth(st, ex.ts.Cmp(token.EQL, g, ex.ts.Nil(g.T), g.T)); ok && b {
				return
			}
			s.note(s.reads, where)
			inside := false
			if _, ok := st.Get("loose", g); ok {
				inside = true
			}
			for _, a := range st.MayAtoms("open") {
				if st.HasMay("closed", a.T) {
					continue
				}
				if x, ok := st.mem[ex.mapCell(a.T, g, 1, types.Typ[types.Bool])]; ok {
					if b, k := ex.truth(st, x); k && b {
						inside = true
					}
				}
			}
			r.Check(inside, "inside", entry, what, "%s reads through %s while the request is not known to be inside its group (%s)", where, subj, ev.Fr.stack(r.P))
		case EvStore:
			s.stamp(ex, st, ev, entry, where)
		}
	}
	return c
}

// stamp: the time and group id of a single-valued metric are those of its
// group in this request.
func (s *sessionRule) stamp(ex *Exec, st *State, ev *Event, entry, where string) {
	if !s.c02 || ex.muted > 0 || s.ms == nil {
		return
	}
	base, i, ok := fieldOf(ev.Addr, s.ms)
	if !ok {
		return
	}
	switch nthField(s.ms, i) {
	case "Value":
		return
	case "TimeStamp":
		s.stampTime(ex, st, base, ev.Val, entry, where)
	case "GroupId":
		s.stampId(ex, st, base, ev.Val, entry, where)
	}
}

func replyOf(st *State, t *Term) (string, bool) {
	a, ok := st.may[atomKey("reply", t)]
	return a.V, ok
}

func (s *sessionRule) groupOfMetric(ex *Exec, st *State, base *Term) (*Term, bool) {
	vi := fieldIdx(s.ms, "Value")
	val := ex.Load(st, ex.fieldAddr(base, vi, s.ms), structOf(s.ms).Field(vi).Type())
	b, v := clientValue(val, s.vs)
	if b == nil {
		return nil, false
	}
	return ex.Load(st, ex.fieldAddr(b, v.reg, v.T), structOf(v.T).Field(v.reg).Type()), true
}

func (s *sessionRule) stampTime(ex *Exec, st *State, base, val *Term, entry, where string) {
	r := s.r
	if !val.anyTerm(func(x *Term) bool { return x.Op == ORecv || x.Op == OLookup || x.Op == OLoad || x.Op == OCall }) {
		return // zero value
	}
	if val.Op == OIface {
		if T, ok := val.Aux.(types.Type); ok && types.TypeString(T, nil) != "time.Time" {
			return // the JSON form, made from this
		}
		val = val.Args[0]
	}
	g, ok := s.groupOfMetric(ex, st, base)
	s.note(s.stamps, where)
	what := "the time reported for a metric is the one its group answered to this request"
	for _, v := range val.alts() {
		for v.Op == OIface || v.Op == OConv {
			v = v.Args[0]
		}
		// aggregates carry their own times
		if v.Op == OLoad && v.Args[0].Op == OField && !sameStruct(v.Args[0].Args[0].T, s.m.R) {
			if n := s.r.P.aggregate(v.Args[0].Args[0].T); n {
				continue
			}
		}
		good := false
		if v.Op == OLoad && v.Args[0].Op == OLookup && v.Args[0].I == 0 {
			M, k := v.Args[0].Args[0], v.Args[0].Args[1]
			open := st.HasMay("open", M) && !st.HasMay("closed", M)
			good = open && (!ok || k == g)
		}
		if rid, okR := replyOf(st, v); okR && (!ok || g != nil && rid == fmt.Sprint(g.id)) {
			good = true
		}
		r.Check(good, "stamp", entry, what, "%s stores %s for a metric of group %v", where, v, g)
	}
}

func (s *sessionRule) stampId(ex *Exec, st *State, base, val *Term, entry, where string) {
	g, ok := s.groupOfMetric(ex, st, base)
	if !ok {
		return
	}
	s.r.Check(val.Op == OLoad && val.Args[0].Op == OField && val.Args[0].Args[0] == g, "stamp", entry, "the group id reported for a metric is that of its group", "%s stores %s for a metric of group %v", where, val, g)
}

// aggregate: t is (a pointer to) the struct behind a distribution or a list.
func (p *Program) aggregate(t types.Type) bool {
	for _, n := range []string{"CumulativeDistribution", "NonCumulativeDistribution", "List"} {
		if sameStruct(t, p.Named("tricorder", n)) {
			return true
		}
	}
	return false
}

func (s *sessionRule) atExit(ex *Exec, root Root, outs []Outcome) {
	if !s.c03 {
		return
	}
	entry := s.r.P.fname(root.Fn)
	for _, o := range outs {
		how := "returning"
		if o.Panic {
			how = "panicking"
		}
		var left []string
		for _, k := range []string{"open", "loose", "entering"} {
			for _, a := range append(o.St.Atoms(k), o.St.MayAtoms(k)...) {
				left = append(left, k+" "+a.T.String())
			}
		}
		if len(o.St.Atoms("leaked")) > 0 || o.St.HasMay("leaked", nil) {
			left = append(left, "a group whose record is lost")
		}
		site := ""
		if o.Site != nil {
			site = s.r.P.InstrPos(o.Site)
		}
		s.r.Check(len(left) == 0, "release", entry, "no group is held after "+how, "%s at %s leaves groups entered: %s", how, site, strings.Join(left, "; "))
	}
}

func (r *Report) runSession(c02, c03, c04 bool) {
	m := r.regionModel()
	if m == nil || !r.classify(m) {
		return
	}
	s := &sessionRule{r: r, m: m, vs: r.P.valueStructs(m.R), ms: r.P.Named("tricorder/messages", "Metric"), c02: c02, c03: c03, c04: c04,
		reads: map[string]bool{}, enters: map[string]bool{}, leaves: map[string]bool{}, stamps: map[string]bool{}}
	if !r.Need(len(s.vs) > 0, "the struct that ties a client variable to its group") || !r.Need(s.ms != nil, "the metric message") {
		return
	}
	var rs []Root
	for _, x := range r.P.roots("tricorder") {
		rs = append(rs, x)
	}
	rs = append(rs, m.servers[0])
	r.runRoots(rs, func(root Root) *Client {
		if root.Fn == m.servers[0].Fn {
			return &Client{}
		}
		return s.client(root)
	}, func(ex *Exec, root Root, outs []Outcome) {
		if root.Fn != m.servers[0].Fn {
			s.atExit(ex, root, outs)
		}
	})
	r.Min("enter sites", 1, len(s.enters))
	r.Min("leave sites", 1, len(s.leaves))
	if c04 {
		r.Min("read sites", 3, len(s.reads))
	}
	if c02 {
		r.Min("time stores", 1, len(s.stamps))
	}
	r.Min("entry points", 20, len(rs))
}

func init() {
	register(&Property{ID: "C02", MinObs: 15, Run: func(r *Report) { r.runSession(true, false, false) },
		Rule: "typestate of visited groups over every entry point: a group is entered only when the request's map of visited groups is known not to contain it, the recorded time is the group's answer, and the time and group id stored in a metric message are those of that metric's own group"})
	register(&Property{ID: "C03", MinObs: 15, Run: func(r *Report) { r.runSession(false, true, false) },
		Rule: "typestate of entered groups over every entry point and every return and panic: each entered group is left exactly once"})
	register(&Property{ID: "C04", MinObs: 15, Run: func(r *Report) { r.runSession(false, false, true) },
		Rule: "at every reflective read or call of a client's variable or callback, on every path of every entry point, the request is inside that metric's group"})
}
