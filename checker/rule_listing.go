package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"
	"sync"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Property{ID: "C19", MinObs: 500, Run: runC19,
		Rule: "every interface that lists metrics is interpreted on a directory and on a single metric, for each type of metric: a directory's entries are all kept, sorted by name, and gone through in that order; each turn either lists the directory in hand (the same code, by induction) or gives out the metric in hand exactly once, or leaves it out because its single value is NaN or infinite (in JSON: because it cannot be encoded); a listing that stops early returns the error"})
}

// listing follows one listing.
type listing struct {
	r       *Report
	m       *valueModel
	c       specCase
	label   string
	way     valueWay
	text    bool // writes to a response
	html    bool
	idx     map[*Term]*Term // list -> index it is gone through with
	full    map[*Term]bool  // lists that hold every entry of a directory
	rec     *ssa.Function
	recA    []*Term
	recS    *State
	turns   int
	sorting bool
	ex      *Exec
	hand0   *Term
	given   int
	wrote   bool
	at      map[*Term][]loopSite // where a hand was taken
}

type loopSite struct {
	fn    *ssa.Function
	depth int
	b     *ssa.BasicBlock
}

// isArrayPtr: the type of the array that holds variadic arguments.
func isArrayPtr(t types.Type) bool {
	if t == nil {
		return false
	}
	_, ok := derefType(t).Underlying().(*types.Array)
	return ok
}

func listBase(t *Term) *Term {
	for {
		switch {
		case t.Op == OIface, t.Op == OConv && len(t.Args) == 1:
			t = t.Args[0]
		default:
			return t
		}
	}
}

func (l *listing) isEntry(t types.Type) bool {
	if t == nil {
		return false
	}
	pt, ok := t.Underlying().(*types.Pointer)
	return ok && structUnder(pt.Elem()) == l.m.E
}

// elem: addr is an element of a list of entries, or of their names.
func (l *listing) elem(st *State, addr *Term) (L, i *Term, ok bool) {
	if addr.Op != OElem {
		return nil, nil, false
	}
	L = listBase(addr.Args[0])
	if _, ok := st.Get("sorted", L); !ok && !l.full[L] {
		return nil, nil, false
	}
	return L, addr.Args[1], true
}

func (l *listing) hand(st *State) *Term {
	for _, a := range st.X {
		if a.K == "hand" {
			return a.T
		}
	}
	return nil
}

// inHand: e is the entry of this turn.
func (l *listing) inHand(st *State, e *Term) bool {
	h := l.hand(st)
	if h == nil {
		return false
	}
	if e == h {
		return true
	}
	if _, key, _, ok := l.m.entryKey(e); ok && key == h {
		return true
	}
	return false
}

func (l *listing) watch(h *httpTrack, cl *Client) {
	r, m := l.r, l.m
	if h != nil && l.text {
		h.note = func(ex *Exec, st *State, t *Term) {
			l.wrote = true
			l.emit(ex, st)
		}
	}
	cl.Split = nil
	event := cl.Event
	cl.Event = func(ex *Exec, st *State, ev *Event) {
		if event != nil {
			event(ex, st, ev)
		}
		switch ev.Kind {
		case EvRangeStart:
			if l.isDir(ev.Addr) {
				st.Set("ranging", nil, "")
				st.Set("directory", nil, "")
			}
		case EvRangeEnd:
			if l.isDir(ev.Addr) {
				st.Del("ranging", nil)
				l.dropTaken(st)
			}
		case EvRangeNext:
			if l.isDir(ev.Addr) {
				l.dropTaken(st)
				st.Set("taken", ev.Val2, "")
				st.Set("takenkey", ev.Val, "")
			}
		case EvAppend:
			l.append(ex, st, ev)
		case EvStore:
			if ev.Addr.Op == OElem && !isArrayPtr(ev.Addr.Args[0].T) {
				L := listBase(ev.Addr.Args[0])
				for _, k := range []string{"taken", "takenkey"} {
					if v, ok := st.Get(k, ev.Val); ok {
						if v == "" {
							st.Set(k, ev.Val, "kept")
							l.keep(ex, st, L, ev.Addr.Args[1])
						} else {
							st.Set(k, ev.Val, "kept twice")
						}
					}
				}
				if _, ok := st.Get("sorted", L); ok {
					st.Set("sorted", L, "changed afterwards")
				}
			}
		case EvLoad:
			if L, i, ok := l.elem(st, ev.Addr); ok {
				l.take(ex, st, ev, L, i)
			}
			if ev.Addr.Op == OField && structUnder(ev.Addr.Args[0].T) == m.E && (ev.Addr.I == m.metric || ev.Addr.I == m.dir) {
				if l.hand(st) != nil && ex.muted == 0 && !l.html {
					r.Check(l.inHand(st, ev.Addr.Args[0]), "turn", l.label, "each turn is about its own entry", "%s reads %v", r.where(ev), ev.Addr.Args[0])
				}
			}
		case EvExt:
			switch ev.Name {
			case evTmplRange:
				if len(ev.Args) == 1 && ev.T != nil {
					if sl, ok := ev.T.Underlying().(*types.Slice); ok && l.isEntry(sl.Elem()) {
						if ex.muted == 0 {
							L := listBase(ev.Args[0])
							v, ok := st.Get("sorted", L)
							r.Check(ok && v == "by name", "sorted", l.label, "directories are listed in order of their names", "%s goes through %v, which is sorted: %q", r.where(ev), L, v)
							_, part := st.Get("ranging", nil)
							r.Check(l.full[L] && !part, "complete", l.label, "the list holds every entry", "%s goes through %v", r.where(ev), L)
							l.turns++
						}
						st.Del("printed", nil)
					}
				}
			case evTmplPrint:
				if l.html {
					st.Set("printed", nil, "")
				}
			case evTmplTurn:
				if sl, ok := ev.T.Underlying().(*types.Slice); ok && l.isEntry(sl.Elem()) {
					if ex.muted == 0 {
						_, ok := st.Get("printed", nil)
						r.Check(ok, "turn", l.label, "every entry is shown", "%s passes one over", r.where(ev))
						l.given++
					}
					st.Del("printed", nil)
				}
			}
		}
	}
	inline := cl.Inline
	cl.Inline = func(f *ssa.Function) bool {
		return !l.again(f) && (inline == nil || inline(f))
	}
	back := cl.Back
	cl.Back = func(ex *Exec, st *State, next func(j *Term) *Term) {
		if back != nil {
			back(ex, st, next)
		}
		l.back(ex, st, next)
	}
	ext := cl.Ext
	cl.Ext = func(ex *Exec, c *callCtx) ([]Outcome, bool) {
		if o, ok := l.odd(ex, c); ok {
			return o, true
		}
		if o, ok := l.sort(ex, c); ok {
			return o, true
		}
		if c.fn != nil && l.again(c.fn) {
			return l.inner(ex, c), true
		}
		if ext == nil {
			return nil, false
		}
		l.wrote = false
		outs, ok := ext(ex, c)
		if l.wrote && ok {
			l.wrote = false
			outs = l.mayFail(ex, outs)
		}
		return outs, ok
	}
}

// mayFail: the error that is the last result is nil, or not.
func (l *listing) mayFail(ex *Exec, outs []Outcome) (r []Outcome) {
	for _, o := range outs {
		n := len(o.Ret) - 1
		if o.Panic || n < 0 || o.Ret[n].T == nil || types.TypeString(o.Ret[n].T, nil) != "error" {
			r = append(r, o)
			continue
		}
		bad := Outcome{St: o.St.clone(), Ret: append([]*Term{}, o.Ret...)}
		bad.St.Set("failed", nil, "")
		ex.noteNonNil(bad.St, bad.Ret[n])
		good := Outcome{St: o.St, Ret: append([]*Term{}, o.Ret...)}
		good.Ret[n] = ex.ts.Nil(o.Ret[n].T)
		r = append(r, good, bad)
	}
	return r
}

// again: f is already listing a directory.
func (l *listing) again(f *ssa.Function) bool {
	takes := false
	for _, q := range f.Params {
		if s := structUnder(q.Type()); s != nil && types.Identical(s, l.m.D) {
			takes = true
		}
	}
	if !takes || l.hand0 == nil {
		return false
	}
	for _, fr := range l.ex.stack {
		if fr.fn == f {
			return true
		}
	}
	return false
}

// inner: a directory inside the one that is listed is listed in the same way.
func (l *listing) inner(ex *Exec, c *callCtx) []Outcome {
	st := c.st
	for _, a := range c.args {
		if a.Op == OLoad && a.Args[0].Op == OField && a.Args[0].I == l.m.dir && structUnder(a.Args[0].Args[0].T) == l.m.E && l.inHand(st, a.Args[0].Args[0]) {
			v := "listed"
			if _, ok := st.Get("did", nil); ok {
				v = "several"
			}
			st.Set("did", nil, v)
			if ex.muted == 0 && l.rec == nil {
				l.rec, l.recA, l.recS = c.fn, c.args, st.clone()
			}
		}
	}
	rs := ex.unknownResults(c.fn.Signature, "listing", ex.site(c.fr, c.in), nil)
	for _, x := range rs {
		ex.regen(st, x.regenRoot())
	}
	return l.mayFail(ex, []Outcome{{St: st, Ret: rs}})
}

// odd: the metric in hand is found to be NaN or infinite, or not.
func (l *listing) odd(ex *Exec, c *callCtx) ([]Outcome, bool) {
	if c.name != "math.IsNaN" && c.name != "math.IsInf" || l.c.kind != "Float32" && l.c.kind != "Float64" {
		return nil, false
	}
	if ok, _ := l.m.clients(ex, c.st, l.c, unwiden(c.args[0])); !ok {
		return nil, false
	}
	yes, no := c.st.clone(), c.st
	yes.Set("odd", nil, "")
	return []Outcome{{St: yes, Ret: []*Term{ex.ts.Bool(true)}}, {St: no, Ret: []*Term{ex.ts.Bool(false)}}}, true
}

// isDir: the map of a directory.
func (l *listing) isDir(t *Term) bool {
	return t != nil && t.T != nil && types.Identical(t.T.Underlying(), l.m.mapT)
}

func (l *listing) dropTaken(st *State) {
	for k, a := range st.X {
		if a.K == "taken" || a.K == "takenkey" {
			delete(st.X, k)
		}
	}
}

// keep: an entry is put at index i of L.
func (l *listing) keep(ex *Exec, st *State, L, i *Term) {
	st.Set("slot", i, "")
	l.full[L] = true
}

func (l *listing) append(ex *Exec, st *State, ev *Event) {
	t := ev.T
	if t == nil {
		t = ev.Addr.T
	}
	if t == nil {
		return
	}
	sl, ok := t.Underlying().(*types.Slice)
	if !ok {
		return
	}
	elems := []*Term{}
	for _, a := range ev.Args {
		if es := ex.sliceElems(st, a, t); es != nil {
			elems = append(elems, es...)
		} else {
			elems = append(elems, a)
		}
	}
	if MT := l.r.P.Named("tricorder/messages", "Metric"); MT != nil && (types.Identical(derefType(sl.Elem()), MT) || types.Identical(sl.Elem(), MT)) {
		if !l.text && !l.html {
			for range elems {
				l.emit(ex, st)
			}
		}
		return
	}
	for _, e := range elems {
		for _, k := range []string{"taken", "takenkey"} {
			if k == "takenkey" {
				e = keyOf(e)
			}
			if v, ok := st.Get(k, e); ok {
				if v == "" {
					st.Set(k, e, "kept")
					l.full[listBase(ev.Addr)] = true
				} else {
					st.Set(k, e, "kept twice")
				}
			}
		}
	}
}

// keyOf: the key an entry is looked up by.
func keyOf(e *Term) *Term {
	switch {
	case e.Op == OLoad && e.Args[0].Op == OLookup:
		return e.Args[0].Args[1]
	case e.Op == OPhi:
		k := keyOf(e.Args[0])
		for _, a := range e.Args[1:] {
			if keyOf(a) != k {
				return e
			}
		}
		return k
	}
	return e
}

// emit: a metric is given out.
func (l *listing) emit(ex *Exec, st *State) {
	v := "given"
	if old, ok := st.Get("did", nil); ok && !(l.text && old == "given") {
		v = "several"
	}
	st.Set("did", nil, v)
	if ex.muted == 0 {
		l.given++
	}
}

// take: the entry at index i is looked at.
func (l *listing) take(ex *Exec, st *State, ev *Event, L, i *Term) {
	if l.html || l.sorting {
		return
	}
	if h := l.hand(st); h != nil {
		return
	}
	e := ex.ts.mk(Term{Op: OLoad, Args: []*Term{ev.Addr}, T: ev.T})
	if x := ex.Load(st, ev.Addr, ev.T); x.Op == OLoad {
		e = x
	}
	st.Set("hand", e, "")
	st.Del("did", nil)
	st.Del("odd", nil)
	for fr, in := ev.Fr, ev.Instr; fr != nil && in != nil; fr, in = fr.parent, fr.site {
		l.at[e] = append(l.at[e], loopSite{fr.fn, fr.depth, in.Block()})
	}
	l.idx[L] = i
	l.hand0 = e
	if ex.muted > 0 {
		return
	}
	l.turns++
	v, ok := st.Get("sorted", L)
	l.r.Check(ok && v == "by name", "sorted", l.label, "directories are listed in order of their names", "%s goes through %v, which is sorted: %q", l.r.where(ev), L, v)
	_, part := st.Get("ranging", nil)
	l.r.Check(l.full[L] && !part, "complete", l.label, "the list holds every entry", "%s goes through %v", l.r.where(ev), L)
}

// left: why nothing was given out, if that is right.
func (l *listing) leftOut(ex *Exec, st *State) (bool, string) {
	if _, ok := st.Get("odd", nil); ok {
		return true, ""
	}
	for f, v := range st.facts {
		if strings.HasPrefix(l.way.page, "/metricsapi") && f.Op == OCmp && !v && f.anyTerm(func(t *Term) bool {
			return t.Op == OExtract && t.I == 1 && t.Args[0].Op == OCall && t.Args[0].Aux == "encoding/json.Marshal"
		}) {
			return true, ""
		}
	}
	return false, "it is left out"
}

func unwiden(t *Term) *Term {
	for t.Op == OConv && len(t.Args) == 1 && t.Args[0].T != nil && isFloat(t.Args[0].T) {
		t = t.Args[0]
	}
	return t
}

func (l *listing) back(ex *Exec, st *State, next func(j *Term) *Term) {
	r := l.r
	mine := func(t *Term) (idx, nxt *Term) {
		var j *Term
		t.anyTerm(func(x *Term) bool {
			if x.Op == OJoin && next(x) != nil {
				j = x
				return true
			}
			return false
		})
		if j == nil {
			return nil, nil
		}
		return j, next(j)
	}
	// reading a directory
	if _, ok := st.Get("ranging", nil); ok {
		// only the loop over the map itself renews what was taken
		var kept, any bool
		bad := ""
		for _, a := range st.X {
			if a.K == "taken" || a.K == "takenkey" {
				any = true
				if a.V == "kept" {
					kept = true
				} else if a.V != "" {
					bad = a.V
				}
			}
		}
		if any && ex.muted == 0 {
			r.Check(kept && bad == "", "complete", l.label, "every entry of a directory is kept, once", "one is not: %s", bad)
		}
		for k, a := range st.X {
			if a.K == "slot" {
				if ex.muted == 0 {
					j, n := mine(a.T)
					r.Check(j != nil && n == ex.ts.Add(j, ex.ts.Int(1), 1, j.T), "complete", l.label, "entries are put in different places", "they go to %v", a.T)
				}
				delete(st.X, k)
			}
		}
		l.dropTaken(st)
		return
	}
	h := l.hand(st)
	if h == nil {
		return
	}
	in := false
	for _, s := range l.at[h] {
		if s.fn == ex.backFr.fn && s.depth == ex.backFr.depth && inLoop(ex.backHdr, s.b) {
			in = true
		}
	}
	if !in {
		return
	}
	j, n := mine(h)
	did, _ := st.Get("did", nil)
	if ex.muted == 0 {
		r.Check(j != nil && n == ex.ts.Add(j, ex.ts.Int(1), 1, j.T), "turn", l.label, "the next turn is about the next entry", "after %v comes %v", j, n)
		_, failed := st.Get("failed", nil)
		r.Check(!failed, "error", l.label, "a listing ends when emitting fails", "it goes on with the next entry")
		switch did {
		case "given", "listed":
			r.Check(true, "turn", l.label, "every entry is listed once", "")
		case "":
			ok, why := l.leftOut(ex, st)
			r.Check(ok, "turn", l.label, "only single values that are NaN or infinite are left out", "%s", why)
		default:
			r.Check(false, "turn", l.label, "every entry is listed once", "one is listed more than once")
		}
	}
	st.Del("did", nil)
	st.Del("odd", nil)
	st.Del("failed", nil)
	st.Del("hand", h)
}

// inLoop: b is in the loop with header h.
func inLoop(h, b *ssa.BasicBlock) bool {
	if !h.Dominates(b) {
		return false
	}
	seen := map[*ssa.BasicBlock]bool{}
	var walk func(x *ssa.BasicBlock) bool
	walk = func(x *ssa.BasicBlock) bool {
		for _, s := range x.Succs {
			if s == h {
				return true
			}
			if !seen[s] && h.Dominates(s) {
				seen[s] = true
				if walk(s) {
					return true
				}
			}
		}
		return false
	}
	return walk(b)
}

// sort recognises the library's sorting functions.
func (l *listing) sort(ex *Exec, c *callCtx) ([]Outcome, bool) {
	name := c.name
	if i := strings.IndexByte(name, '['); i >= 0 {
		name = name[:i]
	}
	var less func(i, j *Term, L *Term) []Outcome
	it := types.Type(types.Typ[types.Int])
	i, j := ex.ts.Sym("sort i", it), ex.ts.Sym("sort j", it)
	cmp := false
	strs := false
	l.sorting = true
	defer func() { l.sorting = false }()
	call := func(f *Term, args ...*Term) []Outcome {
		d := *c
		d.st = c.st.clone()
		d.args = args
		ex.muted++
		defer func() { ex.muted-- }()
		return ex.callValue(&d, f)
	}
	L := listBase(c.args0())
	switch name {
	case "sort.Sort", "sort.Stable":
		less = func(i, j, L *Term) []Outcome {
			dyn := ex.dynType(c.st, c.args[0])
			if dyn == nil {
				return nil
			}
			sel := ex.P.Prog.MethodSets.MethodSet(dyn).Lookup(nil, "Less")
			if sel == nil {
				return nil
			}
			f := ex.P.Prog.MethodValue(sel)
			if f == nil || f.Blocks == nil {
				return nil
			}
			d := *c
			d.st = c.st.clone()
			d.args = []*Term{ex.assertVal(c.st, c.args[0], dyn), i, j}
			ex.muted++
			defer func() { ex.muted-- }()
			return ex.callFn(&d, f, nil)
		}
	case "sort.Slice", "sort.SliceStable":
		less = func(i, j, L *Term) []Outcome { return call(c.args[1], i, j) }
	case "slices.SortFunc", "slices.SortStableFunc":
		cmp = true
		less = func(i, j, L *Term) []Outcome { return call(c.args[1], i, j) }
	case "sort.Strings", "slices.Sort":
		strs = true
	default:
		return nil, false
	}
	elemT := types.Type(nil)
	if L.T != nil {
		if sl, ok := L.T.Underlying().(*types.Slice); ok {
			elemT = sl.Elem()
		}
	}
	if elemT == nil || !l.isEntry(elemT) && !(strs && isString(elemT)) {
		return nil, false
	}
	order := "by name"
	if !strs {
		a, b := i, j
		var x, y *Term
		if cmp {
			a, b = ex.ts.Sym("sort a", elemT), ex.ts.Sym("sort b", elemT)
			x, y = a, b
		} else {
			x = ex.Load(c.st, ex.elemAddr(L, i, types.NewPointer(elemT)), elemT)
			y = ex.Load(c.st, ex.elemAddr(L, j, types.NewPointer(elemT)), elemT)
		}
		str := types.Type(types.Typ[types.String])
		nm := func(e *Term) *Term {
			return ex.Load(c.st, ex.fieldAddr(e, l.m.name, elemT), str)
		}
		X, Y := nm(x), nm(y)
		outs := less(a, b, L)
		if len(outs) == 0 {
			order = "in an unknown order"
		}
		for _, o := range outs {
			if o.Panic || len(o.Ret) != 1 {
				order = "in an unknown order"
				continue
			}
			ret := ex.Resolve(o.St, o.Ret[0])
			good := false
			if cmp {
				good = ret.Op == OCall && len(ret.Args) == 2 && ret.Args[0] == X && ret.Args[1] == Y && (ret.Aux == "strings.Compare" || strings.HasPrefix(fmt.Sprint(ret.Aux), "cmp.Compare"))
			} else {
				want := ex.ts.Cmp(token.LSS, X, Y, str)
				good = ret == want
				if v, ok := ex.truth(o.St, want); ok && !good {
					if w, ok := ex.truth(o.St, ret); ok {
						good = v == w
					}
				}
			}
			if !good {
				order = "by " + ret.String()
			}
		}
	}
	site := "sort" + ex.site(c.fr, c.in)
	ex.clobber(c.st, ex.elemAddr(L, ex.ts.Sym("?"+site, it), types.NewPointer(elemT)), site)
	if o := objOf(L); o.Op == OAlloc {
		ex.havocReach(c.st, o, site)
	}
	c.st.Set("sorted", L, order)
	return []Outcome{{St: c.st}}, true
}

func (c *callCtx) args0() *Term {
	if len(c.args) == 0 {
		return &Term{}
	}
	return c.args[0]
}

// ended: how listing a directory may end.
func (l *listing) ended(ex *Exec, label string, fn *ssa.Function, outs []Outcome) {
	r := l.r
	errAt := -1
	if fn != nil {
		rs := fn.Signature.Results()
		for i := 0; i < rs.Len(); i++ {
			if types.TypeString(rs.At(i).Type(), nil) == "error" {
				errAt = i
			}
		}
	}
	for _, o := range outs {
		if o.Panic {
			continue
		}
		failed := false
		if errAt >= 0 {
			e := ex.Resolve(o.St, o.Ret[errAt])
			if v, ok := ex.truth(o.St, ex.ts.Cmp(token.EQL, e, ex.ts.Nil(nil), e.T)); ok && !v {
				failed = true
			}
		}
		if _, bad := o.St.Get("failed", nil); bad && errAt >= 0 {
			r.Check(failed, "error", label, "the error is returned", "it returns %v", o.Ret[errAt])
			continue
		}
		if h := l.hand(o.St); h != nil {
			if errAt >= 0 {
				r.Check(failed, "early", label, "a listing ends early only by returning an error", "it ends at %v and returns %v", h, o.Ret[errAt])
			}
			continue
		}
		if errAt < 0 {
			continue
		}
		swept := failed
		for L, i := range l.idx {
			swept = swept || ex.swept(o.St, i, ex.lenOf(o.St, L, false, types.Typ[types.Int]))
		}
		r.Check(swept, "early", label, "a listing goes to the end", "a path returns %v without", o.Ret[errAt])
	}
}

func runC19(r *Report) {
	m := newValueModel(r)
	if m == nil {
		return
	}
	var ways []valueWay
	for _, w := range m.ways() {
		if w.vals["form:singleton"] != "" {
			continue
		}
		if w.root != nil && w.root.Name() != "ReadMyMetrics" {
			list := false
			for _, q := range w.root.Params {
				if pt, ok := q.Type().Underlying().(*types.Pointer); ok {
					if _, ok := pt.Elem().Underlying().(*types.Slice); ok {
						list = true
					}
				}
			}
			if !list {
				continue
			}
		}
		ways = append(ways, w)
	}
	r.Min("interfaces that list metrics", 5, len(ways))
	cases := m.cases()
	var mu sync.Mutex
	turns, given, deep, single := 0, 0, 0, 0
	parallel(len(cases), func(i int) {
		c := cases[i]
		ex, st0, pages := r.handlersOf("tricorder", m.rm.hook)
		if ex == nil {
			return
		}
		defer r.Ran(ex, "listing a "+c.label)
		made, _ := m.registered(ex, c, st0)
		for _, mm := range made {
			for _, w := range ways {
				for _, fin := range []string{dirEntry, metricItem} {
					l := &listing{r: r, m: m, c: c, way: w, ex: ex, idx: map[*Term]*Term{}, full: map[*Term]bool{}, at: map[*Term][]loopSite{}}
					l.text = w.page == "/metrics/" && w.vals["form:format"] == "text"
					l.html = w.page == "/metrics/" && !l.text
					l.label = fmt.Sprintf("%s of a directory with a metric of type %s", w.label, c.label)
					if fin == metricItem {
						l.label = fmt.Sprintf("%s of a metric of type %s", w.label, c.label)
					}
					outs := m.shows(ex, c, w, fin, mm, pages, l.label, l.watch)
					if fin == metricItem {
						if l.html {
							continue
						}
						for _, o := range outs {
							if o.Panic {
								continue
							}
							if _, ok := o.St.Get("directory", nil); ok {
								continue // the path was that of the root
							}
							did, _ := o.St.Get("did", nil)
							ok, why := did == "given", did
							if did == "" {
								ok, why = l.leftOut(ex, o.St)
							}
							r.Check(ok, "single", l.label, "the metric is given out once", "%s", why)
							mu.Lock()
							single++
							mu.Unlock()
						}
						continue
					}
					l.ended(ex, l.label, w.root, outs)
					if l.rec != nil {
						st := l.recS
						for k, a := range st.X {
							switch a.K {
							case "hand", "did", "failed", "odd", "directory", "sorted", "taken", "takenkey", "slot", "ranging":
								delete(st.X, k)
							}
						}
						label := l.label
						l.label += ", one level down"
						fn := l.rec
						l.idx = map[*Term]*Term{}
						outs := r.callIn(ex, l.label, fn, l.recA, st)
						r.Check(ex.err == "" && len(outs) > 0, "converges", l.label, "the listing is analysed", "%s", ex.err)
						l.ended(ex, l.label, fn, outs)
						l.label = label
						mu.Lock()
						deep++
						mu.Unlock()
					} else if !l.html {
						r.Check(false, "turn", l.label, "directories inside directories are listed", "none is")
					}
					mu.Lock()
					turns += l.turns
					given += l.given
					mu.Unlock()
				}
			}
		}
	})
	r.Min("turns of listings", 500, turns)
	r.Min("metrics given out", 500, given)
	r.Min("listings of inner directories", 300, deep)
	r.Min("single metrics listed", 300, single)
}
