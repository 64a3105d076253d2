package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"
	"sync"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Property{ID: "C34", MinObs: 40, Run: runC34,
		Rule: "every interface that looks a path up is interpreted for every combination of what is found on the way and at the path, and for the empty path: its answer is the one for what is there"})
	register(&Property{ID: "C35", MinObs: 25, Run: runC35,
		Rule: "every function that splits a path keeps, in order and unchanged, exactly the parts between slashes that are not blank; every look-up by path at every entry point uses the parts of the text given, unaltered but for slashes around it"})
}

// --- C35 --------------------------------------------------------------------

type parseStep struct {
	place string
	st    *State
	kept  []Atom
	nexts map[*Term]*Term
}

func unconv(t *Term) *Term {
	for t.Op == OConv {
		t = t.Args[0]
	}
	return t
}

// blank: the text is known to consist of white space, or not to.
func (ex *Exec) blank(st *State, x *Term) (is, known bool) {
	trim := ex.ts.mk(Term{Op: OCall, Aux: "strings.TrimSpace", Args: []*Term{x}, T: types.Typ[types.String]})
	for f := range st.facts {
		f.anyTerm(func(t *Term) bool {
			if t.Op == OCall && t.Aux == "strings.TrimSpace" && len(t.Args) == 1 && t.Args[0] == x {
				trim = t
				return true
			}
			return false
		})
	}
	if v, ok := ex.truth(st, ex.ts.Cmp(token.EQL, trim, ex.ts.Str(""), types.Typ[types.String])); ok {
		return v, true
	}
	n := ex.lenTerm(trim)
	if v, ok := ex.truth(st, ex.ts.Cmp(token.EQL, n, ex.ts.Int(0), types.Typ[types.Int])); ok {
		return v, true
	}
	if iv := ex.interval(st, n, 0); iv.lo != nil && iv.lo.Sign() > 0 {
		return false, true
	}
	return false, false
}

// checkParser: f keeps the parts between slashes that are not blank.
func (m *treeModel) checkParser(f *ssa.Function) {
	r, p := m.r, m.p
	site := p.fname(f)
	c := &Client{Split: func(*ssa.Function) bool { return true }}
	var steps []parseStep
	c.Event = func(ex *Exec, st *State, ev *Event) {
		if ev.Kind == EvStore && ev.Addr.Op == OElem && isString(ev.Val.T) {
			st.Set("kept", ev.Addr, fmt.Sprint(ev.Val.id))
		}
	}
	c.Back = func(ex *Exec, st *State, next func(j *Term) *Term) {
		s := parseStep{kept: st.Atoms("kept"), nexts: map[*Term]*Term{}}
		for _, a := range s.kept {
			st.Del("kept", a.T)
		}
		if ex.muted > 0 {
			return
		}
		s.st = st.clone()
		for j := range ex.joins {
			if v := next(j); v != nil {
				s.nexts[j], s.place = v, loopOf(j)
			}
		}
		steps = append(steps, s)
	}
	ex := NewExec(p, c)
	args := ex.symArgs(f)
	outs := ex.Run(f, args, nil, newState())
	r.Ran(ex, site)
	if !r.Check(ex.err == "" && len(outs) > 0, "parser", site, "the function is analysed", "%s", ex.err) {
		return
	}
	it := types.Type(types.Typ[types.Int])
	for _, o := range outs {
		if !r.Check(!o.Panic, "parser", site, "every text has parts", "it may panic") {
			continue
		}
		ret := unconv(o.Ret[0])
		// the parts kept in place: S[:idx]
		var S, idx, out *Term
		switch {
		case ret.Op == OSlice && ret.Args[2] != nil:
			S, idx = unconv(ret.Args[0]), ret.Args[2]
			if lo := ret.Args[1]; lo != nil {
				if n, ok := lo.intVal(); !ok || n != 0 {
					r.Check(false, "parser", site, "all the parts are returned", "those from %v are", lo)
					continue
				}
			}
		case ret.Op == OJoin:
			out = ret
		default:
			r.Check(false, "parser", site, "what is returned is the parts that are kept", "it is %v", ret)
			continue
		}
		v := idx
		if v == nil {
			v = out
		}
		if !r.Check(v.Op == OJoin && ex.joins[v] != nil, "parser", site, "the parts are kept one by one", "their number is %v", v) {
			continue
		}
		place := loopOf(v)
		// where it starts
		for fv := range ex.joins[v].final {
			inner := false
			for _, s := range steps {
				inner = inner || s.place == place && s.nexts[v] == fv
			}
			if inner {
				continue
			}
			if idx != nil {
				n, ok := fv.intVal()
				r.Check(ok && n == 0, "parser", site, "the parts are kept from the first place on", "they are from %v", fv)
			} else {
				e := unconv(fv)
				n, isSub := int64(1), false
				if e.Op == OSlice && e.Args[2] != nil {
					n, isSub = e.Args[2].intVal()
				}
				r.Check(e.isNil() || ex.emptySlice(newState(), e) || isSub && n == 0, "parser", site, "at first no parts are kept", "it is %v", fv)
			}
		}
		n := 0
		for _, s := range steps {
			if s.place != place {
				continue
			}
			// the part at hand
			var x *Term
			for f := range s.st.facts {
				f.anyTerm(func(t *Term) bool {
					if t.Op == OCall && t.Aux == "strings.TrimSpace" && len(t.Args) == 1 {
						if R, _, ok := splitPart(t.Args[0]); ok && (S == nil || R == S) {
							x = t.Args[0]
						}
					}
					return x != nil
				})
			}
			if !r.Check(x != nil, "parser", site, "each part is examined for being blank", "it is not on a path") {
				continue
			}
			R, i, _ := splitPart(x)
			S = R
			if !r.Check(ex.stepsUp(i, 0) && ex.swept(o.St, i, ex.lenTerm(S)), "parser", site, "every part is examined", "not all are: %v", i) {
				continue
			}
			is, known := ex.blank(s.st, x)
			if !r.Check(known, "parser", site, "it is known whether a part is blank", "%v may be either", x) {
				continue
			}
			n++
			nv := s.nexts[v]
			if nv == nil {
				nv = v
			}
			switch {
			case is:
				r.Check(nv == v && (idx == nil || len(s.kept) == 0), "parser", site, "a blank part is left out", "it is kept")
			case idx != nil:
				inc := ex.ts.Add(v, ex.ts.Int(1), 1, it)
				good := nv == inc && len(s.kept) == 1
				if good {
					a := s.kept[0]
					good = a.T.Args[0] == S && a.T.Args[1] == v && a.V == fmt.Sprint(x.id)
				}
				r.Check(good, "parser", site, "a part that is not blank is kept as it is", "kept: %v, next place %v", s.kept, nv)
			default:
				good := nv.Op == OAppend && len(nv.Args) == 2 && nv.Args[0] == v && nv.Args[1] == x
				r.Check(good, "parser", site, "a part that is not blank is kept as it is", "the parts become %v", nv)
			}
		}
		r.Check(n >= 2, "parser", site, "blank and other parts are told apart", "%d ways around the loop", n)
		if S != nil {
			ok, why := m.faithful(ex, f, S.Args[0], "")
			r.Check(ok && S.Args[1].isStr("/"), "parser", site, "the text is split at slashes, unaltered", "what is split is %v at %v: %s", S.Args[0], S.Args[1], why)
		}
	}
}

// splitPart: x is a part of a split text.
func splitPart(x *Term) (S, i *Term, ok bool) {
	switch {
	case x.Op == OLoad && x.Args[0].Op == OElem:
		S, i = x.Args[0].Args[0], x.Args[0].Args[1]
	case x.Op == OIndexV:
		S, i = x.Args[0], x.Args[1]
	default:
		return nil, nil, false
	}
	S = unconv(S)
	return S, i, S.Op == OCall && S.Aux == "strings.Split"
}

// faithful: x is the path as the client gave it, but for slashes around it.
func (m *treeModel) faithful(ex *Exec, fn *ssa.Function, x *Term, pattern string) (bool, string) {
	onlySlash := func(t *Term) bool {
		s, ok := t.strVal()
		return ok && strings.Trim(s, "/") == ""
	}
	switch x.Op {
	case OConst:
		return true, ""
	case OConv:
		return m.faithful(ex, fn, x.Args[0], pattern)
	case OSym:
		if fn != nil {
			for i, a := range ex.symArgs(fn) {
				if types.Identical(fn.Params[i].Type(), types.Typ[types.String]) {
					if a == x {
						return true, ""
					}
					return false, "it is another of the client's texts"
				}
			}
		}
	case OConcat:
		n := 0
		for _, a := range x.Args {
			if onlySlash(a) {
				continue
			}
			n++
			if ok, why := m.faithful(ex, fn, a, pattern); !ok {
				return false, why
			}
		}
		return n <= 1, "it is put together from several texts"
	case OCall:
		switch x.Aux {
		case "strings.Trim", "strings.TrimLeft", "strings.TrimRight", "strings.TrimPrefix", "strings.TrimSuffix":
			if onlySlash(x.Args[1]) {
				return m.faithful(ex, fn, x.Args[0], pattern)
			}
		}
		return false, fmt.Sprintf("it goes through %v", x.Aux)
	case OLoad, OFieldV:
		b, i, ok := fieldRead(x)
		if !ok {
			break
		}
		if isLib(b.T, "flag", "Flag") {
			return structUnder(b.T).Field(i).Name() == "Name", "it is not the flag's name"
		}
		if isLib(b.T, "net/url", "URL") {
			if structUnder(b.T).Field(i).Name() != "Path" {
				return false, "it is not the request's path"
			}
			if q, _, ok := fieldRead(b); ok && q.Op == OSym {
				pre := ""
				if i := strings.Index(q.S, "request below "); i >= 0 {
					pre = strings.Trim(strings.TrimPrefix(q.S[i:], "request below "), "\"")
				} else if !strings.Contains(q.S, "request") {
					break
				}
				return strings.Trim(pre, "/") == strings.Trim(pattern, "/"), fmt.Sprintf("below %q the path is what follows %q", pattern, pre)
			}
		}
	}
	return false, fmt.Sprintf("it is %v", x)
}

// fieldRead: t is field i of what b points to.
func fieldRead(t *Term) (b *Term, i int, ok bool) {
	switch {
	case t.Op == OLoad && t.Args[0].Op == OField:
		return t.Args[0].Args[0], t.Args[0].I, true
	case t.Op == OFieldV && t.Args[0].Op == OLoad:
		return t.Args[0].Args[0], t.I, true
	}
	return nil, 0, false
}

func isLib(t types.Type, pkg, name string) bool {
	if t == nil {
		return false
	}
	n, ok := types.Unalias(derefType(t)).(*types.Named)
	return ok && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == pkg && n.Obj().Name() == name
}

// checkKeys: every operation by path uses the text given.
func (w *treeRun) checkKeys(pattern string) (n int) {
	m, r := w.m, w.m.r
	for _, op := range w.ops {
		site := w.root + ": " + op.where
		k := op.key
		if R, _, ok := component(k); ok {
			n++
			good, why := m.faithful(w.ex, w.fn, R.Args[0], pattern)
			r.Check(good, "key", site, "the path is the text given, unaltered", "it is %v: %s", R.Args[0], why)
			continue
		}
		if k == nil || k.Op == ORangeK {
			continue
		}
		if k.Op == OLoad && k.Args[0].Op == OField && k.Args[0].I == m.name && structUnder(k.Args[0].Args[0].T) == m.E {
			continue // an entry's own name
		}
		if ev := op.kind; ev == EvMapRead && op.val == nil && k.Op == OSym {
			continue
		}
		r.Check(false, "key", site, "entries are found by a component of a path or by their name", "by %v", k)
	}
	return n
}

func runC35(r *Report) {
	m := newTreeModel(r)
	if m == nil {
		return
	}
	p := r.P
	r.Min("functions that split paths", 1, len(m.parsers))
	for f := range m.parsers {
		m.checkParser(f)
	}
	points := 0
	for _, root := range p.roots("tricorder") {
		f := root.Fn
		if root.Kind != "api" && root.Kind != "rpc" {
			continue
		}
		has := false
		for _, q := range f.Params {
			has = has || types.Identical(q.Type(), types.Typ[types.String])
		}
		if !has && !p.callsParser(f, m.parsers) {
			continue
		}
		w := m.runWith(f, treeCase{}, false, m.lookups())
		if w.checkKeys("") > 0 {
			points++
		}
	}
	r.Min("entry points that take a path", 8, points)
	pages := 0
	m.eachPage(func(w *treeRun, pattern, label string, outs []Outcome, h *httpTrack, tc treeCase) {
		if w.checkKeys(pattern) > 0 {
			pages++
		}
	}, []treeCase{{}}, nil)
	r.Min("pages that take a path", 3, pages)
}

// callsParser: f reaches a function that splits paths.
func (p *Program) callsParser(f *ssa.Function, parsers map[*ssa.Function]bool) bool {
	var names []string
	for g := range parsers {
		names = append(names, g.String())
	}
	return p.callsAny(f, names...)
}

// eachPage interprets the pages that show metrics, by format.
func (m *treeModel) eachPage(f func(w *treeRun, pattern, label string, outs []Outcome, h *httpTrack, tc treeCase), cases []treeCase, note func(ex *Exec, st *State, t *Term)) {
	r := m.r
	type page struct{ pattern, key, val string }
	pgs := []page{
		{"/metrics/", "form:format", ""}, {"/metrics/", "form:format", "text"},
		{"/metricsapi/", "form:singleton", ""}, {"/metricsapi/", "form:singleton", "true"},
	}
	var mu sync.Mutex
	parallel(len(pgs)*len(cases), func(i int) {
		pg, tc := pgs[i/len(cases)], cases[i%len(cases)]
		ex, st, pages := r.handlersOf("tricorder")
		if ex == nil {
			return
		}
		label := fmt.Sprintf("%s %s=%q", pg.pattern, strings.TrimPrefix(pg.key, "form:"), pg.val)
		H := pages[pg.pattern]
		if !r.Check(H != nil, "pages", pg.pattern, "the page has a handler", "none is registered") {
			return
		}
		h := &httpTrack{w: ex.ts.Sym("writer", nil), pieces: map[string]*Term{}, r: r}
		h.inner = requestModel(map[string]string{pg.key: pg.val, "header:Accept-Encoding": ""}, h)
		h.note = note
		h.noBody = pg.pattern == "/metrics/"
		run := m.newRun(label)
		run.ex = ex
		for c := range st.mem {
			if c.Op == OGlobal && m.inTree(derefType(c.Aux.(*ssa.Global).Type())) {
				delete(st.mem, c) // by name
			}
		}
		outs := r.servePage(ex, h, label, H, st.clone(), func(c *Client) {
			inl, ext := c.Inline, c.Ext
			tr := m.lookups()
			c.Inline = func(f *ssa.Function) bool { return tr.Inline(f) && inl(f) }
			c.Ext = func(ex *Exec, cc *callCtx) ([]Outcome, bool) {
				if o, ok := tr.Ext(ex, cc); ok {
					return o, true
				}
				return ext(ex, cc)
			}
			c.Event = tr.Event
			c.Cond = m.cond(tc)
			m.hook(c, run)
		})
		r.Ran(ex, label+" "+tc.String())
		mu.Lock()
		defer mu.Unlock()
		f(run, pg.pattern, label, outs, h, tc)
	})
}

// lookups: what is done with a metric that was found is of no interest, but
// that something is, is ("emitted"); "listed": the entries of a directory were.
func (m *treeModel) lookups() *Client {
	c := m.client()
	isM := func(t types.Type) bool { return structUnder(t) == m.M }
	inl, ext := c.Inline, c.Ext
	c.Inline = func(f *ssa.Function) bool {
		for _, q := range f.Params {
			if isM(q.Type()) {
				return false
			}
		}
		return inl(f)
	}
	c.Ext = func(ex *Exec, cc *callCtx) ([]Outcome, bool) {
		for _, a := range cc.args {
			if a.T != nil && isM(a.T) {
				cc.st.Set("emitted", nil, "1")
				for _, b := range cc.args {
					if b.Op == OSym && b.T != nil && sameStruct(derefType(b.T), m.p.Named("tricorder/messages", "Metric")) {
						cc.st.Set("answered", nil, "1") // filled in by the callee
					}
				}
			}
		}
		return ext(ex, cc)
	}
	c.Event = func(ex *Exec, st *State, ev *Event) {
		if mt, ok := ev.Addr.mapType(); ok && ev.Kind == EvRangeStart && types.Identical(mt, m.mapT) {
			st.Set("listed", nil, "1")
		}
	}
	return c
}

const maybeThere = "?"

// there: what is at the path of the run that ended in st. Where the way is not
// clear a path of one component leads to the entry, and a longer one to nothing.
func (m *treeModel) there(ex *Exec, st *State, tc treeCase) string {
	if m.emptyPath(ex, st) {
		return dirEntry
	}
	if tc.walk != dirEntry && tc.final != noEntry {
		return maybeThere
	}
	return tc.final
}

func (t *Term) mapType() (*types.Map, bool) {
	if t == nil || t.T == nil {
		return nil, false
	}
	mt, ok := t.T.Underlying().(*types.Map)
	return mt, ok
}

func runC34(r *Report) {
	m := newTreeModel(r)
	if m == nil {
		return
	}
	p := r.P
	msg := p.Named("tricorder/messages", "Metric")
	list := p.Named("tricorder/messages", "MetricList")
	if !r.Need(msg != nil && list != nil, "messages.Metric and MetricList") {
		return
	}
	has := func(st *State, k string) bool { _, ok := st.Get(k, nil); return ok }
	nDir, nOne, nList := 0, 0, 0
	for _, root := range p.roots("tricorder") {
		f := root.Fn
		sig := f.Signature
		takesPath := false
		for _, q := range f.Params {
			takesPath = takesPath || types.Identical(q.Type(), types.Typ[types.String])
		}
		if !takesPath || root.Kind != "api" && root.Kind != "rpc" || strings.HasPrefix(f.Name(), "Register") {
			continue
		}
		kind := ""
		switch {
		case root.Kind == "rpc" && sameStruct(derefType(sig.Params().At(1).Type()), msg):
			kind = "one"
			nOne++
		case root.Kind == "rpc" && types.Identical(derefType(sig.Params().At(1).Type()), list):
			kind = "list"
			nList++
		case sig.Results().Len() == 1 && types.Identical(sig.Results().At(0).Type(), list):
			kind = "list"
			nList++
		case sig.Results().Len() == 2 && isErrorType(sig.Results().At(1).Type()) && structUnder(sig.Results().At(0).Type()) != nil && types.Identical(structUnder(sig.Results().At(0).Type()), m.D):
			kind = "dir"
			nDir++
		default:
			continue
		}
		m.runWith(f, treeCase{}, false, m.lookups()).checkSteps("path")
		for _, tc := range treeCases {
			if kind == "dir" && tc.walk != tc.final {
				continue // every component is on the way
			}
			c := m.lookups()
			ev := c.Event
			c.Event = func(ex *Exec, st *State, e *Event) {
				ev(ex, st, e)
				if e.Kind == EvStore && kind != "dir" && root.Kind == "rpc" {
					if o := objOf(e.Addr); o != nil && o.Op == OSym {
						st.Set("answered", nil, "1")
					}
				}
			}
			w := m.runWith(f, tc, false, c)
			w.checkSteps("path")
			site := p.fname(f) + " when " + tc.String()
			ex := w.ex
			for _, o := range w.outs {
				if o.Panic {
					continue
				}
				at := m.there(ex, o.St, tc)
				if has(o.St, "listed") {
					r.Check(at == dirEntry || at == maybeThere && tc.final == dirEntry, "listing", site, "only what is below a directory is listed", "other entries are")
				}
				switch kind {
				case "dir":
					d, err := o.Ret[0], o.Ret[1]
					for _, e := range err.alts() {
						switch {
						case at == dirEntry || e.isNil():
							pl := w.at(o.St, d, 0)
							r.Check(e.isNil() && w.complete(o.St, pl), "directory", site, "the directory at the path is returned", "%v, %v: %s", d, e, pl.why)
						case tc.walk == noEntry:
							r.Check(d.isNil() && p.isGlobalErr(e, "ErrNotFound"), "directory", site, "what does not exist is not found", "%v, %v", d, e)
						default:
							r.Check(d.isNil() && (p.isGlobalErr(e, "ErrPathInUse") || p.isGlobalErr(e, "ErrNotFound")), "directory", site, "a metric is not a directory", "%v, %v", d, e)
						}
					}
				case "one":
					for _, e := range o.Ret[0].alts() {
						if at == metricItem || at == maybeThere && tc.final == metricItem && e.isNil() {
							r.Check(e.isNil() && has(o.St, "emitted") && has(o.St, "answered"), "metric", site, "the metric at the path is returned", "the error is %v", e)
						} else {
							r.Check(p.isGlobalErr(e, "ErrMetricNotFound") && !has(o.St, "emitted") && !has(o.St, "answered"), "metric", site, "where there is no metric the answer is not found", "the error is %v", e)
						}
					}
				case "list":
					empty := !has(o.St, "answered")
					if root.Kind == "rpc" {
						if at == noEntry {
							r.Check(o.Ret[0].isNil(), "list", site, "the list of what does not exist is no error", "it is %v", o.Ret[0])
						}
					} else if at == noEntry && !has(o.St, "listed") {
						empty = o.Ret[0].isNil() || ex.emptySlice(o.St, unconv(o.Ret[0]))
					}
					if has(o.St, "listed") {
						continue
					}
					switch at {
					case noEntry:
						r.Check(empty && !has(o.St, "emitted"), "list", site, "the list of what does not exist is empty", "a metric is read: %v, the answer is %v", has(o.St, "emitted"), o.Ret[0])
					case metricItem:
						r.Check(has(o.St, "emitted"), "list", site, "a metric is listed by its path", "it is not read")
					}
				}
			}
		}
	}
	r.Min("look-ups of a directory", 1, nDir)
	r.Min("look-ups of a metric", 1, nOne)
	r.Min("listings", 2, nList)
	// pages
	said := map[string]bool{}
	var later []func()
	m.eachPage(func(w *treeRun, pattern, label string, outs []Outcome, h *httpTrack, tc treeCase) {
		w.checkSteps("path")
	}, []treeCase{{}}, nil)
	{
		note := func(ex *Exec, st *State, t *Term) {
			if s, ok := t.strVal(); ok && strings.TrimSpace(s) != "" {
				if _, ok := st.Get("said", nil); !ok {
					st.Set("said", nil, s)
				}
			} else if !ok {
				st.Set("wrote", nil, "1")
			}
		}
		m.eachPage(func(w *treeRun, pattern, label string, outs []Outcome, h *httpTrack, tc treeCase) {
			w.checkSteps("path")
			ex := w.ex
			site := label + " when " + tc.String()
			for _, o := range outs {
				if o.Panic {
					continue
				}
				at := m.there(ex, o.St, tc)
				if has(o.St, "listed") {
					r.Check(at == dirEntry || at == maybeThere && tc.final == dirEntry, "listing", site, "only what is below a directory is listed", "other entries are")
					continue
				}
				status, ok := o.St.Get("status", nil)
				if !ok {
					status = "200"
				}
				s, spoke := o.St.Get("said", nil)
				switch {
				case strings.Contains(label, `singleton="true"`):
					if at == metricItem || at == maybeThere && tc.final == metricItem && status != "404" {
						r.Check(status != "404" && has(o.St, "emitted"), "page", site, "the metric at the path is shown", "the status is %s", status)
					} else {
						r.Check(status == "404" && !has(o.St, "emitted"), "page", site, "where there is no metric the status is 404", "the status is %s", status)
					}
				case strings.Contains(label, "singleton"):
					r.Check(status == "200", "page", site, "a list is given", "the status is %s", status)
					switch at {
					case metricItem:
						r.Check(has(o.St, "emitted"), "page", site, "a metric is listed by its path", "it is not read")
					case noEntry:
						body := h.body(o.St)
						empty := !has(o.St, "emitted")
						for _, b := range body {
							if e := encodedIn(b); e != nil {
								v := stripIface(e.Args[0])
								empty = empty && !v.isNil() && ex.emptySlice(o.St, unconv(v))
							}
						}
						r.Check(empty, "page", site, "the list of what does not exist is empty", "it is %v", body)
					}
				default:
					switch at {
					case noEntry:
						said[s] = true
						r.Check(spoke && !has(o.St, "emitted") && !has(o.St, "wrote"), "page", site, "of what does not exist the page says so", "it says %q; other output: %v", s, has(o.St, "wrote"))
					case metricItem:
						later = append(later, func() {
							r.Check(has(o.St, "emitted") && !(spoke && said[s]), "page", site, "the metric at the path is shown", "the page says %q", s)
						})
					case dirEntry:
						r.Check(!has(o.St, "emitted") || strings.Contains(label, "text"), "page", site, "a directory is not shown as a metric", "a metric is read")
						later = append(later, func() {
							r.Check(!(spoke && said[s]), "page", site, "the directory at the path is shown", "the page says %q", s)
						})
					}
				}
			}
		}, treeCases, note)
	}
	for _, f := range later {
		f()
	}
}
