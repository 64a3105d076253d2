package main

import (
	"go/token"
	"go/types"
	"strings"
)

func init() {
	register(&Property{ID: "C31", MinObs: 25, Run: runHealth,
		Rule: "symbolic histories: package initialisation, then every sequence of setter calls that ends the state of a page (with another page's setter interleaved), then the page's registered handler; status code and body are compared on all paths"})
}

func runHealth(r *Report) {
	p := r.P
	ex, st0, regs := r.initRun("healthserver", nil)
	if ex == nil {
		return
	}
	fin := p.Pkg("healthserver").Func("init")
	pages := map[string]*Term{}
	for _, g := range regs {
		if r.Check(pages[g.Pattern] == nil, "pages", g.Pattern, "one handler per page", "registered twice") {
			pages[g.Pattern] = g.H
		}
	}
	health, ready := pages["/healthz"], pages["/readiness"]
	if !r.Check(health != nil, "pages", "/healthz", "the health page has a handler", "none is registered") ||
		!r.Check(ready != nil, "pages", "/readiness", "the readiness page has a handler", "none is registered") {
		return
	}
	str := types.Typ[types.String]
	w := ex.ts.Sym("writer", nil)
	req := ex.ts.Sym("request", types.NewPointer(r.P.libType("net/http", "Request")))
	h := &httpTrack{w: w, pieces: map[string]*Term{}, r: r}
	hc := h.client()
	hc.Sequential = true
	// no panics of callbacks: there are none here
	page := func(label string, H *Term, st *State) []Outcome {
		ex.C = hc
		outs := ex.RunWith(label, func(st *State) []Outcome {
			return ex.serve(ex.entryCtx(label, fin, []*Term{w, req}, st), H)
		}, st)
		r.Check(ex.err == "" && len(outs) > 0, "converges", label, "the page is analysed", "%s", ex.err)
		return outs
	}
	expect := func(label string, H *Term, st *State, status *Term) {
		for _, o := range page(label, H, st) {
			if !r.Check(!o.Panic, "answer", label, "the page answers", "a path panics") {
				continue
			}
			code, ok := o.St.Get("status", nil)
			if !ok {
				code = "200"
			}
			b := h.body(o.St)
			if status == nil {
				r.Check(code == "200", "answer", label, "the status code is 200", "it is %s", code)
				good := len(b) == 1
				if good {
					s, ok := b[0].strVal()
					good = ok && strings.TrimSpace(s) == "OK"
				}
				r.Check(good, "answer", label, "the body is OK", "it is %v", b)
				continue
			}
			r.Check(code == "503", "answer", label, "the status code is 503", "it is %s", code)
			good := len(b) > 0
			seen := false
			for _, x := range b {
				x = ex.Resolve(o.St, x)
				if x == status || x.contains(status) {
					seen = true
				} else if s, ok := x.strVal(); ok && strings.TrimSpace(s) == "" {
				} else if s2, ok2 := status.strVal(); ok && ok2 && strings.TrimSpace(s) == s2 {
					seen = true
				} else {
					good = false
				}
			}
			r.Check(good && seen, "answer", label, "the body is the status last given", "it is %v", b)
		}
	}
	set := func(name string, arg *Term, st *State, refuse bool) []*State {
		f := p.Func("healthserver", name)
		if !r.Need(f != nil, "healthserver."+name) {
			return nil
		}
		ex.C = &Client{Sequential: true}
		var as []*Term
		if arg != nil {
			as = []*Term{arg}
		}
		var res []*State
		for _, o := range ex.Run(f, as, nil, st) {
			if refuse {
				r.Check(o.Panic, "refused", name+"("+arg.String()+")", "an empty or OK status is refused", "a path returns normally")
			} else {
				r.Check(!o.Panic, "accepted", name, "a proper status is accepted", "a path panics")
			}
			res = append(res, o.St)
		}
		r.Check(ex.err == "" && len(res) > 0, "converges", name, "the setter is analysed", "%s", ex.err)
		return res
	}
	expect("start, then health page", health, st0, nil)
	expect("start, then readiness page", ready, st0, ex.ts.Str("not ready"))
	type step struct {
		name string
		arg  *Term
	}
	mk := func(n string) *Term {
		return ex.ts.Sym("status:"+n, str)
	}
	groups := []struct {
		page        *Term
		other       *Term
		ok, bad     string
		ok2, bad2   string
		name, name2 string
	}{
		{health, ready, "SetHealthy", "SetNotHealthy", "SetReady", "SetNotReady", "health", "readiness"},
		{ready, health, "SetReady", "SetNotReady", "SetHealthy", "SetNotHealthy", "readiness", "health"},
	}
	proper := func(st *State, s *Term) *State {
		st = st.clone()
		ex.addFact(st, ex.ts.Cmp(token.EQL, s, ex.ts.Str(""), str), false)
		ex.addFact(st, ex.ts.Cmp(token.EQL, s, ex.ts.Str("OK"), str), false)
		return st
	}
	// What any earlier history may have left behind: the initial state joined
	// with the effect of every setter, until nothing changes any more.
	any := st0
	for i := 0; ; i++ {
		next := any
		step := func(sts []*State) {
			for _, s := range sts {
				next = ex.joinStates(next, s, "history", true)
			}
		}
		e1, e2 := ex.ts.Sym("earlier health", str), ex.ts.Sym("earlier readiness", str)
		step(set("SetHealthy", nil, any, false))
		step(set("SetReady", nil, any, false))
		step(set("SetNotHealthy", e1, proper(any, e1), false))
		step(set("SetNotReady", e2, proper(any, e2), false))
		if sameState(next, any) {
			break
		}
		any = next
		if i > 20 {
			r.Check(false, "converges", "histories", "the effect of any history is summed up", "no fixpoint after 20 rounds")
			return
		}
	}
	for _, g := range groups {
		a, b := mk(g.bad), mk(g.bad2)
		start := proper(proper(any, a), b)
		after := func(hist string, sts []*State, want *Term) {
			for _, st := range sts {
				expect(hist+", then "+g.name+" page", g.page, st, want)
				// the other page's setters in between change nothing
				for _, s2 := range set(g.ok2, nil, st, false) {
					expect(hist+", "+g.ok2+", then "+g.name+" page", g.page, s2, want)
				}
				for _, s2 := range set(g.bad2, b, st, false) {
					expect(hist+", "+g.bad2+", then "+g.name+" page", g.page, s2, want)
				}
				for _, x := range []string{"", "OK"} {
					for _, n := range []string{g.bad, g.bad2} {
						for _, s2 := range set(n, ex.ts.Str(x), st, true) {
							expect(hist+", refused "+n+", then "+g.name+" page", g.page, s2, want)
						}
					}
				}
			}
		}
		after(g.ok, set(g.ok, nil, start, false), nil)
		after(g.bad, set(g.bad, a, start, false), a)
		// a later call of the page's own setter replaces the earlier one
		for _, st := range set(g.bad, a, start, false) {
			after(g.bad+", "+g.ok, set(g.ok, nil, st, false), nil)
			after(g.bad+", "+g.bad, set(g.bad, b, st, false), b)
		}
		for _, st := range set(g.ok, nil, start, false) {
			after(g.ok+", "+g.bad, set(g.bad, a, st, false), a)
		}
	}
	r.Ran(ex, "healthserver histories")
}
