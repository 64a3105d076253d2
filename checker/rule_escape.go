package main

import (
	"fmt"
	"go/types"
	"strings"
	"sync/atomic"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Property{ID: "C28", MinObs: 500, Run: runC28,
		Rule: "every page the packages register is interpreted on trees that hold each type of metric (as for C21) and on paths that do not exist: what reaches a response that a browser may take for HTML is constant text, a number, text that was escaped, or the output of an html/template whose printed values are not of a type that template trusts"})
}

// plainType: a browser does not take a response of this type for HTML.
func plainType(ct string) bool {
	ct = strings.ToLower(strings.TrimSpace(ct))
	for _, p := range []string{"text/plain", "text/css", "text/csv", "application/json", "application/octet-stream", "image/png", "text/javascript", "application/javascript"} {
		if strings.HasPrefix(ct, p) {
			return true
		}
	}
	return false
}

// harmless: text that cannot hold markup of a client's.
func harmless(ex *Exec, st *State, t *Term) (bool, string) {
	seen := map[*Term]bool{}
	var bad *Term
	var walk func(t *Term, deep int) bool
	no := func(t *Term) bool {
		if bad == nil {
			bad = t
		}
		return false
	}
	walk = func(t *Term, deep int) bool {
		t = ex.Resolve(st, t)
		if seen[t] {
			return true
		}
		seen[t] = true
		if deep > 40 {
			return no(t)
		}
		if t.Op == OConst || t.isNil() {
			return true
		}
		if t.T != nil {
			if b, ok := t.T.Underlying().(*types.Basic); ok && b.Info()&(types.IsNumeric|types.IsBoolean) != 0 {
				return true
			}
		}
		if alts := t.alts(); len(alts) > 1 || len(alts) == 1 && alts[0] != t {
			for _, a := range alts {
				if !walk(a, deep+1) {
					return false
				}
			}
			return true
		}
		all := func() bool {
			for _, a := range t.Args {
				if !walk(a, deep+1) {
					return false
				}
			}
			return true
		}
		switch t.Op {
		case OSym:
			if s, ok := t.Aux.(string); ok && strings.HasPrefix(s, "page:") || strings.HasPrefix(t.S, "page:") {
				return true
			}
			return no(t)
		case OConcat, OConv, OIface, OExtract:
			if t.Op == OConv && len(t.Args) == 1 {
				if b, ok := t.Args[0].T.Underlying().(*types.Basic); ok && b.Info()&types.IsInteger != 0 && isString(t.T) {
					return no(t) // a character
				}
			}
			return all()
		case OLoad:
			if f := ex.frozenOf(t.Args[0]); f != nil {
				return true
			}
			if t.Args[0].Op == OElem {
				if f := ex.frozenOf(t.Args[0].Args[0]); f != nil && !f.isMap {
					for _, v := range f.vals {
						if !walk(v, deep+1) {
							return false
						}
					}
					return true
				}
			}
			return no(t)
		case OCall:
			n, _ := t.Aux.(string)
			switch n {
			case "html.EscapeString", "html/template.HTMLEscapeString", "html/template.HTMLEscaper", "text/template.HTMLEscapeString", "text/template.HTMLEscaper",
				"net/url.QueryEscape", "net/http.StatusText",
				"strconv.Itoa", "strconv.FormatInt", "strconv.FormatUint", "strconv.FormatFloat", "strconv.FormatBool",
				"(time.Time).String", "(time.Duration).String", "encoding/json.Marshal":
				return true
			case "strings.TrimSpace", "strings.ToLower", "strings.ToUpper", "encoding/json.Indent", "encoding/json.Compact":
				return walk(t.Args[0], deep+1)
			}
			if strings.HasPrefix(n, "printed:") {
				return all()
			}
			return no(t)
		}
		return no(t)
	}
	if walk(t, 0) {
		return true, ""
	}
	return false, fmt.Sprint(bad)
}

// trusted: html/template prints values of this type as they are.
func trusted(T types.Type) bool {
	if pt, ok := types.Unalias(T).(*types.Pointer); ok {
		T = pt.Elem()
	}
	n, ok := types.Unalias(T).(*types.Named)
	if !ok || n.Obj().Pkg() == nil || n.Obj().Pkg().Path() != "html/template" {
		return false
	}
	switch n.Obj().Name() {
	case "HTML", "HTMLAttr", "CSS", "JS", "JSStr", "URL", "Srcset":
		return true
	}
	return false
}

// escapes watches what reaches responses.
type escapes struct {
	r      *Report
	prints atomic.Int64
	writes atomic.Int64
}

func (e *escapes) watch(label string, h *httpTrack, cl *Client) {
	r := e.r
	h.note = func(ex *Exec, st *State, t *Term) {
		if ex.muted > 0 {
			return
		}
		e.writes.Add(1)
		ct := header(st, "Content-Type")
		if plainType(ct) {
			r.Check(true, "written", label, "a browser does not take it for HTML", "")
			return
		}
		ok, why := harmless(ex, st, t)
		r.Check(ok, "written", label, "text written to a page that may be HTML is constant or escaped", "%s is written as it is (Content-Type %q)", why, ct)
	}
	event := cl.Event
	cl.Event = func(ex *Exec, st *State, ev *Event) {
		if event != nil {
			event(ex, st, ev)
		}
		if ex.muted > 0 || ev.Kind != EvExt {
			return
		}
		switch ev.Name {
		case evTmplPrint:
			e.prints.Add(1)
			T := ev.T
			if T == nil {
				T = ex.dynType(st, ev.Args[0])
			}
			known := T != nil
			if known {
				if _, ok := T.Underlying().(*types.Interface); ok {
					T = ex.dynType(st, ev.Args[0])
					known = T != nil
				}
			}
			if !known {
				ok, _ := harmless(ex, st, ev.Args[0])
				r.Check(ok, "printed", label, "the type of what the template prints is known", "%s prints %v", r.where(ev), ev.Args[0])
				return
			}
			if trusted(T) {
				ok, why := harmless(ex, st, ev.Args[0])
				r.Check(ok, "printed", label, "the template escapes what it prints", "%s prints %s as %v", r.where(ev), why, T)
				return
			}
			r.Check(true, "printed", label, "the template escapes what it prints", "")
		case evTmplRaw:
			e.prints.Add(1)
			if plainType(header(st, "Content-Type")) {
				return
			}
			ok, why := harmless(ex, st, ev.Args[0])
			r.Check(ok, "printed", label, "the template escapes what it prints", "%s prints %s with a template that does not escape", r.where(ev), why)
		case evTmplGap:
			r.Check(false, "template", label, "the template is understood", "%s: %v", r.where(ev), ev.Args)
		}
	}
	ext := cl.Ext
	cl.Ext = func(ex *Exec, c *callCtx) ([]Outcome, bool) {
		switch c.name {
		case "fmt.Sprintf", "fmt.Sprint", "fmt.Sprintln":
			rest := c.args[len(c.args)-1]
			elems := []*Term{}
			if !rest.isNil() {
				if elems = ex.sliceElems(c.st, rest, rest.T); elems == nil {
					elems = []*Term{rest}
				}
			}
			as := []*Term{}
			if c.name == "fmt.Sprintf" {
				as = append(as, c.args[0])
			}
			for _, x := range elems {
				as = append(as, textOf(ex, c.st, stripIface(x)))
			}
			return []Outcome{{St: c.st, Ret: []*Term{ex.ts.mk(Term{Op: OCall, Aux: "printed:" + c.name, Args: as, T: types.Typ[types.String]})}}}, true
		}
		if o, ok := ext(ex, c); ok {
			return o, true
		}
		// a writer in unknown hands
		if ex.muted == 0 && !strings.HasPrefix(c.name, "(net/http.Handler)") {
			for _, a := range c.args {
				if stripIface(a) != h.w {
					continue
				}
				for _, b := range c.args {
					if b == a || b.T == nil {
						continue
					}
					if !isString(b.T.Underlying()) && types.TypeString(b.T, nil) != "[]byte" {
						continue
					}
					if ok, why := harmless(ex, c.st, b); !ok && !plainType(header(c.st, "Content-Type")) && c.name != "net/http.Redirect" {
						r.Check(false, "written", label, "text written to a page that may be HTML is constant or escaped", "%s is given to %s with the response", why, c.name)
					}
				}
			}
		}
		return nil, false
	}
}

func runC28(r *Report) {
	e := &escapes{r: r}
	m := newValueModel(r)
	if m == nil {
		return
	}
	// pages on trees that hold a metric
	cases := m.cases()
	shown := atomic.Int64{}
	ways := []valueWay{}
	for _, w := range m.ways() {
		if w.page != "" {
			ways = append(ways, w)
		}
	}
	parallel(len(cases), func(i int) {
		c := cases[i]
		ex, st0, pages := r.handlersOf("tricorder", m.rm.hook)
		if ex == nil {
			return
		}
		defer r.Ran(ex, "pages on a "+c.label)
		made, _ := m.registered(ex, c, st0)
		for _, mm := range made {
			for _, w := range ways {
				for _, fin := range []string{metricItem, dirEntry} {
					label := fmt.Sprintf("%s on a metric of type %s", w.label, c.label)
					if fin == dirEntry {
						label = fmt.Sprintf("%s above a metric of type %s", w.label, c.label)
					}
					if len(m.shows(ex, c, w, fin, mm, pages, label, func(h *httpTrack, cl *Client) { e.watch(label, h, cl) })) > 0 {
						shown.Add(1)
					}
				}
			}
		}
	})
	r.Min("pages shown", 500, int(shown.Load()))
	// every page, whatever is found
	n := 0
	for _, pkg := range []string{"tricorder", "healthserver"} {
		ex, st, pages := r.handlersOf(pkg)
		if ex == nil {
			return
		}
		for _, pat := range sortedKeys(pages) {
			h := &httpTrack{w: ex.ts.Sym("writer", nil), pieces: map[string]*Term{}, r: r, noBody: true}
			label := "page " + pat
			outs := r.servePage(ex, h, label, pages[pat], st.clone(), func(cl *Client) {
				self := r.P.Pkg(pkg)
				inline := cl.Inline
				cl.Inline = func(f *ssa.Function) bool { return f.Pkg == self || inline(f) }
				e.watch(label, h, cl)
			})
			if len(outs) > 0 {
				n++
			}
		}
		r.Ran(ex, "pages of "+pkg)
	}
	r.Min("pages", 5, n)
	r.Min("values printed by templates", 500, int(e.prints.Load()))
	r.Min("texts written", 500, int(e.writes.Load()))
}
