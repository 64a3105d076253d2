package main

import (
	"go/types"
	"strings"
	"sync/atomic"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Property{ID: "C29", MinObs: 10, Run: runPageHeaders,
		Rule: "response typestate: for every handler the package registers and every output format, headers in force when the first byte of the body (or the status line) is sent, on all paths"})
	register(&Property{ID: "C30", MinObs: 10, Run: runJsonFraming,
		Rule: "response typestate of the JSON handler: headers at the first byte, provenance of the body, status of missing metrics, compression only by request and completed on all returns"})
}

// registrationFunc: registering metrics has no bearing on the handlers.
func (p *Program) registrationFunc(f *ssa.Function) bool {
	if f.Pkg != p.Pkg("tricorder") || f.Signature.Recv() != nil {
		return false
	}
	return strings.HasPrefix(f.Name(), "Register")
}

// handlersOf: the handlers of a package and the state they start in.
func (r *Report) handlersOf(pkg string, hooks ...func(c *Client)) (*Exec, *State, map[string]*Term) {
	ex, st, regs := r.initRunWith(pkg, func(f *ssa.Function) bool { return r.P.registrationFunc(f) }, nil, nil, hooks...)
	if ex == nil {
		return nil, nil, nil
	}
	pages := map[string]*Term{}
	for _, g := range regs {
		pages[g.Pattern] = g.H
	}
	// the process has been running for a while
	for c := range st.mem {
		if ex.fieldImmutable(c) || c.Op == OGlobal && r.P.constGlobal(c.Aux.(*ssa.Global)) {
			continue
		}
		if c.Op == OElem && objOf(c).Op == OGlobal {
			continue
		}
		delete(st.mem, c)
	}
	for c, v := range st.mem {
		_ = c
		ex.publish(st, v)
	}
	st.gEpoch = "later"
	return ex, st, pages
}

// requestModel answers questions about the request.
func requestModel(vals map[string]string, h *httpTrack) func(ex *Exec, c *callCtx) ([]Outcome, bool) {
	return func(ex *Exec, c *callCtx) ([]Outcome, bool) {
		var key *Term
		pre := ""
		switch c.name {
		case "(net/url.Values).Get":
			key, pre = c.args[1], "form:"
		case "(*net/http.Request).FormValue", "(*net/http.Request).PostFormValue":
			key, pre = c.args[1], "form:"
		case "(net/http.Header).Get":
			if !h.isHeader(c.args[0]) {
				key, pre = c.args[1], "header:"
			}
		}
		if key == nil {
			return nil, false
		}
		k, ok := ex.Resolve(c.st, key).strVal()
		if !ok {
			return nil, false
		}
		v, ok := vals[pre+k]
		if !ok {
			return nil, false
		}
		return []Outcome{{St: c.st, Ret: []*Term{ex.ts.Str(v)}}}, true
	}
}

func (r *Report) servePage(ex *Exec, h *httpTrack, label string, H *Term, st *State, more func(c *Client)) []Outcome {
	c := h.client()
	// Code of other packages that is given no writer, handler or function
	// cannot touch the response.
	self := r.P.Pkg("tricorder")
	c.Inline = func(f *ssa.Function) bool {
		if f.Pkg == self || f.Pkg == nil {
			return true
		}
		for _, prm := range f.Params {
			switch prm.Type().Underlying().(type) {
			case *types.Interface, *types.Signature:
				return true
			}
		}
		return false
	}
	if more != nil {
		more(c)
	}
	ex.C = c
	req := ex.ts.Sym("request", types.NewPointer(r.P.libType("net/http", "Request")))
	fin := r.P.Pkg("tricorder").Func("init")
	outs := ex.RunWith(label, func(st *State) []Outcome {
		return ex.serve(ex.entryCtx(label, fin, []*Term{h.w, req}, st), H)
	}, st)
	r.Check(ex.err == "" && len(outs) > 0, "converges", label, "the page is analysed", "%s", ex.err)
	return outs
}

func goodCSP(v string) (bool, string) {
	dirs := map[string]string{}
	for _, d := range strings.Split(v, ";") {
		f := strings.Fields(d)
		if len(f) > 0 {
			dirs[strings.ToLower(f[0])] = " " + strings.ToLower(strings.Join(f[1:], " ")) + " "
		}
	}
	script, ok := dirs["script-src"]
	if !ok {
		if script, ok = dirs["default-src"]; !ok {
			return false, "it does not restrict scripts"
		}
	}
	if _, ok := dirs["default-src"]; !ok {
		return false, "it has no default-src"
	}
	for _, s := range []string{script, dirs["default-src"]} {
		for _, w := range []string{" * ", " 'unsafe-inline' ", " 'unsafe-eval' ", " data: ", " http: ", " https: "} {
			if strings.Contains(s, w) {
				return false, "it allows scripts from" + w
			}
		}
	}
	return true, ""
}

func runPageHeaders(r *Report) {
	type page struct{ pattern, name string }
	n := 0
	for _, format := range []string{"text", "", "html"} {
		ex, st, pages := r.handlersOf("tricorder")
		if ex == nil {
			return
		}
		for _, pg := range []page{{"/metrics/", "metrics page"}, {"/has-tricorder-metrics", "presence page"}} {
			H := pages[pg.pattern]
			label := pg.name + " with format=" + format
			if !r.Check(H != nil, "pages", pg.pattern, "the page has a handler", "none is registered") {
				continue
			}
			h := &httpTrack{w: ex.ts.Sym("writer", nil), pieces: map[string]*Term{}, r: r, noBody: true}
			h.inner = requestModel(map[string]string{"form:format": format}, h)
			h.first = func(ex *Exec, st *State, c *callCtx) {
				if ex.muted > 0 {
					return
				}
				n++
				where := label + " at " + r.P.InstrPos(c.in)
				fo := strings.ToUpper(header(st, "X-Frame-Options"))
				r.Check(fo == "DENY" || fo == "SAMEORIGIN", "frame", where, "framing is forbidden before the body starts", "X-Frame-Options is %q", fo)
				xss := header(st, "X-Xss-Protection")
				r.Check(strings.HasPrefix(xss, "1"), "xss", where, "the XSS filter is on before the body starts", "X-XSS-Protection is %q", xss)
				ok, why := goodCSP(header(st, "Content-Security-Policy"))
				r.Check(ok, "csp", where, "content is restricted before the body starts", "Content-Security-Policy is %q: %s", header(st, "Content-Security-Policy"), why)
				if pg.pattern == "/metrics/" {
					ct := strings.ToLower(header(st, "Content-Type"))
					plain := strings.HasPrefix(ct, "text/plain")
					if format == "text" {
						r.Check(plain, "text", where, "text output is plain text before its first byte", "Content-Type is %q", ct)
					} else {
						r.Check(!plain, "text", where, "only text output is marked as plain text", "Content-Type is %q", ct)
					}
				}
			}
			h.late = func(ex *Exec, st *State, c *callCtx, what string) {
				if ex.muted > 0 {
					return
				}
				switch what {
				case "X-Frame-Options", "X-Xss-Protection", "Content-Security-Policy", "Content-Type":
					r.Check(false, "late", label+" at "+r.P.InstrPos(c.in), "headers are set before the body starts", "%s is set after it", what)
				}
			}
			for _, o := range r.servePage(ex, h, label, H, st.clone(), nil) {
				if o.Panic {
					continue
				}
				_, begun := o.St.Get("begun", nil)
				if !begun {
					// an empty response is sent with the headers set so far
					h.first(ex, o.St, ex.entryCtx(label, r.P.Pkg("tricorder").Func("init"), nil, o.St))
				}
			}
		}
		r.Ran(ex, "pages with format="+format)
	}
	r.Min("response starts", 3, n)
}

// encodedIn: the encoding a text consists of, apart from layout.
func encodedIn(t *Term) *Term {
	for {
		switch {
		case t.Op == OCall && t.Aux == "encoding/json.Marshal":
			return t
		case t.Op == OCall && (t.Aux == "encoding/json.Indent" || t.Aux == "encoding/json.Compact"):
			t = t.Args[0]
		case t.Op == OExtract && t.I == 0, t.Op == OConv && len(t.Args) == 1:
			t = t.Args[0]
		case t.Op == OConcat:
			var rest []*Term
			for _, a := range t.Args {
				if s, ok := a.strVal(); !ok || strings.TrimSpace(s) != "" {
					rest = append(rest, a)
				}
			}
			if len(rest) != 1 {
				return nil
			}
			t = rest[0]
		default:
			return nil
		}
	}
}

func runJsonFraming(r *Report) {
	var n atomic.Int64
	type kase struct {
		singleton, accept string
		empty             bool
	}
	var cases []kase
	for _, s := range []string{"", "true"} {
		for _, a := range []string{"", "identity", "deflate, br;q=0.5", "gzip", "gzip, deflate", "deflate, gzip;q=1.0, *;q=0.5"} {
			cases = append(cases, kase{s, a, false})
		}
	}
	cases = append(cases, kase{"true", "", true}, kase{"true", "gzip", true}, kase{"1", "", true})
	p := r.P
	msg := p.Named("tricorder/messages", "Metric")
	if !r.Need(msg != nil, "messages.Metric") {
		return
	}
	parallel(len(cases), func(i int) {
		k := cases[i]
		ex, st, pages := r.handlersOf("tricorder")
		if ex == nil {
			return
		}
		H := pages["/metricsapi/"]
		if !r.Check(H != nil, "pages", "/metricsapi/", "the JSON endpoint has a handler", "none is registered") {
			return
		}
		label := "JSON endpoint"
		if k.singleton != "" {
			label += " singleton=" + k.singleton
		}
		if k.accept != "" {
			label += " Accept-Encoding: " + k.accept
		}
		if k.empty {
			label += " on an empty tree"
		}
		h := &httpTrack{w: ex.ts.Sym("writer", nil), pieces: map[string]*Term{}, r: r}
		h.inner = requestModel(map[string]string{"form:singleton": k.singleton, "header:Accept-Encoding": k.accept}, h)
		h.first = func(ex *Exec, st *State, c *callCtx) {
			if ex.muted > 0 {
				return
			}
			n.Add(1)
			where := label + " at " + p.InstrPos(c.in)
			ct := strings.ToLower(header(st, "Content-Type"))
			good := strings.HasPrefix(ct, "application/json")
			if _, er := st.Get("error reply", nil); er && strings.HasPrefix(ct, "text/plain") {
				good = true // an error is sent as text
			}
			r.Check(good, "type", where, "the content type is set before the body starts", "it is %q", ct)
			mt := header(st, "X-Tricorder-Media-Type")
			r.Check(strings.HasPrefix(mt, "tricorder.v"), "type", where, "the media type is set before the body starts", "it is %q", mt)
		}
		h.late = func(ex *Exec, st *State, c *callCtx, what string) {
			if ex.muted > 0 || c.name == "net/http.Error" {
				return
			}
			switch what {
			case "Content-Type", "X-Tricorder-Media-Type", "Content-Encoding":
				r.Check(false, "late", label+" at "+p.InstrPos(c.in), "headers are set before the body starts", "%s is set after it", what)
			}
		}
		mayGz := strings.Contains(k.accept, "gzip")
		outs := r.servePage(ex, h, label, H, st.clone(), func(c *Client) {
			if !k.empty {
				return
			}
			c.Load = func(ex *Exec, st *State, addr *Term, typ types.Type) *Term {
				if addr.Op == OLookup && addr.I == 1 {
					if _, ok := addr.Args[0].T.Underlying().(*types.Map); ok && addr.Args[0].Op == OLoad {
						return ex.ts.Bool(false)
					}
				}
				return nil
			}
		})
		for _, o := range outs {
			if o.Panic {
				continue
			}
			enc := header(o.St, "Content-Encoding")
			gz, usedGz := o.St.Get("gz", nil)
			_, plain := o.St.Get("plain", nil)
			if !mayGz {
				r.Check(!usedGz && enc == "", "gzip", label, "responses are compressed only for clients that accept it", "Content-Encoding is %q, compressor %s", enc, gz)
			} else if usedGz || enc != "" {
				r.Check(enc == "gzip" && usedGz, "gzip", label, "a compressed response is announced and only then compressed", "Content-Encoding is %q, compressor %q", enc, gz)
				r.Check(gz == "closed", "gzip", label, "the compressed stream is completed", "the compressor is left %s", gz)
				r.Check(!plain, "gzip", label, "nothing bypasses the compressor", "some of the body is written directly to the response")
			}
			code, ok := o.St.Get("status", nil)
			if !ok {
				code = "200"
			}
			body := h.body(o.St)
			if k.empty {
				r.Check(code == "404", "missing", label, "a single metric that does not exist is answered with 404", "the status is %s, the body %v", code, body)
				continue
			}
			if code[0] != '2' && code != "?" {
				continue
			}
			good := len(body) == 1
			var enc1 *Term
			if good {
				enc1 = encodedIn(body[0])
				good = enc1 != nil
			}
			if !good {
				// the encoder failed
				for f, v := range o.St.facts {
					if !v && f.Op == OCmp && f.anyTerm(func(t *Term) bool {
						return t.Op == OExtract && t.I == 1 && t.Args[0].Op == OCall && t.Args[0].Aux == "encoding/json.Marshal"
					}) {
						good = true
					}
				}
				r.Check(good, "body", label, "a successful response is the encoding of metrics", "the body is %v", body)
				continue
			}
			what := enc1.Args[0]
			t := what.T
			if what.Op == OIface {
				t, _ = what.Aux.(types.Type)
			}
			isMsg := func(t types.Type) bool {
				pt, ok := t.Underlying().(*types.Pointer)
				return ok && sameStruct(pt.Elem(), msg) || sameStruct(t, msg)
			}
			single := t != nil && isMsg(t)
			list := false
			if t != nil {
				if sl, ok := t.Underlying().(*types.Slice); ok {
					list = isMsg(sl.Elem())
				}
			}
			if k.singleton != "" {
				r.Check(single, "body", label, "the body is the one metric asked for", "what is encoded is a %v", t)
			} else {
				r.Check(list, "body", label, "the body is a list of metrics", "what is encoded is a %v", t)
			}
		}
		r.Ran(ex, label)
	})
	r.Min("response starts", 3, int(n.Load()))
}
