package main

import (
	"fmt"
	"go/types"
	"mime"
	"net/http"
	"path"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Registered is a handler the package installs when it is initialised.
type Registered struct {
	Pattern string
	H       *Term
}

// initRun interprets a package's initialisation and collects the handlers it
// registers. Further code can be run from the returned states in the same Exec.
func (r *Report) initRun(pkg string, skip func(*ssa.Function) bool) (*Exec, *State, []Registered) {
	return r.initRunWith(pkg, skip, nil, nil)
}

func (r *Report) initRunWith(pkg string, skip func(*ssa.Function) bool, sw *sweeps, extra func(ex *Exec, st *State, ev *Event), hooks ...func(c *Client)) (*Exec, *State, []Registered) {
	p := r.P
	sp := p.Pkg(pkg)
	if !r.Need(sp != nil && sp.Func("init") != nil, "package "+pkg) {
		return nil, nil, nil
	}
	fn := sp.Func("init")
	var regs []Registered
	c := &Client{Sequential: true}
	if sw != nil {
		c.Back = sw.back
	}
	c.Inline = func(f *ssa.Function) bool {
		if f.Pkg != sp && f.Pkg != nil && f.Name() == "init" {
			return false
		}
		return skip == nil || !skip(f)
	}
	c.Event = func(ex *Exec, st *State, ev *Event) {
		if extra != nil {
			extra(ex, st, ev)
		}
		if ex.muted > 0 || ev.Kind != EvExt {
			return
		}
		switch ev.Name {
		case "(*net/http.ServeMux).Handle", "(*net/http.ServeMux).HandleFunc":
			if pat, ok := ex.Resolve(st, ev.Args[1]).strVal(); ok {
				regs = append(regs, Registered{"mux:" + pat, ev.Args[2]})
			}
		case "net/http.Handle", "net/http.HandleFunc":
			pat, ok := ex.Resolve(st, ev.Args[0]).strVal()
			if r.Check(ok, "handlers", r.where(ev), "the pattern of a registered handler is known", "it is %s", ev.Args[0]) {
				regs = append(regs, Registered{pat, ev.Args[1]})
			}
		}
	}
	for _, h := range hooks {
		h(c)
	}
	ex := NewExec(p, c)
	st := newState()
	// every package variable starts out zero (also the guard that makes
	// initialisation run once)
	for _, m := range sp.Members {
		if g, ok := m.(*ssa.Global); ok {
			typ := derefType(g.Type())
			ex.Store(st, ex.ts.mk(Term{Op: OGlobal, Aux: g, T: g.Type()}), ex.zero(typ), typ, "start")
		}
	}
	st.fEpoch = newState().fEpoch
	outs := ex.Run(fn, nil, nil, st)
	r.Ran(ex, p.fname(fn))
	var fin *State
	for i, o := range outs {
		if o.Panic {
			continue
		}
		if fin == nil {
			fin = o.St
		} else {
			fin = ex.joinStates(fin, o.St, fmt.Sprintf("init%d", i), false)
		}
	}
	if !r.Check(fin != nil, "handlers", p.fname(fn), "initialisation completes", "no path through it returns: %s", ex.err) {
		return nil, nil, nil
	}
	return ex, fin, regs
}

// --- response tracking -----------------------------------------------------

// httpTrack follows what a handler does to a response:
//
//	hdr:Name    the value a header has
//	status      the status code (absent: 200 when the body starts)
//	begun       the body (or status line) has been sent
//	body        ids of the pieces written, in order of first appearance
//	gz          state of a compressing writer on top of the response
type httpTrack struct {
	w      *Term
	pieces map[string]*Term
	late   func(ex *Exec, st *State, c *callCtx, what string)
	first  func(ex *Exec, st *State, c *callCtx)
	r      *Report
	noBody bool // do not tell the pieces of the body apart
	inner  func(ex *Exec, c *callCtx) ([]Outcome, bool)
	note   func(ex *Exec, st *State, t *Term) // what is written
}

func (h *httpTrack) kindOf(t *Term) string {
	t = stripIface(t)
	switch {
	case t == h.w:
		return "w"
	case t.Op == OCall && (t.Aux == "compress/gzip.NewWriter" || t.Aux == "compress/gzip.NewWriterLevel") && stripIface(t.Args[0]) == h.w:
		return "gz"
	case t.Op == OExtract && t.Args[0].Op == OCall && t.Args[0].Aux == "compress/gzip.NewWriterLevel" && stripIface(t.Args[0].Args[0]) == h.w:
		return "gz"
	}
	return ""
}

func stripIface(t *Term) *Term {
	for t.Op == OIface {
		t = t.Args[0]
	}
	return t
}

func (h *httpTrack) begin(ex *Exec, st *State, c *callCtx) {
	if _, ok := st.Get("begun", nil); !ok {
		if h.first != nil {
			h.first(ex, st, c)
		}
		st.Set("begun", nil, "1")
	}
}

func (h *httpTrack) piece(ex *Exec, st *State, c *callCtx, via string, t *Term) {
	h.begin(ex, st, c)
	if via == "gz" {
		if v, _ := st.Get("gz", nil); v == "closed" {
			st.Set("gz", nil, "written after close")
		} else {
			st.Set("gz", nil, "open")
		}
	}
	if via == "w" {
		st.Set("plain", nil, "1")
	}
	if h.note != nil {
		h.note(ex, st, t)
	}
	if h.noBody {
		return
	}
	id := fmt.Sprint(t.id)
	h.pieces[id] = t
	v, _ := st.Get("body", nil)
	for _, x := range strings.Split(v, ",") {
		if x == id {
			return
		}
	}
	st.Set("body", nil, strings.TrimPrefix(v+","+id, ","))
}

func (h *httpTrack) body(st *State) []*Term {
	v, ok := st.Get("body", nil)
	if !ok {
		return nil
	}
	var ts []*Term
	for _, x := range strings.Split(v, ",") {
		ts = append(ts, h.pieces[x])
	}
	return ts
}

func (h *httpTrack) setHeader(ex *Exec, st *State, c *callCtx, k, v *Term) {
	ks, ok := ex.Resolve(st, k).strVal()
	if !ok {
		return
	}
	ks = http.CanonicalHeaderKey(ks)
	if _, b := st.Get("begun", nil); b && h.late != nil {
		h.late(ex, st, c, ks)
	}
	if _, b := st.Get("begun", nil); b {
		return // has no effect any more
	}
	if s, ok := ex.Resolve(st, v).strVal(); ok {
		st.Set("hdr:"+ks, nil, s)
	} else {
		st.Set("hdr:"+ks, nil, "?")
	}
}

func header(st *State, k string) string {
	v, _ := st.Get("hdr:"+k, nil)
	return v
}

func (h *httpTrack) isHeader(t *Term) bool {
	return t.Op == OCall && t.Aux == "(net/http.ResponseWriter).Header" && stripIface(t.Args[0]) == h.w
}

// method finds a repository implementation of a writer's method.
func (h *httpTrack) method(ex *Exec, st *State, w *Term, name string) (*ssa.Function, *Term) {
	if h.kindOf(w) != "" {
		return nil, nil
	}
	dyn := ex.dynType(st, w)
	if dyn == nil {
		return nil, nil
	}
	sel := ex.P.Prog.MethodSets.MethodSet(dyn).Lookup(nil, name)
	if sel == nil {
		return nil, nil
	}
	f := ex.P.Prog.MethodValue(sel)
	if f == nil || f.Blocks == nil {
		return nil, nil
	}
	return f, ex.assertVal(st, w, dyn)
}

// write sends piece t to writer w.
func (h *httpTrack) write(ex *Exec, c *callCtx, st *State, w, t *Term) []Outcome {
	if k := h.kindOf(w); k != "" {
		h.piece(ex, st, c, k, t)
		return []Outcome{{St: st}}
	}
	if b := bufferOf(ex, st, w); b != nil {
		ex.bufAdd(st, b, t)
		return []Outcome{{St: st}}
	}
	if f, recv := h.method(ex, st, w, "Write"); f != nil {
		d := *c
		d.st = st
		d.args = []*Term{recv, t}
		return ex.callFn(&d, f, nil)
	}
	return []Outcome{{St: st}}
}

func (h *httpTrack) writeHeader(ex *Exec, c *callCtx, st *State, w, code *Term) []Outcome {
	if h.kindOf(w) == "w" {
		h.begin(ex, st, c)
		if _, ok := st.Get("status", nil); !ok {
			v := "?"
			if n, ok := ex.Resolve(st, code).intVal(); ok {
				v = fmt.Sprint(n)
			}
			st.Set("status", nil, v)
		}
		return []Outcome{{St: st}}
	}
	if f, recv := h.method(ex, st, w, "WriteHeader"); f != nil {
		d := *c
		d.st = st
		d.args = []*Term{recv, code}
		return ex.callFn(&d, f, nil)
	}
	return []Outcome{{St: st}}
}

func (h *httpTrack) client() *Client {
	c := &Client{Panics: true}
	c.Ext = func(ex *Exec, c *callCtx) ([]Outcome, bool) {
		if h.inner != nil {
			if outs, ok := h.inner(ex, c); ok {
				return outs, true
			}
		}
		st, a := c.st, c.args
		fin := func(outs []Outcome, rets []*Term) ([]Outcome, bool) {
			for i := range outs {
				if !outs[i].Panic {
					outs[i].Ret = rets
				}
			}
			return outs, true
		}
		rets := func() []*Term {
			if c.sig == nil {
				return nil
			}
			rs := ex.unknownResults(c.sig, c.name, ex.site(c.fr, c.in), nil)
			for _, x := range rs {
				ex.regen(st, x.regenRoot())
			}
			return rs
		}
		switch c.name {
		case "(net/http.Header).Set", "(net/http.Header).Add", "(net/http.Header).Del":
			if h.isHeader(a[0]) {
				v := ex.ts.Str("")
				if len(a) > 2 {
					v = a[2]
				}
				h.setHeader(ex, st, c, a[1], v)
				return []Outcome{{St: st}}, true
			}
		case "(net/http.ResponseWriter).Header":
			if stripIface(a[0]) == h.w {
				return []Outcome{{St: st, Ret: []*Term{ex.ts.mk(Term{Op: OCall, Aux: c.name, Args: []*Term{stripIface(a[0])}, T: c.sig.Results().At(0).Type()})}}}, true
			}
		case "(net/http.ResponseWriter).WriteHeader":
			return fin(h.writeHeader(ex, c, st, a[0], a[1]), nil)
		case "(net/http.ResponseWriter).Write", "(io.Writer).Write", "(*compress/gzip.Writer).Write":
			if h.kindOf(a[0]) != "" {
				return fin(h.write(ex, c, st, a[0], textOf(ex, st, a[1])), rets())
			}
		case "io.WriteString":
			return fin(h.write(ex, c, st, a[0], textOf(ex, st, a[1])), rets())
		case "fmt.Fprint", "fmt.Fprintf", "fmt.Fprintln":
			return fin(h.write(ex, c, st, a[0], ex.printed(st, c)), rets())
		case "net/http.Error":
			h.headerOn(ex, c, st, a[0], "Content-Type", "text/plain; charset=utf-8")
			outs := h.writeHeader(ex, c, st, a[0], a[2])
			var res []Outcome
			for _, o := range outs {
				if o.Panic {
					res = append(res, o)
					continue
				}
				res = append(res, h.write(ex, c, o.St, a[0], textOf(ex, o.St, a[1]))...)
			}
			return fin(res, nil)
		case "net/http.NotFound":
			outs := h.writeHeader(ex, c, st, a[0], ex.ts.Int(404))
			return fin(outs, nil)
		case "(*compress/gzip.Writer).Close", "(*compress/gzip.Writer).Flush":
			if h.kindOf(a[0]) == "gz" {
				h.begin(ex, st, c)
				if strings.HasSuffix(c.name, "Close") {
					if v, _ := st.Get("gz", nil); v != "written after close" {
						st.Set("gz", nil, "closed")
					}
				}
				return fin([]Outcome{{St: st}}, rets())
			}
		case "compress/gzip.NewWriter", "compress/gzip.NewWriterLevel":
			if h.kindOf(a[0]) == "w" {
				st.Set("gz", nil, "open")
				t := ex.ts.mk(Term{Op: OCall, Aux: c.name, Args: []*Term{stripIface(a[0])}, T: c.sig.Results().At(0).Type()})
				if c.sig.Results().Len() == 2 {
					return []Outcome{{St: st, Ret: []*Term{ex.ts.mk(Term{Op: OExtract, Args: []*Term{t}, I: 0, T: c.sig.Results().At(0).Type()}), ex.ts.Nil(nil)}}}, true
				}
				return []Outcome{{St: st, Ret: []*Term{t}}}, true
			}
		case "bufio.NewWriter", "bufio.NewWriterSize":
			return []Outcome{{St: st, Ret: []*Term{ex.ts.mk(Term{Op: OCall, Aux: "bufio.NewWriter", Args: []*Term{a[0]}, T: c.sig.Results().At(0).Type()})}}}, true
		case "(*bufio.Writer).Write", "(*bufio.Writer).WriteString":
			return fin(h.write(ex, c, st, a[0], textOf(ex, st, a[1])), rets())
		case "(*bufio.Writer).Flush":
			if a[0].Op == OCall && a[0].Aux == "bufio.NewWriter" {
				if t := ex.bufText(st, a[0]); t != ex.ts.Str("") {
					return fin(h.write(ex, c, st, a[0].Args[0], t), rets())
				}
			}
			return fin([]Outcome{{St: st}}, rets())
		case "(*bytes.Buffer).WriteTo":
			return fin(h.write(ex, c, st, a[1], ex.bufText(st, a[0])), rets())
		case "io.Copy":
			return fin(h.write(ex, c, st, a[0], ex.bufText(st, stripIface(a[1]))), rets())
		case "encoding/json.Indent", "encoding/json.Compact":
			ex.bufAdd(st, a[0], ex.ts.mk(Term{Op: OCall, Aux: c.name, Args: []*Term{textOf(ex, st, a[1])}}))
			return fin([]Outcome{{St: st}}, rets())
		case "(*bytes.Buffer).Write", "(*bytes.Buffer).WriteString", "(*strings.Builder).Write", "(*strings.Builder).WriteString":
			ex.bufAdd(st, a[0], textOf(ex, st, a[1]))
			return fin([]Outcome{{St: st}}, rets())
		case "(*bytes.Buffer).Bytes", "(*bytes.Buffer).String", "(*strings.Builder).String":
			return []Outcome{{St: st, Ret: []*Term{ex.bufText(st, a[0])}}}, true
		case "(*encoding/json.Encoder).Encode":
			if e := a[0]; e.Op == OCall && e.Aux == "encoding/json.NewEncoder" {
				t := ex.ts.mk(Term{Op: OCall, Aux: "encoding/json.Marshal", S: "enc", Args: []*Term{ex.jsonArg(st, a[1])}})
				if stripIface(e.Args[0]).Op == OAlloc {
					ex.bufAdd(st, stripIface(e.Args[0]), t)
					return fin([]Outcome{{St: st}}, rets())
				}
				return fin(h.write(ex, c, st, e.Args[0], t), rets())
			}
		case "encoding/json.NewEncoder":
			return []Outcome{{St: st, Ret: []*Term{ex.ts.mk(Term{Op: OCall, Aux: c.name, Args: []*Term{a[0]}, T: c.sig.Results().At(0).Type()})}}}, true
		case "(*encoding/json.Encoder).SetIndent":
			return []Outcome{{St: st}}, true
		case "encoding/json.Marshal", "encoding/json.MarshalIndent":
			m := ex.ts.mk(Term{Op: OCall, Aux: "encoding/json.Marshal", S: ex.site(c.fr, c.in), Args: []*Term{ex.jsonArg(st, a[0])}})
			ex.regen(st, m)
			res := c.sig.Results()
			return []Outcome{{St: st, Ret: []*Term{ex.ts.mk(Term{Op: OExtract, Args: []*Term{m}, I: 0, T: res.At(0).Type()}), ex.ts.mk(Term{Op: OExtract, Args: []*Term{m}, I: 1, T: res.At(1).Type()})}}}, true
		case "(*html/template.Template).Execute", "(*html/template.Template).ExecuteTemplate", "(*text/template.Template).Execute", "(*text/template.Template).ExecuteTemplate":
			// the page: interpreted, then its text goes to the writer
			outs := ex.templateExec(c, ex.site(c.fr, c.in))
			var res []Outcome
			for _, o := range outs {
				if o.Panic {
					res = append(res, o)
					continue
				}
				for _, o2 := range h.write(ex, c, o.St, a[1], ex.ts.Sym("page:"+ex.site(c.fr, c.in), nil)) {
					if !o2.Panic {
						o2.Ret = o.Ret
					}
					res = append(res, o2)
				}
			}
			return res, true
		case "net/http.ServeContent", "net/http.ServeFile":
			t := ex.ts.Sym("content", nil)
			if c.name == "net/http.ServeContent" {
				if n, ok := ex.Resolve(st, a[2]).strVal(); ok && header(st, "Content-Type") == "" && h.kindOf(a[0]) == "w" {
					if ty := mime.TypeByExtension(path.Ext(n)); ty != "" {
						h.setHeader(ex, st, c, ex.ts.Str("Content-Type"), ex.ts.Str(ty))
					}
				}
				if x := stripIface(a[4]); x.Op == OCall && (x.Aux == "bytes.NewReader" || x.Aux == "strings.NewReader") {
					t = textOf(ex, st, x.Args[0])
				}
			}
			return fin(h.write(ex, c, st, a[0], t), nil)
		}
		return nil, false
	}
	return c
}

func (h *httpTrack) headerOn(ex *Exec, c *callCtx, st *State, w *Term, k, v string) {
	// promoted Header methods lead to the same header map
	h.setHeader(ex, st, c, ex.ts.Str(k), ex.ts.Str(v))
	st.Set("error reply", nil, "1")
}

// jsonArg: what is encoded, with the current contents of a fresh variable.
func (ex *Exec) jsonArg(st *State, t *Term) *Term { return t }

// bufferOf: a writer that only keeps what is written.
func bufferOf(ex *Exec, st *State, w *Term) *Term {
	w = stripIface(w)
	if w.Op == OCall && w.Aux == "bufio.NewWriter" {
		return w
	}
	t := w.T
	if t == nil {
		t = ex.dynType(st, w)
	}
	if t == nil {
		return nil
	}
	switch types.TypeString(t, nil) {
	case "*bytes.Buffer", "*strings.Builder":
		return w
	}
	return nil
}

// bufText is the contents of a bytes.Buffer.
func (ex *Exec) bufText(st *State, b *Term) *Term {
	if v, ok := st.mem[ex.ts.mk(Term{Op: OCall, Aux: "buffer", Args: []*Term{b}})]; ok {
		return v
	}
	return ex.ts.Str("")
}

func (ex *Exec) bufAdd(st *State, b, t *Term) {
	k := ex.ts.mk(Term{Op: OCall, Aux: "buffer", Args: []*Term{b}})
	if old, ok := st.mem[k]; ok {
		if old.contains(t) {
			return
		}
		t = ex.ts.mk(Term{Op: OConcat, Args: []*Term{old, t}, T: types.Typ[types.String]})
	}
	st.mem[k] = t
}

// textOf: the text of a string or byte slice.
func textOf(ex *Exec, st *State, t *Term) *Term {
	t = ex.Resolve(st, t)
	for t.Op == OConv && len(t.Args) == 1 {
		t = ex.Resolve(st, t.Args[0])
	}
	return t
}

// printed: the text a Fprint call writes.
func (ex *Exec) printed(st *State, c *callCtx) *Term {
	a := c.args
	rest := a[len(a)-1]
	var elems []*Term
	if !rest.isNil() {
		elems = ex.sliceElems(st, rest, rest.T)
		if elems == nil {
			elems = []*Term{rest}
		}
	}
	for i := range elems {
		elems[i] = textOf(ex, st, stripIface(elems[i]))
	}
	switch c.name {
	case "fmt.Fprintf":
		if f, ok := ex.Resolve(st, a[1]).strVal(); ok {
			if !strings.Contains(f, "%") {
				return ex.ts.Str(f)
			}
			if (f == "%s" || f == "%v") && len(elems) == 1 {
				return elems[0]
			}
		}
		elems = append([]*Term{ex.Resolve(st, a[1])}, elems...)
	default:
		if len(elems) == 1 {
			if s, ok := elems[0].strVal(); ok && c.name == "fmt.Fprintln" {
				return ex.ts.Str(s + "\n")
			}
			if c.name == "fmt.Fprint" {
				return elems[0]
			}
		}
	}
	return ex.ts.mk(Term{Op: OCall, Aux: "printed:" + c.name, Args: elems})
}
