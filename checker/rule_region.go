package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"
	"sync"

	"golang.org/x/tools/go/ssa"
)

// The group protocol. A group is the struct behind the exported type Group;
// its server is the goroutine NewGroup starts that receives from channels
// stored in the group. Everything else about it (which channel carries
// requests, which field counts, which messages mean enter and leave) is
// learned from the code.

type regionModel struct {
	R       *types.Named
	servers []Root
	pairs   map[string]string // request channel -> reply channel (field paths)
	replies map[string]bool
	reqs    []string
	kind    map[string]types.Type // element type of the request channels
	mutable map[string]bool       // field paths the server writes
	msgs    map[string]map[string]*Term
	class   map[string]string // request path + "|" + message -> enter, leave
	problem []string
}

// rPath: addr is a cell of a group (possibly in a nested struct).
func rPath(addr *Term, R *types.Named) (base *Term, path string, ok bool) {
	for addr.Op == OField {
		if path != "" {
			path = "." + path
		}
		path = fmt.Sprint(addr.I) + path
		if sameStruct(addr.Args[0].T, R) {
			return addr.Args[0], path, true
		}
		addr = addr.Args[0]
	}
	return nil, "", false
}

// chanPath: ch is a channel stored in a group.
func chanPath(st *State, ch *Term, R *types.Named) (base *Term, path string, ok bool) {
	if ch.Op == OLoad {
		return rPath(ch.Args[0], R)
	}
	// a channel of a group made by this activation
	var bs, ps []string
	for c, v := range st.mem {
		if v == ch {
			if b, p, ok2 := rPath(c, R); ok2 {
				bs, ps = append(bs, fmt.Sprint(b.id)), append(ps, p)
				base, path, ok = b, p, true
			}
		}
	}
	if len(ps) > 1 {
		sort.Strings(ps)
		path = strings.Join(ps, "=")
	}
	return
}

func pathName(R *types.Named, path string) string {
	var t types.Type = R
	var out []string
	for _, s := range strings.Split(path, ".") {
		st, ok := derefType(t).Underlying().(*types.Struct)
		if !ok {
			return path
		}
		i := 0
		fmt.Sscan(s, &i)
		out = append(out, st.Field(i).Name())
		t = st.Field(i).Type()
	}
	return strings.Join(out, ".")
}

// pathCells lists the scalar cells of a struct by path.
func pathCells(t types.Type, pre string, f func(path string, t types.Type)) {
	st, ok := t.Underlying().(*types.Struct)
	if !ok {
		return
	}
	for i := 0; i < st.NumFields(); i++ {
		p := pre + fmt.Sprint(i)
		ft := st.Field(i).Type()
		if s2, ok := ft.Underlying().(*types.Struct); ok && s2.NumFields() > 0 && !strings.HasPrefix(types.TypeString(ft, nil), "time.") && !strings.HasPrefix(types.TypeString(ft, nil), "sync.") {
			pathCells(ft, p+".", f)
			continue
		}
		f(p, ft)
	}
}

// regionModel resolves the protocol's parts.
func (r *Report) regionModel() *regionModel {
	p := r.P
	m := &regionModel{R: p.Named("tricorder", "Group"), pairs: map[string]string{}, replies: map[string]bool{}, kind: map[string]types.Type{}, mutable: map[string]bool{}, msgs: map[string]map[string]*Term{}, class: map[string]string{}}
	ng := p.Func("tricorder", "NewGroup")
	if !r.Need(m.R != nil && structOf(m.R) != nil, "the group type") || !r.Need(ng != nil, "the group constructor") {
		return nil
	}
	var mu sync.Mutex
	isServer := map[*ssa.Function]bool{}
	r.runRoots([]Root{{Fn: ng, Kind: "api"}}, func(root Root) *Client {
		return &Client{Event: func(ex *Exec, st *State, ev *Event) {
			mu.Lock()
			defer mu.Unlock()
			if root.Kind != "go" {
				return
			}
			switch ev.Kind {
			case EvRecv:
				if _, pa, ok := chanPath(st, ev.Addr, m.R); ok {
					isServer[root.Fn] = true
					st.Set("req", nil, pa)
					if ch, ok := ev.Addr.T.Underlying().(*types.Chan); ok {
						m.kind[pa] = ch.Elem()
					}
				}
			case EvSend:
				if _, pa, ok := chanPath(st, ev.Addr, m.R); ok {
					if q, ok := st.Get("req", nil); ok {
						if m.pairs[q] == "" {
							m.pairs[q] = pa
						} else if m.pairs[q] != pa {
							m.problem = append(m.problem, fmt.Sprintf("requests on %s are answered on both %s and %s", pathName(m.R, q), pathName(m.R, m.pairs[q]), pathName(m.R, pa)))
						}
						st.Del("req", nil)
					}
				}
			case EvStore:
				if _, pa, ok := rPath(ev.Addr, m.R); ok {
					m.mutable[pa] = true
				}
			}
		}}
	}, nil)
	for f := range isServer {
		m.servers = append(m.servers, Root{Fn: f, Kind: "go"})
	}
	if !r.Need(len(m.servers) == 1, "the goroutine that serves a group") {
		return nil
	}
	r.Check(len(m.problem) == 0, "pairing", p.fname(m.servers[0].Fn), "each request channel has one reply channel", "%s", strings.Join(m.problem, "; "))
	for q, a := range m.pairs {
		m.reqs = append(m.reqs, q)
		m.replies[a] = true
	}
	sort.Strings(m.reqs)
	r.Need(len(m.pairs) >= 1, "the request and reply channels of a group")
	return m
}

// serverCase interprets the server for one message and one starting value of
// the counter; every time it is about to answer, check is called.
type serverAns struct {
	cells  map[string]*Term
	reply  *Term
	calls  int
	called *Term
	replyP string
	msg    *Term
	init   map[string]*Term
	where  string
	late   bool // the update function ran after the counter... (unused)
}

func (r *Report) serverCase(m *regionModel, req string, mkMsg func(ex *Exec) *Term, set func(ex *Exec, path string, t types.Type) *Term, check func(ex *Exec, st *State, a *serverAns)) (answers int, outs []Outcome, err string) {
	srv := m.servers[0].Fn
	var cells []string
	ctype := map[string]types.Type{}
	pathCells(m.R, "", func(p string, t types.Type) {
		cells = append(cells, p)
		ctype[p] = t
	})
	clear := func(st *State, k string) {
		for _, a := range st.Atoms(k) {
			st.Del(k, a.T)
		}
	}
	inits := map[string]*Term{}
	c := &Client{}
	c.Load = func(ex *Exec, st *State, addr *Term, typ types.Type) *Term {
		_, pa, ok := rPath(addr, m.R)
		if !ok || !m.mutable[pa] {
			return nil
		}
		if as := st.Atoms("f:" + pa); len(as) == 1 {
			return as[0].T
		}
		return nil
	}
	c.Event = func(ex *Exec, st *State, ev *Event) {
		switch ev.Kind {
		case EvRecv:
			_, pa, ok := chanPath(st, ev.Addr, m.R)
			if !ok || m.pairs[pa] == "" {
				return
			}
			if ex.muted == 0 {
				_, open := st.Get("serving", nil)
				r.Check(!open, "one reply", r.P.fname(srv), "every request is answered before the next one is taken", "a request can be taken at %s while the previous one has not been answered", r.P.InstrPos(ev.Instr))
			}
			st.Set("serving", nil, pa)
			clear(st, "msg")
			st.Set("calls", nil, "0")
			clear(st, "called")
			msg := ev.Val
			if pa == req && mkMsg != nil {
				if x := mkMsg(ex); x != nil {
					msg = x
				}
			}
			ev.Val = msg
			st.Set("msg", msg, "")
			for cell := range st.mem {
				if _, cp, ok := rPath(cell, m.R); ok && m.mutable[cp] {
					delete(st.mem, cell)
				}
			}
			for _, cp := range cells {
				if !m.mutable[cp] {
					continue
				}
				v := set(ex, cp, ctype[cp])
				inits[cp] = v
				clear(st, "f:"+cp)
				st.Set("f:"+cp, v, "")
			}
		case EvStore:
			if _, pa, ok := rPath(ev.Addr, m.R); ok && m.mutable[pa] {
				clear(st, "f:"+pa)
				st.Set("f:"+pa, ev.Val, "")
			}
		case EvCallback:
			n, _ := st.Get("calls", nil)
			switch n {
			case "0":
				st.Set("calls", nil, "1")
			default:
				st.Set("calls", nil, "2")
			}
			if ev.Val != nil {
				clear(st, "called")
				st.Set("called", ev.Val, "")
			}
		case EvSend:
			_, pa, ok := chanPath(st, ev.Addr, m.R)
			if !ok {
				return
			}
			q, open := st.Get("serving", nil)
			if ex.muted == 0 && m.replies[pa] {
				r.Check(open, "one reply", r.P.fname(srv), "every request is answered exactly once", "an answer is sent at %s although no request is being served", r.P.InstrPos(ev.Instr))
			}
			if !open {
				return
			}
			st.Del("serving", nil)
			if ex.muted > 0 || q != req {
				return
			}
			a := &serverAns{cells: map[string]*Term{}, reply: ev.Val, replyP: pa, init: inits, where: r.P.InstrPos(ev.Instr)}
			for _, cp := range cells {
				if as := st.Atoms("f:" + cp); len(as) == 1 {
					a.cells[cp] = as[0].T
				}
			}
			n, _ := st.Get("calls", nil)
			fmt.Sscan(n, &a.calls)
			if as := st.Atoms("called"); len(as) == 1 {
				a.called = as[0].T
			}
			if as := st.Atoms("msg"); len(as) == 1 {
				a.msg = as[0].T
			}
			answers++
			check(ex, st, a)
		}
	}
	ex := NewExec(r.P, c)
	outs = ex.Run(srv, nil, nil, newState())
	r.Ran(ex, r.P.fname(srv))
	return answers, outs, ex.err
}

// clientMessages learns which constants clients send on the request channels.
func (r *Report) clientMessages(m *regionModel, rs []Root) {
	var mu sync.Mutex
	r.runRoots(rs, func(root Root) *Client {
		return &Client{Event: func(ex *Exec, st *State, ev *Event) {
			if ev.Kind != EvSend || root.Fn == m.servers[0].Fn {
				return
			}
			if _, pa, ok := chanPath(st, ev.Addr, m.R); ok && m.pairs[pa] != "" {
				mu.Lock()
				if m.msgs[pa] == nil {
					m.msgs[pa] = map[string]*Term{}
				}
				v := ex.Resolve(st, ev.Val)
				m.msgs[pa][msgKey(v)] = v
				mu.Unlock()
			}
		}}
	}, nil)
}

func msgKey(v *Term) string {
	if v.isConst() {
		return v.C.ExactString()
	}
	return "?"
}

// sessionRoots: the entry points that read metrics.
func (p *Program) sessionRoots() []Root {
	var rs []Root
	for _, x := range p.roots("tricorder") {
		if x.Kind == "rpc" || x.Fn.Name() == "ReadMyMetrics" {
			rs = append(rs, x)
		}
	}
	return rs
}

// classify decides what each request message does to the counter, and checks
// the protocol when report is set.
func (r *Report) classify(m *regionModel) bool {
	p := r.P
	var countReq string
	for _, q := range m.reqs {
		if b, ok := m.kind[q].Underlying().(*types.Basic); ok && b.Info()&(types.IsInteger|types.IsBoolean|types.IsString) != 0 {
			if countReq != "" {
				r.Check(false, "anchor", "-", "one channel carries enter and leave requests", "%s and %s both could", countReq, q)
			}
			countReq = q
		}
	}
	if !r.Need(countReq != "", "the channel that carries enter and leave requests") {
		return false
	}
	r.clientMessages(m, p.sessionRoots())
	var keys []string
	for k := range m.msgs[countReq] {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	for _, k := range keys {
		r.Check(k != "?", "messages", pathName(m.R, countReq), "the messages sent to a group are constants", "a message whose value is not known is sent")
	}
	site := p.fname(m.servers[0].Fn)
	// candidates for the counter
	var cands, times []string
	pathCells(m.R, "", func(pa string, t types.Type) {
		if m.mutable[pa] && isInteger(t) {
			cands = append(cands, pa)
		}
		if m.mutable[pa] && types.TypeString(t, nil) == "time.Time" {
			times = append(times, pa)
		}
	})
	if !r.Need(len(cands) > 0, "the field that counts the requests inside a group") || !r.Need(len(times) > 0, "the field that holds the time of the last update") {
		return false
	}
	type fail struct{ rule, what, detail string }
	var best []fail
	var bestClass map[string]string
	for ci, cand := range cands {
		for ti, tcell := range times {
			var fails []fail
			bad := func(rule, what, detail string, a ...any) {
				fails = append(fails, fail{rule, what, fmt.Sprintf(detail, a...)})
			}
			class := map[string]string{}
			run := func(c0 string, msg *Term, check func(ex *Exec, st *State, a *serverAns, c *Term)) int {
				var c0t *Term
				n, _, err := r.serverCase(m, countReq, func(ex *Exec) *Term { return ex.ts.Const(msg.C, m.kind[countReq]) },
					func(ex *Exec, pa string, t types.Type) *Term {
						if pa == cand {
							switch c0 {
							case "n":
								c0t = ex.ts.Sym("inside", t)
								ex.assume[c0t] = ivGE(2)
							case "1":
								c0t = ex.ts.Int(1)
							default:
								c0t = ex.ts.Int(0)
							}
							return c0t
						}
						return ex.ts.Sym("before:"+pa, t)
					}, func(ex *Exec, st *State, a *serverAns) { check(ex, st, a, c0t) })
				if err != "" {
					bad("converges", "the group server can be analysed", "%s", err)
				}
				return n
			}
			for _, k := range keys {
				msg := m.msgs[countReq][k]
				if msg == nil || !msg.isConst() {
					continue
				}
				var delta *Term
				n := run("n", msg, func(ex *Exec, st *State, a *serverAns, c *Term) {
					d := ex.ts.Add(a.cells[cand], c, -1, types.Typ[types.Int])
					if delta != nil && delta.String() != d.String() {
						bad("counter", "a message changes the number of requests inside by one amount", "message %s: %s or %s", k, d, delta)
					}
					delta = d
				})
				if n == 0 || delta == nil {
					bad("counter", "every message is answered", "no answer to message %s with several requests inside", k)
					continue
				}
				iv, isInt := delta.intVal()
				switch {
				case isInt && iv == 1:
					class[countReq+"|"+k] = "enter"
				case isInt && iv == -1:
					class[countReq+"|"+k] = "leave"
				default:
					bad("counter", "each message enters or leaves exactly once", "message %s changes the count by %s", k, delta)
					continue
				}
				cl := class[countReq+"|"+k]
				for _, c0 := range []string{"0", "1", "n"} {
					if cl == "leave" && c0 == "0" {
						continue
					}
					want := 0
					if cl == "enter" && c0 == "0" {
						want = 1
					}
					n := run(c0, msg, func(ex *Exec, st *State, a *serverAns, c *Term) {
						d := ex.ts.Add(a.cells[cand], c, -1, types.Typ[types.Int])
						if x, ok := d.intVal(); !ok || x != iv {
							bad("counter", "enter and leave change the count by one whatever it was", "%s with %s inside changes it by %s at %s", cl, c0, d, a.where)
						}
						if a.calls != want {
							bad("update", fmt.Sprintf("%s with %s requests inside runs the update function %d times", cl, c0, want), "it runs it %d times before the answer at %s", a.calls, a.where)
						}
						tv := a.cells[tcell]
						if want == 1 {
							if !(tv != nil && tv.Op == OCall && tv.Aux == "callback") {
								bad("update", "the time of an update is the one its function returned", "the stored time is %s at %s", tv, a.where)
							}
							if a.called == nil || !strings.HasPrefix(a.called.S, "before:") {
								bad("update", "the update function run is the registered one", "%s is called", a.called)
							}
						} else if tv != a.init[tcell] {
							bad("update", "the time of the last update changes only with an update", "%s with %s inside stores %s at %s", cl, c0, tv, a.where)
						}
						if cl == "enter" && a.reply != tv {
							bad("reply", "entering answers with the time of the last update", "the answer is %s, the stored time %s, at %s", a.reply, tv, a.where)
						}
						for cp, v := range a.cells {
							if cp != cand && cp != tcell && v != a.init[cp] && a.init[cp] != nil {
								if _, isF := a.init[cp].T.Underlying().(*types.Signature); isF {
									bad("update", "requests leave the update function alone", "%s is changed at %s", pathName(m.R, cp), a.where)
								}
							}
						}
					})
					if n == 0 {
						bad("reply", fmt.Sprintf("%s with %s requests inside is answered", cl, c0), "the server does not answer")
					}
				}
			}
			ne, nl := 0, 0
			for _, c := range class {
				if c == "enter" {
					ne++
				} else {
					nl++
				}
			}
			if ne == 0 || nl == 0 {
				bad("counter", "clients can enter and leave a group", "%d messages enter and %d leave", ne, nl)
			}
			if best == nil && ci == 0 && ti == 0 || len(fails) < len(best) {
				best, bestClass = fails, class
				if best == nil {
					best = []fail{}
				}
				m.class = class
				m.mutable["counter"] = true
				m.msgs["counter"] = map[string]*Term{cand: nil}
			}
		}
	}
	m.class = bestClass
	failed := map[string]bool{}
	for _, f := range best {
		r.Check(false, f.rule, site, f.what, "%s", f.detail)
		failed[f.what] = true
	}
	for _, w := range []string{"enter with 0 requests inside runs the update function 1 times", "enter with 1 requests inside runs the update function 0 times",
		"enter with n requests inside runs the update function 0 times", "leave with 1 requests inside runs the update function 0 times", "leave with n requests inside runs the update function 0 times",
		"the time of an update is the one its function returned", "the update function run is the registered one", "the time of the last update changes only with an update"} {
		r.Check(!failed[w], "update", site, w, "see above")
	}
	r.Check(!failed["entering answers with the time of the last update"], "reply", site, "entering answers with the time of the last update", "see above")
	r.Check(!failed["enter and leave change the count by one whatever it was"], "counter", site, "enter and leave change the count by one whatever it was", "see above")
	return len(m.class) > 0
}

func init() {
	register(&Property{ID: "C01", MinObs: 15,
		Rule:    "the group server goroutine, interpreted for every (requests inside: 0, 1, any n>=2) x (message clients send), calls the registered update function exactly when entering from 0, counts by one, keeps the time the function returned, and answers each request once with that time",
		Explain: "The message alphabet is learned from the constants entry points send; the counter, time and function fields from what the server writes.",
		Assume:  []string{"group bookkeeping is confined to the server goroutine (decided by C05)", "an update function that panics ends the process, as in any Go goroutine"},
		Run: func(r *Report) {
			m := r.regionModel()
			if m == nil || !r.classify(m) {
				return
			}
			r.registerUpdateRule(m)
			r.freshGroupRule(m)
		}})
}

// registerUpdateRule: a new update function is in place when the call that
// registers it returns.
func (r *Report) registerUpdateRule(m *regionModel) {
	site := r.P.fname(m.servers[0].Fn)
	n := 0
	for _, q := range m.reqs {
		if _, ok := m.kind[q].Underlying().(*types.Signature); !ok {
			continue
		}
		n++
		var msg *Term
		got, _, err := r.serverCase(m, q, func(ex *Exec) *Term {
			msg = ex.ts.Sym("new update function", m.kind[q])
			return msg
		}, func(ex *Exec, pa string, t types.Type) *Term { return ex.ts.Sym("before:"+pa, t) },
			func(ex *Exec, st *State, a *serverAns) {
				stored := false
				for cp, v := range a.cells {
					if v == msg {
						stored = true
						continue
					}
					if i := a.init[cp]; i != nil && v != i && (isInteger(i.T) || types.TypeString(i.T, nil) == "time.Time") {
						r.Check(false, "register", site, "registering an update function does not disturb the group", "%s becomes %s", pathName(m.R, cp), v)
					}
				}
				r.Check(stored, "register", site, "a registered update function is in place before the registration is acknowledged", "at %s the function received is not stored", a.where)
			})
		r.Check(err == "" && got > 0, "register", site, "registrations of update functions are answered", "%s", err)
	}
	reg := r.P.Method("tricorder", "Group", "RegisterUpdateFunc")
	if !r.Need(reg != nil, "registration of update functions") || !r.Need(n > 0, "the channel that carries update functions") {
		return
	}
	// the client side hands the function over and waits for the acknowledgement
	acks := 0
	var arg *Term
	c := &Client{Event: func(ex *Exec, st *State, ev *Event) {
		switch ev.Kind {
		case EvSend:
			if _, pa, ok := chanPath(st, ev.Addr, m.R); ok && m.pairs[pa] != "" && ev.Val == arg {
				st.Set("sent", nil, pa)
			}
		case EvRecv:
			if _, pa, ok := chanPath(st, ev.Addr, m.R); ok {
				if q, s := st.Get("sent", nil); s && m.pairs[q] == pa {
					st.Set("acked", nil, "")
				}
			}
		}
	}}
	ex := NewExec(r.P, c)
	as := ex.symArgs(reg)
	arg = as[len(as)-1]
	outs := ex.Run(reg, as, nil, newState())
	r.Ran(ex, r.P.fname(reg))
	for _, o := range outs {
		_, ok := o.St.Get("acked", nil)
		acks++
		r.Check(ok, "register", r.P.fname(reg), "registering hands the function to the group and waits until it is in place", "a path returns without that")
	}
	r.Check(acks > 0, "register", r.P.fname(reg), "registering an update function returns", "no path returns")
}

// freshGroupRule: a new group starts with nobody inside and an update function.
func (r *Report) freshGroupRule(m *regionModel) {
	cnt := ""
	for k := range m.msgs["counter"] {
		cnt = k
	}
	ng := r.P.Func("tricorder", "NewGroup")
	n := 0
	c := &Client{Event: func(ex *Exec, st *State, ev *Event) {
		if ev.Kind != EvGo {
			return
		}
		for cell := range st.mem {
			base, pa, ok := rPath(cell, m.R)
			_ = pa
			if !ok || base.Op != OAlloc {
				continue
			}
			n++
			pathCells(m.R, "", func(p string, t types.Type) {
				if !m.mutable[p] {
					return
				}
				a := base
				var bt types.Type = m.R
				for _, s := range strings.Split(p, ".") {
					i := 0
					fmt.Sscan(s, &i)
					a = ex.fieldAddr(a, i, bt)
					bt = bt.Underlying().(*types.Struct).Field(i).Type()
				}
				v := ex.Load(st, a, t)
				if p == cnt {
					x, ok := v.intVal()
					r.Check(ok && x == 0, "fresh", r.P.fname(ng), "a new group has no requests inside", "%s starts as %s", pathName(m.R, p), v)
				}
				if _, isF := t.Underlying().(*types.Signature); isF {
					if r.Check(v.Op == OFunc || v.Op == OClosure, "fresh", r.P.fname(ng), "a new group has an update function", "%s starts as %s", pathName(m.R, p), v) {
						fn := v.Aux.(*ssa.Function)
						ex2 := NewExec(r.P, &Client{})
						for _, o := range ex2.Run(fn, nil, nil, newState()) {
							ok := !o.Panic && len(o.Ret) == 1 && o.Ret[0].Op == OCall && o.Ret[0].Aux == "time.Now"
							r.Check(ok, "fresh", r.P.fname(fn), "without an update function of its own a group is as of now", "the default update function returns %v", o.Ret)
						}
						r.Ran(ex2, r.P.fname(fn))
					}
				}
			})
			return
		}
	}}
	ex := NewExec(r.P, c)
	ex.Run(ng, nil, nil, newState())
	r.Ran(ex, r.P.fname(ng))
	r.Check(n > 0, "fresh", r.P.fname(ng), "a new group is built before its server starts", "the group is not visible when the goroutine starts")
}
