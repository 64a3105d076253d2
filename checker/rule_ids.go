package main

import (
	"fmt"
	"go/types"
	"sync"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Property{ID: "C33", MinObs: 8, Run: runIds,
		Rule: "provenance of every id stored in a message back to a field that is set once per object from one draw of a single source; the source is shown never to give the same number twice (a goroutine sending a strictly increasing number, a counter under a lock, or an atomic counter)"})
}

// drawOf: what source one draw of an id comes from.
// kinds: recv (channel in a global), atomic (counter in a global), locked.
func drawOf(t *Term) (src string, draw *Term, ok bool) {
	for t.Op == OConv && len(t.Args) == 1 {
		t = t.Args[0]
	}
	if t.Op == OLin && len(t.Args) == 1 {
		if r := ratOf(t.Coef[0]); r != nil && r.Num().IsInt64() && r.IsInt() && r.Num().Int64() == 1 {
			return drawOf(t.Args[0])
		}
	}
	if t.Op == OExtract && t.I == 0 && t.Args[0].Op == OTuple {
		return drawOf(t.Args[0].Args[0])
	}
	switch {
	case t.Op == ORecv:
		c := t.Args[0]
		if c.Op == OLoad && c.Args[0].Op == OGlobal {
			return "channel " + c.Args[0].String(), t, true
		}
	case t.Op == OCall:
		n, _ := t.Aux.(string)
		switch n {
		case "sync/atomic.AddInt64", "sync/atomic.AddInt32", "sync/atomic.AddUint64", "sync/atomic.AddUint32":
			if len(t.Args) == 2 && t.Args[0].Op == OGlobal {
				if k, ok := t.Args[1].intVal(); ok && k != 0 {
					return "counter " + t.Args[0].String(), t, true
				}
			}
		case "(*sync/atomic.Int64).Add", "(*sync/atomic.Int32).Add", "(*sync/atomic.Uint64).Add", "(*sync/atomic.Uint32).Add":
			if len(t.Args) == 2 && t.Args[0].Op == OGlobal {
				if k, ok := t.Args[1].intVal(); ok && k != 0 {
					return "counter " + t.Args[0].String(), t, true
				}
			}
		}
	case t.Op == OLoad:
		g := t.Args[0]
		for g.Op == OField {
			g = g.Args[0]
		}
		if g.Op == OGlobal {
			return "locked " + t.Args[0].String(), t, true
		}
	}
	return "", nil, false
}

func runIds(r *Report) {
	p := r.P
	msg := p.Named("tricorder/messages", "Metric")
	if !r.Need(msg != nil && fieldIdx(msg, "GroupId") >= 0, "messages.Metric.GroupId") {
		return
	}
	gi := fieldIdx(msg, "GroupId")
	var mu sync.Mutex
	reported := map[fieldKey]string{} // fields whose value is reported as id
	type set struct {
		key   fieldKey
		where string
		src   string
		ok    bool
		why   string
	}
	var sets []set
	touched := map[string]string{} // counters written otherwise
	client := func(root Root) *Client {
		c := &Client{}
		c.Event = func(ex *Exec, st *State, ev *Event) {
			if ev.Kind == EvStore && ev.Addr.Op == OField {
				base, i, isMsg := fieldOf(ev.Addr, msg)
				_ = base
				if isMsg && i == gi && ex.muted == 0 {
					v := ex.Resolve(st, ev.Val)
					for _, a := range v.alts() {
						if a.isConst() {
							continue // the zero value of a message being made
						}
						for a.Op == OConv && len(a.Args) == 1 {
							a = a.Args[0]
						}
						if a.Op == OLoad && a.Args[0].Op == OField {
							fa := a.Args[0]
							if sameStruct(derefType(fa.Args[0].T), msg) {
								continue // copied from a message
							}
							mu.Lock()
							reported[fieldKey{structKey(derefType(fa.Args[0].T)), fa.I}] = r.where(ev)
							mu.Unlock()
							continue
						}
						if a.Op == OFieldV || a.Op == ORecv && sameStruct(a.T, msg) {
							continue
						}
						r.Check(false, "reported", r.where(ev), "a reported id is the id of the group, distribution or list", "it is %s", a)
					}
				}
				st0 := derefType(ev.Addr.Args[0].T)
				if !p.isRepoStruct(st0) || !isInteger(derefType(ev.Addr.T)) || sameStruct(st0, msg) {
					return
				}
				k := fieldKey{structKey(st0), ev.Addr.I}
				v := ev.Val
				src, draw, ok := drawOf(v)
				s := set{key: k, where: r.where(ev), src: src, ok: ok}
				if !ok {
					s.why = "it is set to " + v.String()
				} else {
					if _, used := st.Get("used", draw); used {
						s.ok, s.why = false, "the number drawn is given to two objects"
					}
					st.Set("used", draw, "1")
					if draw.Op == OLoad {
						// advanced in the critical section of the draw
						adv, _ := st.GetMust("advanced", draw)
						if adv == "" {
							s.ok, s.why = false, "the counter is not advanced in the critical section that reads it"
						}
					}
				}
				if ex.muted == 0 {
					mu.Lock()
					sets = append(sets, s)
					mu.Unlock()
				}
			}
			if ev.Kind == EvStore {
				// advancing a shared counter: g = *g + k under an exclusive lock
				g := ev.Addr
				for g.Op == OField {
					g = g.Args[0]
				}
				if g.Op == OGlobal && isInteger(derefType(ev.Addr.T)) {
					old := ex.ts.Add(ev.Val, ex.ts.Int(0), 1, derefType(ev.Addr.T))
					good := false
					if old.Op == OLin && len(old.Args) == 1 && old.Args[0].Op == OLoad && old.Args[0].Args[0] == ev.Addr {
						if d, ok := ex.ts.Add(old, old.Args[0], -1, derefType(ev.Addr.T)).intVal(); ok && d > 0 && st.exclusive() {
							good = true
							st.SetMust("advanced", old.Args[0], "1")
						}
					}
					if !good && ex.muted == 0 {
						mu.Lock()
						touched[ev.Addr.String()] = r.where(ev)
						mu.Unlock()
					}
				}
			}
		}
		return c
	}
	r.runRoots(p.roots("tricorder"), client, nil)
	for k, where := range reported {
		_ = where
		r.Check(p.immutable[k], "fixed", p.fieldName(k), "an id never changes once its object exists", "the field is written after construction")
	}
	r.Min("reported id fields", 1, len(reported))
	srcs := map[string]bool{}
	n := map[fieldKey]int{}
	for _, s := range sets {
		if _, ok := reported[s.key]; !ok {
			continue
		}
		n[s.key]++
		r.Check(s.ok, "drawn", p.fieldName(s.key)+" at "+s.where, "every object draws its own id", "%s", s.why)
		if s.ok {
			srcs[s.src] = true
		}
	}
	for k := range reported {
		r.Check(n[k] > 0, "drawn", p.fieldName(k), "the id is set when the object is made", "no constructor sets it")
	}
	var list []string
	for s := range srcs {
		list = append(list, s)
	}
	r.Check(len(list) == 1, "source", "-", "all ids come from one source", "they come from %v", list)
	for _, s := range list {
		r.checkSource(s, touched)
	}
}

// checkSource: a source never gives the same number twice.
func (r *Report) checkSource(src string, touched map[string]string) {
	p := r.P
	var kind, name string
	fmt.Sscanf(src, "%s %s", &kind, &name)
	if kind != "channel" {
		r.Check(touched[name] == "", "source", name, "the counter is only ever advanced", "it is written at %s", touched[name])
		return
	}
	// the goroutine feeding the channel
	ex, st, _ := r.initRun("tricorder", func(f *ssa.Function) bool { return p.registrationFunc(f) })
	if ex == nil {
		return
	}
	var chGlobal *Term
	for c := range st.mem {
		if c.Op == OGlobal && c.String() == name {
			chGlobal = c
		}
	}
	if !r.Check(chGlobal != nil, "source", name, "the channel is made when the package is initialised", "it is not set there") {
		return
	}
	g := chGlobal.Aux.(*ssa.Global)
	r.Check(p.constGlobal(g), "source", name, "the channel is never replaced", "the variable is assigned again")
	ch := st.mem[chGlobal]
	feeders := 0
	for _, gr := range ex.goes {
		fn := gr.fn
		if fn == nil || fn.Blocks == nil {
			continue
		}
		feeds := false
		c := &Client{}
		c.Event = func(ex *Exec, st *State, ev *Event) {
			if ev.Kind != EvSend || ex.Resolve(st, ev.Addr) != ch {
				return
			}
			feeds = true
			v := ev.Val
			j := v
			if v.Op == OLin && len(v.Args) == 1 {
				j = v.Args[0]
			}
			if _, again := st.Get("sent", j); again {
				r.Check(ex.muted > 0, "source", r.where(ev), "a number is sent once", "%s is sent twice in a row", v)
			}
			if j.Op == OJoin {
				st.Set("sent", j, "1")
			}
			if ex.muted > 0 {
				return
			}
			info := ex.joins[j]
			if !r.Check(j.Op == OJoin && info != nil, "source", r.where(ev), "the numbers sent increase", "the value sent is %s", v) {
				return
			}
			for w := range info.final {
				if w.isConst() {
					continue
				}
				d, ok := ex.ts.Add(w, j, -1, types.Typ[types.Int]).intVal()
				r.Check(ok && d > 0, "source", r.where(ev), "the numbers sent increase", "after %s comes %s", j, w)
			}
		}
		c.Back = func(ex *Exec, st *State, next func(j *Term) *Term) {
			for _, a := range st.Atoms("sent") {
				if nv := next(a.T); nv != nil && ex.muted == 0 {
					d, ok := ex.ts.Add(nv, a.T, -1, types.Typ[types.Int]).intVal()
					r.Check(ok && d > 0, "source", p.fname(fn), "a number sent is not sent again", "the next number is %s after %s", nv, a.T)
				}
			}
		}
		e2 := NewExec(p, c)
		e2.ts, e2.joins = ex.ts, ex.joins
		e2.Run(fn, gr.args, gr.fvs, st.clone())
		r.Ran(e2, p.fname(fn))
		if feeds {
			feeders++
		}
	}
	r.Check(feeders == 1, "source", name, "one goroutine feeds the channel", "%d goroutines do", feeders)
	// nobody else sends on or closes it
	for _, f := range p.funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				var cv ssa.Value
				switch x := in.(type) {
				case *ssa.Send:
					cv = x.Chan
				case *ssa.Call:
					if bi, ok := x.Call.Value.(*ssa.Builtin); ok && bi.Name() == "close" {
						cv = x.Call.Args[0]
					}
				}
				if u, ok := cv.(*ssa.UnOp); ok && u.X == ssa.Value(g) {
					r.Check(false, "source", p.fname(f)+" ("+p.InstrPos(in)+")", "only the feeding goroutine sends on the channel", "this sends on or closes it")
				}
			}
		}
	}
}

func (s *State) exclusive() bool {
	for _, l := range s.locks {
		if l.write {
			return true
		}
	}
	return false
}

// fieldName shows a field as Type.field.
func (p *Program) fieldName(k fieldKey) string {
	for _, tp := range p.Types {
		for _, n := range tp.Scope().Names() {
			tn, ok := tp.Scope().Lookup(n).(*types.TypeName)
			if !ok {
				continue
			}
			if st, ok := tn.Type().Underlying().(*types.Struct); ok && structKey(tn.Type()) == k.strct && k.idx < st.NumFields() {
				return n + "." + st.Field(k.idx).Name()
			}
		}
	}
	return k.strct + "." + fmt.Sprint(k.idx)
}
