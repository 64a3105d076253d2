package main

import (
	"fmt"
	"go/types"
	"sync"

	"golang.org/x/tools/go/ssa"
)

// C05: the bookkeeping of a group belongs to its server goroutine, and callers
// get the answer to their own request.
func init() {
	register(&Property{ID: "C05", MinObs: 20, Run: runConfine,
		Rule: "ownership and rendezvous over every entry point and goroutine: only the group's server touches the fields it writes, receives requests or sends answers; every caller that sends a request next receives its answer; the channels are unbuffered, distinct and never replaced; one server is started per group"})
}

func runConfine(r *Report) {
	m := r.regionModel()
	if m == nil {
		return
	}
	p := r.P
	srv := m.servers[0].Fn
	ng := p.Func("tricorder", "NewGroup")
	var mu sync.Mutex
	reqSites := map[string]bool{}
	rs := append(p.roots("tricorder"), m.servers[0])
	gos := map[string]int{}
	r.runRoots(rs, func(root Root) *Client {
		entry := p.fname(root.Fn)
		server := root.Fn == srv
		c := &Client{Panics: true}
		c.Event = func(ex *Exec, st *State, ev *Event) {
			where := ""
			if ex.muted == 0 && ev.Fr != nil {
				where = r.where(ev)
			}
			if as := st.Atoms("await"); len(as) > 0 && !server {
				switch ev.Kind {
				case EvSend, EvRecv, EvCallback, EvGo, EvBlock:
					ok := false
					if ev.Kind == EvRecv {
						g, pa, isR := chanPath(st, ev.Addr, m.R)
						ok = isR && as[0].T == g && as[0].V == pa
					}
					if ex.muted == 0 {
						r.Check(ok, "rendezvous", entry, "a caller that made a request waits for its answer before anything else", "%s happens first", where)
					}
					st.Del("await", as[0].T)
					if ok {
						return
					}
				}
			}
			switch ev.Kind {
			case EvLoad, EvStore:
				base, pa, ok := rPath(ev.Addr, m.R)
				if !ok || !m.mutable[pa] {
					return
				}
				if ex.muted == 0 && !server {
					r.Check(st.isFresh(base), "confined", entry, "only the server goroutine touches "+pathName(m.R, pa), "%s accesses it", where)
				}
			case EvSend:
				g, pa, ok := chanPath(st, ev.Addr, m.R)
				if !ok {
					return
				}
				if m.pairs[pa] != "" {
					if ex.muted == 0 {
						r.Check(!server, "rendezvous", entry, "the server goroutine does not make requests to its own group", "%s does", where)
						mu.Lock()
						reqSites[where] = true
						mu.Unlock()
					}
					if !server {
						st.Set("await", g, m.pairs[pa])
					}
				} else if ex.muted == 0 {
					r.Check(server && m.replies[pa], "rendezvous", entry, "only the server goroutine answers", "%s sends on %s", where, pathName(m.R, pa))
				}
			case EvRecv:
				_, pa, ok := chanPath(st, ev.Addr, m.R)
				if !ok || ex.muted > 0 {
					return
				}
				if m.pairs[pa] != "" {
					r.Check(server, "confined", entry, "only the server goroutine takes requests", "%s receives from %s", where, pathName(m.R, pa))
				} else {
					r.Check(false, "rendezvous", entry, "answers are taken only by callers waiting for them", "%s receives from %s", where, pathName(m.R, pa))
				}
			case EvClose:
				if _, pa, ok := chanPath(st, ev.Addr, m.R); ok && ex.muted == 0 {
					r.Check(false, "rendezvous", entry, "the channels of a group stay open", "%s closes %s", where, pathName(m.R, pa))
				}
			case EvGo:
				fn := ev.Fn
				if fn == nil && ev.Val != nil && (ev.Val.Op == OClosure || ev.Val.Op == OFunc) {
					fn, _ = ev.Val.Aux.(*ssa.Function)
				}
				if fn == srv && ex.muted == 0 {
					mu.Lock()
					gos[fmt.Sprintf("%s@%s", entry, where)]++
					mu.Unlock()
					n, _ := st.Get("started", nil)
					r.Check(n == "", "one server", entry, "one server goroutine is started per group", "%s starts another", where)
					r.channelsRule(ex, st, ev, m, entry)
				}
				if fn == srv {
					st.Set("started", nil, "1")
				}
			}
		}
		return c
	}, func(ex *Exec, root Root, outs []Outcome) {
		for _, o := range outs {
			for _, a := range o.St.Atoms("await") {
				r.Check(false, "rendezvous", p.fname(root.Fn), "a caller that made a request takes its answer", "an exit is reached while the answer of %s is outstanding", a.T)
			}
			if root.Fn == ng && !o.Panic {
				n, _ := o.St.Get("started", nil)
				r.Check(n == "1", "one server", p.fname(ng), "a new group has its server running", "a path does not start it")
			}
		}
	})
	// channels never change once the group exists
	pathCells(m.R, "", func(pa string, t types.Type) {
		if _, ok := t.Underlying().(*types.Chan); ok && len(pa) == 1 || ok {
			i := -1
			fmt.Sscan(pa, &i)
			if fmt.Sprint(i) == pa {
				r.Check(p.immutable[fieldKey{structKey(m.R), i}], "confined", "-", "the channel "+pathName(m.R, pa)+" is never replaced", "some function assigns it after construction")
			}
		}
	})
	r.Min("request sites", 2, len(reqSites))
	r.Min("server starts", 1, len(gos))
}

// channelsRule: at the start of the server every channel is unbuffered and
// the group's own.
func (r *Report) channelsRule(ex *Exec, st *State, ev *Event, m *regionModel, entry string) {
	var base *Term
	for c := range st.mem {
		if b, _, ok := rPath(c, m.R); ok && b.Op == OAlloc {
			base = b
		}
	}
	if !r.Check(base != nil, "one server", entry, "a group is built before its server starts", "the group is not visible when the server starts") {
		return
	}
	seen := map[*Term]string{}
	n := 0
	pathCells(m.R, "", func(pa string, t types.Type) {
		if _, ok := t.Underlying().(*types.Chan); !ok || m.pairs[pa] == "" && !m.replies[pa] {
			return
		}
		a := cellAt(ex, base, m.R, pa)
		v := ex.Load(st, a, t)
		n++
		name := pathName(m.R, pa)
		if !r.Check(v.Op == OAlloc && len(v.Args) == 1, "channels", entry, "the channel "+name+" is made for this group", "it is %s", v) {
			return
		}
		sz, ok := v.Args[0].intVal()
		r.Check(ok && sz == 0, "channels", entry, "the channel "+name+" is unbuffered", "its capacity is %s, so answers can reach another caller", v.Args[0])
		r.Check(seen[v] == "", "channels", entry, "the channel "+name+" has one purpose", "it is also %s", seen[v])
		seen[v] = name
	})
	r.Min("channels of a group", 2, n)
}

func cellAt(ex *Exec, base *Term, n *types.Named, path string) *Term {
	a := base
	var bt types.Type = n
	var i int
	rest := path
	for rest != "" {
		k := 0
		for k < len(rest) && rest[k] != '.' {
			k++
		}
		fmt.Sscan(rest[:k], &i)
		if k < len(rest) {
			k++
		}
		rest = rest[k:]
		a = ex.fieldAddr(a, i, bt)
		bt = bt.Underlying().(*types.Struct).Field(i).Type()
	}
	return a
}
