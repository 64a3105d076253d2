package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"
	"sync"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Property{ID: "C06", MinObs: 12, Run: runLockset,
		Rule: "lockset analysis over every entry point and goroutine: for every struct field, slice or map content and package variable that some path writes after the object is visible to others, one lock (found relative to the object) is held at all accesses, exclusively at all writes"})
	register(&Property{ID: "C07", MinObs: 25, Run: runLockUse,
		Rule: "typestate of every mutex over every path: released at every return and panic, never acquired while held, acquired in an acyclic order, not held at client callbacks, channel operations, waits or I/O"})
}

// access is one cell the code touches, named by type so that accesses to the
// same field of different objects are one class.
type cellClass struct {
	key   string
	chain []*Term // the cell's address and the objects that contain it
	steps []string
}

// factor writes a choice between the same field (or load) of several objects
// as the field of a choice of objects; unlike the interpreter's own terms the
// result is only for comparison.
func (ts *Terms) factor(t *Term) *Term {
	if t.Op != OPhi {
		return t
	}
	var bases []*Term
	first := t.Args[0]
	for _, a := range t.Args {
		if a.isNil() {
			continue
		}
		if first.isNil() {
			first = a
		}
		if a.Op != first.Op || a.I != first.I || a.Op != OField && a.Op != OLoad || len(a.Args) != 1 {
			return t
		}
		bases = append(bases, a.Args[0])
	}
	b := ts.factor(ts.Phi(bases, first.Args[0].T))
	if b.T == nil {
		b.T = first.Args[0].T
	}
	return ts.mk(Term{Op: first.Op, Args: []*Term{b}, I: first.I, T: first.T, S: "~"})
}

// cellOf names the memory behind addr. content: addr is a slice or map value
// and its elements are meant.
func cellOf(ts *Terms, addr *Term, content bool) (cc cellClass, ok bool) {
	t := ts.factor(addr)
	suffix := ""
	if content {
		suffix = "[]"
	}
	inContent := content
	for {
		switch t.Op {
		case OElem, OLookup:
			if suffix == "" {
				suffix = "[]"
			}
			inContent = true
			t = ts.factor(t.Args[0])
			continue
		case OSlice, OAppend:
			t = ts.factor(t.Args[0])
			continue
		case OLoad:
			// the slice or map itself lives in a field
			if inContent {
				t = ts.factor(t.Args[0])
				inContent = false
				continue
			}
			return cc, false
		}
		break
	}
	if inContent {
		return cc, false // content of a slice that is not kept in a field
	}
	switch t.Op {
	case OField:
		if t.Args[0].T == nil {
			return cc, false
		}
		cc.key = fmt.Sprintf("%s.%d%s", structKey(derefType(t.Args[0].T)), t.I, suffix)
	case OGlobal:
		g := t.Aux.(*ssa.Global)
		cc.key = "var " + g.String() + suffix
	default:
		return cc, false
	}
	for x := t; ; {
		cc.chain = append(cc.chain, x)
		if x.Op != OField {
			break
		}
		cc.steps = append(cc.steps, fmt.Sprint(x.I))
		x = ts.factor(x.Args[0])
	}
	return cc, true
}

// relations: how each held lock is reached from the cell.
func (cc *cellClass) relations(ts *Terms, locks []Lock) map[string]bool {
	m := map[string]bool{}
	for _, l := range locks {
		var down []string
		x := ts.factor(l.addr)
		for {
			for i, a := range cc.chain {
				if a == x && i > 0 {
					m[rel(strings.Join(cc.steps[1:i], "^")+"^"+strings.Join(down, "."), l.write)] = true
				}
			}
			if x.Op == OGlobal {
				m[rel("var "+x.Aux.(*ssa.Global).String()+strings.Join(down, "."), l.write)] = true
			}
			if x.Op != OField {
				break
			}
			down = append([]string{fmt.Sprint(x.I)}, down...)
			x = ts.factor(x.Args[0])
		}
	}
	return m
}

func rel(s string, write bool) string {
	if write {
		return "W:" + s
	}
	return "R:" + s
}

type cellAccess struct {
	key, entry, where string
	write             bool
	rels              map[string]bool
}

func (p *Program) ownState(key string) bool {
	return strings.Contains(key, modPrefix+"/go/tricorder.") || strings.Contains(key, modPrefix+"/go/healthserver.")
}

func (p *Program) cellName(key string) string {
	if strings.HasPrefix(key, "var ") {
		return short(key)
	}
	return short(key)
}

func runLockset(r *Report) {
	m := r.regionModel()
	if m == nil {
		return
	}
	p := r.P
	var mu sync.Mutex
	acc := map[string][]cellAccess{}
	names := map[string]string{}
	confined := map[string]bool{}
	for pa := range m.mutable {
		// owned by the group's server goroutine (C05)
		confined[pa] = true
	}
	rs := append(p.roots("tricorder", "healthserver"), m.servers[0])
	r.runRoots(rs, func(root Root) *Client {
		entry := p.fname(root.Fn)
		c := &Client{Panics: true}
		note := func(ex *Exec, st *State, ev *Event, addr *Term, content, write bool) {
			if addr == nil || ex.muted > 0 {
				return
			}
			as := []*Term{addr}
			if f := ex.ts.factor(addr); f.Op == OPhi {
				as = f.Args
			}
			for _, a := range as {
				if a.isNil() || st.freshAddr(a) {
					continue
				}
				if _, pa, ok := rPath(a, m.R); ok && confined[pa] && !content {
					continue
				}
				cc, ok := cellOf(ex.ts, a, content)
				if !ok {
					continue
				}
				if b := cc.chain[len(cc.chain)-1]; b.Op == OAlloc && !st.pub[b] {
					continue
				}
				t := cc.chain[0]
				mu.Lock()
				if t.Op == OField {
					d := derefType(t.Args[0].T)
					if n, ok := types.Unalias(d).(*types.Named); ok {
						names[cc.key] = n.Obj().Name() + "." + nthField(n, t.I)
						if n.Obj().Pkg() == nil || !p.repoState(n.Obj().Pkg()) {
							mu.Unlock()
							continue
						}
					} else {
						names[cc.key] = short(cc.key)
					}
				} else {
					g := t.Aux.(*ssa.Global)
					names[cc.key] = g.Name()
					if g.Pkg == nil || !p.repoState(g.Pkg.Pkg) {
						mu.Unlock()
						continue
					}
				}
				if strings.HasSuffix(cc.key, "[]") {
					names[cc.key] += " (contents)"
				}
				acc[cc.key] = append(acc[cc.key], cellAccess{cc.key, entry, r.where(ev), write, cc.relations(ex.ts, st.locks)})
				mu.Unlock()
			}
		}
		c.Event = func(ex *Exec, st *State, ev *Event) {
			switch ev.Kind {
			case EvLoad, EvStore:
				w := ev.Kind == EvStore
				t := ev.T
				if t != nil {
					if s, ok := t.Underlying().(*types.Struct); ok {
						var all func(a *Term, t types.Type, s *types.Struct)
						all = func(a *Term, t types.Type, s *types.Struct) {
							for i := 0; i < s.NumFields(); i++ {
								f := ex.fieldAddr(a, i, t)
								if s2, ok := s.Field(i).Type().Underlying().(*types.Struct); ok && p.repoStruct(s.Field(i).Type()) {
									all(f, s.Field(i).Type(), s2)
									continue
								}
								note(ex, st, ev, f, false, w)
							}
						}
						if p.repoStruct(t) {
							all(ev.Addr, t, s)
							return
						}
					}
				}
				note(ex, st, ev, ev.Addr, false, w)
			case EvMapRead, EvRangeStart, EvRangeNext:
				note(ex, st, ev, ev.Addr, true, false)
			case EvMapWrite, EvMapDelete:
				note(ex, st, ev, ev.Addr, true, true)
			case EvCopy:
				note(ex, st, ev, ev.Addr, true, true)
				note(ex, st, ev, ev.Val, true, false)
			case EvAppend:
				note(ex, st, ev, ev.Addr, true, true)
			case EvExt:
				for _, a := range ev.Args {
					if a.T != nil {
						switch a.T.Underlying().(type) {
						case *types.Slice, *types.Map:
							note(ex, st, ev, a, true, false)
						}
					}
				}
			}
		}
		return c
	}, nil)
	shared := 0
	var keys []string
	for k := range acc {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	for _, k := range keys {
		as := acc[k]
		written := ""
		for _, a := range as {
			if a.write {
				written = a.where
			}
		}
		if written == "" {
			continue
		}
		shared++
		// candidate locks
		cand := map[string]int{}
		for _, a := range as {
			for x := range a.rels {
				cand[x[2:]]++
			}
		}
		best, bn := "", -1
		var cs []string
		for c := range cand {
			cs = append(cs, c)
		}
		sort.Strings(cs)
		for _, c := range cs {
			n := 0
			for _, a := range as {
				if a.rels["W:"+c] || !a.write && a.rels["R:"+c] {
					n++
				}
			}
			if n > bn {
				best, bn = c, n
			}
		}
		for _, a := range as {
			ok := bn >= 0 && (a.rels["W:"+best] || !a.write && a.rels["R:"+best])
			what := "reads " + names[k]
			if a.write {
				what = "writes " + names[k]
			}
			r.Check(ok, "lockset", a.entry, what+" under its lock", "%s does so without the lock that protects it elsewhere; it is written at %s", a.where, written)
		}
	}
	r.Min("shared mutable cells", 6, shared)
}

func (p *Program) repoState(pkg *types.Package) bool {
	rel := strings.TrimPrefix(pkg.Path(), modPrefix+"/go/")
	return rel == "tricorder" || rel == "healthserver"
}

func (p *Program) repoStruct(t types.Type) bool {
	n, ok := types.Unalias(t).(*types.Named)
	if !ok {
		_, anon := t.(*types.Struct)
		return anon
	}
	return n.Obj().Pkg() != nil && p.repoState(n.Obj().Pkg())
}

// lockClass names a lock by the type and field it is.
func lockClass(addr *Term) string {
	switch addr.Op {
	case OField:
		if addr.Args[0].T != nil {
			d := derefType(addr.Args[0].T)
			if n, ok := types.Unalias(d).(*types.Named); ok {
				return structKeyName(n) + "." + nthField(n, addr.I)
			}
			return structKey(d) + fmt.Sprint(addr.I)
		}
	case OGlobal:
		return "var " + short(addr.Aux.(*ssa.Global).String())
	}
	return addr.String()
}

func structKeyName(n *types.Named) string { return short(structKey(n)) }

func runLockUse(r *Report) {
	p := r.P
	var mu sync.Mutex
	order := map[string]map[string]string{}
	sites := map[string]bool{}
	rs := p.roots("tricorder", "tricorder/...", "healthserver", "tricorderclient")
	r.runRoots(rs, func(root Root) *Client {
		entry := p.fname(root.Fn)
		c := &Client{Panics: true}
		c.Event = func(ex *Exec, st *State, ev *Event) {
			if ex.muted > 0 {
				return
			}
			switch ev.Kind {
			case EvLock:
				w := r.where(ev)
				mu.Lock()
				sites[w] = true
				mu.Unlock()
				for _, l := range st.locks {
					r.Check(l.addr != ev.Addr, "no self-deadlock", entry, "a lock that is held is not acquired again", "%s acquires %s, which this call holds since %s", w, ev.Addr, l.site)
					a, b := lockClass(l.addr), lockClass(ev.Addr)
					if l.addr != ev.Addr {
						mu.Lock()
						if order[a] == nil {
							order[a] = map[string]string{}
						}
						order[a][b] = w
						mu.Unlock()
					}
				}
				if len(st.locks) == 0 {
					r.Check(true, "no self-deadlock", entry, "a lock that is held is not acquired again", "")
				}
			case EvUnlock:
				r.Check(ev.Name != "unheld", "balanced", entry, "only held locks are released", "%s releases %s, which is not held on some path (or held in the other mode)", r.where(ev), ev.Addr)
			case EvCallback, EvSend, EvRecv, EvBlock, EvExt:
				if ev.Kind == EvExt && !isBlockingExt(ev.Name) {
					return
				}
				what := map[EvKind]string{EvCallback: "client code runs", EvSend: "waiting on another goroutine", EvRecv: "waiting on another goroutine", EvBlock: "waiting on another goroutine", EvExt: "doing I/O"}[ev.Kind]
				d := ""
				if len(st.locks) > 0 {
					d = fmt.Sprintf("%s holds %s (since %s)", r.where(ev), st.locks[0].addr, st.locks[0].site)
				}
				r.Check(len(st.locks) == 0, "not held across foreign code", entry, "no lock is held while "+what, "%s", d)
			}
		}
		return c
	}, func(ex *Exec, root Root, outs []Outcome) {
		for _, o := range outs {
			kind := "return"
			if o.Panic {
				kind = "panic"
			}
			d := ""
			if len(o.St.locks) > 0 {
				d = fmt.Sprintf("%s acquired at %s is still held", o.St.locks[0].addr, o.St.locks[0].site)
			}
			if o.Panic && o.Site != nil && len(o.St.locks) > 0 {
				d += " when " + p.InstrPos(o.Site) + " panics"
			}
			r.Check(len(o.St.locks) == 0, "balanced", p.fname(root.Fn), "no lock is held on "+kind, "%s", d)
		}
	})
	// cycles in the acquisition order
	var ks []string
	for k := range order {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, a := range ks {
		seen := map[string]bool{}
		var reach func(x string) bool
		reach = func(x string) bool {
			if x == a {
				return true
			}
			if seen[x] {
				return false
			}
			seen[x] = true
			for y := range order[x] {
				if reach(y) {
					return true
				}
			}
			return false
		}
		for b, w := range order[a] {
			r.Check(!reach(b), "order", a+" then "+b, "locks are nested in one order", "%s acquires %s while holding %s, and the opposite order (or the same kind of lock nested in itself) is reachable", w, b, a)
		}
	}
	r.Min("lock acquisitions", 5, len(sites))
}
