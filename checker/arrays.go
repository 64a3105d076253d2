package main

import (
	"fmt"
	"go/token"
	"go/types"
)

// arrays knows what loops wrote into slices: "for every index i of B, B[i] (or a
// field of it) is V(i)".
type arrays struct {
	sw   *sweeps
	vals map[string]*Term
}

func newArrays() *arrays { return &arrays{sw: newSweeps(), vals: map[string]*Term{}} }

func (a *arrays) key(t *Term) string {
	k := fmt.Sprint(t.id)
	a.vals[k] = t
	return k
}

// slot splits an address into the slice, the index and the address as a whole.
func slot(addr *Term) (B, i *Term, ok bool) {
	for x := addr; x != nil; {
		switch x.Op {
		case OElem:
			return x.Args[0], x.Args[1], true
		case OField:
			x = x.Args[0]
		case OLoad:
			x = x.Args[0]
		default:
			return nil, nil, false
		}
	}
	return nil, nil, false
}

// hook adds the bookkeeping to a client.
func (a *arrays) hook(c *Client) {
	inner, back := c.Event, c.Back
	c.Event = func(ex *Exec, st *State, ev *Event) {
		if ev.Kind == EvStore {
			if B, i, ok := slot(ev.Addr); ok && i.anyTerm(func(x *Term) bool { return x.Op == OJoin }) && B != nil {
				a.write(ex, st, ev.Addr, ev.Val)
			}
		}
		if inner != nil {
			inner(ex, st, ev)
		}
	}
	c.Back = func(ex *Exec, st *State, next func(j *Term) *Term) {
		// objects made in the iteration, as they are now
		for _, at := range st.must {
			if at.K != sweepMark+"wr" {
				continue
			}
			a.put(ex, st, at.T, a.vals[at.V])
		}
		// slices that grow by one element each time
		for j := range ex.joins {
			if j.T == nil {
				continue
			}
			if _, ok := j.T.Underlying().(*types.Slice); !ok {
				continue
			}
			v := next(j)
			if v == nil || v.Op != OAppend || v.I == 1 || len(v.Args) != 2 || v.Args[0] != j {
				continue
			}
			addr := ex.ts.mk(Term{Op: OElem, Args: []*Term{j, ex.ts.Sym("next", types.Typ[types.Int])}})
			a.put(ex, st, addr, v.Args[1])
		}
		a.sw.back(ex, st, next)
		if back != nil {
			back(ex, st, next)
		}
	}
}

// put notes a value in a slot together with the object it points to.
func (a *arrays) put(ex *Exec, st *State, addr, v *Term) {
	a.write(ex, st, addr, v)
	if v.Op != OAlloc {
		return
	}
	s := structUnder(v.T)
	if s == nil {
		return
	}
	p := ex.ts.mk(Term{Op: OLoad, Args: []*Term{addr}, T: v.T})
	for f := 0; f < s.NumFields(); f++ {
		val := ex.Load(st, ex.fieldAddr(v, f, v.T), s.Field(f).Type())
		st.SetMust(sweepMark+"wr", ex.ts.Field(p, f, types.NewPointer(s.Field(f).Type())), a.key(val))
	}
}

// counter: the index of a loop, from 0 up.
func (a *arrays) counter(ex *Exec, place string) *Term {
	for j := range ex.joins {
		if j.T == nil || !isInteger(j.T) || loopOf(j) != place {
			continue
		}
		for _, off := range []int64{0, 1} {
			i := ex.ts.Add(j, ex.ts.Int(off), 1, types.Typ[types.Int])
			if ex.stepsUp(i, 0) {
				return i
			}
		}
	}
	return nil
}

// grown: a slice that had n elements appended in a loop, from empty.
func (a *arrays) grown(ex *Exec, st *State, B *Term) bool {
	if B.Op != OJoin || ex.joins[B] == nil {
		return false
	}
	for v := range ex.joins[B].final {
		if v.Op == OAppend && v.I != 1 && len(v.Args) == 2 && v.Args[0] == B {
			continue
		}
		e := unconv(v)
		if e.isNil() || ex.emptySlice(st, e) {
			continue
		}
		if e.Op == OSlice && e.Args[2] != nil {
			if n, ok := e.Args[2].intVal(); ok && n == 0 {
				continue
			}
		}
		return false
	}
	return true
}

// hasLen: the slice has n elements in st.
func (a *arrays) hasLen(ex *Exec, st *State, B, n *Term) bool {
	if l := ex.lenOf(st, B, false, types.Typ[types.Int]); l == n {
		return true
	} else if v, ok := ex.truth(st, ex.ts.Cmp(token.EQL, l, n, types.Typ[types.Int])); ok && v {
		return true
	} else if l.Op == OLen && l.Args[0] != B {
		return a.hasLen(ex, st, l.Args[0], n)
	}
	if a.grown(ex, st, B) {
		if i := a.counter(ex, loopOf(B)); i != nil {
			return ex.swept(st, i, n)
		}
	}
	return false
}

func (a *arrays) write(ex *Exec, st *State, addr, val *Term) {
	if val.Op == OStruct {
		if s := structUnder(val.T); s != nil && s.NumFields() == len(val.Args) {
			for f, v := range val.Args {
				a.write(ex, st, ex.ts.Field(addr, f, types.NewPointer(s.Field(f).Type())), v)
			}
			return
		}
	}
	a.sw.note(st, "wr", addr, a.key(val))
}

// shape: p and q are the same address but for the index.
func shape(p, q, i, k *Term) bool {
	if p == nil || q == nil || p.Op != q.Op {
		return false
	}
	switch p.Op {
	case OElem:
		return p.Args[0] == q.Args[0] && p.Args[1] == i && q.Args[1] == k
	case OField:
		return p.I == q.I && shape(p.Args[0], q.Args[0], i, k)
	case OLoad:
		return shape(p.Args[0], q.Args[0], i, k)
	}
	return false
}

// at: what the loops left in a slot, given that they are over in st.
func (a *arrays) at(ex *Exec, st *State, addr *Term) *Term {
	B, k, ok := slot(addr)
	if !ok {
		return nil
	}
	var res *Term
	for _, n := range a.sw.notes("wr") {
		B2, i, _ := slot(n.T)
		if B2 != B || !shape(n.T, addr, i, k) {
			continue
		}
		if i.Op == OSym && i.S == "next" {
			if !a.grown(ex, st, B) {
				return nil
			}
			if i = a.counter(ex, loopOf(B)); i == nil {
				return nil
			}
		} else if n := ex.lenOf(st, B, false, types.Typ[types.Int]); !ex.swept(st, i, n) && !ex.sweptDown(st, i, n) {
			return nil
		}
		v := ex.ts.subst(a.vals[n.V], func(x *Term) *Term {
			if x == i {
				return k
			}
			return nil
		})
		if res != nil && res != v {
			return nil
		}
		res = v
	}
	return res
}

// resolve replaces reads of slots that loops have filled.
func (a *arrays) resolve(ex *Exec, st *State, t *Term) *Term {
	for n := 0; n < 8; n++ {
		u := ex.ts.subst(t, func(x *Term) *Term {
			if x.Op == OLoad {
				if v := a.at(ex, st, x.Args[0]); v != nil {
					return v
				}
			}
			return nil
		})
		if u == t {
			return t
		}
		t = u
	}
	return t
}
