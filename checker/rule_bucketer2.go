package main

import (
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// adopt takes over the obligations of another rule's run.
func (r *Report) adopt(sub *Report, rules ...string) int {
	n := 0
	take := map[string]bool{"converges": true, "anchor": true, "reported-field": true}
	for _, x := range rules {
		take[x] = true
	}
	for _, o := range sub.obs {
		if take[o.Rule] {
			n++
			r.Check(o.OK, o.Rule, o.Site, o.What, "%s", o.Detail)
		}
	}
	r.mu.Lock()
	defer r.mu.Unlock()
	for f := range sub.funcs {
		r.funcs[f] = true
	}
	for s := range sub.sites {
		r.sites[s] = true
	}
	r.steps += sub.steps
	r.runs += sub.runs
	return n
}

// bktPiece: a range as it is put into a bucketer.
type bktPiece struct {
	lo, hi *Term
	flags  map[int]*Term
}

// pieceVal reads a range (an object or a value).
func (b *bktModel) pieceVal(ex *Exec, st *State, v *Term) *bktPiece {
	s := structOf(b.piece)
	get := func(f int) *Term {
		if v.Op == OStruct && len(v.Args) == s.NumFields() {
			return v.Args[f]
		}
		return ex.Load(st, ex.fieldAddr(v, f, types.NewPointer(b.piece)), s.Field(f).Type())
	}
	if v.Op != OStruct && v.Op != OAlloc {
		return nil
	}
	p := &bktPiece{flags: map[int]*Term{}}
	p.lo, p.hi = get(b.lo.idx), get(b.hi.idx)
	for f := 0; f < s.NumFields(); f++ {
		if isBool(s.Field(f).Type()) {
			p.flags[f] = get(f)
		}
	}
	return p
}

// noEpoch: the endpoints handed to a constructor do not change meanwhile.
func noEpoch(ex *Exec, t *Term) *Term {
	return ex.ts.subst(t, func(x *Term) *Term {
		if x.Op == OLoad && x.S != "" && x.Args[0].Op == OElem {
			return ex.ts.mk(Term{Op: OLoad, Args: []*Term{noEpoch(ex, x.Args[0])}, T: x.T})
		}
		return nil
	})
}

// loops knows how the variables of loops go on, way by way around them.
type loops struct {
	ways map[string][]map[*Term]*Term
}

func (l *loops) hook(c *Client) {
	l.ways = map[string][]map[*Term]*Term{}
	back := c.Back
	c.Back = func(ex *Exec, st *State, next func(j *Term) *Term) {
		if ex.muted == 0 {
			by := map[string]map[*Term]*Term{}
			for j := range ex.joins {
				if v := next(j); v != nil {
					if by[loopOf(j)] == nil {
						by[loopOf(j)] = map[*Term]*Term{}
					}
					by[loopOf(j)][j] = v
				}
			}
			for pl, m := range by {
				l.ways[pl] = append(l.ways[pl], m)
			}
		}
		if back != nil {
			back(ex, st, next)
		}
	}
}

// step: the value a loop variable starts with and the one it goes on with,
// if these are always the same.
func (l *loops) step(ex *Exec, j *Term) (init, next *Term, ok bool) {
	if ex.joins[j] == nil {
		return nil, nil, false
	}
	ws := l.ways[loopOf(j)]
	for i, w := range ws {
		if w[j] == nil || i > 0 && w[j] != next {
			return nil, nil, false
		}
		next = w[j]
	}
	if next == nil {
		return nil, nil, false
	}
	for v := range ex.joins[j].final {
		if v == next || v == j {
			continue
		}
		if init != nil {
			return nil, nil, false
		}
		init = v
	}
	return init, next, init != nil
}

// counter: the variable of a loop that counts up by one.
func (l *loops) counter(ex *Exec, place string) (j *Term, from int64, ok bool) {
	for x := range ex.joins {
		if x.T == nil || !isInteger(x.T) || loopOf(x) != place {
			continue
		}
		init, next, good := l.step(ex, x)
		if !good {
			continue
		}
		d, isC := ex.ts.Add(next, x, -1, types.Typ[types.Int]).intVal()
		c, isI := init.intVal()
		if isC && isI && d == 1 && (j == nil || x.id < j.id) {
			j, from, ok = x, c, true
		}
	}
	return
}

// norm writes the variables of loops in terms of their counters, and the
// counters of loops that are over as what they ended with.
func (l *loops) norm(ex *Exec, st *State, t *Term) *Term {
	it := types.Type(types.Typ[types.Int])
	put := func(t, x, v *Term) *Term {
		return ex.ts.subst(t, func(y *Term) *Term {
			if y == x {
				return v
			}
			return nil
		})
	}
	t = noEpoch(ex, t)
	for n := 0; n < 8; n++ {
		u := ex.ts.subst(t, func(x *Term) *Term {
			if x.Op != OJoin || ex.joins[x] == nil {
				return nil
			}
			j, from, ok := l.counter(ex, loopOf(x))
			if !ok {
				return nil
			}
			if x != j {
				init, next, ok := l.step(ex, x)
				if !ok {
					return nil
				}
				next = noEpoch(ex, next)
				if next.contains(x) {
					return nil
				}
				if put(next, j, ex.ts.Int(from-1)) == noEpoch(ex, init) {
					return put(next, j, ex.ts.Add(j, ex.ts.Int(1), -1, it))
				}
				return nil
			}
			// is the loop over?
			for f, v := range st.facts {
				if v && f.Op == OCmp && f.Aux == token.LSS && f.Args[0].contains(j) {
					return nil
				}
			}
			for f, v := range st.facts {
				if v || f.Op != OCmp || f.Aux != token.LSS {
					continue
				}
				c, isC := ex.ts.Add(f.Args[0], j, -1, it).intVal()
				X := f.Args[1]
				if !isC || X.anyTerm(func(y *Term) bool { return y.Op == OJoin && ex.joins[y] != nil && loopOf(y) == loopOf(j) }) {
					continue
				}
				if le, ok := ex.truth(st, ex.ts.Cmp(token.LEQ, ex.ts.Int(from+c), X, it)); ok && le {
					return ex.ts.Add(X, ex.ts.Int(c), -1, it)
				}
			}
			return nil
		})
		if u = noEpoch(ex, u); u == t {
			break
		}
		t = u
	}
	return t
}

// equal: the two are the same in st.
func (l *loops) equal(ex *Exec, st *State, a, b *Term) bool {
	return l.norm(ex, st, a) == l.norm(ex, st, b) || l.sameSteps(ex, a, b)
}

// sameSteps: two variables of a loop that start alike and go on alike.
func (l *loops) sameSteps(ex *Exec, a, b *Term) bool {
	a, b = noEpoch(ex, a), noEpoch(ex, b)
	if a.Op != OJoin || b.Op != OJoin || loopOf(a) != loopOf(b) {
		return false
	}
	i1, n1, ok1 := l.step(ex, a)
	i2, n2, ok2 := l.step(ex, b)
	return ok1 && ok2 && noEpoch(ex, i1) == noEpoch(ex, i2) && noEpoch(ex, n1) == noEpoch(ex, n2)
}

// bktWrite: a range stored into a slot of a list.
type bktWrite struct {
	B, idx *Term
	p      *bktPiece
	st     *State
}

func runC11(r *Report) {
	b := newBktModel(r)
	if b == nil {
		return
	}
	p := r.P
	cases := bktCases()
	made := 0
	for _, f := range b.makers() {
		c := bktCase{name: "valid parameters", ok: true}
		for _, x := range cases[f.Name()] {
			if x.ok {
				c = x
			}
		}
		b.chain(f, c)
		made++
	}
	r.Min("bucketer constructors", 4, made)
	sub := newReport("C08", p)
	runC08(sub)
	r.Min("operations that count a value", 4, r.adopt(sub, "bucket", "delta-bucket"))
	sub = newReport("C10", p)
	runC10(sub)
	r.Min("reports of ranges", 4, r.adopt(sub, "ranges"))
}

// chain checks the ranges one constructor makes.
func (b *bktModel) chain(f *ssa.Function, c bktCase) {
	r := b.r
	label := r.P.fname(f)
	var writes []bktWrite
	type joint struct {
		lo, end *Term // start of a range, end of the one before
		st      *State
	}
	var joints []joint
	var l loops
	var gEnd, gState *Term
	ft, it := types.Type(types.Typ[types.Float64]), types.Type(types.Typ[types.Int])
	first, last := -1, -1
	cl := &Client{}
	cl.Event = func(ex *Exec, st *State, ev *Event) {
		if gEnd == nil {
			gEnd = ex.ts.mk(Term{Op: OAlloc, S: "ghost:end", T: types.NewPointer(ft)})
			gState = ex.ts.mk(Term{Op: OAlloc, S: "ghost:state", T: types.NewPointer(it)})
		}
		add := func(v *Term) {
			pc := b.pieceVal(ex, st, v)
			if pc == nil {
				if ex.muted == 0 {
					r.Check(false, "chain", label, "the ranges put into a bucketer are known", "%v is appended", v)
				}
				return
			}
			// state: 0 none yet, 1 some, 2 the last one
			was, has := st.mem[gState]
			n, isC := int64(0), !has
			if has {
				n, isC = was.intVal()
			}
			flag := -1
			for i, t := range pc.flags {
				if v, ok := ex.truth(st, t); !ok || v {
					if flag != -1 || !ok {
						flag = -2
					} else {
						flag = i
					}
				}
			}
			if ex.muted == 0 {
				switch {
				case !isC:
					r.Check(false, "chain", label, "it is known which range is the first", "range %v..%v", pc.lo, pc.hi)
				case n == 0:
					r.Check(flag >= 0 && (first == -1 || first == flag), "chain", label, "the first range is open below", "it is not marked")
					first = flag
				case n == 2:
					r.Check(false, "chain", label, "nothing follows the last range", "range %v..%v does", pc.lo, pc.hi)
				default:
					joints = append(joints, joint{pc.lo, st.mem[gEnd], st.clone()})
					r.Check(flag == -1 || flag >= 0 && flag != first, "chain", label, "only the first range is open below", "a later one is marked")
					if flag >= 0 {
						r.Check(last == -1 || last == flag, "chain", label, "only the last range is open above", "it is not marked alike")
						last = flag
					}
				}
			}
			nx := int64(1)
			if isC && n > 0 && flag != -1 {
				nx = 2
			}
			st.mem[gEnd] = pc.hi
			st.mem[gState] = ex.ts.Int(nx)
		}
		switch ev.Kind {
		case EvAppend:
			v, ok := ev.Instr.(ssa.Value)
			if !ok || !b.isPieces(v.Type()) {
				return
			}
			es := ex.sliceElems(st, ev.Args[0], v.Type())
			if es == nil && ex.muted == 0 {
				r.Check(false, "chain", label, "the ranges put into a bucketer are known", "%v is appended", ev.Args[0])
			}
			for _, e := range es {
				add(e)
			}
		case EvStore:
			a := ev.Addr
			if a.Op == OElem && ex.muted == 0 && types.Identical(derefType(a.T), ft) {
				_, has := st.mem[gState]
				r.Check(!has && len(writes) == 0, "chain", label, "the endpoints do not change while ranges are made", "%v is stored into", a)
			}
			if a.Op == OElem && a.Args[0].Op == OAlloc {
				// a list literal
				if al, ok := a.Args[0].Aux.(*ssa.Alloc); ok && al.Comment == "slicelit" && b.isPiece(derefType(derefType(a.T))) {
					add(ev.Val)
					return
				}
			}
			if ex.muted > 0 {
				return
			}
			if a.Op == OField && a.Args[0].Op == OElem {
				a = a.Args[0]
			}
			if a.Op != OElem || !b.isPieces(a.Args[0].T) {
				return
			}
			w := bktWrite{B: a.Args[0], idx: a.Args[1], st: st.clone()}
			if a == ev.Addr {
				w.p = b.pieceVal(ex, st, ev.Val)
				writes = append(writes, w)
				return
			}
			// field by field
			s := structOf(b.piece)
			for i := range writes {
				if o := &writes[i]; o.B == w.B && o.idx == w.idx {
					w.p = o.p
					o.st = w.st
				}
			}
			if w.p == nil {
				z := func(i int) *Term { return ex.zero(s.Field(i).Type()) }
				w.p = &bktPiece{lo: z(b.lo.idx), hi: z(b.hi.idx), flags: map[int]*Term{}}
				for i := 0; i < s.NumFields(); i++ {
					if isBool(s.Field(i).Type()) {
						w.p.flags[i] = z(i)
					}
				}
				writes = append(writes, w)
			}
			switch ev.Addr.I {
			case b.lo.idx:
				w.p.lo = ev.Val
			case b.hi.idx:
				w.p.hi = ev.Val
			default:
				w.p.flags[ev.Addr.I] = ev.Val
			}
		}
	}
	cl.Split = func(*ssa.Function) bool { return true }
	cl.Opaque = func(addr *Term, typ types.Type) bool {
		return addr.Op == OElem && types.Identical(typ, ft)
	}
	l.hook(cl)
	ex, outs := b.build(f, c, cl)
	for _, x := range joints {
		r.Check(l.equal(ex, x.st, x.lo, x.end), "chain", label, "a range starts where the one before it ends", "it starts at %v, the one before ends at %v", x.lo, x.end)
	}
	n := 0
	for _, o := range outs {
		if o.Panic || len(o.Ret) != 1 {
			continue
		}
		for i := 0; i < structOf(b.B).NumFields(); i++ {
			ft := structOf(b.B).Field(i).Type()
			if !b.isPieces(ft) {
				continue
			}
			n++
			v := unconv(ex.Load(o.St, ex.fieldAddr(o.Ret[0], i, types.NewPointer(b.B)), ft))
			if len(writes) > 0 {
				b.slots(ex, o.St, &l, label, v, writes)
				continue
			}
			// the list is what was appended, from nothing
			r.Check(v.Op == OAppend && b.fromNothing(ex, o.St, v, 0), "chain", label, "the bucketer has all the ranges made", "it has %v", v)
			s, ok := o.St.mem[gState]
			k, isC := int64(0), false
			if ok {
				k, isC = s.intVal()
			}
			r.Check(isC && k == 2, "chain", label, "the last range is open above", "it is not marked")
		}
	}
	r.Check(n > 0, "chain", label, "the constructor gives a bucketer with ranges", "none found")
}

// fromNothing: a list made only by appending.
func (b *bktModel) fromNothing(ex *Exec, st *State, t *Term, d int) bool {
	t = unconv(t)
	switch t.Op {
	case OAppend:
		return t.I != 1 && b.fromNothing(ex, st, t.Args[0], d)
	case OJoin:
		if ex.joins[t] == nil || d > 3 {
			return false
		}
		for v := range ex.joins[t].final {
			x := unconv(v)
			for x.Op == OAppend && x.I != 1 {
				x = x.Args[0]
			}
			if x != t && !b.fromNothing(ex, st, x, d+1) {
				return false
			}
		}
		return true
	case OSlice:
		if ex.sliceElems(st, t, t.T) != nil {
			return true
		}
		if t.Args[2] != nil {
			n, ok := t.Args[2].intVal()
			return ok && n == 0
		}
	case OAlloc:
		n, ok := ex.lenOf(st, t, false, t.T).intVal()
		return ok && n == 0
	}
	return t.isNil()
}

// slots checks ranges stored by index.
func (b *bktModel) slots(ex *Exec, st *State, l *loops, label string, B *Term, ws []bktWrite) {
	r := b.r
	it := types.Type(types.Typ[types.Int])
	n := ex.lenOf(st, B, false, B.T)
	top := ex.ts.Add(n, ex.ts.Int(1), -1, it)
	k := ex.ts.Sym("k", it)
	var G *Term // start of range k
	put := func(t, x, v *Term) *Term {
		return ex.ts.subst(t, func(y *Term) *Term {
			if y == x {
				return v
			}
			return nil
		})
	}
	type edge struct {
		idx, lo, hi *Term
		loop        bool
	}
	var es []edge
	zero, end := false, false
	var sweeps []*Term
	for _, w := range ws {
		if !r.Check(w.p != nil && w.B == B, "chain", label, "the ranges put into a bucketer are known", "slot %v", w.idx) {
			return
		}
		e := edge{idx: l.norm(ex, w.st, w.idx)}
		j, off, isL := ex.indexOf(e.idx)
		e.loop = isL && !e.idx.isConst()
		if e.loop {
			for lo := int64(0); lo < 3; lo++ {
				if ex.stepsUp(e.idx, lo) {
					ex.assume[e.idx] = ivGE(lo)
				}
			}
		}
		// slots are in range, so 0 is what is not above 0 and the last what is not below it
		pos, ok0 := ex.truth(w.st, ex.ts.Cmp(token.LSS, ex.ts.Int(0), e.idx, it))
		below, okN := ex.truth(w.st, ex.ts.Cmp(token.LSS, e.idx, top, it))
		if !e.loop && !okN {
			below, okN = e.idx != top, true
		}
		if !e.loop && !ok0 && e.idx == top {
			pos, ok0 = true, true
		}
		if !r.Check(ok0 && okN, "chain", label, "it is known which range is the first and which the last", "slot %v", e.idx) {
			return
		}
		wst := w.st.clone()
		wst.facts[ex.ts.Cmp(token.EQL, e.idx, ex.ts.Int(0), it)] = !pos
		wst.facts[ex.ts.Cmp(token.EQL, e.idx, top, it)] = !below
		flags := 0
		for _, t := range w.p.flags {
			if v, ok := ex.truth(wst, t); !ok || v {
				flags++
			}
		}
		at := func(t *Term) *Term {
			t = l.norm(ex, w.st, t)
			if e.loop {
				t = put(t, j, ex.ts.Add(k, ex.ts.Int(off), -1, it))
			}
			return t
		}
		want := 0
		if !pos {
			want, zero = want+1, true
		} else {
			e.lo = at(w.p.lo)
			if e.loop {
				G = e.lo
			}
		}
		if !below {
			want, end = want+1, true
		} else {
			e.hi = at(w.p.hi)
		}
		r.Check(len(w.p.flags) < 2 || flags == want, "chain", label, "only the first and the last range are open", "slot %v has %d marks", e.idx, flags)
		if e.loop {
			sweeps = append(sweeps, e.idx)
		}
		es = append(es, e)
	}
	if !r.Check(G != nil, "chain", label, "the starts of the ranges are known", "no loop stores them") {
		return
	}
	for _, e := range es {
		at := k
		if !e.loop {
			at = e.idx
		}
		if e.lo != nil {
			want := put(G, k, at)
			r.Check(e.lo == want, "chain", label, "a range starts where the one before it ends", "range %v starts at %v, expected %v", e.idx, e.lo, want)
		}
		if e.hi != nil {
			want := put(G, k, ex.ts.Add(at, ex.ts.Int(1), 1, it))
			r.Check(e.hi == want, "chain", label, "a range starts where the one before it ends", "range %v ends at %v, the next starts at %v", e.idx, e.hi, want)
		}
	}
	// every slot is filled
	full := false
	for _, i := range sweeps {
		lo := int64(0)
		if zero && !ex.stepsUp(i, 0) {
			lo = 1
		}
		bound := n
		if v, ok := ex.truth(st, ex.ts.Cmp(token.LSS, i, n, it)); (!ok || v) && end {
			bound = top
		}
		v, ok := ex.truth(st, ex.ts.Cmp(token.LSS, i, bound, it))
		if ex.stepsUp(i, lo) && ok && !v {
			full = true
		}
	}
	r.Check(full, "chain", label, "every slot has a range", "not all are filled")
}
