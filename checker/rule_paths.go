package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Property{ID: "C17", MinObs: 60, Run: runC17,
		Rule: "every registration entry point is interpreted for every combination of what is found on the way and at the path: insertions only under the exclusive lock of the directory where the same critical section found nothing, of a fresh entry that names itself; success exactly with one insertion at the path"})
}

func init() {
	register(&Property{ID: "C18", MinObs: 40, Run: runC18,
		Rule: "every deletion from a directory is by the last component of the path in the directory the components before lead to, or of a directory's own entry found under its name in the same critical section; entries never change once published; absolute paths are built from the names of the chain of parents"})
}

// chainText: text is the names from the root down to entry e0, each after a "/".
func (w *treeRun) chainText(st *State, text, e0 *Term, stores []treeStore) (bool, string) {
	m, ex := w.m, w.ex
	it := types.Type(types.Typ[types.Int])
	nilIn := func(t *Term) bool {
		if t.isNil() {
			return true
		}
		v, ok := ex.truth(st, ex.ts.Cmp(token.EQL, t, ex.ts.Nil(t.T), t.T))
		return ok && v
	}
	nameOf := func(t *Term) *Term {
		if t.Op == OLoad && t.Args[0].Op == OField && t.Args[0].I == m.name && structUnder(t.Args[0].Args[0].T) == m.E {
			return t.Args[0].Args[0]
		}
		return nil
	}
	// cur goes from e0 up to the root
	climbs := func(cur *Term, place string) (bool, string) {
		if cur == nil || cur.Op != OJoin || loopOf(cur) != place || ex.joins[cur] == nil {
			return false, "the names are not those of a walk up"
		}
		start := false
		for v := range ex.joins[cur].final {
			if w.nexts[cur][v] {
				if v.Op != OLoad || v.Args[0].Op != OField || v.Args[0].I != m.upper || v.Args[0].Args[0] != cur {
					return false, fmt.Sprintf("the walk goes on at %v", v)
				}
			} else if v == e0 {
				start = true
			} else {
				return false, fmt.Sprintf("the walk starts at %v, not %v", v, e0)
			}
		}
		if w.nexts[cur][cur] || !start {
			return false, "the walk does not go up"
		}
		if !nilIn(cur) {
			return false, "the walk may stop below the root"
		}
		return true, ""
	}
	if s, ok := text.strVal(); ok {
		if s == "/" && nilIn(e0) {
			return true, ""
		}
		return false, fmt.Sprintf("it is %q", s)
	}
	var parts []*Term
	if text.Op == OConcat {
		parts = text.Args
	} else {
		parts = []*Term{text}
	}
	// "/" + strings.Join(names, "/")
	if len(parts) == 2 && parts[0].isStr("/") && parts[1].Op == OCall && parts[1].Aux == "strings.Join" && parts[1].Args[1].isStr("/") {
		N := parts[1].Args[0]
		for N.Op == OConv {
			N = N.Args[0]
		}
		if N.isNil() {
			if nilIn(e0) {
				return true, ""
			}
			return false, "it is empty"
		}
		if N.Op != OJoin || ex.joins[N] == nil {
			return false, fmt.Sprintf("the names are %v", N)
		}
		place := loopOf(N)
		up, down := false, false
		var cur *Term
		for v := range ex.joins[N].final {
			if !w.nexts[N][v] {
				if !v.isNil() && !ex.emptySlice(st, v) {
					return false, fmt.Sprintf("the names start with %v", v)
				}
				continue
			}
			if v.Op != OAppend || len(v.Args) != 2 {
				return false, fmt.Sprintf("the names become %v", v)
			}
			var c *Term
			switch {
			case v.Args[0] == N && nameOf(v.Args[1]) != nil:
				up, c = true, nameOf(v.Args[1])
			default:
				return false, fmt.Sprintf("the names become %v", v)
			}
			if cur != nil && cur != c {
				return false, "the names are of different walks"
			}
			cur = c
		}
		if w.nexts[N][N] {
			return false, "a name is left out"
		}
		if ok, why := climbs(cur, place); !ok {
			return false, why
		}
		// names of the way up have to be reversed, once
		n := 0
		last := ex.ts.Add(ex.lenTerm(N), ex.ts.Int(1), -1, it)
		for _, s := range stores {
			if s.base != N {
				continue
			}
			if s.val.Op != OLoad || s.val.Args[0].Op != OElem || s.val.Args[0].Args[0] != N {
				return false, fmt.Sprintf("a name is replaced by %v", s.val)
			}
			a, b := s.idx, s.val.Args[0].Args[1]
			pair := false
			for _, u := range stores {
				if u.base == N && u.idx == b && u.val.Op == OLoad && u.val.Args[0].Op == OElem && u.val.Args[0].Args[1] == a {
					pair = true
				}
			}
			if !pair || !ex.mirrored(st, a, b, last) {
				return false, fmt.Sprintf("name %v is replaced by name %v", a, b)
			}
			n++
		}
		down = n == 2
		if up && !down {
			return false, "the names are in the order from the entry to the root"
		}
		return true, ""
	}
	// text = "/" + name + text
	if text.Op == OJoin && ex.joins[text] != nil {
		var cur *Term
		for v := range ex.joins[text].final {
			if !w.nexts[text][v] {
				if s, ok := v.strVal(); !ok || s != "" {
					return false, fmt.Sprintf("it starts as %v", v)
				}
				continue
			}
			if v.Op != OConcat || len(v.Args) != 3 || !v.Args[0].isStr("/") || v.Args[2] != text || nameOf(v.Args[1]) == nil {
				return false, fmt.Sprintf("it becomes %v", v)
			}
			cur = nameOf(v.Args[1])
		}
		if w.nexts[text][text] {
			return false, "a name is left out"
		}
		return climbs(cur, loopOf(text))
	}
	return false, fmt.Sprintf("it is %v", text)
}

// mirrored: the loop visits pairs a, b with a+b = last, a from 0 until they meet.
func (ex *Exec) mirrored(st *State, a, b, last *Term) bool {
	it := types.Type(types.Typ[types.Int])
	lo, hi := a, b
	if !ex.stepsUp(lo, 0) {
		lo, hi = b, a
	}
	if !ex.stepsUp(lo, 0) {
		return false
	}
	if ex.ts.Add(lo, hi, 1, it) != last {
		// hi is a variable of its own, from last down
		j, off, ok := ex.indexOf(hi)
		k, _, ok2 := ex.indexOf(lo)
		if !ok || !ok2 || ex.joins[j] == nil || loopOf(j) != loopOf(k) {
			return false
		}
		for v := range ex.joins[j].final {
			if d := ex.ts.Add(v, j, -1, it); d.isConst() {
				if c, isC := d.intVal(); !isC || c != -1 {
					return false
				}
			} else if ex.ts.Add(v, ex.ts.Int(off), 1, it) != last {
				return false
			}
		}
		v, ok := ex.truth(st, ex.ts.Cmp(token.LSS, lo, hi, it))
		return ok && !v
	}
	if v, ok := ex.truth(st, ex.ts.Cmp(token.LSS, lo, hi, it)); ok && !v {
		return true
	}
	n := ex.ts.Add(last, ex.ts.Int(1), 1, it)
	half := ex.ts.Bin(token.QUO, n, ex.ts.Int(2), it, it)
	v, ok := ex.truth(st, ex.ts.Cmp(token.LSS, lo, half, it))
	return ok && !v
}

func (ex *Exec) emptySlice(st *State, t *Term) bool {
	n := ex.lenOf(st, t, false, types.Typ[types.Int])
	c, ok := n.intVal()
	return ok && c == 0
}

func (t *Term) isStr(s string) bool {
	v, ok := t.strVal()
	return ok && v == s
}

type treeStore struct{ base, idx, val *Term }

// absPaths checks the texts a function computes as absolute paths.
func (m *treeModel) absPaths(f *ssa.Function, tc treeCase, e0 func(ex *Exec, args []*Term) *Term) (n int) {
	r := m.r
	run := m.newRun(m.p.fname(f))
	run.fn = f
	c := m.client()
	c.Cond = m.cond(tc)
	c.Split = func(fn *ssa.Function) bool { return true }
	// the root has no entry: only new directories are ever given one (C18)
	c.Load = func(ex *Exec, st *State, addr *Term, typ types.Type) *Term {
		if addr.Op == OField && addr.I == m.dEnc && m.inTree(addr.Args[0].T) && addr.Args[0].Op == OLoad && addr.Args[0].Args[0].Op == OGlobal && types.Identical(structUnder(addr.Args[0].T), m.D) {
			return ex.ts.Nil(typ)
		}
		return nil
	}
	var stores []treeStore
	type text struct {
		st    *State
		t     *Term
		e0    *Term
		where string
	}
	var texts []text
	path := r.P.Named("tricorder/messages", "Metric")
	pi := fieldIdx(path, "Path")
	c.Event = func(ex *Exec, st *State, ev *Event) {
		if ex.muted > 0 || ev.Kind != EvStore {
			return
		}
		if ev.Addr.Op == OElem && isString(ev.Val.T) {
			stores = append(stores, treeStore{ev.Addr.Args[0], ev.Addr.Args[1], ev.Val})
		}
		if b, i, ok := fieldOf(ev.Addr, path); ok && i == pi {
			_ = b
			texts = append(texts, text{st.clone(), ev.Val, nil, r.where(ev)})
		}
	}
	m.hook(c, run)
	ex := NewExec(m.p, c)
	run.ex = ex
	args := ex.symArgs(f)
	run.outs = ex.Run(f, args, nil, newState())
	r.Ran(ex, run.root)
	r.Check(ex.err == "", "converges", run.root, "the entry point is analysed", "%s", ex.err)
	if isString(f.Signature.Results().At(0).Type()) {
		texts = nil
		for _, o := range run.outs {
			if !o.Panic {
				texts = append(texts, text{o.St, o.Ret[0], nil, "result"})
			}
		}
	}
	for _, t := range texts {
		n++
		ok, why := run.chainText(t.st, t.t, e0(ex, args), stores)
		r.Check(ok, "absolute path", run.root+": "+t.where, "the path is the chain of names from the root", "%s", why)
	}
	return n
}

func runC18(r *Report) {
	m := newTreeModel(r)
	if m == nil {
		return
	}
	p := r.P
	deletes := 0
	unPath, unDir := 0, 0
	for _, root := range p.roots("tricorder") {
		f := root.Fn
		if root.Kind != "api" {
			continue
		}
		// entries and the links to them never change once they can be seen
		if _, isReg := m.registers()[f]; isReg || strings.HasPrefix(f.Name(), "Unregister") {
			m.fixedEntries(f)
		}
		if !strings.HasPrefix(f.Name(), "Unregister") {
			continue
		}
		byPath := false
		for _, q := range f.Params {
			byPath = byPath || isString(q.Type())
		}
		any := m.run(f, treeCase{split: true}, false)
		any.checkSteps("path")
		for _, op := range any.ops {
			if op.kind == EvMapDelete {
				deletes++
				any.checkDelete(op)
			}
			r.Check(op.kind != EvMapWrite, "delete", any.root+": "+op.where, "removing puts nothing in", "it does")
		}
		if byPath {
			unPath++
			for _, tc := range treeCases {
				if tc.walk != dirEntry || tc.final == noEntry {
					continue
				}
				w := m.run(f, tc, false)
				for _, o := range w.outs {
					if o.Panic {
						continue
					}
					_, del := o.St.Get("deleted", nil)
					r.Check(del != m.emptyPath(w.ex, o.St), "delete", w.root+" when "+tc.String(), "the entry at the path is removed, and only a base directory is left alone", "removed: %v", del)
				}
			}
			continue
		}
		unDir++
		m.unregisterDir(f)
	}
	r.Min("deletions", 2, deletes)
	r.Min("functions that remove by path", 2, unPath)
	r.Min("functions that remove a directory", 1, unDir)
	// absolute paths
	n := 0
	if f := p.Method("tricorder", "DirectorySpec", "AbsPath"); r.Need(f != nil, "DirectorySpec.AbsPath") {
		n += m.absPaths(f, treeCase{}, func(ex *Exec, args []*Term) *Term {
			return ex.Load(newState(), ex.fieldAddr(args[0], m.dEnc, m.DT), m.D.Field(m.dEnc).Type())
		})
	}
	if named, ok := types.Unalias(m.MT).(*types.Named); ok {
		if sel := p.Prog.MethodSets.MethodSet(types.NewPointer(named)).Lookup(named.Obj().Pkg(), "AbsPath"); sel != nil {
			f := p.Prog.MethodValue(sel)
			n += m.absPaths(f, treeCase{}, func(ex *Exec, args []*Term) *Term {
				return ex.Load(newState(), ex.fieldAddr(args[0], m.mEnc, m.MT), m.M.Field(m.mEnc).Type())
			})
		}
	}
	r.Min("absolute paths", 2, n)
}

// registers: the functions that register metrics or directories.
func (m *treeModel) registers() map[*ssa.Function]bool {
	fs := map[*ssa.Function]bool{}
	for _, f := range append(m.regDirs(), m.p.registrations()...) {
		fs[f] = true
	}
	return fs
}

// fixedEntries: no store to a published entry or to a link to one.
func (m *treeModel) fixedEntries(f *ssa.Function) {
	r := m.r
	c := m.client()
	n := 0
	c.Event = func(ex *Exec, st *State, ev *Event) {
		if ex.muted > 0 || ev.Kind != EvStore || ev.Addr.Op != OField {
			return
		}
		s := structUnder(ev.Addr.Args[0].T)
		if s == nil || !(s == m.E || s == m.M && ev.Addr.I == m.mEnc || types.Identical(s, m.D) && (ev.Addr.I == m.dEnc || ev.Addr.I == m.contents)) {
			return
		}
		n++
		b := ev.Addr.Args[0]
		own := st.freshAddr(ev.Addr)
		if !own && b.Op == OAlloc {
			// still inside the critical section that made it reachable
			for _, l := range st.locks {
				if l.write && l.addr.Op == OField && m.inTree(l.addr.Args[0].T) {
					own = true
				}
			}
		}
		r.Check(own, "fixed", m.p.fname(f)+": "+r.where(ev), "an entry, and the link to it, never change once they can be seen", "%v is stored to", ev.Addr)
	}
	ex := NewExec(m.p, c)
	outs := ex.Run(f, ex.symArgs(f), nil, newState())
	r.Ran(ex, m.p.fname(f))
	r.Check(ex.err == "" && len(outs) > 0, "converges", m.p.fname(f), "the entry point is analysed", "%s", ex.err)
}

// checkDelete: what a deletion removes.
func (w *treeRun) checkDelete(op treeOp) {
	m, ex, r := w.m, w.ex, w.m.r
	site := w.root + ": " + op.where
	if R, i, ok := component(op.key); ok {
		r.Check(m.isLast(ex, op.st, R, i), "delete", site, "what is removed is named by the last component", "it is component %v", i)
		return
	}
	// a directory's own entry
	k := op.key
	if !r.Check(k.Op == OLoad && k.Args[0].Op == OField && k.Args[0].I == m.name && structUnder(k.Args[0].Args[0].T) == m.E, "delete", site, "what is removed is named by a path or an entry", "it is %v", k) {
		return
	}
	e := k.Args[0].Args[0]
	r.Check(ex.nonNil(op.st, e) || m.knownNonNil(ex, op.st, e), "delete", site, "the root is never removed", "the directory may be the root")
	cell := ex.loadMapVal(op.st, op.m, k, m.mapT)
	same := cell == e
	if v, ok := ex.truth(op.st, ex.ts.Cmp(token.EQL, cell, e, e.T)); ok && v {
		same = true
	}
	r.Check(same, "delete", site, "the entry under the name is known, in the same critical section, to be the directory's own", "the entry may be %v", cell)
	// in the directory it is in
	up := ex.Load(op.st, ex.fieldAddr(e, m.upper, m.ET), m.E.Field(m.upper).Type())
	good := false
	if op.dir != nil {
		switch {
		case op.dir.Op == OLoad && op.dir.Args[0].Op == OGlobal:
			v, ok := ex.truth(op.st, ex.ts.Cmp(token.EQL, up, ex.ts.Nil(up.T), up.T))
			good = ok && v
		case op.dir.Op == OLoad && op.dir.Args[0].Op == OField && op.dir.Args[0].I == m.dir:
			good = op.dir.Args[0].Args[0] == up
		}
	}
	r.Check(good, "delete", site, "it is removed from the directory it is in", "it is removed from %v", op.dir)
}

func (m *treeModel) knownNonNil(ex *Exec, st *State, t *Term) bool {
	v, ok := ex.truth(st, ex.ts.Cmp(token.EQL, t, ex.ts.Nil(t.T), t.T))
	return ok && !v
}

// unregisterDir: with the directory's entry in place it goes, otherwise nothing does.
func (m *treeModel) unregisterDir(f *ssa.Function) {
	r, p := m.r, m.p
	for _, own := range []bool{true, false} {
		run := m.newRun(p.fname(f))
		run.fn = f
		c := m.client()
		c.Cond = func(ex *Exec, st *State, t *Term) (bool, bool) {
			if _, _, pres, ok := m.entryKey(t); ok && pres {
				return true, true
			}
			if t.Op != OCmp || t.Aux != token.EQL {
				return false, false
			}
			a, b := t.Args[0], t.Args[1]
			if a.isNil() {
				a, b = b, a
			}
			// the entry above another is a directory's (C17: the parent of a
			// new entry is the entry of the directory it is put in)
			if b.isNil() && a.Op == OLoad && a.Args[0].Op == OField && a.Args[0].I == m.dir {
				if e := a.Args[0].Args[0]; e.Op == OLoad && e.Args[0].Op == OField && e.Args[0].I == m.upper && structUnder(e.Args[0].Args[0].T) == m.E {
					return false, true
				}
			}
			if _, _, _, ok := m.entryKey(a); !ok {
				a, b = b, a
			}
			if _, _, pres, ok := m.entryKey(a); ok && !pres {
				if b.isNil() {
					return false, true // there is an entry
				}
				return own, true
			}
			// the same, comparing directories
			if a.Op == OLoad && a.Args[0].Op == OField && a.Args[0].I == m.dir {
				if _, _, pres, ok := m.entryKey(a.Args[0].Args[0]); ok && !pres {
					if b.isNil() {
						return !own, true
					}
					return own, true
				}
			}
			return false, false
		}
		c.Split = func(*ssa.Function) bool { return true }
		m.hook(c, run)
		ex := NewExec(p, c)
		run.ex = ex
		args := ex.symArgs(f)
		outs := ex.Run(f, args, nil, newState())
		r.Ran(ex, p.fname(f))
		for _, o := range outs {
			if o.Panic {
				continue
			}
			_, del := o.St.Get("deleted", nil)
			enc := ex.Load(newState(), ex.fieldAddr(args[0], m.dEnc, m.DT), m.D.Field(m.dEnc).Type())
			isRoot, known := ex.truth(o.St, ex.ts.Cmp(token.EQL, enc, ex.ts.Nil(enc.T), enc.T))
			site := p.fname(f)
			if own {
				r.Check(known && del != isRoot, "delete", site, "a directory that is registered is removed, the root is not", "removed: %v", del)
			} else {
				r.Check(!del, "delete", site, "what took a directory's place is left alone", "it is removed")
			}
		}
	}
}

func (m *treeModel) regDirs() []*ssa.Function {
	var fs []*ssa.Function
	for _, root := range m.p.roots("tricorder") {
		res := root.Fn.Signature.Results()
		if root.Kind == "api" && strings.HasPrefix(root.Fn.Name(), "Register") && res.Len() == 2 && isErrorType(res.At(1).Type()) {
			if s := structUnder(res.At(0).Type()); s != nil && types.Identical(s, m.D) {
				fs = append(fs, root.Fn)
			}
		}
	}
	return fs
}

var treeCases = func() []treeCase {
	var r []treeCase
	for _, w := range []string{noEntry, dirEntry, metricItem} {
		for _, f := range []string{noEntry, dirEntry, metricItem} {
			r = append(r, treeCase{walk: w, final: f})
		}
	}
	return r
}()

// emptyPath: in st the path has no components.
func (m *treeModel) emptyPath(ex *Exec, st *State) bool {
	for f := range st.facts {
		found := false
		f.anyTerm(func(x *Term) bool {
			if x.Op == OLen && x.Args[0].Op == OCall && x.Args[0].Aux == "split" {
				if iv := ex.interval(st, x, 0); iv.hi != nil && iv.hi.Sign() <= 0 {
					found = true
				}
			}
			return found
		})
		if found {
			return true
		}
	}
	return false
}

func (w *treeRun) checkInserts() {
	m, ex, r := w.m, w.ex, w.m.r
	for _, op := range w.ops {
		if op.kind != EvMapWrite {
			continue
		}
		site := w.root + ": " + op.where
		if op.dir != nil && op.dir.Op == OAlloc && op.st.isFresh(op.dir) {
			r.Check(false, "insert", site, "entries are put into a directory that can be reached", "%v is new", op.dir)
			continue
		}
		absent := false
		if v, ok := ex.truth(op.st, op.ok); ok && !v {
			absent = true
		}
		if op.old.isNil() {
			absent = true
		} else if v, ok := ex.truth(op.st, ex.ts.Cmp(token.EQL, op.old, ex.ts.Nil(op.old.T), op.old.T)); ok && v {
			absent = true
		}
		r.Check(absent, "insert", site, "nothing is registered there when the entry is put in", "the entry under %v may exist", op.key)
		held := false
		for _, l := range op.st.locks {
			if l.write && l.addr.Op == OField && l.addr.Args[0] == op.dir {
				held = true
			}
		}
		r.Check(held, "insert", site, "the look and the insertion are in one critical section", "the lock of %v is not held exclusively", op.dir)
		e := op.val
		if !r.Check(e.Op == OAlloc && op.st.isFresh(e), "insert", site, "the entry is a new one", "it is %v", e) {
			continue
		}
		get := func(i int) *Term { return ex.Load(op.st, ex.fieldAddr(e, i, m.ET), m.E.Field(i).Type()) }
		r.Check(get(m.name) == op.key, "insert", site, "the entry has the name it is stored under", "its name is %v, the key %v", get(m.name), op.key)
		md, dd := get(m.metric), get(m.dir)
		if md.Op == OAlloc {
			w.checkDescription(op, md)
		}
		one := md.isNil() && ex.nonNil(op.st, dd) || dd.isNil() && ex.nonNil(op.st, md)
		r.Check(one, "insert", site, "the entry is either a metric or a directory", "metric %v, directory %v", md, dd)
		if op.dir != nil {
			enc := ex.Load(op.st, ex.fieldAddr(op.dir, m.dEnc, m.DT), m.D.Field(m.dEnc).Type())
			r.Check(get(m.upper) == enc, "insert", site, "the entry's parent is the entry of the directory it is in", "it is %v, expected %v", get(m.upper), enc)
		}
	}
}

// checkDescription: the metric put in carries the client's other text.
func (w *treeRun) checkDescription(op treeOp, md *Term) {
	m, ex := w.m, w.ex
	R, _, ok := component(op.key)
	if !ok || len(R.Args) != 1 {
		return
	}
	var desc *Term
	for i, a := range ex.symArgs(w.fn) {
		if isString(w.fn.Params[i].Type()) && types.Identical(w.fn.Params[i].Type(), types.Typ[types.String]) && !R.Args[0].contains(a) {
			desc = a
		}
	}
	for i := 0; i < m.M.NumFields(); i++ {
		if f := m.M.Field(i); desc != nil && types.Identical(f.Type(), types.Typ[types.String]) {
			got := ex.Load(op.st, ex.fieldAddr(md, i, m.MT), f.Type())
			m.r.Check(got == desc, "insert", w.root+": "+op.where, "the metric has the description given", "it is %v", got)
		}
	}
}

// backPointers: when the lock is released, what was put in knows its entry.
func (w *treeRun) backPointers(c *Client) {
	m, r := w.m, w.m.r
	inner := c.Event
	c.Event = func(ex *Exec, st *State, ev *Event) {
		if ev.Kind == EvMapWrite && ev.Val2.Op == OAlloc && structUnder(ev.Val2.T) == m.E {
			st.Set("linked", ev.Val2, "no")
			for i, enc := range map[int]int{m.metric: m.mEnc, m.dir: m.dEnc} {
				if o := ex.Load(st, ex.fieldAddr(ev.Val2, i, m.ET), m.E.Field(i).Type()); !o.isNil() {
					T, S := m.MT, m.M
					if i == m.dir {
						T, S = m.DT, m.D
					}
					if ex.Load(st, ex.fieldAddr(o, enc, T), S.Field(enc).Type()) == ev.Val2 {
						st.Set("linked", ev.Val2, "yes")
					} else {
						st.Set("linked", ev.Val2, "no")
					}
				}
			}
		}
		if ev.Kind == EvStore && ev.Addr.Op == OField {
			s := structUnder(ev.Addr.Args[0].T)
			if s != nil && (types.Identical(s, m.D) && ev.Addr.I == m.dEnc || s == m.M && ev.Addr.I == m.mEnc) {
				if _, ok := st.Get("linked", ev.Val); ok {
					i := m.metric
					if types.Identical(s, m.D) {
						i = m.dir
					}
					if ex.Load(st, ex.fieldAddr(ev.Val, i, m.ET), m.E.Field(i).Type()) == ev.Addr.Args[0] {
						st.Set("linked", ev.Val, "yes")
					}
				}
			}
		}
		if ev.Kind == EvUnlock && ev.Addr.Op == OField {
			if s := structUnder(ev.Addr.Args[0].T); s != nil && types.Identical(s, m.D) {
				for _, a := range st.Atoms("linked") {
					if ex.muted == 0 {
						r.Check(a.V == "yes", "back pointer", w.root+": "+r.where(ev), "what is registered knows its entry before anyone can see it", "the entry %v is not linked", a.T)
					}
					st.Del("linked", a.T)
				}
			}
		}
		if inner != nil {
			inner(ex, st, ev)
		}
	}
}

func runC17(r *Report) {
	m := newTreeModel(r)
	if m == nil {
		return
	}
	p := r.P
	regs := p.registrations()
	r.Min("functions that register metrics", 3, len(regs))
	inserts, keyed := 0, 0
	for _, f := range append(m.regDirs(), regs...) {
		w := m.run(f, treeCase{}, true)
		w.checkSteps("path")
		w.checkInserts()
	}
	for _, f := range regs {
		for _, tc := range treeCases {
			w := m.run(f, tc, true)
			keyed += w.checkSteps("path")
			for _, op := range w.ops {
				if op.kind == EvMapWrite {
					inserts++
				}
			}
			ex := w.ex
			site := p.fname(f) + " when " + tc.String()
			succ := 0
			for _, o := range w.outs {
				n, _ := o.St.Get("stored", nil)
				if o.Panic {
					r.Check(n == "", "result", site, "a registration that panics registers nothing", "an entry was stored")
					continue
				}
				err := o.Ret[len(o.Ret)-1]
				for _, e := range err.alts() {
					inUse := p.isGlobalErr(e, "ErrPathInUse")
					switch {
					case e.isNil():
						succ++
						r.Check(tc.final == noEntry, "result", site, "a path in use is not registered again", "the registration succeeds")
						r.Check(tc.final != noEntry || n == "1", "result", site, "a registration that succeeds makes one entry", "entries stored: %q", n)
						r.Check(!m.emptyPath(ex, o.St), "result", site, "the base directory itself cannot be registered over", "an empty path succeeds")
					case ex.nonNil(o.St, e):
						r.Check(n == "", "result", site, "a registration that fails registers nothing", "an entry was stored")
						if tc.final == noEntry && tc.walk != metricItem {
							r.Check(!inUse || m.emptyPath(ex, o.St), "result", site, "a free path is not reported as in use", "it is")
						}
						known := inUse || p.isGlobalErr(e, "ErrWrongType") || p.isGlobalErr(e, "ErrWrongUnit")
						r.Check(known, "result", site, "the error is path in use, or what is wrong with the metric", "it is %v", e)
						if m.emptyPath(ex, o.St) {
							r.Check(inUse, "result", site, "the base directory is a path in use", "the error is %v", e)
						}
					default:
						r.Check(false, "result", site, "it is known whether the registration succeeds", "the error is %v", e)
					}
				}
			}
			if tc.final == noEntry {
				r.Check(succ > 0, "result", site, "a free path can be registered", "no path succeeds")
			}
		}
	}
	r.Min("insertions", 2, inserts)
	r.Min("look-ups by path", 2, keyed)
	dirs := m.regDirs()
	r.Min("functions that register directories", 2, len(dirs))
	for _, f := range dirs {
		for _, tc := range treeCases {
			if tc.final != tc.walk {
				continue // there is no last component of its own
			}
			w := m.run(f, tc, true)
			w.checkSteps("path")
			site := p.fname(f) + " when there is " + tc.walk
			for _, o := range w.outs {
				if o.Panic {
					continue
				}
				n, _ := o.St.Get("stored", nil)
				r.Check(n == "", "result", site, "no metric is made", "one is")
				d, err := o.Ret[0], o.Ret[1]
				for _, e := range err.alts() {
					switch {
					case e.isNil():
						pl := w.at(o.St, d, 0)
						r.Check(w.complete(o.St, pl), "result", site, "the directory returned is the one at the path", "it is %v: %s", d, pl.why)
					case p.isGlobalErr(e, "ErrPathInUse"):
						r.Check(tc.walk == metricItem, "result", site, "only a metric is in the way", "path in use is returned")
						r.Check(d.isNil(), "result", site, "no directory is returned with an error", "it is %v", d)
					default:
						r.Check(false, "result", site, "the error is path in use", "it is %v", e)
					}
				}
			}
		}
	}
}

func (m *treeModel) run(f *ssa.Function, tc treeCase, links bool) *treeRun {
	return m.runWith(f, tc, links, m.client())
}

func (m *treeModel) runWith(f *ssa.Function, tc treeCase, links bool, c *Client) *treeRun {
	run := m.newRun(m.p.fname(f))
	run.fn = f
	c.Cond = m.cond(tc)
	if tc.split {
		c.Split = func(*ssa.Function) bool { return true }
	}
	m.hook(c, run)
	if links {
		run.backPointers(c)
	}
	run.ex = NewExec(m.p, c)
	run.outs = run.ex.Run(f, run.ex.symArgs(f), nil, newState())
	m.r.Ran(run.ex, run.root+" "+tc.String())
	m.r.Check(run.ex.err == "" && len(run.outs) > 0, "converges", run.root, "the entry point is analysed", "%s", run.ex.err)
	return run
}
