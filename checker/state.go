package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Lock is a mutex known to be held.
type Lock struct {
	addr  *Term
	write bool
	site  string // where it was taken
	snap  *State // the state right after it was taken
}

// Atom is one piece of typestate owned by a rule.
type Atom struct {
	K string
	T *Term
	V string
}

// State is the abstract state shared by all frames of one activation.
type State struct {
	mem     map[*Term]*Term
	facts   map[*Term]bool
	locks   []Lock
	X       map[string]Atom // typestate that keeps states apart
	may     map[string]Atom // typestate that is united where paths meet
	must    map[string]Atom // typestate that is intersected where paths meet
	gEpoch  string
	bEpoch  map[*Term]string
	fEpoch  map[string]string
	havoc   map[*Term]string
	pub     map[*Term]bool
	pend    map[*Term]bool
	panicV  *Term // set while deferred calls run because of a panic
	recov   bool
	defCall []string // names of deferred-call sites being run (diagnostics)
}

func newState() *State {
	return &State{
		mem: map[*Term]*Term{}, facts: map[*Term]bool{}, X: map[string]Atom{}, may: map[string]Atom{}, must: map[string]Atom{},
		bEpoch: map[*Term]string{}, fEpoch: map[string]string{}, havoc: map[*Term]string{},
		pub: map[*Term]bool{}, pend: map[*Term]bool{},
	}
}

func cp[K comparable, V any](m map[K]V) map[K]V {
	r := make(map[K]V, len(m)+4)
	for k, v := range m {
		r[k] = v
	}
	return r
}

func (s *State) clone() *State {
	n := *s
	n.mem, n.facts, n.X = cp(s.mem), cp(s.facts), cp(s.X)
	n.may, n.must = cp(s.may), cp(s.must)
	n.bEpoch, n.fEpoch, n.havoc = cp(s.bEpoch), cp(s.fEpoch), cp(s.havoc)
	n.pub, n.pend = cp(s.pub), cp(s.pend)
	n.locks = append([]Lock(nil), s.locks...)
	return &n
}

// Set, Get, Del manage typestate atoms.
func atomKey(k string, t *Term) string {
	if t == nil {
		return k
	}
	return fmt.Sprintf("%s/%d", k, t.id)
}
func (s *State) Set(k string, t *Term, v string) { s.X[atomKey(k, t)] = Atom{k, t, v} }
func (s *State) Get(k string, t *Term) (string, bool) {
	a, ok := s.X[atomKey(k, t)]
	return a.V, ok
}
func (s *State) Del(k string, t *Term) { delete(s.X, atomKey(k, t)) }
func (s *State) Atoms(k string) []Atom {
	return atomsOf(s.X, k)
}

// SetMay and SetMust are Set for typestate that does not keep states apart.
func (s *State) SetMay(k string, t *Term, v string) { s.may[atomKey(k, t)] = Atom{k, t, v} }
func (s *State) DelMay(k string, t *Term)           { delete(s.may, atomKey(k, t)) }
func (s *State) HasMay(k string, t *Term) bool      { _, ok := s.may[atomKey(k, t)]; return ok }
func (s *State) MayAtoms(k string) []Atom           { return atomsOf(s.may, k) }
func (s *State) SetMust(k string, t *Term, v string) {
	s.must[atomKey(k, t)] = Atom{k, t, v}
}
func (s *State) DelMust(k string, t *Term) { delete(s.must, atomKey(k, t)) }
func (s *State) GetMust(k string, t *Term) (string, bool) {
	a, ok := s.must[atomKey(k, t)]
	return a.V, ok
}

func atomsOf(m map[string]Atom, k string) []Atom {
	var r []Atom
	for _, a := range m {
		if a.K == k {
			r = append(r, a)
		}
	}
	sort.Slice(r, func(i, j int) bool { return atomKey(r[i].K, r[i].T) < atomKey(r[j].K, r[j].T) })
	return r
}

func (s *State) lockKey() string {
	var ls []string
	for _, l := range s.locks {
		ls = append(ls, fmt.Sprintf("%d%v", l.addr.id, l.write))
	}
	sort.Strings(ls)
	return strings.Join(ls, ",")
}

func (s *State) key() string {
	var ks []string
	for k, a := range s.X {
		ks = append(ks, k+"="+a.V)
	}
	sort.Strings(ks)
	p := ""
	if s.panicV != nil {
		p = "!"
	}
	if s.recov {
		p += "R"
	}
	return s.lockKey() + "|" + strings.Join(ks, ";") + "|" + p
}

// --- addresses -------------------------------------------------------------

// isFresh: an allocation of this activation that no other goroutine can see.
func (s *State) isFresh(t *Term) bool {
	r := t.root()
	return r.Op == OAlloc && !s.pub[r]
}

// freshAddr: the memory cell at addr belongs to an unpublished allocation. A
// loaded pointer leads out of its object, so the chain stops at loads.
func (s *State) freshAddr(addr *Term) bool {
	t := addr
	for {
		switch t.Op {
		case OField, OElem, OSlice, OLookup:
			t = t.Args[0]
			continue
		case OAppend:
			t = t.Args[0]
			continue
		case OAlloc:
			return !s.pub[t]
		case OPhi:
			for _, a := range t.Args {
				if !s.freshAddr(a) && !a.isNil() {
					return false
				}
			}
			return true
		case OConst:
			return true // nil slice/map: nothing shared
		}
		return false
	}
}

// objOf: the object (pointer term) whose memory addr lies in.
func objOf(addr *Term) *Term {
	t := addr
	for {
		switch t.Op {
		case OField, OElem, OSlice, OLookup:
			t = t.Args[0]
			continue
		}
		return t
	}
}

func (ex *Exec) class(addr *Term) string {
	if addr.cls == "" {
		addr.cls = ex.classOf(addr)
	}
	return addr.cls
}

func (ex *Exec) classOf(addr *Term) string {
	switch addr.Op {
	case OField:
		return fmt.Sprintf("F:%s.%d", structKey(derefType(addr.Args[0].T)), addr.I)
	case OElem:
		return "E:" + types.TypeString(derefType(addr.T), nil)
	case OLookup:
		return fmt.Sprintf("M:%s.%d", types.TypeString(addr.Args[0].T.Underlying(), nil), addr.I)
	case OAlloc, OGlobal:
		return fmt.Sprintf("A:%d", addr.id)
	}
	if addr.T == nil {
		return "P:?"
	}
	return "P:" + types.TypeString(derefType(addr.T), nil)
}

func (ex *Exec) mayAliasObj(st *State, x, y *Term) bool {
	if x == y {
		return true
	}
	if x.isNil() || y.isNil() {
		return false
	}
	if x.Op == OPhi {
		for _, a := range x.Args {
			if ex.mayAliasObj(st, a, y) {
				return true
			}
		}
		return false
	}
	if y.Op == OPhi {
		return ex.mayAliasObj(st, y, x)
	}
	if x.Op == y.Op && (x.Op == OField || x.Op == OElem || x.Op == OLookup) {
		return ex.mayAlias(st, x, y)
	}
	if x.Op == OSlice || x.Op == OAppend {
		return ex.mayAliasObj(st, x.Args[0], y)
	}
	if y.Op == OSlice || y.Op == OAppend {
		return ex.mayAliasObj(st, x, y.Args[0])
	}
	base := func(t *Term) bool { return t.Op == OAlloc || t.Op == OGlobal }
	if base(x) && base(y) {
		return false
	}
	if x.Op == OAlloc && !st.pub[x] || y.Op == OAlloc && !st.pub[y] {
		return false
	}
	if v, ok := st.facts[ex.ts.Cmp(token.EQL, x, y, types.Typ[types.Int])]; ok && !v {
		return false
	}
	return true
}

func (ex *Exec) mayAlias(st *State, a, b *Term) bool {
	if a == b {
		return true
	}
	known := func(t *Term) bool {
		switch t.Op {
		case OField, OElem, OLookup, OAlloc, OGlobal:
			return true
		}
		return false
	}
	if !known(a) || !known(b) {
		if a.T == nil || b.T == nil {
			return true
		}
		return types.Identical(derefType(a.T), derefType(b.T)) && ex.mayAliasRoot(st, a, b)
	}
	if a.Op != b.Op {
		return false
	}
	switch a.Op {
	case OField:
		return a.I == b.I && structKey(derefType(a.Args[0].T)) == structKey(derefType(b.Args[0].T)) &&
			ex.mayAliasObj(st, a.Args[0], b.Args[0])
	case OElem, OLookup:
		if a.I != b.I || ex.class(a) != ex.class(b) {
			return false
		}
		if a.Args[0] == b.Args[0] && ex.distinct(st, a.Args[1], b.Args[1]) {
			return false
		}
		return ex.mayAliasObj(st, a.Args[0], b.Args[0])
	}
	return false
}

func (ex *Exec) mayAliasRoot(st *State, a, b *Term) bool {
	ra, rb := objOf(a), objOf(b)
	if ra.Op == OAlloc && !st.pub[ra] || rb.Op == OAlloc && !st.pub[rb] {
		return ra == rb
	}
	return true
}

// distinct: the two values are known to differ.
func (ex *Exec) distinct(st *State, a, b *Term) bool {
	if a == b {
		return false
	}
	if a.isConst() && b.isConst() {
		return true
	}
	t := types.Type(types.Typ[types.Int])
	if a.T != nil {
		t = a.T
	}
	v, ok := ex.truth(st, ex.ts.Cmp(token.EQL, a, b, t))
	return ok && !v
}

// --- memory ----------------------------------------------------------------

func (ex *Exec) zero(t types.Type) *Term {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsString != 0:
			return ex.ts.Str("")
		case u.Info()&types.IsBoolean != 0:
			return ex.ts.Bool(false)
		case u.Info()&types.IsNumeric != 0:
			return ex.ts.Int(0)
		}
		return ex.ts.Nil(t)
	case *types.Struct:
		if ex.P.isRepoStruct(t) {
			args := make([]*Term, u.NumFields())
			for i := range args {
				args[i] = ex.zero(u.Field(i).Type())
			}
			return ex.ts.mk(Term{Op: OStruct, Args: args, T: t, Aux: types.Type(t)})
		}
		return ex.ts.mk(Term{Op: OZero, T: t})
	case *types.Array:
		return ex.ts.mk(Term{Op: OZero, T: t})
	}
	return ex.ts.Nil(t)
}

func (ex *Exec) fieldImmutable(addr *Term) bool {
	if addr.Op != OField {
		return false
	}
	return ex.P.immutable[fieldKey{structKey(derefType(addr.Args[0].T)), addr.I}]
}

func (ex *Exec) epochOf(st *State, addr *Term) string {
	if ex.fieldImmutable(addr) {
		return ""
	}
	if addr.Op == OGlobal && ex.P.constGlobal(addr.Aux.(*ssa.Global)) {
		return ""
	}
	var parts []string
	if st.gEpoch != "" && !st.freshAddr(addr) {
		parts = append(parts, st.gEpoch)
	}
	t := addr
	for t != nil {
		if e := st.bEpoch[t]; e != "" {
			parts = append(parts, e)
		}
		if e := st.havoc[t]; e != "" {
			parts = append(parts, e)
		}
		switch t.Op {
		case OField, OElem, OLoad, OFieldV, OSlice, OAssert, OLookup, OExtract, OIndexV:
			t = t.Args[0]
			continue
		}
		break
	}
	if e := st.fEpoch[ex.class(addr)]; e != "" {
		parts = append(parts, e)
	}
	return strings.Join(parts, "+")
}

// Load returns the value of type typ stored at addr.
func (ex *Exec) Load(st *State, addr *Term, typ types.Type) *Term {
	if addr.Op == OPhi {
		var vs []*Term
		for _, a := range addr.Args {
			if a.isNil() {
				continue // a nil dereference does not return
			}
			vs = append(vs, ex.Load(st, a, typ))
		}
		if len(vs) == 0 {
			return ex.ts.mk(Term{Op: OTop, T: typ})
		}
		return ex.ts.Phi(vs, typ)
	}
	if ex.P.isRepoStruct(typ) {
		u := typ.Underlying().(*types.Struct)
		args := make([]*Term, u.NumFields())
		for i := range args {
			args[i] = ex.Load(st, ex.fieldAddr(addr, i, typ), u.Field(i).Type())
		}
		return ex.structOf(args, typ)
	}
	if ex.C.Opaque != nil && ex.C.Opaque(addr, typ) {
		return ex.ts.mk(Term{Op: OLoad, Args: []*Term{addr}, T: typ})
	}
	if addr.Op == OGlobal {
		// a table that is only read holds what its initialiser puts there
		if _, isMap := typ.Underlying().(*types.Map); isMap {
			m := ex.ts.mk(Term{Op: OLoad, Args: []*Term{addr}, T: typ})
			if ex.frozenOf(m) != nil {
				return m
			}
		}
	}
	if v, ok := st.mem[addr]; ok {
		return v
	}
	// field of a library struct: part of the whole value
	if addr.Op == OField && !ex.P.isRepoStruct(derefType(addr.Args[0].T)) {
		whole := ex.Load(st, addr.Args[0], derefType(addr.Args[0].T))
		return ex.fieldVal(whole, addr.I, typ)
	}
	if addr.Op == OGlobal {
		if v := ex.globalVal(addr.Aux.(*ssa.Global)); v != nil {
			return v
		}
	}
	if addr.Op == OElem && addr.Args[1].isConst() {
		if f := ex.frozenOf(addr.Args[0]); f != nil && !f.isMap {
			if i, ok := addr.Args[1].intVal(); ok && i >= 0 && i < int64(len(f.vals)) {
				return f.vals[i]
			}
		}
	}
	// zero-initialised memory of an allocation
	if o := objOf(addr); o.Op == OAlloc && (!st.pub[o] || ex.C.Sequential && (st.gEpoch == "" || ex.fieldImmutable(addr))) && st.havocEpoch(addr) == "" && ex.zeroInit(st, addr) {
		return ex.zero(typ)
	}
	// field of an array/struct element whose whole value is known
	if addr.Op == OField && addr.Args[0].Op == OElem {
		if v, ok := st.mem[addr.Args[0]]; ok {
			return ex.fieldVal(v, addr.I, typ)
		}
	}
	if ex.C.Load != nil {
		if v := ex.C.Load(ex, st, addr, typ); v != nil {
			return v
		}
	}
	return ex.ts.mk(Term{Op: OLoad, Args: []*Term{addr}, S: ex.epochOf(st, addr), T: typ})
}

func (st *State) havocEpoch(addr *Term) string {
	for t := addr; ; {
		if e := st.havoc[t]; e != "" {
			return e
		}
		switch t.Op {
		case OField, OElem, OSlice, OLookup:
			t = t.Args[0]
			continue
		}
		return ""
	}
}

// zeroInit: whether an absent cell at addr holds the zero value.
func (ex *Exec) zeroInit(st *State, addr *Term) bool {
	for t := addr; ; {
		switch t.Op {
		case OField:
			t = t.Args[0]
			continue
		case OElem:
			if t.Args[0].Op != OAlloc || !t.Args[1].isConst() {
				return false
			}
			t = t.Args[0]
			continue
		case OLookup:
			if t.Args[0].Op != OAlloc {
				return false
			}
			if !t.Args[1].isConst() {
				for c := range st.mem {
					if c.Op == OLookup && c.Args[0] == t.Args[0] {
						return false
					}
				}
			}
			t = t.Args[0]
			continue
		case OAlloc:
			return true
		}
		return false
	}
}

func (ex *Exec) fieldAddr(base *Term, i int, structT types.Type) *Term {
	st := derefType(structT).Underlying().(*types.Struct)
	return ex.ts.fieldT(base, i, types.NewPointer(st.Field(i).Type()), structT)
}

func (ts *Terms) fieldT(base *Term, i int, t types.Type, structT types.Type) *Term {
	return ts.Field(base, i, t)
}

func (ex *Exec) structOf(args []*Term, typ types.Type) *Term {
	// *p re-packed: keep as a struct value
	return ex.ts.mk(Term{Op: OStruct, Args: args, T: typ, Aux: typ})
}

func (ex *Exec) fieldVal(v *Term, i int, typ types.Type) *Term {
	switch v.Op {
	case OStruct:
		if i < len(v.Args) {
			return v.Args[i]
		}
	case OZero:
		return ex.zero(typ)
	case OPhi:
		var vs []*Term
		for _, a := range v.Args {
			vs = append(vs, ex.fieldVal(a, i, typ))
		}
		return ex.ts.Phi(vs, typ)
	}
	return ex.ts.mk(Term{Op: OFieldV, Args: []*Term{v}, I: i, T: typ})
}

// Store writes val at addr and forgets what may alias it.
func (ex *Exec) Store(st *State, addr, val *Term, typ types.Type, site string) {
	if addr.Op == OPhi {
		for _, a := range addr.Args {
			if a.isNil() {
				continue
			}
			old := ex.Load(st, a, typ)
			ex.Store(st, a, ex.joinVal(old, val, typ, "weak@"+site), typ, site)
		}
		return
	}
	if ex.P.isRepoStruct(typ) {
		u := typ.Underlying().(*types.Struct)
		for i := 0; i < u.NumFields(); i++ {
			ft := u.Field(i).Type()
			ex.Store(st, ex.fieldAddr(addr, i, typ), ex.fieldVal(val, i, ft), ft, site)
		}
		return
	}
	ex.noteMod(addr)
	ex.clobber(st, addr, site)
	for t := addr; ; t = t.Args[0] {
		if t.Op == OElem && t.Args[0].Op == OAlloc && !t.Args[1].isConst() || t.Op == OLookup && t.Args[0].Op == OAlloc && !t.Args[1].isConst() {
			st.havoc[t.Args[0]] = "e" // no longer all zero
		}
		if t.Op != OField && t.Op != OElem {
			break
		}
	}
	st.mem[addr] = val
}

// clobber forgets every cell that may alias addr (other than addr itself).
func (ex *Exec) clobber(st *State, addr *Term, site string) {
	cls := ex.class(addr)
	for c := range st.mem {
		if c != addr && ex.mayAlias(st, c, addr) {
			delete(st.mem, c)
			if objOf(c).Op == OAlloc {
				st.havoc[c] = "w" + site // it was written to: not zero
			}
		}
	}
	if ex.C.Sequential && st.gEpoch == "" {
		if o := objOf(addr).Op; o != OAlloc && o != OGlobal {
			st.gEpoch = "w" + site
		}
	}
	switch addr.Op {
	case OAlloc, OGlobal:
		return
	case OField:
		if st.isFreshObj(addr) {
			return
		}
	}
	if ex.fieldImmutable(addr) {
		return
	}
	e := "w" + site
	if st.fEpoch[cls] != e {
		st.fEpoch[cls] = e
	}
}

func (st *State) isFreshObj(addr *Term) bool {
	o := objOf(addr)
	return o.Op == OAlloc && !st.pub[o]
}

// dropShared forgets all mutable memory other goroutines or callbacks can
// change; under (if non-nil) restricts this to memory owned by that object.
func (ex *Exec) dropShared(st *State, under *Term) {
	for c := range st.mem {
		if ex.fieldImmutable(c) {
			continue
		}
		if under != nil {
			if !c.hasAncestor(under) {
				continue
			}
		}
		if st.freshAddr(c) {
			continue
		}
		delete(st.mem, c)
	}
}

// publish marks the allocations reachable from v as visible to others.
func (ex *Exec) publish(st *State, v *Term) {
	seen := map[*Term]bool{}
	var visit func(t *Term)
	var alloc func(a *Term)
	alloc = func(a *Term) {
		if seen[a] {
			return
		}
		seen[a] = true
		if !st.pub[a] {
			if len(st.locks) > 0 {
				st.pend[a] = true
			} else {
				st.pub[a] = true
			}
		}
		for c, val := range st.mem {
			if objOf(c) == a {
				visit(val)
				if c.Op == OLookup {
					visit(c.Args[1])
				}
			}
		}
	}
	visited := map[*Term]bool{}
	visit = func(t *Term) {
		if t == nil || visited[t] {
			return
		}
		visited[t] = true
		if t.Op == OAlloc {
			alloc(t)
		}
		if pointerFree(t.T) {
			return
		}
		if t.Op == OJoin {
			if info := ex.joins[t]; info != nil {
				for a := range info.vals {
					visit(a)
				}
			}
		}
		for _, a := range t.Args {
			visit(a)
		}
	}
	visit(v)
}

// pointerFree: a value of this type leads to no memory of this repository.
func pointerFree(t types.Type) bool {
	if t == nil {
		return false
	}
	if b, ok := t.Underlying().(*types.Basic); ok {
		return b.Kind() != types.UnsafePointer
	}
	switch types.TypeString(t, nil) {
	case "time.Time":
		return true
	}
	return false
}

func (st *State) flushPend() {
	for a := range st.pend {
		st.pub[a] = true
		delete(st.pend, a)
	}
}

// --- join ------------------------------------------------------------------

func (ex *Exec) joinVal(a, b *Term, t types.Type, place string) *Term {
	if a == b {
		return a
	}
	if a.Op == OJoin && a.S == place {
		return a
	}
	if b.Op == OJoin && b.S == place {
		return b
	}
	p := ex.ts.Phi([]*Term{a, b}, t)
	if p.Op == OPhi && len(p.Args) > 8 {
		return ex.ts.mk(Term{Op: OJoin, S: place, T: t})
	}
	return p
}

// mergeable: two states with equal keys that also agree on which live values
// are constants.
func constLike(t *Term) bool {
	return t.Op == OConst || t.Op == OIface && t.Args[0].Op == OConst
}

func cellType(c *Term) types.Type {
	if c.Op == OLookup {
		return c.T
	}
	if c.T == nil {
		return types.Typ[types.Invalid]
	}
	return derefType(c.T)
}

// joinStates merges b into a copy of a. place names the merge point; widen is
// set at loop headers, where differing values become opaque joins.
func (ex *Exec) joinStates(a, b *State, place string, widen bool) *State {
	r := a.clone()
	seen := map[*Term]bool{}
	var set []*Term // neither nil in a nor in b
	join := func(c *Term) {
		if seen[c] {
			return
		}
		seen[c] = true
		t := cellType(c)
		va, oka := a.mem[c]
		vb, okb := b.mem[c]
		if !oka {
			va = ex.Load(a, c, t)
		}
		if !okb {
			vb = ex.Load(b, c, t)
		}
		if c.Op == OLookup && c.I == 0 {
			// the value of an entry matters only where the entry exists
			pc := ex.mapCell(c.Args[0], c.Args[1], 1, types.Typ[types.Bool])
			{
				if v, k := ex.truth(a, ex.Load(a, pc, types.Typ[types.Bool])); k && !v {
					va = vb
				}
			}
			{
				if v, k := ex.truth(b, ex.Load(b, pc, types.Typ[types.Bool])); k && !v {
					vb = va
				}
			}
		}
		if va == vb {
			r.mem[c] = va
			return
		}
		if isBool(t) {
			x, ok1 := ex.truth(a, va)
			y, ok2 := ex.truth(b, vb)
			if ok1 && ok2 && x == y {
				r.mem[c] = ex.ts.Bool(x)
				return
			}
		}
		if widen {
			r.mem[c] = ex.widenVal(fmt.Sprintf("%s:m%d", place, c.id), t, va, vb)
			return
		}
		r.mem[c] = ex.joinVal(va, vb, t, fmt.Sprintf("%s:m%d", place, c.id))
		if ex.nilable(va) && ex.nonNil(a, va) && ex.nonNil(b, vb) {
			set = append(set, r.mem[c])
		}
	}
	for c := range a.mem {
		join(c)
	}
	for c := range b.mem {
		join(c)
	}
	for f, v := range a.facts {
		if w, ok := b.facts[f]; !ok || w != v {
			// still implied in b?
			if tv, known := ex.truth(b, f); known && tv == v {
				continue
			}
			delete(r.facts, f)
		}
	}
	for f, v := range b.facts {
		if _, ok := a.facts[f]; !ok {
			if tv, known := ex.truth(a, f); known && tv == v {
				r.facts[f] = v
			}
		}
	}
	for _, t := range set {
		ex.noteNonNil(r, t)
	}
	if a.gEpoch != b.gEpoch {
		r.gEpoch = "J" + place
	}
	jm := func(x, y, z map[*Term]string) {
		for k, v := range x {
			if y[k] != v {
				z[k] = "J" + place
			}
		}
		for k, v := range y {
			if x[k] != v {
				z[k] = "J" + place
			}
		}
	}
	jm(a.bEpoch, b.bEpoch, r.bEpoch)
	jm(a.havoc, b.havoc, r.havoc)
	for k, v := range a.fEpoch {
		if b.fEpoch[k] != v {
			r.fEpoch[k] = "J" + place
		}
	}
	for k, v := range b.fEpoch {
		if a.fEpoch[k] != v {
			r.fEpoch[k] = "J" + place
		}
	}
	for k, v := range b.may {
		r.may[k] = v
	}
	for k, v := range a.must {
		if b.must[k] != v {
			delete(r.must, k)
		}
	}
	for k := range b.pub {
		r.pub[k] = true
	}
	for k := range b.pend {
		r.pend[k] = true
	}
	return r
}

// widenVal joins values at a loop; reflected values of one type stay that.
func (ex *Exec) widenVal(place string, t types.Type, a, b *Term) *Term {
	if a.Op == OCall && a.Aux == rVal && b.Op == OCall && b.Aux == rVal && a.S == b.S {
		x := a.Args[0]
		if x != b.Args[0] {
			x = ex.mkJoin(place, x.T, x, b.Args[0])
		}
		return ex.ts.mk(Term{Op: OCall, Aux: rVal, S: a.S, Args: []*Term{x}, T: a.T})
	}
	return ex.mkJoin(place, t, a, b)
}

// insideOf: the part of t that is joined in j.
func insideOf(t, j *Term) *Term {
	if t.Op == OCall && t.Aux == rVal && j.T != nil && !isReflectValue(j.T) {
		return t.Args[0]
	}
	return t
}

func isReflectValue(t types.Type) bool { return types.TypeString(t, nil) == "reflect.Value" }

func (ex *Exec) mkJoin(place string, t types.Type, vals ...*Term) *Term {
	j := ex.ts.mk(Term{Op: OJoin, S: place, T: t})
	info := ex.joins[j]
	if info == nil {
		info = &joinInfo{vals: map[*Term]bool{}, final: map[*Term]bool{}}
		ex.joins[j] = info
	}
	for _, v := range vals {
		if v != j {
			if !info.vals[v] {
				info.vals[v] = true
				ex.newVal++
			}
			if ex.muted == 0 {
				info.final[v] = true
			}
		}
	}
	return j
}

func sameState(a, b *State) bool {
	if len(a.mem) != len(b.mem) || len(a.facts) != len(b.facts) || a.gEpoch != b.gEpoch ||
		len(a.fEpoch) != len(b.fEpoch) || len(a.bEpoch) != len(b.bEpoch) || len(a.havoc) != len(b.havoc) ||
		len(a.pub) != len(b.pub) || len(a.pend) != len(b.pend) || len(a.may) != len(b.may) || len(a.must) != len(b.must) {
		return false
	}
	for k, v := range a.may {
		if b.may[k] != v {
			return false
		}
	}
	for k, v := range a.must {
		if b.must[k] != v {
			return false
		}
	}
	for k, v := range a.mem {
		if b.mem[k] != v {
			return false
		}
	}
	for k, v := range a.facts {
		if w, ok := b.facts[k]; !ok || w != v {
			return false
		}
	}
	for k, v := range a.fEpoch {
		if b.fEpoch[k] != v {
			return false
		}
	}
	for k, v := range a.bEpoch {
		if b.bEpoch[k] != v {
			return false
		}
	}
	for k, v := range a.havoc {
		if b.havoc[k] != v {
			return false
		}
	}
	for k := range a.pub {
		if !b.pub[k] {
			return false
		}
	}
	return a.key() == b.key()
}

// kill forgets facts, cells and typestate that mention a value being re-bound.
func (ex *Exec) kill(st *State, dead func(*Term) bool) {
	has := func(t *Term) bool { return t != nil && t.anyTerm(dead) }
	for f := range st.facts {
		if has(f) {
			delete(st.facts, f)
		}
	}
	for c := range st.mem {
		if has(c) {
			delete(st.mem, c)
		}
	}
	for k, a := range st.must {
		if has(a.T) {
			delete(st.must, k)
		}
	}
	for k, a := range st.may {
		if has(a.T) {
			delete(st.may, k)
			if ex.C.Kill != nil {
				if n, keep := ex.C.Kill(a); keep {
					st.may[atomKey(n.K, n.T)] = n
				}
			}
		}
	}
	for k, a := range st.X {
		if has(a.T) {
			delete(st.X, k)
			if ex.C.Kill != nil {
				if n, keep := ex.C.Kill(a); keep {
					st.X[atomKey(n.K, n.T)] = n
				}
			}
		}
	}
}
