package main

import (
	"fmt"
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// treeModel: the directory tree's types, found by their shape.
type treeModel struct {
	r       *Report
	p       *Program
	D, E, M *types.Struct // directory, entry, metric
	DT      types.Type
	ET, MT  types.Type

	contents, dEnc           int // of D
	name, metric, dir, upper int // of E
	mEnc                     int // of M
	mapT                     *types.Map
	parsers                  map[*ssa.Function]bool
}

func structUnder(t types.Type) *types.Struct {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	s, _ := t.Underlying().(*types.Struct)
	return s
}

func newTreeModel(r *Report) *treeModel {
	p := r.P
	m := &treeModel{r: r, p: p, contents: -1, dEnc: -1, name: -1, metric: -1, dir: -1, upper: -1, mEnc: -1}
	spec := p.Named("tricorder", "DirectorySpec")
	if !r.Need(spec != nil && structUnder(spec) != nil, "tricorder.DirectorySpec") {
		return nil
	}
	m.D = structUnder(spec)
	for i := 0; i < m.D.NumFields(); i++ {
		if mt, ok := m.D.Field(i).Type().Underlying().(*types.Map); ok && isString(mt.Key()) && structUnder(mt.Elem()) != nil {
			m.contents, m.mapT = i, mt
		}
	}
	if !r.Need(m.contents >= 0, "a map from names to entries in a directory") {
		return nil
	}
	m.E = structUnder(m.mapT.Elem())
	m.ET = derefType(m.mapT.Elem())
	for i := 0; i < m.D.NumFields(); i++ {
		if s := structUnder(m.D.Field(i).Type()); s == m.E {
			m.dEnc = i
		}
	}
	for i := 0; i < m.E.NumFields(); i++ {
		f := m.E.Field(i)
		s := structUnder(f.Type())
		switch {
		case isString(f.Type()):
			m.name = i
		case s == m.E:
			m.upper = i
		case s != nil && types.Identical(s, m.D):
			m.dir = i
			m.DT = derefType(f.Type())
		case s != nil:
			m.metric = i
			m.M, m.MT = s, derefType(f.Type())
		}
	}
	if !r.Need(m.name >= 0 && m.upper >= 0 && m.dir >= 0 && m.metric >= 0 && m.dEnc >= 0, "entries with name, metric, directory and parent") {
		return nil
	}
	for i := 0; i < m.M.NumFields(); i++ {
		if s := structUnder(m.M.Field(i).Type()); s == m.E {
			m.mEnc = i
		}
	}
	m.parsers = p.pathParsers()
	if !r.Need(m.mEnc >= 0 && len(m.parsers) > 0, "metrics with their entry, and a function that splits paths") {
		return nil
	}
	return m
}

// pathParsers: functions from a text to its parts, that split it.
func (p *Program) pathParsers() map[*ssa.Function]bool {
	res := map[*ssa.Function]bool{}
	for _, f := range p.funcs {
		if f.Pkg == nil || f.Pkg.Pkg != p.Pkg("tricorder").Pkg || f.Blocks == nil || f.Parent() != nil {
			continue
		}
		s := f.Signature
		if s.Recv() != nil || s.Params().Len() != 1 || !isString(s.Params().At(0).Type()) || s.Results().Len() != 1 {
			continue
		}
		if sl, ok := s.Results().At(0).Type().Underlying().(*types.Slice); !ok || !isString(sl.Elem()) {
			continue
		}
		if p.callsAny(f, "strings.Split", "strings.SplitN", "strings.Fields", "strings.FieldsFunc", "strings.Cut", "strings.Index", "strings.IndexByte", "strings.SplitSeq", "strings.FieldsFuncSeq") {
			res[f] = true
		}
	}
	return res
}

// callsAny: f, or a function of the program it calls, calls one of the names.
func (p *Program) callsAny(f *ssa.Function, names ...string) bool {
	seen := map[*ssa.Function]bool{}
	var walk func(f *ssa.Function) bool
	walk = func(f *ssa.Function) bool {
		if seen[f] {
			return false
		}
		seen[f] = true
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				c, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				g := c.Common().StaticCallee()
				if g == nil {
					continue
				}
				for _, n := range names {
					if g.String() == n {
						return true
					}
				}
				if walk(g) {
					return true
				}
			}
		}
		return false
	}
	return walk(f)
}

// client: splitting a path is opaque (it is C35's to check).
func (m *treeModel) client() *Client {
	c := &Client{}
	c.Inline = func(f *ssa.Function) bool { return !m.parsers[f] }
	c.Ext = func(ex *Exec, cc *callCtx) ([]Outcome, bool) {
		if cc.fn != nil && m.parsers[cc.fn] {
			t := ex.ts.mk(Term{Op: OCall, Aux: "split", Args: cc.args, T: cc.fn.Signature.Results().At(0).Type()})
			return []Outcome{{St: cc.st, Ret: []*Term{t}}}, true
		}
		return nil, false
	}
	return c
}

// treeOp is one operation on the map of a directory.
type treeOp struct {
	kind  EvKind
	dir   *Term // the directory; nil: not a directory's map
	m     *Term
	key   *Term
	val   *Term
	old   *Term
	ok    *Term
	st    *State
	where string
}

// treeRun is the analysis of one entry point.
type treeRun struct {
	m     *treeModel
	ex    *Exec
	root  string
	fn    *ssa.Function
	ops   []treeOp
	nexts map[*Term]map[*Term]bool
	wrote []treeOp // entries inserted, also while the loops are still unstable
	outs  []Outcome
}

// what an entry is in the case at hand.
const (
	anyEntry   = ""
	noEntry    = "nothing"
	dirEntry   = "a directory"
	metricItem = "a metric"
	someEntry  = "a directory or a metric"
)

type treeCase struct {
	walk, final string
	split       bool // keep the paths apart
}

func (c treeCase) String() string {
	return fmt.Sprintf("on the way there is %s, at the path %s", c.walk, c.final)
}

// entryKey: t is the entry (or its presence) under a key of a directory.
func (m *treeModel) entryKey(t *Term) (dir, key *Term, presence, ok bool) {
	if t.Op != OLoad || t.Args[0].Op != OLookup {
		return nil, nil, false, false
	}
	l := t.Args[0]
	mt, isM := l.Args[0].T.(*types.Map)
	if l.Args[0].T == nil || !isM || !types.Identical(mt, m.mapT) {
		return nil, nil, false, false
	}
	return m.dirOf(l.Args[0]), l.Args[1], l.I == 1, true
}

// dirOf: the directory a contents map belongs to.
func (m *treeModel) dirOf(mp *Term) *Term {
	if mp.Op == OLoad && mp.Args[0].Op == OField && mp.Args[0].I == m.contents {
		if s := structUnder(mp.Args[0].Args[0].T); s != nil && types.Identical(s, m.D) {
			return mp.Args[0].Args[0]
		}
	}
	return nil
}

// component: t is element i of the parts of a path.
func component(t *Term) (R, i *Term, ok bool) {
	switch {
	case t.Op == OLoad && t.Args[0].Op == OElem:
		R, i = t.Args[0].Args[0], t.Args[0].Args[1]
	case t.Op == OIndexV:
		R, i = t.Args[0], t.Args[1]
	default:
		return nil, nil, false
	}
	if R.Op == OCall && R.Aux == "split" {
		return R, i, true
	}
	return nil, nil, false
}

func (ex *Exec) lenTerm(R *Term) *Term {
	return ex.ts.mk(Term{Op: OLen, Args: []*Term{R}, T: types.Typ[types.Int]})
}

func (m *treeModel) isLast(ex *Exec, st *State, R, i *Term) bool {
	it := types.Type(types.Typ[types.Int])
	last := ex.ts.Add(ex.lenTerm(R), ex.ts.Int(1), -1, it)
	if i == last {
		return true
	}
	if st == nil {
		return false
	}
	v, ok := ex.truth(st, ex.ts.Cmp(token.EQL, i, last, it))
	return ok && v
}

// cond answers what the entries are in the given case.
func (m *treeModel) cond(tc treeCase) func(ex *Exec, st *State, t *Term) (bool, bool) {
	// what: what the entry under a key is; where the path does not tell
	// whether the key is the last one, both answers have to agree
	what := func(ex *Exec, st *State, key *Term) string {
		R, i, ok := component(key)
		if !ok {
			return anyEntry
		}
		if m.isLast(ex, nil, R, i) {
			return tc.final
		}
		if st == nil {
			return tc.walk
		}
		it := types.Type(types.Typ[types.Int])
		last := ex.ts.Add(ex.lenTerm(R), ex.ts.Int(1), -1, it)
		v, known := ex.truth(st, ex.ts.Cmp(token.EQL, i, last, it))
		switch {
		case known && v:
			return tc.final
		case known || tc.walk == tc.final:
			return tc.walk
		case tc.walk != noEntry && tc.walk != anyEntry && tc.final != noEntry && tc.final != anyEntry:
			return someEntry
		}
		return anyEntry
	}
	return func(ex *Exec, st *State, t *Term) (bool, bool) {
		if _, key, presence, ok := m.entryKey(t); ok && presence {
			if w := what(ex, st, key); w != anyEntry {
				return w != noEntry, true
			}
		}
		if t.Op != OCmp || t.Aux != token.EQL {
			return false, false
		}
		a, b := t.Args[0], t.Args[1]
		if b.isNil() {
			a, b = b, a
		}
		if !a.isNil() {
			return false, false
		}
		if _, key, presence, ok := m.entryKey(b); ok && !presence {
			if w := what(ex, st, key); w != anyEntry {
				return w == noEntry, true
			}
		}
		if m.existing(ex, b, func(key *Term) bool { return what(ex, nil, key) == dirEntry }) {
			return false, true
		}
		if b.Op == OLoad && b.Args[0].Op == OField && structUnder(b.Args[0].Args[0].T) == m.E {
			if _, key, presence, ok := m.entryKey(b.Args[0].Args[0]); ok && !presence {
				w := what(ex, st, key)
				switch {
				case w == anyEntry || w == noEntry || w == someEntry:
				case b.Args[0].I == m.dir:
					return w != dirEntry, true
				case b.Args[0].I == m.metric:
					return w != metricItem, true
				}
			}
		}
		return false, false
	}
}

// existing: a directory that is the client's, the root, or one found on the way.
func (m *treeModel) existing(ex *Exec, t *Term, found func(key *Term) bool) bool {
	return m.existing1(ex, t, found, map[*Term]bool{})
}

func (m *treeModel) existing1(ex *Exec, t *Term, found func(key *Term) bool, seen map[*Term]bool) bool {
	if seen[t] {
		return true
	}
	seen[t] = true
	if t.T == nil {
		return false
	}
	if s := structUnder(t.T); s == nil || !types.Identical(s, m.D) {
		return false
	}
	switch t.Op {
	case OSym, OAlloc:
		return true
	case OJoin, OPhi:
		vs := t.Args
		if t.Op == OJoin {
			vs = nil
			if j := ex.joins[t]; j != nil {
				for v := range j.final {
					vs = append(vs, v)
				}
			}
		}
		for _, v := range vs {
			if !m.existing1(ex, v, found, seen) {
				return false
			}
		}
		return len(vs) > 0
	case OLoad:
		if t.Args[0].Op == OGlobal {
			return true
		}
		if t.Args[0].Op == OField && t.Args[0].I == m.dir {
			_, key, presence, ok := m.entryKey(t.Args[0].Args[0])
			return ok && !presence && found(key)
		}
	}
	return false
}

// hook adds the recording of tree operations to a client.
func (m *treeModel) hook(c *Client, run *treeRun) {
	inner := c.Event
	c.Event = func(ex *Exec, st *State, ev *Event) {
		if inner != nil {
			inner(ex, st, ev)
		}
		switch ev.Kind {
		case EvMapRead, EvMapWrite, EvMapDelete:
			mt, ok := ev.Addr.T.(*types.Map)
			if ev.Addr.T == nil || !ok || !types.Identical(mt, m.mapT) || ev.Name == "len" {
				return
			}
			op := treeOp{kind: ev.Kind, dir: m.dirOf(ev.Addr), m: ev.Addr, key: ev.Val, val: ev.Val2, old: ev.Old, ok: ev.Res, where: m.r.where(ev)}
			if ev.Name == "clear" {
				op.key = ex.ts.Sym("every key", types.Typ[types.String])
			}
			if ev.Kind == EvMapWrite {
				run.wrote = append(run.wrote, op)
				if d := ex.Load(st, ex.fieldAddr(ev.Val2, m.metric, m.ET), m.E.Field(m.metric).Type()); !d.isNil() {
					v, _ := st.Get("stored", nil)
					switch v {
					case "":
						v = "1"
					default:
						v = "more"
					}
					st.Set("stored", nil, v)
				}
			}
			if ev.Kind == EvMapDelete {
				st.Set("deleted", nil, "1")
			}
			if ex.muted > 0 {
				return
			}
			op.st = st.clone()
			run.ops = append(run.ops, op)
		}
	}
	back := c.Back
	c.Back = func(ex *Exec, st *State, next func(j *Term) *Term) {
		if back != nil {
			back(ex, st, next)
		}
		if ex.muted > 0 {
			return
		}
		for j := range ex.joins {
			if j.T == nil {
				continue
			}
			if !m.walkType(j.T) {
				continue
			}
			if v := next(j); v != nil {
				if run.nexts[j] == nil {
					run.nexts[j] = map[*Term]bool{}
				}
				run.nexts[j][v] = true
			}
		}
	}
}

// walkType: types of the variables of loops that walk the tree.
func (m *treeModel) walkType(t types.Type) bool {
	if s := structUnder(t); s != nil {
		return s == m.E || types.Identical(s, m.D)
	}
	if sl, ok := t.Underlying().(*types.Slice); ok {
		t = sl.Elem()
	}
	return isString(t)
}

func (m *treeModel) newRun(label string) *treeRun {
	return &treeRun{m: m, root: label, nexts: map[*Term]map[*Term]bool{}}
}

// inTree: the type is (a pointer to) one of the tree's structs.
func (m *treeModel) inTree(t types.Type) bool {
	if t == nil {
		return false
	}
	s := structUnder(t)
	return s != nil && (s == m.E || s == m.M || types.Identical(s, m.D))
}

// place is where in the tree a directory is: n components of R below base.
type treePlace struct {
	base, R, n *Term
	why        string
	stuck      string // the loop of a walk that never gets past its base
}

func (w *treeRun) at(st *State, dir *Term, depth int) treePlace {
	ex := w.ex
	bad := func(f string, a ...any) treePlace { return treePlace{why: fmt.Sprintf(f, a...)} }
	if depth > 8 {
		return bad("too deep")
	}
	it := types.Type(types.Typ[types.Int])
	// one step down from another directory
	step := func(d2, key *Term) treePlace {
		R, i, ok := component(key)
		if !ok || d2 == nil {
			return bad("%v is not a component of a path", key)
		}
		p := w.at(st, d2, depth+1)
		if p.why != "" {
			return p
		}
		if !w.inStep(st, p, R, i) {
			return bad("component %v is looked up in the directory at %v", i, p.n)
		}
		return treePlace{base: p.base, R: R, n: ex.ts.Add(i, ex.ts.Int(1), 1, it)}
	}
	if d2, key, ok := w.child(dir); ok {
		return step(d2, key)
	}
	if !dir.anyTerm(func(x *Term) bool {
		return x.Op == OLookup || x.Op == OJoin || x.Op == OPhi || x.Op == OAlloc || x.Op == OField && w.m.inTree(x.Args[0].T)
	}) && dir.anyTerm(func(x *Term) bool { return x.Op == OSym }) && !dir.isNil() {
		return treePlace{base: dir, n: ex.ts.Int(0)} // given by the client
	}
	switch dir.Op {
	case OLoad:
		if dir.Args[0].Op == OGlobal {
			return treePlace{base: dir, n: ex.ts.Int(0)}
		}
	case OPhi:
		// one and the same place on all paths
		var p treePlace
		first := true
		for _, a := range dir.Args {
			if a.isNil() {
				continue // no directory
			}
			q := w.at(st, a, depth+1)
			if q.why != "" {
				return q
			}
			if !first && q != p {
				return bad("different directories come together")
			}
			p, first = q, false
		}
		return p
	case OJoin:
		nx := w.nexts[dir]
		j := ex.joins[dir]
		if j == nil || len(nx) == 0 {
			break
		}
		var base *Term
		for v := range j.final {
			if nx[v] {
				continue
			}
			q := w.at(st, v, depth+1)
			if q.why != "" {
				return q
			}
			if q.R != nil || base != nil && base != q.base {
				return bad("the walk starts at %v", v)
			}
			base = q.base
		}
		var R, i *Term
		for v := range nx {
			for _, a := range v.alts() {
				if a == dir {
					return bad("a component is skipped")
				}
				if a.isNil() {
					continue // nothing there: the walk ends
				}
				d2, key, ok := w.child(a)
				if !ok || d2 != dir {
					return bad("the walk goes on at %v", a)
				}
				R2, i2, ok := component(key)
				if !ok || R != nil && (R != R2 || i != i2) {
					return bad("the walk goes on by %v", key)
				}
				R, i = R2, i2
			}
		}
		if base == nil {
			return bad("the walk does not start at a directory")
		}
		if R == nil {
			return treePlace{base: base, n: ex.ts.Int(0), stuck: loopOf(dir)}
		}
		ij, _, ok := ex.indexOf(i)
		if !ok || loopOf(ij) != loopOf(dir) || !ex.stepsUp(i, 0) {
			return bad("the walk does not take the components one after another")
		}
		return treePlace{base: base, R: R, n: i}
	}
	return bad("%v is not a directory on the way", dir)
}

// child: dir is the directory of the entry under key of d2, found or just put there.
func (w *treeRun) child(dir *Term) (d2, key *Term, ok bool) {
	m := w.m
	if dir.Op == OLoad && dir.Args[0].Op == OField && dir.Args[0].I == m.dir && structUnder(dir.Args[0].Args[0].T) == m.E {
		e := dir.Args[0].Args[0]
		if d2, key, presence, ok := m.entryKey(e); ok && !presence && d2 != nil {
			return d2, key, true
		}
		return nil, nil, false
	}
	if dir.Op == OAlloc {
		for _, op := range w.wrote {
			if op.val.Op != OAlloc || op.st == nil {
				continue
			}
			if w.ex.Load(op.st, w.ex.fieldAddr(op.val, m.dir, m.ET), m.E.Field(m.dir).Type()) == dir {
				return op.dir, op.key, true
			}
		}
		for _, op := range w.ops {
			if op.kind == EvMapWrite && op.val.Op == OAlloc && w.ex.Load(op.st, w.ex.fieldAddr(op.val, m.dir, m.ET), m.E.Field(m.dir).Type()) == dir {
				return op.dir, op.key, true
			}
		}
	}
	return nil, nil, false
}

// inStep: a directory at p is the one component i of R is to be looked up in.
func (w *treeRun) inStep(st *State, p treePlace, R, i *Term) bool {
	ex := w.ex
	it := types.Type(types.Typ[types.Int])
	n := p.n
	if p.R != nil && p.R != R {
		// the base of another path: the first path was walked to its end
		if !w.complete(st, p) {
			return false
		}
		n = ex.ts.Int(0)
	}
	if p.stuck != "" {
		// the directory is the base, and the counter of the walk still zero
		for j := range ex.joins {
			for k := int64(0); k < 2; k++ {
				c := ex.ts.Add(j, ex.ts.Int(k), 1, it)
				if loopOf(j) == p.stuck && ex.stepsUp(c, 0) && (c == i || ex.swept(st, c, i)) {
					return true
				}
				if loopOf(j) == p.stuck && ex.stepsUp(c, 0) {
					if v, ok := ex.truth(st, ex.ts.Cmp(token.EQL, c, i, it)); ok && v {
						return true
					}
				}
			}
		}
	}
	if n == i {
		return true
	}
	if v, ok := ex.truth(st, ex.ts.Cmp(token.EQL, n, i, it)); ok && v {
		return true
	}
	if c, isC := n.intVal(); isC && c == 0 {
		// i is an index: it is not negative
		if v, ok := ex.truth(st, ex.ts.Cmp(token.LSS, n, i, it)); ok && !v {
			return true
		}
	}
	return p.R == R && ex.swept(st, n, i)
}

// complete: p is the directory of the whole path R.
func (w *treeRun) complete(st *State, p treePlace) bool {
	ex := w.ex
	if p.why != "" {
		return false
	}
	if p.R == nil {
		return w.m.emptyPath(ex, st)
	}
	l := ex.lenTerm(p.R)
	if p.n == l {
		return true
	}
	if v, ok := ex.truth(st, ex.ts.Cmp(token.EQL, p.n, l, types.Typ[types.Int])); ok && v {
		return true
	}
	return ex.swept(st, p.n, l)
}

// baseOK: a path is relative to the directory the client gave, else to the root.
func (w *treeRun) baseOK(base *Term) bool {
	given := false
	for _, q := range w.fn.Params {
		s := structUnder(q.Type())
		if s == nil {
			continue
		}
		given = given || types.Identical(s, w.m.D)
		for i := 0; i < s.NumFields(); i++ {
			if f := structUnder(s.Field(i).Type()); f != nil && types.Identical(f, w.m.D) {
				given = true
			}
		}
	}
	return given == base.anyTerm(func(x *Term) bool { return x.Op == OSym })
}

// checkSteps: every operation by a component is made in the directory the
// components before it lead to.
func (w *treeRun) checkSteps(rule string) (keyed int) {
	r := w.m.r
	for _, op := range w.ops {
		R, i, ok := component(op.key)
		if !ok {
			continue
		}
		keyed++
		if op.dir == nil {
			r.Check(false, rule, w.root+": "+op.where, "the map is a directory's", "it is %v", op.m)
			continue
		}
		p := w.at(op.st, op.dir, 0)
		good := p.why == "" && w.inStep(op.st, p, R, i)
		if good && w.fn != nil && !w.baseOK(p.base) {
			good, p.why = false, fmt.Sprintf("the base is %v", p.base)
		}
		r.Check(good, rule, w.root+": "+op.where, "the components of the path are followed one by one from the base directory", "component %v in %v: %s", i, op.dir, p.why)
	}
	return keyed
}
