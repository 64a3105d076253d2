package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// EvKind classifies what the interpreter shows to a rule.
type EvKind int

const (
	EvLoad EvKind = iota
	EvStore
	EvMapRead
	EvMapWrite
	EvMapDelete
	EvRangeStart
	EvRangeNext // one iteration step was taken; Val: key, Val2: value
	EvRangeEnd  // the iteration is exhausted
	EvSend
	EvRecv
	EvClose
	EvGo
	EvExt      // call of a library function; Name, Args
	EvCallback // call of a client-supplied function
	EvLock
	EvUnlock
	EvPanic // explicit panic
	EvEnter // a repository function is entered
	EvAppend
	EvCopy
	EvMake
	EvBlock // blocking select without default
)

// Event is one effect of the analysed code in one abstract state.
type Event struct {
	Kind  EvKind
	Instr ssa.Instruction
	Fr    *Frame
	Addr  *Term
	Val   *Term
	Val2  *Term
	Old   *Term
	Name  string
	Args  []*Term
	Res   *Term
	Fn    *ssa.Function
	T     types.Type
	Write bool
	N     int // select case
}

// Client is a rule driving the interpreter.
type Client struct {
	Event  func(ex *Exec, st *State, ev *Event)
	Kill   func(a Atom) (Atom, bool)
	Cond   func(ex *Exec, st *State, t *Term) (bool, bool)
	Inline func(fn *ssa.Function) bool
	// Load decides the value of memory nothing is known about.
	Load func(ex *Exec, st *State, addr *Term, typ types.Type) *Term
	// Ext overrides the model of a library call.
	Ext func(ex *Exec, c *callCtx) ([]Outcome, bool)
	// Panics: library calls and callbacks may panic.
	Panics bool
	// Sequential: analyse calls one after another, nothing else runs.
	Sequential bool
	// Back: a state goes around a loop; next tells the value a joined
	// variable takes in the next iteration.
	Back func(ex *Exec, st *State, next func(j *Term) *Term)
	// Recursive: called when recursion is cut.
	Recursive func(ex *Exec, st *State, fn *ssa.Function, args []*Term)
	// Opaque: what is read here is just that.
	Opaque func(addr *Term, typ types.Type) bool
	// Split: keep the paths through this function apart (but for loops).
	Split func(fn *ssa.Function) bool
}

// Frame is one inlined activation.
type Frame struct {
	fn     *ssa.Function
	ctx    string
	parent *Frame
	site   ssa.Instruction
	depth  int
	fi     *fnInfo
	args   []*Term
}

func (f *Frame) stack(p *Program) string {
	var s []string
	for x := f; x != nil; x = x.parent {
		s = append(s, x.fn.RelString(nil))
	}
	for i, j := 0, len(s)-1; i < j; i, j = i+1, j-1 {
		s[i], s[j] = s[j], s[i]
	}
	for i := range s {
		s[i] = strings.ReplaceAll(s[i], modPrefix+"/go/", "")
	}
	return strings.Join(s, " > ")
}

type joinInfo struct {
	vals  map[*Term]bool // every value seen flowing in
	final map[*Term]bool // those of the last, stable sweep
	busy  bool
}

type pstate struct {
	st     *State
	env    map[ssa.Value]*Term
	defers []*deferRec
}

type deferRec struct {
	call *ssa.CallCommon
	in   *ssa.Defer
	fn   *Term // dynamic callee or receiver, evaluated at the defer statement
	args []*Term
	n    int
}

func (p *pstate) clone() *pstate {
	return &pstate{st: p.st.clone(), env: cp(p.env), defers: p.defers[:len(p.defers):len(p.defers)]}
}

// Outcome is one way an activation ends.
type Outcome struct {
	St    *State
	Panic bool
	PV    *Term
	Ret   []*Term
	Site  ssa.Instruction
	done  bool // deferred calls have already run
}

type goRec struct {
	fn        *ssa.Function
	args, fvs []*Term
}

// Exec is one run of the abstract interpreter.
type Exec struct {
	P      *Program
	ts     *Terms
	C      *Client
	assume map[*Term]Interval
	joins  map[*Term]*joinInfo
	muted  int
	newVal int // counts join values seen for the first time
	fins   map[*ssa.Function]*fnInfo
	ids    map[ssa.Instruction]int
	gvals  map[*ssa.Global]*Term

	frozenM map[*ssa.Global]*frozen

	loopFacts map[string]map[*Term]bool
	stack     []*Frame
	backFr    *Frame // the loop that goes around, during Back
	backHdr   *ssa.BasicBlock
	recMod    map[*ssa.Function]map[string]recCell // what recursive functions modify through their parameters
	recGrew   bool

	goes     []goRec // goroutines started
	seenFn   map[*ssa.Function]bool
	seenSite map[ssa.Instruction]bool
	steps    int
	states   int
	err      string // the run gave up
}

func NewExec(p *Program, c *Client) *Exec {
	return &Exec{P: p, ts: newTerms(), C: c, assume: map[*Term]Interval{}, joins: map[*Term]*joinInfo{},
		fins: p.fins, ids: map[ssa.Instruction]int{}, gvals: map[*ssa.Global]*Term{}, loopFacts: map[string]map[*Term]bool{}, recMod: map[*ssa.Function]map[string]recCell{},
		seenFn: map[*ssa.Function]bool{}, seenSite: map[ssa.Instruction]bool{}}
}

const maxSteps = 6000000
const maxDepth = 60

type giveUp struct{ msg string }

func (ex *Exec) fail(f string, a ...any) { panic(giveUp{fmt.Sprintf(f, a...)}) }

// Run interprets fn from st; it reports failure to converge in ex.err.
func (ex *Exec) Run(fn *ssa.Function, args []*Term, fvs []*Term, st *State) (outs []Outcome) {
	return ex.RunWith(fn.String(), func(st *State) []Outcome { return ex.exec(fn, nil, nil, args, fvs, st) }, st)
}

func (ex *Exec) RunWith(name string, body func(st *State) []Outcome, st *State) (outs []Outcome) {
	defer func() {
		if r := recover(); r != nil {
			if g, ok := r.(giveUp); ok {
				ex.err = g.msg
				outs = nil
				return
			}
			panic(r)
		}
	}()
	for i := 0; ; i++ {
		ex.recGrew = false
		ex.stack = nil
		outs = body(st.clone())
		if !ex.recGrew {
			return outs
		}
		if i > 10 {
			ex.fail("no summary of the recursion in %s", name)
		}
	}
}

// entryCtx is a call from outside the analysed code.
func (ex *Exec) entryCtx(label string, fn *ssa.Function, args []*Term, st *State) *callCtx {
	fr := &Frame{fn: fn, ctx: label, fi: ex.P.info(fn)}
	return &callCtx{fr: fr, ps: &pstate{st: st, env: map[ssa.Value]*Term{}}, st: st, args: args,
		sig: types.NewSignatureType(nil, nil, nil, nil, nil, false)}
}

// recCell is a memory cell named relative to a parameter.
type recCell struct {
	param int
	path  []recStep
}

type recStep struct {
	kind byte // f: field, l: load, e: element, m: map entry
	i    int
	t    types.Type
}

// noteMod records that the cell at addr is modified, for every recursive
// function being interpreted that can reach it through a parameter.
func (ex *Exec) noteMod(addr *Term) {
	if len(ex.recMod) == 0 {
		return
	}
	for _, fr := range ex.stack {
		mod, ok := ex.recMod[fr.fn]
		if !ok {
			continue
		}
		var path []recStep
		for t := addr; t != nil; {
			for i, a := range fr.args {
				if a == t || a.Op == OIface && a.Args[0] == t {
					c := recCell{param: i}
					k := fmt.Sprint(i)
					for j := len(path) - 1; j >= 0; j-- {
						c.path = append(c.path, path[j])
						k += fmt.Sprintf(".%c%d", path[j].kind, path[j].i)
					}
					if _, seen := mod[k]; !seen {
						mod[k] = c
						ex.recGrew = true
					}
				}
			}
			switch t.Op {
			case OField:
				path = append(path, recStep{'f', t.I, derefType(t.Args[0].T)})
			case OLoad:
				path = append(path, recStep{'l', 0, t.T})
			case OElem:
				path = append(path, recStep{'e', 0, t.T})
			case OLookup:
				path = append(path, recStep{'m', 0, t.T})
			case OSlice, OAssert, OIface:
			default:
				t = nil
				continue
			}
			t = t.Args[0]
		}
	}
}

// applyRec forgets what a recursive call may modify.
func (ex *Exec) applyRec(st *State, fn *ssa.Function, args []*Term, e string) {
	for _, c := range ex.recMod[fn] {
		if c.param >= len(args) {
			continue
		}
		t := args[c.param]
		if t.Op == OIface {
			t = t.Args[0]
		}
		for i, s := range c.path {
			last := i == len(c.path)-1
			switch s.kind {
			case 'f':
				t = ex.fieldAddr(t, s.i, s.t)
			case 'l':
				t = ex.Load(st, t, s.t)
			case 'e', 'm':
				last = true
			}
			if t.isNil() {
				break
			}
			if last {
				break
			}
		}
		for _, a := range t.alts() {
			for x := range st.mem {
				if x == a || x.hasAddrAncestor(a) {
					delete(st.mem, x)
				}
			}
			st.havoc[a] = e
		}
	}
}

// --- per-function information -----------------------------------------------

type fnInfo struct {
	rpo    []*ssa.BasicBlock
	pos    map[*ssa.BasicBlock]int
	header map[*ssa.BasicBlock]bool
	loops  bool
	live   map[*ssa.BasicBlock]map[ssa.Value]bool
}

func (p *Program) info(fn *ssa.Function) *fnInfo {
	p.mu.Lock()
	defer p.mu.Unlock()
	if fi := p.fins[fn]; fi != nil {
		return fi
	}
	fi := &fnInfo{pos: map[*ssa.BasicBlock]int{}, header: map[*ssa.BasicBlock]bool{}, live: map[*ssa.BasicBlock]map[ssa.Value]bool{}}
	seen := map[*ssa.BasicBlock]bool{}
	var post []*ssa.BasicBlock
	var dfs func(b *ssa.BasicBlock)
	dfs = func(b *ssa.BasicBlock) {
		seen[b] = true
		// visit successors so that loop bodies come before loop exits in RPO:
		// order does not matter for soundness.
		for i := len(b.Succs) - 1; i >= 0; i-- {
			if s := b.Succs[i]; !seen[s] {
				dfs(s)
			}
		}
		post = append(post, b)
	}
	if fn.Recover != nil {
		dfs(fn.Recover)
	}
	dfs(fn.Blocks[0])
	for i := len(post) - 1; i >= 0; i-- {
		fi.pos[post[i]] = len(fi.rpo)
		fi.rpo = append(fi.rpo, post[i])
	}
	for _, b := range fi.rpo {
		for _, s := range b.Succs {
			if fi.pos[s] <= fi.pos[b] {
				fi.header[s] = true
				fi.loops = true
			}
		}
	}
	// liveness
	for _, b := range fi.rpo {
		fi.live[b] = map[ssa.Value]bool{}
	}
	for changed := true; changed; {
		changed = false
		for i := len(fi.rpo) - 1; i >= 0; i-- {
			b := fi.rpo[i]
			l := map[ssa.Value]bool{}
			for _, s := range b.Succs {
				for v := range fi.live[s] {
					l[v] = true
				}
				for _, in := range s.Instrs {
					ph, ok := in.(*ssa.Phi)
					if !ok {
						break
					}
					for pi, pr := range s.Preds {
						if pr == b {
							l[ph.Edges[pi]] = true
						}
					}
				}
			}
			for j := len(b.Instrs) - 1; j >= 0; j-- {
				in := b.Instrs[j]
				if v, ok := in.(ssa.Value); ok {
					delete(l, v)
				}
				if _, ok := in.(*ssa.Phi); ok {
					continue
				}
				if _, ok := in.(*ssa.DebugRef); ok {
					continue
				}
				for _, o := range in.Operands(nil) {
					if *o != nil {
						switch (*o).(type) {
						case *ssa.Const, *ssa.Global, *ssa.Function, *ssa.Builtin:
						default:
							l[*o] = true
						}
					}
				}
			}
			if len(l) != len(fi.live[b]) {
				changed = true
			}
			fi.live[b] = l
		}
	}
	p.fins[fn] = fi
	return fi
}

func (ex *Exec) id(in ssa.Instruction) int {
	n, ok := ex.ids[in]
	if !ok {
		n = len(ex.ids) + 1
		ex.ids[in] = n
	}
	return n
}

func (ex *Exec) site(fr *Frame, in ssa.Instruction) string {
	return fmt.Sprintf("%s@%d", fr.ctx, ex.id(in))
}

func (ex *Exec) emit(st *State, ev *Event) {
	if ev.Instr != nil {
		ex.seenSite[ev.Instr] = true
	}
	if ex.C.Event != nil {
		ex.C.Event(ex, st, ev)
	}
}

// --- function interpretation -------------------------------------------------

func (ex *Exec) onStack(fr *Frame, fn *ssa.Function) int {
	n := 0
	for f := fr; f != nil; f = f.parent {
		if f.fn == fn {
			n++
		}
	}
	return n
}

func (ex *Exec) exec(fn *ssa.Function, parent *Frame, site ssa.Instruction, args, fvs []*Term, st *State) []Outcome {
	ctx := ""
	depth := 0
	if parent != nil {
		depth = parent.depth + 1
		ctx = fmt.Sprintf("%s/%d", parent.ctx, ex.id(site))
	}
	if depth > maxDepth {
		ex.fail("call depth exceeds %d at %s", maxDepth, fn)
	}
	if ex.onStack(parent, fn) >= 2 {
		// Recursion: by induction on its depth the inner activation preserves
		// the rule's invariant and modifies what outer activations are seen
		// to modify through their parameters; results are unknown.
		if ex.recMod[fn] == nil {
			ex.recMod[fn] = map[string]recCell{}
			ex.recGrew = true
		}
		e := "rec" + ctx
		ex.applyRec(st, fn, args, e)
		st.gEpoch = e
		ex.killEpoch(st, e)
		ex.dropShared(st, nil)
		if ex.C.Recursive != nil {
			ex.C.Recursive(ex, st, fn, args)
		}
		return []Outcome{{St: st, Ret: ex.unknownResults(fn.Signature, "rec:"+fn.String(), ctx, nil)}}
	}
	ex.seenFn[fn] = true
	fr := &Frame{fn: fn, ctx: ctx, parent: parent, site: site, depth: depth, fi: ex.P.info(fn), args: args}
	ex.stack = append(ex.stack, fr)
	defer func() { ex.stack = ex.stack[:len(ex.stack)-1] }()
	env := map[ssa.Value]*Term{}
	for i, p := range fn.Params {
		if i < len(args) {
			env[p] = args[i]
		} else {
			env[p] = ex.ts.Sym("param:"+p.Name(), p.Type())
		}
	}
	for i, v := range fn.FreeVars {
		if i < len(fvs) {
			env[v] = fvs[i]
		} else {
			env[v] = ex.ts.Sym("free:"+v.Name(), v.Type())
		}
	}
	ex.emit(st, &Event{Kind: EvEnter, Fr: fr, Fn: fn, Args: args, Instr: site})
	ps := &pstate{st: st, env: env}
	if !fr.fi.loops {
		outs, _ := ex.sweep(fr, ps, nil, true)
		return ex.limit(outs)
	}
	back := map[*ssa.BasicBlock][]*pstate{}
	ex.muted++
	for i := 0; ; i++ {
		if i > 40 {
			ex.muted--
			ex.fail("no fixpoint in %s", fn)
		}
		nv := ex.newVal
		_, changed := ex.sweep(fr, ps.clone(), back, false)
		if !changed && nv == ex.newVal {
			break
		}
	}
	ex.muted--
	outs, _ := ex.sweep(fr, ps, back, true)
	return ex.limit(outs)
}

// limit merges outcomes when there are too many.
func (ex *Exec) limit(outs []Outcome) []Outcome {
	if len(outs) <= 24 {
		return outs
	}
	return ex.mergeOutcomes(outs, true, "lim")
}

// mergeOutcomes joins the outcomes that agree on typestate, locks and, when
// the results matter, on which of them are constants.
func (ex *Exec) mergeOutcomes(outs []Outcome, useRet bool, where string) []Outcome {
	var r []Outcome
	idx := map[string]int{}
	for _, o := range outs {
		k := o.St.key() + fmt.Sprint(o.Panic)
		if useRet || o.Panic {
			for _, v := range o.Ret {
				if constLike(v) {
					k += fmt.Sprintf("#%d", v.id)
				} else if ex.nonNil(o.St, v) {
					k += "#n"
				} else {
					k += "#?"
				}
			}
		}
		if i, ok := idx[k]; ok {
			p := &r[i]
			place := fmt.Sprintf("%s.%d", where, i)
			var both []int
			for j := range p.Ret {
				if ex.nilable(p.Ret[j]) && ex.nonNil(p.St, p.Ret[j]) && ex.nonNil(o.St, o.Ret[j]) {
					both = append(both, j)
				}
				p.Ret[j] = ex.joinVal(p.Ret[j], o.Ret[j], p.Ret[j].T, fmt.Sprintf("%s.r%d", place, j))
			}
			if p.PV != nil && o.PV != nil {
				p.PV = ex.joinVal(p.PV, o.PV, p.PV.T, place+"p")
			}
			p.St = ex.joinStates(p.St, o.St, place, false)
			for _, j := range both {
				ex.noteNonNil(p.St, p.Ret[j])
			}
			continue
		}
		idx[k] = len(r)
		r = append(r, o)
	}
	return r
}

func (ex *Exec) sweep(fr *Frame, entry *pstate, back map[*ssa.BasicBlock][]*pstate, final bool) (outs []Outcome, changed bool) {
	in := map[*ssa.BasicBlock][]*pstate{}
	fi := fr.fi
	in[fi.rpo[0]] = []*pstate{entry}
	if fi.header[fi.rpo[0]] {
		ex.fail("entry block of %s is a loop header", fr.fn)
	}
	newBack := map[*ssa.BasicBlock][]*pstate{}
	for _, b := range fi.rpo {
		states := in[b]
		if fi.header[b] {
			states = ex.mergeHeader(fr, b, states, back[b])
		} else if len(states) > 1 && !(ex.C.Split != nil && len(states) < 64 && ex.C.Split(fr.fn)) {
			states = ex.merge(fr, b, states)
		}
		in[b] = nil
		ex.states += len(states)
		for _, ps := range states {
			for _, res := range ex.block(fr, b, ps) {
				if res.out != nil {
					outs = append(outs, *res.out)
					continue
				}
				nx := ex.enterBlock(fr, b, res.to, res.ps)
				if fi.pos[res.to] <= fi.pos[b] {
					newBack[res.to] = append(newBack[res.to], nx)
				} else {
					in[res.to] = append(in[res.to], nx)
				}
			}
		}
	}
	if back != nil {
		for h, list := range newBack {
			if ex.addBack(fr, h, back, list) {
				changed = true
			}
		}
	}
	return outs, changed
}

// enterBlock evaluates the φs of to for the edge from b.
func (ex *Exec) enterBlock(fr *Frame, b, to *ssa.BasicBlock, ps *pstate) *pstate {
	pi := -1
	for i, p := range to.Preds {
		if p == b {
			pi = i
			break
		}
	}
	var phis []*ssa.Phi
	var vals []*Term
	for _, in := range to.Instrs {
		ph, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		phis = append(phis, ph)
		vals = append(vals, ex.val(fr, ps, ph.Edges[pi]))
	}
	live := fr.fi.live[to]
	env := make(map[ssa.Value]*Term, len(live)+len(phis))
	for v := range live {
		if t, ok := ps.env[v]; ok {
			env[v] = t
		}
	}
	for i, ph := range phis {
		env[ph] = vals[i]
	}
	ps.env = env
	return ps
}

func deferKey(ds []*deferRec) string {
	var sb strings.Builder
	for _, d := range ds {
		fmt.Fprintf(&sb, "%d,", d.n)
		if d.fn != nil {
			fmt.Fprintf(&sb, "f%d", d.fn.id)
		}
		for _, a := range d.args {
			fmt.Fprintf(&sb, "a%d", a.id)
		}
	}
	return sb.String()
}

// partKey separates states that must not be merged.
func (ex *Exec) partKey(fr *Frame, ps *pstate, coarse bool) string {
	k := ps.st.key() + "|" + deferKey(ps.defers)
	if coarse {
		return k
	}
	var cs []string
	for v, t := range ps.env {
		if constLike(t) {
			cs = append(cs, fmt.Sprintf("%s=%d", v.Name(), t.id))
		} else if isErrorType(v.Type()) && ex.nonNil(ps.st, t) {
			cs = append(cs, v.Name()+"!")
		}
	}
	for c, t := range ps.st.mem {
		if c.Op == OAlloc && constLike(t) && !ps.st.pub[c] {
			cs = append(cs, fmt.Sprintf("m%d=%d", c.id, t.id))
		}
	}
	sort.Strings(cs)
	return k + "|" + strings.Join(cs, ",")
}

func isErrorType(t types.Type) bool {
	return types.Identical(t, types.Universe.Lookup("error").Type())
}

func (ex *Exec) merge(fr *Frame, b *ssa.BasicBlock, states []*pstate) []*pstate {
	coarse := len(states) > 48
	idx := map[string]int{}
	var r []*pstate
	place := fmt.Sprintf("%s#b%d", fr.ctx, ex.id(b.Instrs[0]))
	for _, ps := range states {
		k := ex.partKey(fr, ps, coarse)
		if i, ok := idx[k]; ok {
			r[i] = ex.join2(fr, r[i], ps, place, false)
			continue
		}
		idx[k] = len(r)
		r = append(r, ps)
	}
	if len(r) > 400 {
		ex.fail("too many partitions (%d) in %s", len(r), fr.fn)
	}
	return r
}

func (ex *Exec) join2(fr *Frame, a, b *pstate, place string, widen bool) *pstate {
	st := ex.joinStates(a.st, b.st, place, widen)
	env := map[ssa.Value]*Term{}
	for v, t := range a.env {
		u, ok := b.env[v]
		if !ok {
			continue
		}
		if t == u {
			env[v] = t
			continue
		}
		p := fmt.Sprintf("%s:%s", place, v.Name())
		if widen {
			env[v] = ex.widenVal(p, v.Type(), t, u)
		} else {
			env[v] = ex.joinVal(t, u, v.Type(), p)
			if ex.nilable(t) && ex.nonNil(a.st, t) && ex.nonNil(b.st, u) {
				ex.noteNonNil(st, env[v])
			}
		}
	}
	return &pstate{st: st, env: env, defers: a.defers}
}

// nilable: t may be an interface or a pointer that is nil.
func (ex *Exec) nilable(t *Term) bool {
	if t.T == nil {
		return false
	}
	switch t.T.Underlying().(type) {
	case *types.Interface, *types.Pointer:
		return true
	}
	return false
}

func (ex *Exec) noteNonNil(st *State, t *Term) {
	if !ex.nonNil(st, t) {
		st.facts[ex.ts.Cmp(token.EQL, t, ex.ts.Nil(nil), nilT)] = false
	}
}

func hdrPlace(ex *Exec, fr *Frame, h *ssa.BasicBlock) string {
	return fmt.Sprintf("%s#h%d", fr.ctx, ex.id(h.Instrs[0]))
}

// mergeHeader joins the states entering a loop with those coming around it.
func (ex *Exec) mergeHeader(fr *Frame, h *ssa.BasicBlock, entry, back []*pstate) []*pstate {
	place := hdrPlace(ex, fr, h)
	if len(entry) > 1 {
		entry = ex.merge(fr, h, entry)
	}
	idx := map[string]int{}
	var r []*pstate
	// All states with the same typestate, locks and defers share one loop
	// invariant.
	for _, ps := range entry {
		k := ex.partKey(fr, ps, true)
		if i, ok := idx[k]; ok {
			r[i] = ex.join2(fr, r[i], ps, place+"e", false)
			continue
		}
		idx[k] = len(r)
		r = append(r, ps.clone())
	}
	for _, ps := range back {
		k := ex.partKey(fr, ps, true)
		if i, ok := idx[k]; ok {
			r[i] = ex.join2(fr, r[i], ps, place, true)
			continue
		}
		idx[k] = len(r)
		r = append(r, ps.clone())
	}
	return r
}

// addBack accumulates the states that reach a loop header around the loop.
func (ex *Exec) addBack(fr *Frame, h *ssa.BasicBlock, back map[*ssa.BasicBlock][]*pstate, list []*pstate) bool {
	place := hdrPlace(ex, fr, h)
	// Values named after this header are re-bound by the next iteration.
	dead := func(t *Term) bool { return t.Op == OJoin && strings.HasPrefix(t.S, place+":") }
	changed := false
	if ex.muted == 0 {
		ex.noteLoopFacts(place, list, dead)
	}
	for _, ps := range list {
		if ex.C.Back != nil {
			ex.backFr, ex.backHdr = fr, h
			ex.C.Back(ex, ps.st, func(j *Term) *Term {
				if !dead(j) {
					return nil
				}
				name := strings.TrimPrefix(j.S, place+":")
				for v, t := range ps.env {
					if v.Name() == name {
						return insideOf(t, j)
					}
				}
				for c, t := range ps.st.mem {
					if name == fmt.Sprintf("m%d", c.id) {
						return insideOf(t, j)
					}
				}
				return nil
			})
		}
		ex.killRebound(fr, h, ps, dead)
		k := ex.partKey(fr, ps, true)
		found := false
		for i, o := range back[h] {
			if ex.partKey(fr, o, true) != k {
				continue
			}
			found = true
			n := ex.join2(fr, o, ps, place, true)
			if !sameState(n.st, o.st) || !sameEnv(n.env, o.env) {
				back[h][i] = n
				changed = true
			}
		}
		if !found {
			back[h] = append(back[h], ps)
			changed = true
			if len(back[h]) > 200 {
				ex.fail("too many loop partitions in %s", fr.fn)
			}
		}
	}
	return changed
}

// noteLoopFacts keeps what holds about the values of an iteration whenever the
// loop goes around: it then holds for every completed iteration.
func (ex *Exec) noteLoopFacts(place string, list []*pstate, dead func(*Term) bool) {
	m := ex.loopFacts[place]
	for _, ps := range list {
		cur := map[*Term]bool{}
		for f, v := range ps.st.facts {
			if f.anyTerm(dead) {
				cur[f] = v
			}
		}
		if m == nil {
			m = cur
			continue
		}
		for f, v := range m {
			if w, ok := cur[f]; !ok || w != v {
				delete(m, f)
			}
		}
	}
	if m == nil {
		m = map[*Term]bool{}
	}
	ex.loopFacts[place] = m
}

func sameEnv(a, b map[ssa.Value]*Term) bool {
	if len(a) != len(b) {
		return false
	}
	for k, v := range a {
		if b[k] != v {
			return false
		}
	}
	return true
}

// killRebound forgets facts about values that the loop computes anew. The
// environment and memory may still hold them as "value of the last iteration".
func (ex *Exec) killRebound(fr *Frame, h *ssa.BasicBlock, ps *pstate, dead func(*Term) bool) {
	for f := range ps.st.facts {
		if f.anyTerm(dead) {
			delete(ps.st.facts, f)
		}
	}
	for c := range ps.st.mem {
		if c.anyTerm(dead) {
			delete(ps.st.mem, c)
		}
	}
	for k, a := range ps.st.X {
		if a.T != nil && a.T.anyTerm(dead) {
			delete(ps.st.X, k)
			if ex.C.Kill != nil {
				if n, keep := ex.C.Kill(a); keep {
					ps.st.X[atomKey(n.K, n.T)] = n
				}
			}
		}
	}
}

type blockRes struct {
	to  *ssa.BasicBlock
	ps  *pstate
	out *Outcome
}

// block interprets the instructions of b from one state.
func (ex *Exec) block(fr *Frame, b *ssa.BasicBlock, ps *pstate) []blockRes {
	var res []blockRes
	cur := []*pstate{ps}
	start := 0
	for start < len(b.Instrs) {
		if _, ok := b.Instrs[start].(*ssa.Phi); !ok {
			break
		}
		start++
	}
	for i := start; i < len(b.Instrs); i++ {
		in := b.Instrs[i]
		ex.steps += len(cur)
		if ex.steps > maxSteps {
			ex.fail("step budget exceeded in %s", fr.fn)
		}
		var next []*pstate
		for _, p := range cur {
			switch in := in.(type) {
			case *ssa.Jump:
				res = append(res, blockRes{to: b.Succs[0], ps: p})
			case *ssa.If:
				c := ex.val(fr, p, in.Cond)
				c = ex.simplifyCond(p.st, c)
				if v, ok := ex.truth(p.st, c); ok {
					if v {
						res = append(res, blockRes{to: b.Succs[0], ps: p})
					} else {
						res = append(res, blockRes{to: b.Succs[1], ps: p})
					}
					continue
				}
				q := p.clone()
				if ex.addFact(p.st, c, true) {
					res = append(res, blockRes{to: b.Succs[0], ps: p})
				}
				if ex.addFact(q.st, c, false) {
					res = append(res, blockRes{to: b.Succs[1], ps: q})
				}
			case *ssa.Return:
				var rs []*Term
				for _, r := range in.Results {
					rs = append(rs, ex.val(fr, p, r))
				}
				res = append(res, blockRes{out: &Outcome{St: p.st, Ret: rs, Site: in}})
			case *ssa.Panic:
				v := ex.val(fr, p, in.X)
				ex.emit(p.st, &Event{Kind: EvPanic, Instr: in, Fr: fr, Val: v})
				for _, o := range ex.unwind(fr, p, v, in) {
					oo := o
					res = append(res, blockRes{out: &oo})
				}
			default:
				ps2, outs := ex.instr(fr, p, in)
				next = append(next, ps2...)
				for _, o := range outs {
					if o.done {
						oo := o
						oo.done = false
						res = append(res, blockRes{out: &oo})
						continue
					}
					// an escaping panic: run this frame's deferred calls
					q := &pstate{st: o.St, env: p.env, defers: p.defers}
					for _, u := range ex.unwind(fr, q, o.PV, in) {
						uu := u
						res = append(res, blockRes{out: &uu})
					}
				}
			}
		}
		cur = next
		if len(cur) == 0 {
			break
		}
	}
	return res
}

// simplifyCond picks a phi alternative apart when facts leave only one.
func (ex *Exec) simplifyCond(st *State, c *Term) *Term { return c }

// unwind runs deferred calls because of a panic.
func (ex *Exec) unwind(fr *Frame, ps *pstate, pv *Term, in ssa.Instruction) []Outcome {
	type item struct {
		ps *pstate
	}
	if pv == nil {
		pv = ex.ts.mk(Term{Op: OTop})
	}
	ps.st.panicV = pv
	work := []*pstate{ps}
	var outs []Outcome
	for len(work) > 0 {
		p := work[len(work)-1]
		work = work[:len(work)-1]
		if len(p.defers) == 0 {
			if p.st.recov {
				p.st.recov = false
				p.st.panicV = nil
				outs = append(outs, ex.recovered(fr, p)...)
			} else {
				v := p.st.panicV
				p.st.panicV = nil
				outs = append(outs, Outcome{St: p.st, Panic: true, PV: v, Site: in})
			}
			continue
		}
		d := p.defers[len(p.defers)-1]
		p.defers = p.defers[:len(p.defers)-1]
		for _, o := range ex.runDefer(fr, p, d) {
			q := &pstate{st: o.St, env: p.env, defers: p.defers}
			if o.Panic {
				q.st.panicV = o.PV
				if q.st.panicV == nil {
					q.st.panicV = pv
				}
				q.st.recov = false
			} else if !q.st.recov && q.st.panicV == nil {
				q.st.panicV = pv
			}
			work = append(work, q)
		}
	}
	return outs
}

func (ex *Exec) recovered(fr *Frame, p *pstate) []Outcome {
	if fr.fn.Recover == nil {
		var rs []*Term
		res := fr.fn.Signature.Results()
		for i := 0; i < res.Len(); i++ {
			rs = append(rs, ex.zero(res.At(i).Type()))
		}
		return []Outcome{{St: p.st, Ret: rs}}
	}
	var outs []Outcome
	for _, r := range ex.block(fr, fr.fn.Recover, p) {
		if r.out != nil {
			outs = append(outs, *r.out)
		}
	}
	return outs
}

func (ex *Exec) runDefer(fr *Frame, p *pstate, d *deferRec) []Outcome {
	c := &callCtx{fr: fr, ps: p, in: d.in, common: d.call, fnv: d.fn, args: d.args, st: p.st}
	return ex.dispatch(c)
}

// val evaluates an SSA operand.
func (ex *Exec) val(fr *Frame, ps *pstate, v ssa.Value) *Term {
	switch v := v.(type) {
	case *ssa.Const:
		if v.Value == nil {
			switch v.Type().Underlying().(type) {
			case *types.Struct, *types.Array:
				return ex.zero(v.Type())
			}
			return ex.ts.Nil(v.Type())
		}
		return ex.ts.Const(v.Value, v.Type())
	case *ssa.Global:
		return ex.ts.mk(Term{Op: OGlobal, Aux: v, T: v.Type()})
	case *ssa.Function:
		return ex.ts.mk(Term{Op: OFunc, Aux: v, T: v.Type()})
	case *ssa.Builtin:
		return ex.ts.mk(Term{Op: OFunc, Aux: v, T: v.Type()})
	}
	if t, ok := ps.env[v]; ok {
		return t
	}
	return ex.ts.mk(Term{Op: OTop, S: v.Name(), T: v.Type()})
}

func (ex *Exec) unknownResults(sig *types.Signature, name, site string, args []*Term) []*Term {
	res := sig.Results()
	n := res.Len()
	if n == 0 {
		return nil
	}
	if n == 1 {
		return []*Term{ex.ts.mk(Term{Op: OCall, Aux: name, S: site, Args: args, T: res.At(0).Type()})}
	}
	call := ex.ts.mk(Term{Op: OCall, Aux: name, S: site, Args: args})
	var r []*Term
	for i := 0; i < n; i++ {
		r = append(r, ex.ts.mk(Term{Op: OExtract, Args: []*Term{call}, I: i, T: res.At(i).Type()}))
	}
	return r
}

// havocReach forgets the contents of memory reachable from pointer v.
func (ex *Exec) havocReach(st *State, v *Term, epoch string) {
	seen := map[*Term]bool{}
	var visit func(t *Term)
	visit = func(t *Term) {
		if t == nil || seen[t] {
			return
		}
		seen[t] = true
		switch t.Op {
		case OAlloc, OField, OElem, OGlobal:
			ex.noteMod(t)
			for c, val := range st.mem {
				if c == t || c.hasAddrAncestor(t) {
					if ex.fieldImmutable(c) {
						continue
					}
					delete(st.mem, c)
					visit(val)
				}
			}
			st.havoc[t] = epoch
		case OIface, OSlice, OConv:
			visit(t.Args[0])
		case OPhi, OClosure, OStruct:
			for _, a := range t.Args {
				visit(a)
			}
		}
	}
	visit(v)
}

func (t *Term) hasAddrAncestor(x *Term) bool {
	for {
		if t == x {
			return true
		}
		switch t.Op {
		case OField, OElem, OSlice, OLookup:
			t = t.Args[0]
			continue
		}
		return false
	}
}

// regen prepares a value-producing instruction that may be executed again:
// facts about its previous result no longer apply.
func (ex *Exec) regen(st *State, t *Term) {
	need := false
	for f := range st.facts {
		if f.contains(t) {
			need = true
			break
		}
	}
	if !need {
		for c := range st.mem {
			if c.contains(t) {
				need = true
				break
			}
		}
	}
	for _, m := range []map[string]Atom{st.X, st.may, st.must} {
		for _, a := range m {
			if need {
				break
			}
			need = a.T != nil && a.T.contains(t)
		}
	}
	if need {
		ex.kill(st, func(x *Term) bool { return x == t })
	}
}

// instr interprets one non-control instruction. It returns the successor
// states and the panics that escape it.
func (ex *Exec) instr(fr *Frame, ps *pstate, in ssa.Instruction) ([]*pstate, []Outcome) {
	st := ps.st
	set := func(t *Term) { ps.env[in.(ssa.Value)] = t }
	one := []*pstate{ps}
	val := func(v ssa.Value) *Term { return ex.val(fr, ps, v) }
	switch in := in.(type) {
	case *ssa.DebugRef:
	case *ssa.Alloc:
		a := ex.ts.mk(Term{Op: OAlloc, Aux: in, S: fr.ctx, T: in.Type()})
		for c := range st.mem {
			if objOf(c) == a {
				delete(st.mem, c)
			}
		}
		delete(st.pub, a)
		delete(st.pend, a)
		delete(st.havoc, a)
		ex.regen(st, a)
		set(a)
	case *ssa.BinOp:
		x, y := val(in.X), val(in.Y)
		set(ex.ts.Bin(in.Op, x, y, in.X.Type(), in.Type()))
	case *ssa.UnOp:
		switch in.Op {
		case token.MUL:
			addr := val(in.X)
			v := ex.Load(st, addr, in.Type())
			ex.emit(st, &Event{Kind: EvLoad, Instr: in, Fr: fr, Addr: addr, Val: v, T: in.Type()})
			set(v)
		case token.ARROW:
			ch := val(in.X)
			rt := in.Type()
			if in.CommaOk {
				rt = in.Type().(*types.Tuple).At(0).Type()
			}
			r := ex.ts.mk(Term{Op: ORecv, Args: []*Term{ch}, S: ex.site(fr, in), T: rt})
			ex.regen(st, r)
			rev := &Event{Kind: EvRecv, Instr: in, Fr: fr, Addr: ch, Val: r, T: in.Type()}
			ex.emit(st, rev)
			r = rev.Val // a rule may split on the message
			if in.CommaOk {
				set(ex.tuple(r, ex.ts.mk(Term{Op: OExtract, Args: []*Term{r}, I: 1, T: types.Typ[types.Bool]})))
			} else {
				set(r)
			}
		case token.NOT:
			set(ex.ts.Not(val(in.X)))
		case token.SUB:
			x := val(in.X)
			if isNumeric(in.Type()) {
				set(ex.ts.Scale(x, ex.ts.Int(-1).C, in.Type()))
			} else {
				set(ex.ts.mk(Term{Op: OUn, Aux: in.Op, Args: []*Term{x}, T: in.Type()}))
			}
		default:
			set(ex.ts.mk(Term{Op: OUn, Aux: in.Op, Args: []*Term{val(in.X)}, T: in.Type()}))
		}
	case *ssa.ChangeType:
		set(ex.retype(val(in.X), in.Type()))
	case *ssa.ChangeInterface:
		set(val(in.X))
	case *ssa.Convert:
		set(ex.convert(val(in.X), in.X.Type(), in.Type()))
	case *ssa.MultiConvert:
		set(ex.convert(val(in.X), in.X.Type(), in.Type()))
	case *ssa.SliceToArrayPointer:
		set(ex.ts.mk(Term{Op: OConv, Args: []*Term{val(in.X)}, T: in.Type()}))
	case *ssa.MakeInterface:
		set(ex.ts.mk(Term{Op: OIface, Args: []*Term{val(in.X)}, Aux: in.X.Type(), T: in.Type()}))
	case *ssa.MakeClosure:
		var bs []*Term
		for _, b := range in.Bindings {
			bs = append(bs, val(b))
		}
		set(ex.ts.mk(Term{Op: OClosure, Aux: in.Fn.(*ssa.Function), Args: bs, T: in.Type()}))
	case *ssa.MakeMap, *ssa.MakeChan, *ssa.MakeSlice:
		var as []*Term
		if s, ok := in.(*ssa.MakeSlice); ok {
			as = []*Term{val(s.Len)}
		}
		if c, ok := in.(*ssa.MakeChan); ok {
			as = []*Term{val(c.Size)}
		}
		a := ex.ts.mk(Term{Op: OAlloc, Aux: in, S: fr.ctx, Args: as, T: in.(ssa.Value).Type()})
		ex.renew(st, a)
		ex.emit(st, &Event{Kind: EvMake, Instr: in, Fr: fr, Val: a, Args: as})
		set(a)
	case *ssa.Slice:
		x := val(in.X)
		opt := func(v ssa.Value) *Term {
			if v == nil {
				return nil
			}
			return val(v)
		}
		lo, hi := opt(in.Low), opt(in.High)
		if lo != nil {
			if c, ok := lo.intVal(); ok && c == 0 {
				lo = nil
			}
		}
		if lo == nil && hi == nil && in.Max == nil {
			if _, isPtr := in.X.Type().Underlying().(*types.Pointer); !isPtr {
				set(x)
				break
			}
		}
		set(ex.ts.mk(Term{Op: OSlice, Args: []*Term{x, lo, hi}, T: in.Type()}))
	case *ssa.FieldAddr:
		x := val(in.X)
		set(ex.fieldAddr(x, in.Field, in.X.Type()))
	case *ssa.Field:
		set(ex.fieldVal(val(in.X), in.Field, in.Type()))
	case *ssa.IndexAddr:
		set(ex.elemAddr(val(in.X), val(in.Index), in.Type()))
	case *ssa.Index:
		set(ex.ts.mk(Term{Op: OIndexV, Args: []*Term{val(in.X), val(in.Index)}, T: in.Type()}))
	case *ssa.Lookup:
		x, k := val(in.X), val(in.Index)
		if _, isMap := in.X.Type().Underlying().(*types.Map); !isMap {
			set(ex.ts.mk(Term{Op: OIndexV, Args: []*Term{x, k}, T: in.Type()}))
			break
		}
		ex.emit(st, &Event{Kind: EvMapRead, Instr: in, Fr: fr, Addr: x, Val: k})
		mt := in.X.Type().Underlying().(*types.Map)
		v, ok := ex.mapLookup(st, x, k, mt)
		if in.CommaOk {
			if _, known := ex.truth(st, ok); !known && x.Op == OAlloc {
				// one of this activation's own maps: the two answers differ
				pc := ex.mapCell(x, k, 1, types.Typ[types.Bool])
				q := ps.clone()
				q.st.mem[pc] = ex.ts.Bool(false)
				q.env[in] = ex.tuple(ex.zero(mt.Elem()), ex.ts.Bool(false))
				st.mem[pc] = ex.ts.Bool(true)
				set(ex.tuple(ex.loadMapVal(st, x, k, mt), ex.ts.Bool(true)))
				return []*pstate{ps, q}, nil
			}
			set(ex.tuple(v, ok))
		} else {
			set(v)
		}
	case *ssa.Range:
		x := val(in.X)
		ex.emit(st, &Event{Kind: EvRangeStart, Instr: in, Fr: fr, Addr: x})
		set(ex.ts.mk(Term{Op: OTuple, Args: []*Term{x}, S: "iter" + ex.site(fr, in), T: in.X.Type()}))
	case *ssa.Next:
		return ex.next(fr, ps, in)
	case *ssa.TypeAssert:
		return ex.typeAssert(fr, ps, in)
	case *ssa.Extract:
		t := val(in.Tuple)
		set(ex.extract(t, in.Index, in.Type()))
	case *ssa.Store:
		addr, v := val(in.Addr), val(in.Val)
		typ := derefType(in.Addr.Type())
		old := ex.Load(st, addr, typ)
		ex.emit(st, &Event{Kind: EvStore, Instr: in, Fr: fr, Addr: addr, Val: v, Old: old, T: typ, Write: true})
		if !st.freshAddr(addr) {
			ex.publish(st, v)
		}
		ex.Store(st, addr, v, typ, ex.site(fr, in))
	case *ssa.MapUpdate:
		m, k, v := val(in.Map), val(in.Key), val(in.Value)
		mt := in.Map.Type().Underlying().(*types.Map)
		ov, ook := ex.mapLookup(st, m, k, mt)
		ex.emit(st, &Event{Kind: EvMapWrite, Instr: in, Fr: fr, Addr: m, Val: k, Val2: v, Old: ov, Res: ook, Write: true})
		if !st.freshAddr(m) {
			ex.publish(st, v)
			ex.publish(st, k)
		}
		ex.mapStore(st, m, k, v, ex.ts.Bool(true), mt, ex.site(fr, in))
	case *ssa.Send:
		ch, v := val(in.Chan), val(in.X)
		ex.emit(st, &Event{Kind: EvSend, Instr: in, Fr: fr, Addr: ch, Val: v})
		ex.publish(st, v)
	case *ssa.Select:
		return ex.sel(fr, ps, in)
	case *ssa.Go:
		c := ex.mkCall(fr, ps, in, in.Common())
		ev := &Event{Kind: EvGo, Instr: in, Fr: fr, Args: c.args, Val: c.fnv}
		if f := in.Common().StaticCallee(); f != nil {
			ev.Fn = f
		}
		if ex.muted == 0 {
			g := goRec{fn: ev.Fn, args: c.args}
			if c.fnv != nil && (c.fnv.Op == OClosure || c.fnv.Op == OFunc) {
				g.fn, _ = c.fnv.Aux.(*ssa.Function)
				g.fvs = c.fnv.Args
			}
			ex.goes = append(ex.goes, g)
		}
		ex.emit(st, ev)
		for _, a := range c.args {
			ex.publish(st, a)
		}
		if c.fnv != nil {
			ex.publish(st, c.fnv)
		}
	case *ssa.Defer:
		c := ex.mkCall(fr, ps, in, in.Common())
		d := &deferRec{call: in.Common(), in: in, fn: c.fnv, args: c.args, n: ex.id(in)}
		n := 0
		for _, e := range ps.defers {
			if e.in == in {
				n++
			}
		}
		if n >= 2 {
			ex.fail("defer in a loop in %s", fr.fn)
		}
		ps.defers = append(ps.defers[:len(ps.defers):len(ps.defers)], d)
	case *ssa.RunDefers:
		work := []*pstate{ps}
		var done []*pstate
		var pan []Outcome
		for len(work) > 0 {
			p := work[len(work)-1]
			work = work[:len(work)-1]
			if len(p.defers) == 0 {
				done = append(done, p)
				continue
			}
			d := p.defers[len(p.defers)-1]
			p.defers = p.defers[:len(p.defers)-1]
			env := p.env
			for _, o := range ex.runDefer(fr, p, d) {
				q := &pstate{st: o.St, env: env, defers: p.defers}
				if o.Panic {
					pan = append(pan, ex.unwind(fr, q, o.PV, in)...)
					continue
				}
				work = append(work, &pstate{st: o.St, env: cp(env), defers: p.defers})
			}
		}
		if len(pan) > 0 {
			// already unwound: hand them up as finished panics
			for i := range pan {
				pan[i].Site, pan[i].done = in, true
			}
			ps.defers = nil
			return done, pan
		}
		return done, nil
	case *ssa.Call:
		return ex.callInstr(fr, ps, in)
	default:
		ex.fail("unsupported instruction %T in %s", in, fr.fn)
	}
	return one, nil
}

func (ex *Exec) tuple(ts ...*Term) *Term {
	return ex.ts.mk(Term{Op: OTuple, Args: ts})
}

func (ex *Exec) extract(t *Term, i int, typ types.Type) *Term {
	if t.Op == OTuple && i < len(t.Args) {
		return t.Args[i]
	}
	if t.Op == OPhi {
		var vs []*Term
		for _, a := range t.Args {
			vs = append(vs, ex.extract(a, i, typ))
		}
		return ex.ts.Phi(vs, typ)
	}
	return ex.ts.mk(Term{Op: OExtract, Args: []*Term{t}, I: i, T: typ})
}

// retype: a conversion between types with identical underlying types.
func (ex *Exec) retype(t *Term, typ types.Type) *Term {
	if t.Op == OStruct {
		return ex.structOf(t.Args, typ)
	}
	return t
}

func (ex *Exec) convert(x *Term, from, to types.Type) *Term {
	if x.Op == OPhi {
		var vs []*Term
		for _, a := range x.Args {
			vs = append(vs, ex.convert(a, from, to))
		}
		return ex.ts.Phi(vs, to)
	}
	if x.isConst() && isNumeric(from) && isNumeric(to) {
		if isFloat(from) && isInteger(to) {
			if _, ok := x.intVal(); !ok {
				return ex.ts.mk(Term{Op: OConv, Args: []*Term{x}, T: to})
			}
		}
		if isInteger(to) {
			if r := typeRange(to); !within(ex.interval(nil, x, 0), r) {
				return ex.ts.mk(Term{Op: OConv, Args: []*Term{x}, T: to})
			}
		}
		return ex.ts.Const(x.C, to)
	}
	if types.Identical(from.Underlying(), to.Underlying()) {
		return x
	}
	if isString(from) && isString(to) {
		return x
	}
	if isInteger(from) && isInteger(to) {
		// widening within the same signedness preserves the value
		sf, st := sizeOf(from), sizeOf(to)
		if isUnsigned(from) == isUnsigned(to) && sf <= st || isUnsigned(from) && !isUnsigned(to) && sf < st {
			return ex.ts.mk(Term{Op: OConv, Args: []*Term{x}, T: to, S: "w"})
		}
	}
	return ex.ts.mk(Term{Op: OConv, Args: []*Term{x}, T: to})
}

func sizeOf(t types.Type) int64 { return types.SizesFor("gc", "amd64").Sizeof(t) }

func (ex *Exec) elemAddr(x, i *Term, t types.Type) *Term {
	if x.Op == OPhi {
		var vs []*Term
		for _, a := range x.Args {
			vs = append(vs, ex.elemAddr(a, i, t))
		}
		return ex.ts.Phi(vs, t)
	}
	for x.Op == OSlice {
		if x.Args[1] != nil {
			i = ex.ts.Add(x.Args[1], i, 1, types.Typ[types.Int])
		}
		x = x.Args[0]
	}
	return ex.ts.mk(Term{Op: OElem, Args: []*Term{x, i}, T: t})
}

func (ex *Exec) mapCell(m, k *Term, I int, t types.Type) *Term {
	return ex.ts.mk(Term{Op: OLookup, Args: []*Term{m, k}, I: I, T: t})
}

func (ex *Exec) mapLookup(st *State, m, k *Term, mt *types.Map) (v, ok *Term) {
	if m.isNil() {
		return ex.zero(mt.Elem()), ex.ts.Bool(false)
	}
	if m.Op == OPhi {
		var vs, oks []*Term
		for _, a := range m.Args {
			x, y := ex.mapLookup(st, a, k, mt)
			vs, oks = append(vs, x), append(oks, y)
		}
		return ex.ts.Phi(vs, mt.Elem()), ex.ts.Phi(oks, types.Typ[types.Bool])
	}
	if m.T == nil {
		m.T = mt
	}
	if v, ok, known := ex.frozenLookup(st, m, k, mt); known {
		return v, ok
	}
	ok = ex.Load(st, ex.mapCell(m, k, 1, types.Typ[types.Bool]), types.Typ[types.Bool])
	if b, known := ex.truth(st, ok); known && !b {
		return ex.zero(mt.Elem()), ok
	}
	v = ex.loadMapVal(st, m, k, mt)
	if b, known := ex.truth(st, ok); !(known && b) && st.mem[ex.mapCell(m, k, 0, mt.Elem())] != nil {
		v = ex.ts.Phi([]*Term{ex.zero(mt.Elem()), v}, mt.Elem())
	}
	return v, ok
}

func (ex *Exec) loadMapVal(st *State, m, k *Term, mt *types.Map) *Term {
	c := ex.mapCell(m, k, 0, mt.Elem())
	if x, ok := st.mem[c]; ok {
		return x
	}
	return ex.ts.mk(Term{Op: OLoad, Args: []*Term{c}, S: ex.epochOf(st, c), T: mt.Elem()})
}

func (ex *Exec) mapStore(st *State, m, k, v, present *Term, mt *types.Map, site string) {
	for _, a := range m.alts() {
		if a.isNil() {
			continue
		}
		if a.T == nil {
			a.T = mt
		}
		c0, c1 := ex.mapCell(a, k, 0, mt.Elem()), ex.mapCell(a, k, 1, types.Typ[types.Bool])
		ex.noteMod(c0)
		ex.clobber(st, c0, site)
		ex.clobber(st, c1, site)
		if a.Op == OAlloc && !(k.isConst() && m.Op != OPhi) {
			st.havoc[a] = "e"
		}
		if m.Op == OPhi {
			continue
		}
		if v != nil {
			st.mem[c0] = v
		} else {
			st.mem[c0] = ex.zero(mt.Elem())
		}
		st.mem[c1] = present
	}
}

// next interprets one step of a map or string iteration.
func (ex *Exec) next(fr *Frame, ps *pstate, in *ssa.Next) ([]*pstate, []Outcome) {
	it := ex.val(fr, ps, in.Iter)
	var m *Term
	if it.Op == OTuple && len(it.Args) > 0 {
		m = it.Args[0]
	} else {
		m = it
	}
	tup := in.Type().(*types.Tuple)
	site := ex.site(fr, in)
	q := ps.clone()
	// exhausted
	q.env[in] = ex.tuple(ex.ts.Bool(false), ex.ts.mk(Term{Op: OTop, T: tup.At(1).Type()}), ex.ts.mk(Term{Op: OTop, T: tup.At(2).Type()}))
	ex.emit(q.st, &Event{Kind: EvRangeEnd, Instr: in, Fr: fr, Addr: m})
	if m.isNil() {
		return []*pstate{q}, nil
	}
	k := ex.ts.mk(Term{Op: ORangeK, Args: []*Term{m}, S: site, T: rangeType(m, tup, 1)})
	ex.regen(ps.st, k)
	var v *Term
	if mt, ok := mapTypeOf(in, m); ok {
		k.T = mt.Key()
		ps.st.mem[ex.mapCell(m, k, 1, types.Typ[types.Bool])] = ex.ts.Bool(true)
		v = ex.loadMapVal(ps.st, m, k, mt)
	} else {
		v = ex.ts.mk(Term{Op: ORangeV, Args: []*Term{m}, S: site, T: tup.At(2).Type()})
	}
	ex.emit(ps.st, &Event{Kind: EvRangeNext, Instr: in, Fr: fr, Addr: m, Val: k, Val2: v})
	ps.env[in] = ex.tuple(ex.ts.Bool(true), k, v)
	return []*pstate{ps, q}, nil
}

func mapTypeOf(in *ssa.Next, m *Term) (*types.Map, bool) {
	if in.IsString {
		return nil, false
	}
	if r, ok := in.Iter.(*ssa.Range); ok {
		mt, ok := r.X.Type().Underlying().(*types.Map)
		return mt, ok
	}
	return nil, false
}

func rangeType(m *Term, tup *types.Tuple, i int) types.Type { return tup.At(i).Type() }

func (ex *Exec) isType(x *Term, T types.Type) *Term {
	return ex.ts.mk(Term{Op: OIsType, Args: []*Term{x}, Aux: T, T: types.Typ[types.Bool]})
}

// assertVal: the value inside interface x, known to be of type T.
func (ex *Exec) assertVal(st *State, x *Term, T types.Type) *Term {
	if _, isI := T.Underlying().(*types.Interface); isI {
		return x
	}
	switch x.Op {
	case OIface:
		if types.Identical(x.Aux.(types.Type), T) {
			return x.Args[0]
		}
	case OPhi:
		var vs []*Term
		for _, a := range x.Args {
			if v, ok := ex.truthIsType(st, a, T); ok && !v {
				continue
			}
			vs = append(vs, ex.assertVal(st, a, T))
		}
		if len(vs) > 0 {
			return ex.ts.Phi(vs, T)
		}
	}
	return ex.ts.mk(Term{Op: OAssert, Args: []*Term{x}, T: T})
}

func (ex *Exec) typeAssert(fr *Frame, ps *pstate, in *ssa.TypeAssert) ([]*pstate, []Outcome) {
	x := ex.val(fr, ps, in.X)
	T := in.AssertedType
	cond := ex.isType(x, T)
	v, known := ex.truth(ps.st, cond)
	yes := func(p *pstate) *pstate {
		r := ex.assertVal(p.st, x, T)
		if in.CommaOk {
			p.env[in] = ex.tuple(r, ex.ts.Bool(true))
		} else {
			p.env[in] = r
		}
		return p
	}
	no := func(p *pstate) ([]*pstate, []Outcome) {
		if in.CommaOk {
			p.env[in] = ex.tuple(ex.zero(T), ex.ts.Bool(false))
			return []*pstate{p}, nil
		}
		ex.emit(p.st, &Event{Kind: EvPanic, Instr: in, Fr: fr, Val: ex.ts.Sym("type assertion failed", nil), Name: "typeassert"})
		return nil, []Outcome{{St: p.st, Panic: true, PV: ex.ts.Sym("type assertion failed", nil)}}
	}
	if known {
		if v {
			return []*pstate{yes(ps)}, nil
		}
		return no(ps)
	}
	q := ps.clone()
	var res []*pstate
	if ex.addFact(ps.st, cond, true) {
		res = append(res, yes(ps))
	}
	var outs []Outcome
	if ex.addFact(q.st, cond, false) {
		r2, o2 := no(q)
		res = append(res, r2...)
		outs = append(outs, o2...)
	}
	return res, outs
}

func (ex *Exec) sel(fr *Frame, ps *pstate, in *ssa.Select) ([]*pstate, []Outcome) {
	var res []*pstate
	tup := in.Type().(*types.Tuple)
	mk := func(p *pstate, idx int, recvOk *Term, recv map[int]*Term) {
		args := []*Term{ex.ts.Int(int64(idx)), recvOk}
		for i := 2; i < tup.Len(); i++ {
			if t, ok := recv[i]; ok {
				args = append(args, t)
			} else {
				args = append(args, ex.zero(tup.At(i).Type()))
			}
		}
		p.env[in] = ex.tuple(args...)
		res = append(res, p)
	}
	if in.Blocking {
		ex.emit(ps.st, &Event{Kind: EvBlock, Instr: in, Fr: fr})
	}
	ri := 2
	for i, s := range in.States {
		p := ps.clone()
		ch := ex.val(fr, p, s.Chan)
		if s.Dir == types.SendOnly {
			v := ex.val(fr, p, s.Send)
			ex.emit(p.st, &Event{Kind: EvSend, Instr: in, Fr: fr, Addr: ch, Val: v, N: i})
			ex.publish(p.st, v)
			mk(p, i, ex.ts.Bool(false), nil)
			continue
		}
		et := s.Chan.Type().Underlying().(*types.Chan).Elem()
		r := ex.ts.mk(Term{Op: ORecv, Args: []*Term{ch}, S: fmt.Sprintf("%s.%d", ex.site(fr, in), i), T: et})
		ex.regen(p.st, r)
		rev := &Event{Kind: EvRecv, Instr: in, Fr: fr, Addr: ch, Val: r, N: i}
		ex.emit(p.st, rev)
		r = rev.Val // a rule may split on the message
		mk(p, i, ex.ts.mk(Term{Op: OExtract, Args: []*Term{r}, I: 1, T: types.Typ[types.Bool]}), map[int]*Term{ri: r})
		ri++
	}
	if !in.Blocking {
		p := ps.clone()
		mk(p, -1, ex.ts.Bool(false), nil)
	}
	return res, nil
}

// --- calls -------------------------------------------------------------------

type callCtx struct {
	fr     *Frame
	ps     *pstate
	st     *State
	in     ssa.Instruction
	common *ssa.CallCommon
	fnv    *Term // callee value, or receiver of an interface method call
	args   []*Term
	name   string // library function name
	fn     *ssa.Function
	sig    *types.Signature
}

func (ex *Exec) mkCall(fr *Frame, ps *pstate, in ssa.Instruction, cc *ssa.CallCommon) *callCtx {
	c := &callCtx{fr: fr, ps: ps, st: ps.st, in: in, common: cc}
	if cc.IsInvoke() {
		c.fnv = ex.val(fr, ps, cc.Value)
	} else if cc.StaticCallee() == nil || isClosureVal(cc.Value) {
		c.fnv = ex.val(fr, ps, cc.Value)
	}
	for _, a := range cc.Args {
		c.args = append(c.args, ex.val(fr, ps, a))
	}
	return c
}

func isClosureVal(v ssa.Value) bool {
	_, ok := v.(*ssa.MakeClosure)
	return ok
}

func (ex *Exec) callInstr(fr *Frame, ps *pstate, in *ssa.Call) ([]*pstate, []Outcome) {
	c := ex.mkCall(fr, ps, in, in.Common())
	outs := ex.dispatch(c)
	if rf := in.Referrers(); len(outs) > 1 && (rf == nil || len(*rf) == 0) {
		outs = ex.mergeOutcomes(outs, false, ex.site(fr, in))
	}
	var res []*pstate
	var pan []Outcome
	env, defers := ps.env, ps.defers
	for _, o := range outs {
		if o.Panic {
			pan = append(pan, o)
			continue
		}
		e := env
		if len(outs) > 1 {
			e = cp(env)
		}
		switch in.Common().Signature().Results().Len() {
		case 0:
		case 1:
			if len(o.Ret) > 0 {
				e[in] = o.Ret[0]
			}
		default:
			e[in] = ex.tuple(o.Ret...)
		}
		if _, isB := in.Common().Value.(*ssa.Builtin); isB && len(o.Ret) > 0 {
			e[in] = o.Ret[0]
		}
		res = append(res, &pstate{st: o.St, env: e, defers: defers})
	}
	return res, pan
}

func (ex *Exec) dispatch(c *callCtx) []Outcome {
	cc := c.common
	c.sig = cc.Signature()
	if cc.IsInvoke() {
		return ex.invoke(c, c.fnv)
	}
	if b, ok := cc.Value.(*ssa.Builtin); ok {
		return ex.builtin(c, b)
	}
	if f := cc.StaticCallee(); f != nil {
		var fvs []*Term
		if c.fnv != nil && c.fnv.Op == OClosure {
			fvs = c.fnv.Args
		}
		return ex.callFn(c, f, fvs)
	}
	return ex.callValue(c, c.fnv)
}

func (ex *Exec) callValue(c *callCtx, f *Term) []Outcome {
	switch f.Op {
	case OFunc:
		if fn, ok := f.Aux.(*ssa.Function); ok {
			return ex.callFn(c, fn, nil)
		}
	case OClosure:
		return ex.callFn(c, f.Aux.(*ssa.Function), f.Args)
	case OPhi:
		var outs []Outcome
		for i, a := range f.Args {
			if a.isNil() {
				continue
			}
			d := *c
			if i < len(f.Args)-1 {
				d.st = c.st.clone()
			}
			outs = append(outs, ex.callValue(&d, a)...)
		}
		return outs
	}
	return ex.callback(c, f)
}

func (ex *Exec) callFn(c *callCtx, f *ssa.Function, fvs []*Term) []Outcome {
	if f.Blocks == nil || ex.C.Inline != nil && !ex.C.Inline(f) {
		c.fn = f
		c.name = extName(f)
		return ex.external(c)
	}
	return ex.exec(f, c.fr, c.in, c.args, fvs, c.st)
}

func extName(f *ssa.Function) string { return f.String() }

// callback: a function value supplied by the client of the library.
func (ex *Exec) callback(c *callCtx, f *Term) []Outcome {
	site := ex.site(c.fr, c.in)
	ex.emit(c.st, &Event{Kind: EvCallback, Instr: c.in, Fr: c.fr, Val: f, Args: c.args, Name: "func value"})
	return ex.opaque(c, "callback", site, true)
}

// opaque: an unknown call that may do anything through the public API.
func (ex *Exec) opaque(c *callCtx, name, site string, shared bool) []Outcome {
	st := c.st
	for _, a := range c.args {
		ex.publish(st, a)
		ex.havocReach(st, a, "o"+site)
	}
	if shared {
		st.gEpoch = "g" + site
		ex.killEpoch(st, "g"+site)
		ex.dropShared(st, nil)
	}
	rets := ex.unknownResults(c.sig, name, site, nil)
	for _, r := range rets {
		ex.regen(st, r.regenRoot())
	}
	var outs []Outcome
	if ex.C.Panics {
		p := st.clone()
		outs = append(outs, Outcome{St: p, Panic: true, PV: ex.ts.Sym("panic from "+name, nil)})
	}
	return append(outs, Outcome{St: st, Ret: rets})
}

func (t *Term) regenRoot() *Term {
	if t.Op == OExtract {
		return t.Args[0]
	}
	return t
}

// killEpoch: loads stamped with this epoch are about to denote new values.
func (ex *Exec) killEpoch(st *State, e string) {
	ex.kill(st, func(t *Term) bool { return t.Op == OLoad && t.S != "" && strings.Contains("+"+t.S+"+", "+"+e+"+") })
}

func (ex *Exec) invoke(c *callCtx, recv *Term) []Outcome {
	m := c.common.Method
	if recv.Op == OPhi {
		var outs []Outcome
		var live []*Term
		for _, a := range recv.Args {
			if !a.isNil() {
				live = append(live, a)
			}
		}
		for i, a := range live {
			d := *c
			if i < len(live)-1 {
				d.st = c.st.clone()
			}
			outs = append(outs, ex.invoke(&d, a)...)
		}
		return outs
	}
	if dyn := ex.dynType(c.st, recv); dyn != nil {
		return ex.invokeOn(c, ex.assertVal(c.st, recv, dyn), dyn, m)
	}
	// an interface only this repository can implement
	if it := c.common.Value.Type(); ex.P.closedInterface(it) {
		var outs []Outcome
		for _, T := range ex.P.implementers(it) {
			d := *c
			d.st = c.st.clone()
			if !ex.addFact(d.st, ex.isType(recv, T), true) {
				continue
			}
			outs = append(outs, ex.invokeOn(&d, ex.assertVal(d.st, recv, T), T, m)...)
		}
		return outs
	}
	d := *c
	d.name = fmt.Sprintf("(%s).%s", types.TypeString(c.common.Value.Type(), nil), m.Name())
	d.args = append([]*Term{recv}, c.args...)
	return ex.external(&d)
}

func (ex *Exec) invokeOn(c *callCtx, v *Term, T types.Type, m *types.Func) []Outcome {
	var f *ssa.Function
	if !isSynthetic(T) {
		f = ex.P.Prog.LookupMethod(T, m.Pkg(), m.Name())
	}
	d := *c
	d.args = append([]*Term{v}, c.args...)
	if f == nil {
		d.name = fmt.Sprintf("(%s).%s", types.TypeString(T, nil), m.Name())
		return ex.external(&d)
	}
	if f.Blocks == nil {
		d.fn = f
		d.name = extName(f)
		return ex.external(&d)
	}
	return ex.callFn(&d, f, nil)
}

func (ex *Exec) builtin(c *callCtx, b *ssa.Builtin) []Outcome {
	st, a := c.st, c.args
	ret := func(t *Term) []Outcome { return []Outcome{{St: st, Ret: []*Term{t}}} }
	site := ex.site(c.fr, c.in)
	rt := func() types.Type {
		if v, ok := c.in.(ssa.Value); ok {
			return v.Type()
		}
		return types.Typ[types.Int]
	}
	switch b.Name() {
	case "len", "cap":
		if _, ok := c.common.Args[0].Type().Underlying().(*types.Map); ok {
			ex.emit(st, &Event{Kind: EvMapRead, Instr: c.in, Fr: c.fr, Addr: a[0], Name: "len"})
		}
		return ret(ex.lenOf(st, a[0], b.Name() == "cap", c.common.Args[0].Type()))
	case "append":
		ex.emit(st, &Event{Kind: EvAppend, Instr: c.in, Fr: c.fr, Addr: a[0], Args: a[1:], T: rt()})
		elems := ex.sliceElems(st, a[1], rt())
		if elems == nil {
			if a[1].isNil() {
				return ret(a[0])
			}
			return ret(ex.ts.mk(Term{Op: OAppend, I: 1, Args: []*Term{a[0], a[1]}, T: rt()}))
		}
		return ret(ex.ts.mk(Term{Op: OAppend, Args: append([]*Term{a[0]}, elems...), T: rt()}))
	case "copy":
		ex.emit(st, &Event{Kind: EvCopy, Instr: c.in, Fr: c.fr, Addr: a[0], Val: a[1], Write: true})
		if o := objOf(a[0]); o.Op == OAlloc {
			ex.havocReach(st, o, "c"+site)
		} else {
			ex.clobber(st, ex.elemAddr(a[0], ex.ts.Sym("?"+site, types.Typ[types.Int]), types.NewPointer(types.Typ[types.Int])), site)
		}
		return ret(ex.ts.mk(Term{Op: OCall, Aux: "copy", S: site, T: types.Typ[types.Int]}))
	case "delete":
		mt, _ := c.common.Args[0].Type().Underlying().(*types.Map)
		ex.emit(st, &Event{Kind: EvMapDelete, Instr: c.in, Fr: c.fr, Addr: a[0], Val: a[1], Write: true})
		if mt != nil {
			ex.mapStore(st, a[0], a[1], nil, ex.ts.Bool(false), mt, site)
		}
		return []Outcome{{St: st}}
	case "close":
		ex.emit(st, &Event{Kind: EvClose, Instr: c.in, Fr: c.fr, Addr: a[0]})
		return []Outcome{{St: st}}
	case "recover":
		if st.panicV != nil {
			st.recov = true
			v := st.panicV
			return ret(ex.ts.mk(Term{Op: OIface, Args: []*Term{v}, Aux: types.Type(types.Typ[types.String]), T: rt()}))
		}
		return ret(ex.ts.Nil(nil))
	case "min", "max":
		t := ex.ts.mk(Term{Op: OCall, Aux: "builtin." + b.Name(), Args: a, T: rt()})
		return ret(t)
	case "clear":
		ex.emit(st, &Event{Kind: EvMapDelete, Instr: c.in, Fr: c.fr, Addr: a[0], Name: "clear", Write: true})
		ex.havocReach(st, a[0], "clr"+site)
		st.fEpoch["*"] = site
		return []Outcome{{St: st}}
	case "print", "println":
		return []Outcome{{St: st}}
	case "ssa:wrapnilchk":
		return ret(a[0])
	}
	return ret(ex.ts.mk(Term{Op: OCall, Aux: "builtin." + b.Name(), S: site, Args: a, T: rt()}))
}

func (ex *Exec) lenOf(st *State, x *Term, isCap bool, t types.Type) *Term {
	op := OLen
	if isCap {
		op = OCap
	}
	it := types.Typ[types.Int]
	switch x.Op {
	case OConst:
		if x.isNil() {
			return ex.ts.Int(0)
		}
		if s, ok := x.strVal(); ok {
			return ex.ts.Int(int64(len(s)))
		}
	case OAlloc:
		if _, ok := x.Aux.(*ssa.MakeSlice); (ok || x.I == allocLen && len(x.Args) > 0) && !isCap {
			return x.Args[0]
		}
		if _, ok := x.Aux.(*ssa.MakeMap); ok && st.havoc[x] == "" && st.isFresh(x) {
			empty := true
			for c := range st.mem {
				if c.Op == OLookup && c.Args[0] == x {
					empty = false
					break
				}
			}
			if empty {
				return ex.ts.Int(0)
			}
		}
	case OSlice:
		if !isCap {
			var hi *Term
			if x.Args[2] != nil {
				hi = x.Args[2]
			} else if arr, ok := derefType(typeOr(x.Args[0].T, t)).Underlying().(*types.Array); ok {
				hi = ex.ts.Int(arr.Len())
			} else {
				hi = ex.lenOf(st, x.Args[0], false, t)
			}
			if x.Args[1] != nil {
				return ex.ts.Add(hi, x.Args[1], -1, it)
			}
			return hi
		}
	case OAppend:
		if !isCap {
			if x.I == 0 {
				return ex.ts.Add(ex.lenOf(st, x.Args[0], false, t), ex.ts.Int(int64(len(x.Args)-1)), 1, it)
			}
			return ex.ts.Add(ex.lenOf(st, x.Args[0], false, t), ex.lenOf(st, x.Args[1], false, t), 1, it)
		}
	case OLoad:
		if f := ex.frozenOf(x); f != nil && !f.isMap && !isCap {
			return ex.ts.Int(int64(len(f.vals)))
		}
	case OPhi:
		var vs []*Term
		for _, a := range x.Args {
			vs = append(vs, ex.lenOf(st, a, isCap, t))
		}
		return ex.ts.Phi(vs, it)
	case OConv:
		if !isCap && x.Args[0].isConst() {
			return ex.lenOf(st, x.Args[0], false, t)
		}
	}
	if arr, ok := t.Underlying().(*types.Array); ok {
		return ex.ts.Int(arr.Len())
	}
	// maps change size under the same reference: the length carries the epoch
	s := ""
	if _, ok := t.Underlying().(*types.Map); ok {
		s = ex.epochOf(st, ex.mapCell(x, ex.ts.Int(0), 1, types.Typ[types.Bool])) + st.havoc[x]
	}
	return ex.ts.mk(Term{Op: op, Args: []*Term{x}, S: s, T: it})
}

func typeOr(t, u types.Type) types.Type {
	if t != nil {
		return t
	}
	return u
}

// sliceElems lists the elements of a slice literal built for a variadic call.
func (ex *Exec) sliceElems(st *State, s *Term, typ types.Type) []*Term {
	if s.Op != OSlice || s.Args[0].Op != OAlloc || s.Args[1] != nil || s.Args[2] != nil {
		return nil
	}
	al, ok := s.Args[0].Aux.(*ssa.Alloc)
	if !ok {
		return nil
	}
	arr, ok := derefType(al.Type()).Underlying().(*types.Array)
	if !ok || arr.Len() > 64 {
		return nil
	}
	var r []*Term
	for i := int64(0); i < arr.Len(); i++ {
		addr := ex.elemAddr(s.Args[0], ex.ts.Int(i), types.NewPointer(arr.Elem()))
		r = append(r, ex.Load(st, addr, arr.Elem()))
	}
	return r
}
