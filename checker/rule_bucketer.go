package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math/big"
	"strings"
	"sync/atomic"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Property{ID: "C12", MinObs: 30, Run: runC12,
		Rule: "no entry point stores into a bucketer, its ranges or a distribution's list of ranges after they are made, and none keeps a caller's slice; every constructor is evaluated for each class of invalid parameters (every path panics) and for valid ones (no path panics)"})
	register(&Property{ID: "C11", MinObs: 20, Run: runC11,
		Rule: "in every bucketer constructor each range appended or stored starts where the one before it ends, only the first is open below and only the last open above; the counter a value is counted in is that of the range containing it; reports take the limits of range k from range k"})
}

// bktModel: the types behind bucketers.
type bktModel struct {
	r      *Report
	m      *distModel
	B      *types.Named
	piece  *types.Named // struct type of a range
	lo, hi fieldKey
}

func newBktModel(r *Report) *bktModel {
	m := newDistModel(r)
	if m == nil {
		return nil
	}
	lo, hi, _, ok := rangeFields(r)
	if !ok {
		return nil
	}
	b := &bktModel{r: r, m: m, B: r.P.Named("tricorder", "Bucketer"), lo: lo, hi: hi}
	if !r.Need(b.B != nil, "tricorder.Bucketer") {
		return nil
	}
	s, ok := structOf(m.D).Field(m.pieces).Type().Underlying().(*types.Slice)
	if !r.Need(ok, "the list of ranges of a distribution") {
		return nil
	}
	b.piece, ok = derefType(s.Elem()).(*types.Named)
	if !r.Need(ok && structUnder(b.piece) != nil, "the type of a range") {
		return nil
	}
	return b
}

func (b *bktModel) isPiece(t types.Type) bool {
	return t != nil && structUnder(t) != nil && (sameStruct(t, b.piece) || sameStruct(derefType(t), b.piece))
}

// pieces: a slice of ranges.
func (b *bktModel) isPieces(t types.Type) bool {
	if t == nil {
		return false
	}
	s, ok := t.Underlying().(*types.Slice)
	return ok && structUnder(derefType(s.Elem())) != nil && b.isPiece(derefType(s.Elem()))
}

// shares: the slice may share memory with something not made here.
func (ex *Exec) shares(t *Term, d int) bool {
	t = unconv(t)
	switch t.Op {
	case OAlloc, OConst:
		return false
	case OSlice:
		return ex.shares(t.Args[0], d)
	case OAppend:
		return ex.shares(t.Args[0], d)
	case OPhi:
		for _, a := range t.Args {
			if ex.shares(a, d) {
				return true
			}
		}
		return false
	case OJoin:
		if ex.joins[t] == nil || d > 6 {
			return true
		}
		for v := range ex.joins[t].final {
			if v != t && ex.shares(v, d+1) {
				return true
			}
		}
		return false
	}
	return true
}

func runC12(r *Report) {
	b := newBktModel(r)
	if b == nil {
		return
	}
	p := r.P
	var stores atomic.Int64
	fixed := func(addr *Term) string {
		for x := addr; x != nil; {
			switch x.Op {
			case OField:
				bt := derefType(x.Args[0].T)
				if structUnder(bt) != nil {
					switch {
					case sameStruct(bt, b.B):
						return "a bucketer"
					case sameStruct(bt, b.piece):
						return "a range"
					case sameStruct(bt, b.m.D) && x.I == b.m.pieces:
						return "a distribution's list of ranges"
					}
				}
				x = x.Args[0]
			case OElem:
				if b.isPieces(x.Args[0].T) {
					return "a list of ranges"
				}
				x = x.Args[0]
			default:
				x = nil
			}
		}
		if t := addr.T; t != nil {
			if dt := derefType(t); dt != t && structUnder(dt) != nil {
				switch {
				case sameStruct(dt, b.B):
					return "a bucketer"
				case sameStruct(dt, b.piece):
					return "a range"
				}
			}
		}
		return ""
	}
	r.runRoots(p.roots("tricorder"), func(root Root) *Client {
		name := p.fname(root.Fn)
		return &Client{Event: func(ex *Exec, st *State, ev *Event) {
			if ex.muted > 0 {
				return
			}
			site := name + ": "
			switch ev.Kind {
			case EvStore:
				what := fixed(ev.Addr)
				if what == "" {
					return
				}
				stores.Add(1)
				site += r.where(ev)
				r.Check(st.isFreshObj(ev.Addr), "immutable", site, what+" is written only while it is being made", "%v is stored into", ev.Addr)
				if ev.Addr.Op == OField && ev.Val.T != nil {
					bt := derefType(ev.Addr.Args[0].T)
					if _, isS := ev.Val.T.Underlying().(*types.Slice); isS && structUnder(bt) != nil && (sameStruct(bt, b.B) || sameStruct(bt, b.piece)) && !b.isPieces(ev.Val.T) {
						r.Check(!ex.shares(ev.Val, 0), "immutable", site, what+" keeps no slice of its caller", "it keeps %v", ev.Val)
					}
				}
			case EvCopy:
				if b.isPieces(ev.Addr.T) {
					r.Check(!ex.shares(ev.Addr, 0), "immutable", site+r.where(ev), "a list of ranges is written only while it is being made", "%v is copied into", ev.Addr)
				}
			case EvAppend:
				// appending to a shortened list overwrites it
				if b.isPieces(ev.Addr.T) {
					x := unconv(ev.Addr)
					for x.Op == OAppend {
						x = x.Args[0]
					}
					if x.Op == OSlice && x.Args[2] != nil {
						r.Check(!ex.shares(x, 0), "immutable", site+r.where(ev), "a list of ranges is written only while it is being made", "%v is appended to", ev.Addr)
					}
				}
			case EvExt:
				if strings.HasPrefix(ev.Name, "sort.Slice") && ev.Name != "sort.SliceIsSorted" || ev.Name == "sort.Sort" || ev.Name == "sort.Stable" ||
					strings.HasPrefix(ev.Name, "slices.Sort") || strings.HasPrefix(ev.Name, "slices.Reverse") || strings.HasPrefix(ev.Name, "slices.Delete") ||
					strings.HasPrefix(ev.Name, "slices.Compact") || strings.HasPrefix(ev.Name, "slices.Replace") || strings.HasPrefix(ev.Name, "slices.Insert") {
					for _, a := range ev.Args {
						if a.Op == OIface {
							a = a.Args[0]
						}
						if b.isPieces(a.T) {
							r.Check(!ex.shares(a, 0), "immutable", site+r.where(ev), "a list of ranges is written only while it is being made", "%s is given %v", ev.Name, a)
						}
					}
				}
			}
		}}
	}, nil)
	r.Min("stores that make bucketers", 3, int(stores.Load()))
	b.constructors()
}

// bktCase: one class of arguments of a constructor.
type bktCase struct {
	name  string
	ok    bool
	args  []Interval // per parameter; zero: any
	below bool       // the second parameter is below the first
	above bool       // it is not
	none  bool       // variadic: no arguments
}

func le(n int64) Interval { return Interval{hi: big.NewRat(n, 1)} }
func gt(n int64) Interval { return Interval{lo: big.NewRat(n, 1), loOpen: true} }

var anyVal = Interval{}

func bktCases() map[string][]bktCase {
	return map[string][]bktCase{
		"NewExponentialBucketer": {
			{name: "count < 2", args: []Interval{le(1), anyVal, anyVal}},
			{name: "start <= 0", args: []Interval{anyVal, le(0), anyVal}},
			{name: "scale <= 1", args: []Interval{anyVal, anyVal, le(1)}},
			{name: "valid parameters", ok: true, args: []Interval{ivGE(2), gt(0), gt(1)}},
		},
		"NewLinearBucketer": {
			{name: "count < 2", args: []Interval{le(1), anyVal, anyVal}},
			{name: "increment <= 0", args: []Interval{anyVal, anyVal, le(0)}},
			{name: "valid parameters", ok: true, args: []Interval{ivGE(2), anyVal, gt(0)}},
		},
		"NewGeometricBucketer": {
			{name: "lower <= 0", args: []Interval{le(0), anyVal}},
			{name: "upper < lower", args: []Interval{anyVal, anyVal}, below: true},
			{name: "valid parameters", ok: true, args: []Interval{gt(0), gt(0)}, above: true},
		},
		"NewArbitraryBucketer": {
			{name: "no endpoints", none: true},
			{name: "some endpoints", ok: true},
		},
	}
}

// build interprets a constructor for one class of arguments.
func (b *bktModel) build(f *ssa.Function, c bktCase, cl *Client) (*Exec, []Outcome) {
	r := b.r
	inner := cl.Event
	cl.Event = func(ex *Exec, st *State, ev *Event) {
		// an index that is never in range
		if ev.Kind == EvLoad || ev.Kind == EvStore {
			a := ev.Addr
			for a.Op == OField {
				a = a.Args[0]
			}
			if a.Op == OElem && a.Args[0].isNil() {
				st.Set("out of range", nil, "yes")
			} else if a.Op == OElem && a.Args[0].T != nil {
				if _, ok := a.Args[0].T.Underlying().(*types.Slice); ok {
					n := ex.lenOf(st, a.Args[0], false, a.Args[0].T)
					if v, ok := ex.truth(st, ex.ts.Cmp(token.LSS, a.Args[1], n, types.Typ[types.Int])); ok && !v {
						st.Set("out of range", nil, "yes")
					}
				}
			}
		}
		if inner != nil {
			inner(ex, st, ev)
		}
	}
	ex := NewExec(r.P, cl)
	var args []*Term
	for i, prm := range f.Params {
		s := ex.ts.Sym("param:"+prm.Name(), prm.Type())
		if _, isS := prm.Type().Underlying().(*types.Slice); isS {
			if c.none {
				s = ex.ts.Nil(prm.Type())
			} else {
				ex.assume[ex.lenOf(nil, s, false, prm.Type())] = ivGE(1)
			}
		} else if i < len(c.args) {
			ex.assume[s] = c.args[i]
		}
		args = append(args, s)
	}
	if c.below || c.above {
		cond := cl.Cond
		cl.Cond = func(ex *Exec, st *State, t *Term) (bool, bool) {
			if t.Op == OCmp {
				x, y := t.Args[0], t.Args[1]
				if x == args[0] && y == args[1] || x == args[1] && y == args[0] {
					// below: args[1] < args[0]
					switch op := t.Aux.(token.Token); {
					case c.below && op == token.EQL:
						return false, true
					case c.below:
						return x == args[1], true
					case op == token.LSS && x == args[1]:
						return false, true
					case op == token.LEQ && x == args[0]:
						return true, true
					}
				}
			}
			if cond != nil {
				return cond(ex, st, t)
			}
			return false, false
		}
	}
	outs := ex.Run(f, args, nil, newState())
	label := fmt.Sprintf("%s, %s", r.P.fname(f), c.name)
	r.Ran(ex, label)
	r.Check(ex.err == "" && len(outs) > 0, "converges", label, "the constructor is analysed", "%s", ex.err)
	return ex, outs
}

// makers: the exported functions that give a new bucketer.
func (b *bktModel) makers() []*ssa.Function {
	var fs []*ssa.Function
	for _, root := range b.r.P.roots("tricorder") {
		res := root.Fn.Signature.Results()
		if root.Kind == "api" && res.Len() == 1 && structUnder(derefType(res.At(0).Type())) != nil && sameStruct(derefType(res.At(0).Type()), b.B) {
			fs = append(fs, root.Fn)
		}
	}
	return fs
}

func (b *bktModel) constructors() {
	r, p := b.r, b.r.P
	cases := bktCases()
	n := 0
	for _, f := range b.makers() {
		for _, c := range cases[f.Name()] {
			n++
			label := p.fname(f) + ", " + c.name
			_, outs := b.build(f, c, &Client{})
			for _, o := range outs {
				_, out := o.St.Get("out of range", nil)
				if c.ok {
					r.Check(!o.Panic && !out, "parameters", label, "the constructor makes a bucketer", "a path panics")
				} else {
					r.Check(o.Panic || out, "parameters", label, "the constructor panics", "a path returns %v", o.Ret)
				}
			}
		}
	}
	r.Min("classes of constructor arguments", 12, n)
}
