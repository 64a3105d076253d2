package main

import (
	"go/constant"
	"go/token"
	"go/types"
	"math/big"

	"golang.org/x/tools/go/ssa"
)

// nonNil reports whether a value is known not to be nil.
func (ex *Exec) nonNil(st *State, t *Term) bool {
	switch t.Op {
	case OAlloc, OGlobal, OFunc, OClosure, OField, OElem, OIface, OStruct, OAppend:
		if t.Op == OAppend {
			return false
		}
		return true
	case OLoad:
		if g := t.Args[0]; g.Op == OGlobal && ex.P.nonNilGlobal(g.Aux.(*ssa.Global)) {
			return true
		}
	case OCall:
		if n, ok := t.Aux.(string); ok && nonNilResult[n] {
			return true
		}
	case OPhi:
		all := true
		for _, a := range t.Args {
			all = all && ex.nonNil(st, a)
		}
		if all {
			return true
		}
	case OAssert, OConv:
		// the value inside an interface: unknown
	}
	if st != nil {
		if v, ok := st.facts[ex.ts.Cmp(token.EQL, t, ex.ts.Nil(nil), nilT)]; ok && !v {
			return true
		}
		for f, v := range st.facts {
			if v && f.Op == OIsType && f.Args[0] == t {
				return true
			}
		}
	}
	return false
}

var nilT = types.NewPointer(types.Typ[types.Int])

// truth decides a boolean term from facts, assumptions and value numbering.
func (ex *Exec) truth(st *State, t *Term) (bool, bool) {
	if v, ok := t.boolVal(); ok {
		return v, true
	}
	if st != nil {
		if v, ok := st.facts[t]; ok {
			return v, true
		}
	}
	switch t.Op {
	case OUn:
		if t.Aux == token.NOT {
			v, ok := ex.truth(st, t.Args[0])
			return !v, ok
		}
	case OPhi:
		var r bool
		for i, a := range t.Args {
			v, ok := ex.truth(st, a)
			if !ok || i > 0 && v != r {
				return false, false
			}
			r = v
		}
		return r, true
	case OIsType:
		return ex.truthIsType(st, t.Args[0], t.Aux.(types.Type))
	case OCmp:
		if ex.C.Cond != nil {
			if v, ok := ex.C.Cond(ex, st, t); ok {
				return v, true
			}
		}
		return ex.truthCmp(st, t)
	default:
		if ex.C.Cond != nil {
			if v, ok := ex.C.Cond(ex, st, t); ok {
				return v, true
			}
		}
	}
	return false, false
}

func (ex *Exec) truthIsType(st *State, x *Term, T types.Type) (bool, bool) {
	decide := func(dyn types.Type) bool {
		if it, ok := T.Underlying().(*types.Interface); ok {
			return types.Implements(dyn, it)
		}
		return types.Identical(dyn, T)
	}
	if x.isNil() {
		return false, true
	}
	if x.Op == OIface {
		return decide(x.Aux.(types.Type)), true
	}
	if x.Op == OPhi {
		var r bool
		for i, a := range x.Args {
			v, ok := ex.truthIsType(st, a, T)
			if !ok || i > 0 && v != r {
				return false, false
			}
			r = v
		}
		return r, true
	}
	if st == nil {
		return false, false
	}
	if v, ok := st.facts[ex.ts.mk(Term{Op: OIsType, Args: []*Term{x}, Aux: T, T: types.Typ[types.Bool]})]; ok {
		return v, true
	}
	if d := ex.dynType(st, x); d != nil {
		return decide(d), true
	}
	if v, ok := st.facts[ex.ts.Cmp(token.EQL, x, ex.ts.Nil(nil), nilT)]; ok && v {
		return false, true
	}
	return false, false
}

// dynType: the dynamic type of an interface value, when known.
func (ex *Exec) dynType(st *State, x *Term) types.Type {
	if x.Op == OIface {
		return x.Aux.(types.Type)
	}
	if st == nil {
		return nil
	}
	for f, v := range st.facts {
		if v && f.Op == OIsType && f.Args[0] == x {
			T := f.Aux.(types.Type)
			if _, isI := T.Underlying().(*types.Interface); !isI {
				return T
			}
		}
	}
	return nil
}

func (ex *Exec) truthCmp(st *State, t *Term) (bool, bool) {
	op := t.Aux.(token.Token)
	a, b := t.Args[0], t.Args[1]
	if op == token.EQL {
		if b.isNil() {
			a, b = b, a
		}
		if a.isNil() {
			if b.isNil() {
				return true, true
			}
			if ex.nonNil(st, b) {
				return false, true
			}
		}
		// two distinct addresses of named objects
		if addrLike(a) && addrLike(b) && a != b && a.Op != OField && a.Op != OElem && b.Op != OField && b.Op != OElem {
			return false, true
		}
		// interface values of different dynamic types
		if a.Op == OIface && b.Op == OIface {
			if !types.Identical(a.Aux.(types.Type), b.Aux.(types.Type)) {
				return false, true
			}
			return ex.truth(st, ex.ts.Cmp(token.EQL, a.Args[0], b.Args[0], a.Aux.(types.Type)))
		}
		// two different never-reassigned sentinel errors
		if la, lb := ex.sentinel(a), ex.sentinel(b); la != nil && lb != nil {
			return la == lb, true
		}
		// x == c1 known, asked x == c2
		if st != nil {
			x, c := a, b
			if x.isConst() {
				x, c = b, a
			}
			if c.isConst() && !x.isConst() {
				if k := ex.knownConst(st, x); k != nil {
					return constant.Compare(k.C, token.EQL, c.C), true
				}
			}
		}
	}
	if a.Op == OPhi || b.Op == OPhi {
		opT := types.Type(types.Typ[types.Int])
		if t.I == 2 {
			opT = types.Typ[types.Float64]
		} else if a.T != nil && isString(a.T) {
			opT = types.Typ[types.String]
		}
		var r bool
		first := true
		for _, x := range a.alts() {
			for _, y := range b.alts() {
				v, ok := ex.truth(st, ex.ts.Cmp(op, x, y, opT))
				if !ok || !first && v != r {
					return false, false
				}
				r, first = v, false
			}
		}
		return r, true
	}
	if a.T != nil && isNumeric(a.T) || b.T != nil && isNumeric(b.T) {
		tt := a.T
		if tt == nil || !isNumeric(tt) {
			tt = b.T
		}
		d := ex.ts.Add(a, b, -1, tt)
		iv := ex.interval(st, d, 0)
		if isInteger(tt) && t.I != 2 {
			iv = iv.intTighten()
		}
		var yes, no bool
		switch op {
		case token.EQL:
			yes, no = iv.isZero()
		case token.LSS:
			yes, no = iv.ltZero()
		case token.LEQ:
			yes, no = iv.leZero()
		}
		if yes {
			return true, true
		}
		if no {
			return false, true
		}
		// a < b recorded in another linear shape
		if st != nil && isInteger(tt) {
			for f, v := range st.facts {
				if f.Op != OCmp || f.I == 2 || f == t {
					continue
				}
				fo := f.Aux.(token.Token)
				if fo != token.LSS {
					continue
				}
				if f.Args[0].T != nil && !isInteger(f.Args[0].T) {
					continue
				}
				fd := ex.ts.Add(f.Args[0], f.Args[1], -1, tt) // fd < 0 iff v
				if op == token.LSS {
					// d = fd + k ?
					if k, ok := ex.ts.Add(d, fd, -1, tt).intVal(); ok {
						if v && k <= 0 {
							return true, true // fd<0, d<=fd
						}
						if !v && k >= 0 {
							return false, true
						}
					}
					// d = -fd + k
					if k, ok := ex.ts.Add(d, fd, 1, tt).intVal(); ok {
						if v && k >= -1+1 { // fd<=-1, d>=1+k >=0
							return false, true
						}
						if !v && k <= -1 { // fd>=0, d<=k<0
							return true, true
						}
					}
				} else if op == token.EQL {
					if k, ok := ex.ts.Add(d, fd, -1, tt).intVal(); ok && v && k <= 0 {
						return false, true
					}
					if k, ok := ex.ts.Add(d, fd, 1, tt).intVal(); ok && v && k >= 0 {
						return false, true
					}
				}
			}
		}
	}
	return false, false
}

func addrLike(t *Term) bool {
	switch t.Op {
	case OAlloc, OGlobal, OFunc, OField, OElem:
		return true
	}
	return false
}

// sentinel: a load of a package variable that holds one fixed non-nil value.
func (ex *Exec) sentinel(t *Term) *ssa.Global {
	if t.Op == OLoad && t.Args[0].Op == OGlobal {
		g := t.Args[0].Aux.(*ssa.Global)
		if ex.P.nonNilGlobal(g) {
			return g
		}
	}
	return nil
}

// knownConst: the constant a value is known to equal.
func (ex *Exec) knownConst(st *State, x *Term) *Term {
	if x.isConst() {
		return x
	}
	if st == nil {
		return nil
	}
	for f, v := range st.facts {
		if v && f.Op == OCmp && f.Aux == token.EQL {
			if f.Args[0] == x && f.Args[1].isConst() {
				return f.Args[1]
			}
			if f.Args[1] == x && f.Args[0].isConst() {
				return f.Args[0]
			}
		}
	}
	return nil
}

// Resolve replaces values with the constants they are known to equal.
func (ex *Exec) Resolve(st *State, t *Term) *Term {
	return ex.ts.subst(t, func(x *Term) *Term {
		if x.T != nil && x.Op != OConst && (isNumeric(x.T) || isString(x.T) || isBool(x.T)) {
			if k := ex.knownConst(st, x); k != nil {
				return k
			}
			if isBool(x.T) {
				if v, ok := ex.truth(st, x); ok {
					return ex.ts.Bool(v)
				}
			}
		}
		return nil
	})
}

// remainders writes m*x - m*c*(x/c) in a linear form as m*(x%c).
func (ex *Exec) remainders(t *Term) *Term {
	it := types.Type(types.Typ[types.Int64])
	for again := true; again && t.Op == OLin; {
		again = false
		for i, a := range t.Args {
			if a.Op != OBin || a.Aux != token.QUO || a.T == nil || !isInteger(a.T) {
				continue
			}
			c, ok := a.Args[1].intVal()
			if !ok || c <= 1 || t.Coef[i].Kind() != constant.Int {
				continue
			}
			x := a.Args[0]
			if r := constant.BinaryOp(t.Coef[i], token.REM, constant.MakeInt64(c)); constant.Sign(r) != 0 {
				continue
			}
			m := constant.UnaryOp(token.SUB, constant.BinaryOp(t.Coef[i], token.QUO_ASSIGN, constant.MakeInt64(c)), 0)
			n := ex.ts.Add(t, ex.ts.Scale(x, m, it), -1, it)
			if n.isConst() || n.Op != OLin || len(n.Args) < len(t.Args) {
				n = ex.ts.Add(n, ex.ts.Scale(a, t.Coef[i], it), -1, it)
				t = ex.ts.Add(n, ex.ts.Scale(ex.ts.Bin(token.REM, x, ex.ts.Int(c), it, it), m, it), 1, it)
				again = true
				break
			}
		}
	}
	return t
}

// interval bounds a numeric term.
func (ex *Exec) interval(st *State, t *Term, depth int) Interval {
	if depth > 12 {
		return Interval{}
	}
	if t.isConst() {
		if r := ratOf(t.C); r != nil {
			return point(r)
		}
		return Interval{}
	}
	iv := Interval{}
	switch t.Op {
	case OLin:
		acc := point(ratOf(t.C))
		for i, a := range t.Args {
			c := ratOf(t.Coef[i])
			if c == nil {
				return Interval{}
			}
			acc = acc.add(ex.interval(st, a, depth+1).scale(c))
		}
		iv = acc
		if u := ex.remainders(t); u != t {
			iv = iv.meet(ex.interval(st, u, depth+1))
		}
	case OLen, OCap:
		iv = ivGE(0)
	case OPhi:
		iv = Interval{empty: true}
		for _, a := range t.Args {
			iv = iv.hull(ex.interval(st, a, depth+1))
		}
	case OJoin:
		iv = ex.joinInterval(st, t, depth+1)
	case OConv:
		if t.T != nil && isNumeric(t.T) && t.Args[0].T != nil && isNumeric(t.Args[0].T) {
			in := ex.interval(st, t.Args[0], depth+1)
			if isFloat(t.T) && isInteger(t.Args[0].T) {
				iv = in
				break
			}
			if isInteger(t.T) && isInteger(t.Args[0].T) {
				r := typeRange(t.T)
				if within(in, r) {
					iv = in
				} else {
					iv = r
				}
				break
			}
			if isFloat(t.T) {
				iv = in
			} else if isInteger(t.T) && isFloat(t.Args[0].T) {
				if q := in.trunc(); within(q, typeRange(t.T)) {
					iv = q
				}
			}
		}
	case OBin:
		a, b := t.Args[0], t.Args[1]
		switch t.Aux {
		case token.REM:
			if c, ok := b.intVal(); ok && c != 0 {
				if c < 0 {
					c = -c
				}
				in := ex.interval(st, a, depth+1)
				lo, hi := -(c - 1), c-1
				if in.lo != nil && in.lo.Sign() >= 0 {
					lo = 0
				}
				if in.hi != nil && in.hi.Sign() <= 0 {
					hi = 0
				}
				iv = ivInt(lo, hi)
			}
		case token.QUO:
			if c, ok := b.intVal(); ok && c > 0 && t.T != nil && isInteger(t.T) {
				in := ex.interval(st, a, depth+1)
				q := func(r *big.Rat) *big.Rat {
					if r == nil {
						return nil
					}
					x := new(big.Rat).Quo(r, big.NewRat(c, 1))
					return new(big.Rat).SetInt(new(big.Int).Quo(x.Num(), x.Denom()))
				}
				iv = Interval{lo: q(in.lo), hi: q(in.hi)}
			}
		}
	case OCall:
		if n, ok := t.Aux.(string); ok {
			if r, ok := resultRange[n]; ok {
				iv = r
			}
		}
	}
	if t.T != nil && isInteger(t.T) {
		if isUnsigned(t.T) {
			iv = iv.meet(ivGE(0))
		}
		if t.Op != OLin {
			if r := typeRange(t.T); r.lo != nil {
				iv = iv.meet(r)
			}
		}
	}
	if r, ok := ex.assume[t]; ok {
		iv = iv.meet(r)
	}
	if st != nil {
		for f, v := range st.facts {
			if f.Op != OCmp {
				continue
			}
			isInt := f.I != 2
			op := f.Aux.(token.Token)
			var c *Term
			left := f.Args[0] == t
			if left {
				c = f.Args[1]
			} else if f.Args[1] == t {
				c = f.Args[0]
			} else {
				continue
			}
			if !c.isConst() {
				continue
			}
			r := ratOf(c.C)
			if r == nil {
				continue
			}
			switch {
			case op == token.EQL && v:
				iv = iv.meet(point(r))
			case op == token.LSS && left && v: // t < c
				iv = iv.meet(Interval{hi: r, hiOpen: true})
			case op == token.LSS && left && !v && isInt: // t >= c
				iv = iv.meet(Interval{lo: r})
			case op == token.LSS && !left && v: // c < t
				iv = iv.meet(Interval{lo: r, loOpen: true})
			case op == token.LSS && !left && !v && isInt: // t <= c
				iv = iv.meet(Interval{hi: r})
			case op == token.LEQ && left && v:
				iv = iv.meet(Interval{hi: r})
			case op == token.LEQ && !left && v:
				iv = iv.meet(Interval{lo: r})
			}
		}
		// t != 0 for a value bounded by 0
		if t.T != nil && isInteger(t.T) {
			if v, ok := st.facts[ex.ts.Cmp(token.EQL, t, ex.ts.Int(0), t.T)]; ok && !v {
				if iv.lo != nil && iv.lo.Sign() == 0 && !iv.loOpen {
					iv = iv.meet(ivGE(1))
				}
				if iv.hi != nil && iv.hi.Sign() == 0 && !iv.hiOpen {
					iv = iv.meet(ivLE(-1))
				}
			}
		}
	}
	if t.T != nil && isInteger(t.T) {
		iv = iv.intTighten()
	}
	return iv
}

// trunc: the integers the values of a are truncated to.
func (a Interval) trunc() Interval {
	tr := func(r *big.Rat, open bool, up bool) *big.Rat {
		if r == nil {
			return nil
		}
		q := new(big.Int).Quo(r.Num(), r.Denom())
		if open && r.IsInt() {
			if up && r.Sign() > 0 {
				q.Sub(q, big.NewInt(1))
			}
			if !up && r.Sign() < 0 {
				q.Add(q, big.NewInt(1))
			}
		}
		return new(big.Rat).SetInt(q)
	}
	return Interval{lo: tr(a.lo, a.loOpen, false), hi: tr(a.hi, a.hiOpen, true), empty: a.empty}
}

func within(a, b Interval) bool {
	if a.empty {
		return true
	}
	if b.lo != nil && (a.lo == nil || a.lo.Cmp(b.lo) < 0) {
		return false
	}
	if b.hi != nil && (a.hi == nil || a.hi.Cmp(b.hi) > 0) {
		return false
	}
	return true
}

func typeRange(t types.Type) Interval {
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		return Interval{}
	}
	switch b.Kind() {
	case types.Int8:
		return ivInt(-128, 127)
	case types.Int16:
		return ivInt(-32768, 32767)
	case types.Int32:
		return ivInt(-1<<31, 1<<31-1)
	case types.Uint8:
		return ivInt(0, 255)
	case types.Uint16:
		return ivInt(0, 65535)
	case types.Uint32:
		return ivInt(0, 1<<32-1)
	case types.Uint, types.Uint64, types.Uintptr:
		return ivGE(0)
	}
	return Interval{}
}

// joinInterval bounds a loop-carried value from its initial values and steps.
func (ex *Exec) joinInterval(st *State, j *Term, depth int) Interval {
	info := ex.joins[j]
	if info == nil || len(info.vals) == 0 || info.busy {
		return Interval{}
	}
	info.busy = true
	defer func() { info.busy = false }()
	iv := Interval{empty: true}
	canUp, canDown := false, false
	for v := range info.vals {
		if v.contains(j) {
			if v.Op == OPhi {
				ok := true
				for _, a := range v.Args {
					if a == j {
						continue
					}
					d := ex.ts.Add(a, j, -1, j.T)
					c, isC := d.intVal()
					if !isC {
						ok = false
						break
					}
					canUp = canUp || c > 0
					canDown = canDown || c < 0
				}
				if ok {
					continue
				}
				return Interval{}
			}
			d := ex.ts.Add(v, j, -1, j.T)
			c, isC := d.intVal()
			if !isC {
				return Interval{}
			}
			canUp = canUp || c > 0
			canDown = canDown || c < 0
			continue
		}
		iv = iv.hull(ex.interval(nil, v, depth+1))
	}
	if iv.empty {
		return Interval{}
	}
	if canUp {
		iv.hi = nil
	}
	if canDown {
		iv.lo = nil
	}
	return iv
}

// addFact records that a boolean term holds (or not), with simple consequences.
// It returns false when this contradicts what is known.
func (ex *Exec) addFact(st *State, t *Term, v bool) bool {
	for t.Op == OUn && t.Aux == token.NOT {
		t, v = t.Args[0], !v
	}
	if k, ok := ex.truth(st, t); ok {
		return k == v
	}
	st.facts[t] = v
	// what memory holds is now known
	if t.Op == OLoad && t.T != nil && isBool(t.T) {
		if _, known := st.mem[t.Args[0]]; !known && ex.epochOf(st, t.Args[0]) == t.S {
			st.mem[t.Args[0]] = ex.ts.Bool(v)
		}
	}
	// x==c where x is a phi of constants etc.: nothing more to record
	if t.Op == OCmp && t.Aux == token.EQL && v {
		a, b := t.Args[0], t.Args[1]
		if a.Op == OCmp || b.Op == OCmp {
			return true
		}
	}
	if t.Op == OPhi && t.T != nil && isBool(t.T) {
		// the alternatives that contradict are excluded; a single survivor is a fact
		var live []*Term
		for _, a := range t.Args {
			if k, ok := ex.truth(st, a); ok && k != v {
				continue
			}
			live = append(live, a)
		}
		if len(live) == 0 {
			return false
		}
		if len(live) == 1 {
			return ex.addFact(st, live[0], v)
		}
	}
	return true
}
