package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math/big"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Property{ID: "C26", MinObs: 60, Run: runC26,
		Rule:   "every exported function that makes a duration is interpreted per sign of its input: the intervals of seconds and nanoseconds show normal form; the printing functions are interpreted per sign of a duration in normal form: the text is split into constant text and formatted numbers",
		Assume: []string{"integer overflow is not considered", "float inputs are finite"}})
	register(&Property{ID: "C27", MinObs: 60, Run: runC27,
		Rule:   "the table of factors is evaluated for every unit; printing and parsing are interpreted per unit and sign, and the total of seconds and nanoseconds is compared, as a normalised linear form with division, with the exact value times (or truncated over) the factor",
		Assume: []string{"integer overflow is not considered"}})
}

var billion = constant.MakeInt64(1000000000)

// intNorm brings an integer expression into a normal form: a linear form over
// atoms, truncated quotients and remainders by constants.
func (ex *Exec) intNorm(st *State, t *Term) *Term {
	return ex.intNorm1(st, t, 0)
}

func (ex *Exec) intNorm1(st *State, t *Term, d int) *Term {
	if d > 40 {
		return t
	}
	it := types.Type(types.Typ[types.Int64])
	switch t.Op {
	case OConv:
		if t.T != nil && isInteger(t.T) && t.Args[0].T != nil && isInteger(t.Args[0].T) {
			if t.S == "w" || within(ex.interval(st, t.Args[0], 0), typeRange(t.T)) {
				return ex.intNorm1(st, t.Args[0], d+1)
			}
		}
		return t
	case OLin:
		acc := ex.ts.Const(t.C, it)
		for i, a := range t.Args {
			acc = ex.ts.Add(acc, ex.ts.Scale(ex.intNorm1(st, a, d+1), t.Coef[i], it), 1, it)
		}
		return ex.recombine(st, acc)
	case OBin:
		op, _ := t.Aux.(token.Token)
		if op != token.QUO && op != token.REM || t.T == nil || !isInteger(t.T) {
			return t
		}
		c, ok := t.Args[1].intVal()
		if !ok || c <= 0 {
			return t
		}
		x := ex.intNorm1(st, t.Args[0], d+1)
		if within(ex.interval(st, x, 0), ivInt(-(c-1), c-1)) {
			if op == token.QUO {
				return ex.ts.Int(0)
			}
			return x
		}
		if q, ok := ex.exactQuo(x, c); ok {
			if op == token.QUO {
				return q
			}
			return ex.ts.Int(0)
		}
		return ex.ts.Bin(op, x, ex.ts.Int(c), it, it)
	}
	return t
}

// exactQuo divides a linear form all of whose coefficients c divides.
func (ex *Exec) exactQuo(x *Term, c int64) (*Term, bool) {
	if x.Op != OLin {
		return nil, false
	}
	div := func(v constant.Value) (constant.Value, bool) {
		v = constant.ToInt(v)
		if v.Kind() != constant.Int {
			return nil, false
		}
		if r := constant.BinaryOp(v, token.REM, constant.MakeInt64(c)); constant.Sign(r) != 0 {
			return nil, false
		}
		return constant.BinaryOp(v, token.QUO_ASSIGN, constant.MakeInt64(c)), true
	}
	it := types.Type(types.Typ[types.Int64])
	k, ok := div(x.C)
	if !ok {
		return nil, false
	}
	acc := ex.ts.Const(k, it)
	for i, a := range x.Args {
		q, ok := div(x.Coef[i])
		if !ok {
			return nil, false
		}
		acc = ex.ts.Add(acc, ex.ts.Scale(a, q, it), 1, it)
	}
	return acc, true
}

// recombine applies c*(x/c) + x%c = x and, for s and z of one sign,
// b*(s/k) + (b*(s%k)+z)/k = (b*s+z)/k.
func (ex *Exec) recombine(st *State, t *Term) *Term {
	it := types.Type(types.Typ[types.Int64])
	isOp := func(a *Term, op token.Token) (x *Term, c int64, ok bool) {
		if a.Op != OBin || a.Aux != op {
			return nil, 0, false
		}
		c, ok = a.Args[1].intVal()
		return a.Args[0], c, ok
	}
	for again := true; again && t.Op == OLin; {
		again = false
	search:
		for i, a := range t.Args {
			x, c, ok := isOp(a, token.QUO)
			if !ok {
				continue
			}
			for j, b := range t.Args {
				if y, c2, ok := isOp(b, token.REM); ok && y == x && c2 == c && constant.Compare(t.Coef[i], token.EQL, constant.BinaryOp(t.Coef[j], token.MUL, constant.MakeInt64(c))) {
					n := ex.ts.Add(t, ex.ts.Scale(a, t.Coef[i], it), -1, it)
					n = ex.ts.Add(n, ex.ts.Scale(b, t.Coef[j], it), -1, it)
					t = ex.ts.Add(n, ex.ts.Scale(x, t.Coef[j], it), 1, it)
					again = true
					break search
				}
				y, c2, ok := isOp(b, token.QUO)
				if !ok || j == i || c2 != c || y.Op != OLin {
					continue
				}
				for k, rem := range y.Args {
					if s, c3, ok := isOp(rem, token.REM); !ok || s != x || c3 != c {
						continue
					}
					bb := y.Coef[k]
					if !constant.Compare(t.Coef[i], token.EQL, constant.BinaryOp(t.Coef[j], token.MUL, bb)) {
						continue
					}
					z := ex.ts.Add(y, ex.ts.Scale(rem, bb, it), -1, it)
					if !ex.sameSign(st, x, z) || constant.Sign(bb) < 0 {
						continue
					}
					n := ex.ts.Add(t, ex.ts.Scale(a, t.Coef[i], it), -1, it)
					n = ex.ts.Add(n, ex.ts.Scale(b, t.Coef[j], it), -1, it)
					q := ex.ts.Bin(token.QUO, ex.ts.Add(ex.ts.Scale(x, bb, it), z, 1, it), ex.ts.Int(c), it, it)
					t = ex.ts.Add(n, ex.ts.Scale(q, t.Coef[j], it), 1, it)
					again = true
					break search
				}
			}
		}
	}
	return t
}

func (iv Interval) nonNeg() bool { return iv.lo != nil && iv.lo.Sign() >= 0 }
func (iv Interval) nonPos() bool { return iv.hi != nil && iv.hi.Sign() <= 0 }

// sameSign: both are >= 0 or both are <= 0.
func (ex *Exec) sameSign(st *State, a, b *Term) bool {
	x, y := ex.interval(st, a, 0), ex.interval(st, b, 0)
	if x.empty || y.empty {
		return true
	}
	return x.nonNeg() && y.nonNeg() || x.nonPos() && y.nonPos()
}

// piece is a part of a text: constant, or a formatted number.
type piece struct {
	text  string
	num   *Term
	width int // zero-padded width, 0: plain
}

// textOf splits a text into pieces; ok is false when a part is unknown.
func (ex *Exec) textOf(st *State, t *Term) (ps []piece, ok bool) {
	t = stripIface(t)
	if s, isS := t.strVal(); isS {
		return []piece{{text: s}}, true
	}
	switch t.Op {
	case OConcat:
		for _, a := range t.Args {
			q, ok := ex.textOf(st, a)
			if !ok {
				return nil, false
			}
			ps = append(ps, q...)
		}
		return mergeText(ps), true
	case OCall:
		switch t.Aux {
		case "strconv.FormatInt", "strconv.FormatUint":
			if b, isB := t.Args[1].intVal(); isB && b == 10 {
				return []piece{{num: t.Args[0]}}, true
			}
		case "strconv.Itoa":
			return []piece{{num: t.Args[0]}}, true
		case "fmt.Sprint":
			for _, a := range t.Args {
				q, ok := ex.verb(st, a, 'v', 0, false)
				if !ok {
					return nil, false
				}
				ps = append(ps, q...)
			}
			return mergeText(ps), len(t.Args) == 1
		case "fmt.Sprintf":
			f, isF := t.Args[0].strVal()
			if !isF {
				return nil, false
			}
			args := t.Args[1:]
			for i := 0; i < len(f); i++ {
				if f[i] != '%' {
					ps = append(ps, piece{text: f[i : i+1]})
					continue
				}
				i++
				zero, w := false, 0
				if i < len(f) && f[i] == '0' {
					zero = true
					i++
				}
				for i < len(f) && f[i] >= '0' && f[i] <= '9' {
					w = w*10 + int(f[i]-'0')
					i++
				}
				if i >= len(f) {
					return nil, false
				}
				if f[i] == '%' {
					ps = append(ps, piece{text: "%"})
					continue
				}
				if len(args) == 0 {
					return nil, false
				}
				q, ok := ex.verb(st, args[0], f[i], w, zero)
				if !ok {
					return nil, false
				}
				args = args[1:]
				ps = append(ps, q...)
			}
			return mergeText(ps), len(args) == 0
		}
	}
	return nil, false
}

func (ex *Exec) verb(st *State, a *Term, v byte, w int, zero bool) ([]piece, bool) {
	typ, x := ifaceOf(a)
	if typ == nil {
		return nil, false
	}
	b, isB := typ.Underlying().(*types.Basic)
	if !isB {
		return nil, false
	}
	switch {
	case b.Info()&types.IsString != 0 && (v == 's' || v == 'v') && w == 0:
		if _, named := types.Unalias(typ).(*types.Named); named {
			return nil, false // may have a String method
		}
		return ex.textOf(st, x)
	case b.Info()&types.IsInteger != 0 && (v == 'd' || v == 'v') && (w == 0 || zero):
		if _, named := types.Unalias(typ).(*types.Named); named && v == 'v' {
			return nil, false
		}
		if c, ok := x.intVal(); ok {
			return []piece{{text: fmt.Sprintf("%0*d", w, c)}}, true
		}
		return []piece{{num: x, width: w}}, true
	}
	return nil, false
}

func mergeText(ps []piece) []piece {
	var r []piece
	for _, p := range ps {
		if p.num == nil && p.text == "" {
			continue
		}
		if n := len(r); n > 0 && p.num == nil && r[n-1].num == nil {
			r[n-1].text += p.text
			continue
		}
		r = append(r, p)
	}
	return r
}

func showPieces(ps []piece) string {
	var s []string
	for _, p := range ps {
		if p.num != nil {
			s = append(s, fmt.Sprintf("<%v width %d>", p.num, p.width))
		} else {
			s = append(s, fmt.Sprintf("%q", p.text))
		}
	}
	return strings.Join(s, " ")
}

// --- durations -----------------------------------------------------------------

type durModel struct {
	r          *Report
	p          *Program
	D          *types.Named
	sec, nano  int
	secT, nanT types.Type
}

func newDurModel(r *Report) *durModel {
	D := r.P.Named("tricorder/duration", "Duration")
	s, n := fieldIdx(D, "Seconds"), fieldIdx(D, "Nanoseconds")
	if !r.Need(D != nil && s >= 0 && n >= 0, "duration.Duration with Seconds and Nanoseconds") {
		return nil
	}
	return &durModel{r, r.P, D, s, n, structOf(D).Field(s).Type(), structOf(D).Field(n).Type()}
}

// a duration in normal form, by sign.
type durSign struct {
	name     string
	sec, nan Interval
}

func durSigns() []durSign {
	max := big.NewRat(999999999, 1)
	return []durSign{
		{"zero or positive", ivGE(0), ivInt(0, 999999999)},
		{"negative, a second or more", Interval{hi: big.NewRat(-1, 1)}, Interval{lo: new(big.Rat).Neg(max), hi: big.NewRat(0, 1)}},
		{"negative, less than a second", ivInt(0, 0), Interval{lo: new(big.Rat).Neg(max), hi: big.NewRat(-1, 1)}},
	}
}

func (m *durModel) sym(ex *Exec, s durSign) (d, sec, nan *Term) {
	sec, nan = ex.ts.Sym("seconds", m.secT), ex.ts.Sym("nanoseconds", m.nanT)
	if iv := s.sec; iv.lo != nil && iv.hi != nil && iv.lo.Cmp(iv.hi) == 0 {
		sec = ex.ts.Int(iv.lo.Num().Int64())
	} else {
		ex.assume[sec] = iv
	}
	ex.assume[nan] = s.nan
	args := make([]*Term, structOf(m.D).NumFields())
	for i := range args {
		args[i] = ex.zero(structOf(m.D).Field(i).Type())
	}
	args[m.sec], args[m.nano] = sec, nan
	return ex.structOf(args, m.D), sec, nan
}

func (m *durModel) total(ex *Exec, st *State, sec, nan *Term) *Term {
	it := types.Type(types.Typ[types.Int64])
	return ex.intNorm(st, ex.ts.Add(ex.ts.Scale(ex.intNorm(st, sec), billion, it), ex.intNorm(st, nan), 1, it))
}

// client: time values as symbols in the ranges their documentation gives.
func (m *durModel) client(neg, whole bool) *Client {
	c := &Client{Split: func(fn *ssa.Function) bool { return true }}
	c.Ext = func(ex *Exec, cc *callCtx) ([]Outcome, bool) {
		switch cc.name {
		case "(time.Time).Unix":
			s := ex.ts.Sym("unix", types.Typ[types.Int64])
			ex.assume[s] = ivGE(0)
			if neg {
				ex.assume[s] = Interval{hi: big.NewRat(-1, 1)}
			}
			return []Outcome{{St: cc.st, Ret: []*Term{s}}}, true
		case "(time.Time).Nanosecond":
			s := ex.ts.Sym("nanosecond", types.Typ[types.Int])
			ex.assume[s] = ivInt(1, 999999999)
			if whole {
				s = ex.ts.Int(0)
			}
			return []Outcome{{St: cc.st, Ret: []*Term{s}}}, true
		case "math.Modf":
			i, f := ex.ts.Sym("whole", types.Typ[types.Float64]), ex.ts.Sym("fraction", types.Typ[types.Float64])
			zero, one := big.NewRat(0, 1), big.NewRat(1, 1)
			if neg {
				ex.assume[i] = Interval{hi: zero}
				ex.assume[f] = Interval{lo: new(big.Rat).Neg(one), loOpen: true, hi: zero}
			} else {
				ex.assume[i] = Interval{lo: zero}
				ex.assume[f] = Interval{lo: zero, hi: one, hiOpen: true}
			}
			return []Outcome{{St: cc.st, Ret: []*Term{i, f}}}, true
		}
		return nil, false
	}
	return c
}

func isUnit(t types.Type) bool { return strings.HasSuffix(types.TypeString(t, nil), "/units.Unit") }

// units: the declared units and one that is not.
func (p *Program) unitNames() []string {
	var r []string
	sp := p.Pkg("tricorder/units")
	if sp == nil {
		return nil
	}
	for _, n := range sp.Pkg.Scope().Names() {
		if c, ok := sp.Pkg.Scope().Lookup(n).(*types.Const); ok && isUnit(c.Type()) {
			r = append(r, n)
		}
	}
	return append(r, "<undeclared>")
}

func (ex *Exec) unitArg(name string) *Term {
	if name == "<undeclared>" {
		return ex.ts.Sym("unit", ex.P.Named("tricorder/units", "Unit"))
	}
	return ex.constOf("tricorder/units", name)
}

func withCond(c *Client, o *Client) *Client {
	c.Cond = o.Cond
	return c
}

func runC26(r *Report) {
	m := newDurModel(r)
	if m == nil {
		return
	}
	p := r.P
	makers, printers := 0, 0
	for _, root := range p.roots("tricorder/duration") {
		f := root.Fn
		if root.Kind != "api" {
			continue
		}
		res := f.Signature.Results()
		di := -1
		for i := 0; i < res.Len(); i++ {
			if sameStruct(res.At(i).Type(), m.D) {
				di = i
			}
		}
		if di >= 0 {
			makers++
			m.checkMaker(f, di)
		}
		if f.Signature.Recv() != nil && sameStruct(f.Signature.Recv().Type(), m.D) && res.Len() == 1 && isString(res.At(0).Type()) && (f.Name() == "String" || f.Name() == "StringUsingUnits") {
			printers++
			for _, s := range durSigns() {
				for _, u := range p.unitNames() {
					m.checkPrinter(f, s, u, nil)
					if len(f.Params) == 1 {
						break
					}
				}
			}
		}
	}
	r.Min("functions that make durations", 4, makers)
	m.checkReaders()
	r.Min("functions that print durations", 2, printers)
}

func (m *durModel) checkMaker(f *ssa.Function, di int) {
	r, p := m.r, m.p
	for _, neg := range []bool{false, true} {
		for _, whole := range []bool{false, true} {
			for _, u := range p.unitNames() {
				label := fmt.Sprintf("%s (negative: %v, no fraction: %v, unit %s)", p.fname(f), neg, whole, u)
				usesUnit := false
				ex, outs := r.apply(f, label, withCond(m.client(neg, whole), otherKind("unit")), func(ex *Exec) []*Term {
					as := ex.symArgs(f)
					for i, q := range f.Params {
						switch {
						case isUnit(q.Type()):
							as[i] = ex.unitArg(u)
							usesUnit = true
						case sameStruct(q.Type(), m.D):
							s := durSigns()[0]
							if neg {
								s = durSigns()[1]
							}
							as[i], _, _ = m.sym(ex, s)
						case types.TypeString(q.Type(), nil) == "time.Duration":
							ex.assume[as[i]] = ivGE(0)
							if neg {
								ex.assume[as[i]] = Interval{hi: big.NewRat(0, 1)}
							}
						}
					}
					return as
				})
				n := 0
				for _, o := range outs {
					if o.Panic {
						continue
					}
					n++
					d := o.Ret[di]
					if last := o.Ret[len(o.Ret)-1]; len(o.Ret) > 1 && last.T != nil && isErrorType(last.T) && ex.nonNil(o.St, last) {
						continue
					}
					sec := ex.fieldVal(d, m.sec, m.secT)
					nan := ex.fieldVal(d, m.nano, m.nanT)
					iv := ex.interval(o.St, nan, 0)
					m.checkExact(ex, o.St, f, label, sec, nan)
					r.Check(iv.empty || within(iv, ivInt(-999999999, 999999999)), "range", p.fname(f), "the nanoseconds are less than a second", "%s: nanoseconds are %v in %v", label, nan, iv)
					if !ex.sameSign(o.St, sec, nan) {
						r.Check(false, "sign", p.fname(f), "seconds and nanoseconds have one sign", "%s: seconds %v in %v, nanoseconds %v in %v", label, sec, ex.interval(o.St, sec, 0), nan, iv)
					} else {
						r.Check(true, "sign", p.fname(f), "seconds and nanoseconds have one sign", "")
					}
				}
				r.Check(n > 0, "makes", label, "a duration is made", "no path returns")
				if !usesUnit {
					break
				}
			}
		}
	}
}

// checkExact: a duration made from a span or an instant is that span or instant.
func (m *durModel) checkExact(ex *Exec, st *State, f *ssa.Function, label string, sec, nan *Term) {
	if len(f.Params) != 1 {
		return
	}
	it := types.Type(types.Typ[types.Int64])
	var want *Term
	switch types.TypeString(f.Params[0].Type(), nil) {
	case "time.Duration":
		want = ex.symArgs(f)[0]
	case "time.Time":
		// the terms the client answers with
		var unix, nano *Term
		for t := range ex.assume {
			if t.Op == OSym && t.S == "unix" {
				unix = t
			}
			if t.Op == OSym && t.S == "nanosecond" {
				nano = t
			}
		}
		if unix == nil {
			m.r.Check(false, "exact", label, "the duration is the span or instant it is made from", "the instant's seconds are not used")
			return
		}
		if nano == nil || strings.Contains(label, "no fraction: true") {
			nano = ex.ts.Int(0)
		}
		want = ex.ts.Add(ex.ts.Scale(unix, billion, it), nano, 1, it)
	default:
		return
	}
	got := m.total(ex, st, sec, nan)
	want = ex.intNorm(st, want)
	m.r.Check(got == want, "exact", label, "the duration is the span or instant it is made from", "it is %v, expected %v nanoseconds", got, want)
}

// checkReaders: going back to Go's own types and asking for the sign.
func (m *durModel) checkReaders() {
	r, p := m.r, m.p
	for _, name := range []string{"AsGoDuration", "AsGoTime", "IsNegative"} {
		f := p.Method("tricorder/duration", "Duration", name)
		if !r.Need(f != nil, "Duration."+name) {
			continue
		}
		for _, s := range durSigns() {
			label := fmt.Sprintf("%s of a duration that is %s", p.fname(f), s.name)
			var sec, nan *Term
			ex, outs := r.apply(f, label, m.client(false, false), func(ex *Exec) []*Term {
				as := ex.symArgs(f)
				as[0], sec, nan = m.sym(ex, s)
				return as
			})
			live := 0
			for _, o := range outs {
				if o.Panic {
					continue
				}
				live++
				switch name {
				case "IsNegative":
					v, ok := ex.truth(o.St, o.Ret[0])
					r.Check(ok && v == strings.HasPrefix(s.name, "negative"), "sign", label, "says whether the duration is negative", "it is %v", o.Ret[0])
					continue
				}
				want := m.total(ex, o.St, sec, nan)
				t := o.Ret[0]
				got := ex.intNorm(o.St, t)
				if name == "AsGoTime" {
					got = m.instant(ex, o.St, t)
				}
				r.Check(got == want, "exact", label, "the result is exactly the duration", "it is %v, expected %v nanoseconds", got, want)
			}
			r.Check(live > 0, "exact", label, "a result is returned", "no path returns")
		}
	}
}

// instant: nanoseconds since the epoch of a time made from numbers.
func (m *durModel) instant(ex *Exec, st *State, t *Term) *Term {
	it := types.Type(types.Typ[types.Int64])
	if t.Op != OCall {
		return t
	}
	switch t.Aux {
	case "time.Unix":
		return m.total(ex, st, t.Args[0], t.Args[1])
	case "time.UnixMilli":
		return ex.intNorm(st, ex.ts.Scale(t.Args[0], constant.MakeInt64(1000000), it))
	case "time.UnixMicro":
		return ex.intNorm(st, ex.ts.Scale(t.Args[0], constant.MakeInt64(1000), it))
	case "(time.Time).Add":
		return ex.intNorm(st, ex.ts.Add(m.instant(ex, st, t.Args[0]), ex.intNorm(st, t.Args[1]), 1, it))
	case "(time.Time).UTC", "(time.Time).Local", "(time.Time).In":
		return m.instant(ex, st, t.Args[0])
	}
	return t
}

// checkPrinter: the text of a duration; factor, if given, also fixes its value.
func (m *durModel) checkPrinter(f *ssa.Function, s durSign, unit string, factor *big.Rat) {
	r, p := m.r, m.p
	label := fmt.Sprintf("%s of a duration that is %s", p.fname(f), s.name)
	if len(f.Params) > 1 {
		label += ", unit " + unit
	}
	var sec, nan *Term
	ex, outs := r.apply(f, label, withCond(m.client(false, false), otherKind("unit")), func(ex *Exec) []*Term {
		as := ex.symArgs(f)
		as[0], sec, nan = m.sym(ex, s)
		for i, q := range f.Params {
			if isUnit(q.Type()) {
				as[i] = ex.unitArg(unit)
			}
		}
		return as
	})
	neg := strings.HasPrefix(s.name, "negative")
	it := types.Type(types.Typ[types.Int64])
	live := 0
	for _, o := range outs {
		if o.Panic {
			r.Check(false, "prints", label, "the duration is printed", "a path panics")
			continue
		}
		ps, ok := ex.textOf(o.St, o.Ret[0])
		if !r.Check(ok, "text", label, "the text is constant text and decimal numbers", "it is %v", o.Ret[0]) {
			continue
		}
		// the sign
		minus := len(ps) > 0 && ps[0].num == nil && strings.HasPrefix(ps[0].text, "-")
		if minus {
			ps[0].text = ps[0].text[1:]
			ps = mergeText(ps)
		}
		// whole seconds "." nine digits; constant numbers appear as text
		var whole, frac *Term
		good := true
		switch {
		case len(ps) == 3 && ps[0].num != nil && ps[0].width == 0 && ps[1].text == "." && ps[2].num != nil && ps[2].width == 9:
			whole, frac = ps[0].num, ps[2].num
		case len(ps) == 2 && ps[0].num == nil && strings.HasSuffix(ps[0].text, ".") && ps[1].num != nil && ps[1].width == 9:
			var n int64
			if _, err := fmt.Sscanf(ps[0].text, "%d.", &n); err != nil || fmt.Sprintf("%d.", n) != ps[0].text {
				good = false
			}
			whole, frac = ex.ts.Int(n), ps[1].num
		default:
			good = false
		}
		if !good {
			r.Check(minus == neg, "sign", label, "a minus sign is printed exactly for negative durations", "minus sign: %v", minus)
			r.Check(false, "digits", label, "the text is whole seconds, a point and nine digits", "it is %s", showPieces(ps))
			live++
			continue
		}
		wi, fi := ex.interval(o.St, whole, 0), ex.interval(o.St, frac, 0)
		if nw := ex.intNorm(o.St, whole); !wi.nonNeg() {
			wi = ex.interval(o.St, nw, 0)
		}
		if !fi.nonNeg() {
			fi = ex.interval(o.St, ex.intNorm(o.St, frac), 0)
		}
		if tot := ex.interval(o.St, m.total(ex, o.St, whole, frac), 0); wi.nonNeg() && fi.nonNeg() && tot.hi != nil && tot.hi.Sign() < 0 {
			continue // no such path: the parts are not negative and their sum is
		}
		live++
		r.Check(minus == neg, "sign", label, "a minus sign is printed exactly for negative durations", "minus sign: %v", minus)
		r.Check(true, "digits", label, "the text is whole seconds, a point and nine digits", "")
		r.Check(wi.nonNeg(), "digits", label, "the printed seconds are not negative", "they are %v in %v", whole, wi)
		r.Check(within(fi, ivInt(0, 999999999)), "digits", label, "the printed fraction has nine digits", "it is %v in %v", frac, fi)
		if factor == nil {
			if len(f.Params) == 1 {
				want := m.total(ex, o.St, sec, nan)
				if neg {
					want = ex.ts.Scale(want, constant.MakeInt64(-1), it)
				}
				got := m.total(ex, o.St, whole, frac)
				r.Check(got == want, "value", label, "the printed number is the duration", "prints %v, the duration is %v", got, want)
			}
			continue
		}
		want := m.scaled(ex, o.St, ex.ts.Add(ex.ts.Scale(sec, billion, it), nan, 1, it), factor)
		got := m.total(ex, o.St, whole, frac)
		if neg {
			got = ex.ts.Scale(got, constant.MakeInt64(-1), it)
		}
		r.Check(got == want, "value", label, "the printed number is the duration times the factor of the unit", "prints %v, expected %v", got, want)
	}
	r.Check(live > 0, "prints", label, "the duration is printed", "no path returns")
}

// scaled: trunc(t * f), normalised.
func (m *durModel) scaled(ex *Exec, st *State, t *Term, f *big.Rat) *Term {
	it := types.Type(types.Typ[types.Int64])
	t = ex.intNorm(st, t)
	t = ex.ts.Scale(t, constant.MakeFromLiteral(f.Num().String(), token.INT, 0), it)
	if !f.IsInt() {
		t = ex.ts.Bin(token.QUO, t, ex.ts.Int(f.Denom().Int64()), it, it)
	}
	return ex.intNorm(st, t)
}

func unitFactor(name string) *big.Rat {
	if name == "Millisecond" {
		return big.NewRat(1000, 1)
	}
	return big.NewRat(1, 1)
}

func runC27(r *Report) {
	m := newDurModel(r)
	if m == nil {
		return
	}
	p := r.P
	names := p.unitNames()
	r.Min("units", 7, len(names))
	for _, fn := range []string{"FromSecondsRational", "FromSeconds"} {
		f := p.Func("tricorder/units", fn)
		if !r.Need(f != nil, "units."+fn) {
			continue
		}
		for _, u := range names {
			ex, outs := r.apply(f, u, otherKind("unit"), func(ex *Exec) []*Term { return []*Term{ex.unitArg(u)} })
			want := unitFactor(u)
			live := 0
			for _, o := range outs {
				if o.Panic {
					continue
				}
				live++
				var got *big.Rat
				if len(o.Ret) == 2 {
					n, ok1 := o.Ret[0].intVal()
					d, ok2 := o.Ret[1].intVal()
					if ok1 && ok2 && d > 0 {
						got = big.NewRat(n, d)
					}
				} else if o.Ret[0].isConst() {
					got = ratOf(o.Ret[0].C)
				} else if iv := ex.interval(o.St, o.Ret[0], 0); iv.lo != nil && iv.hi != nil && iv.lo.Cmp(iv.hi) == 0 {
					got = iv.lo
				}
				r.Check(got != nil && got.Cmp(want) == 0, "factor", p.fname(f)+" of "+u, "is "+want.RatString(), "is %v", o.Ret)
			}
			r.Check(live > 0, "factor", p.fname(f)+" of "+u, "returns", "no path returns")
		}
	}
	pr := p.Method("tricorder/duration", "Duration", "StringUsingUnits")
	if r.Need(pr != nil, "duration.Duration.StringUsingUnits") {
		for _, s := range durSigns() {
			for _, u := range names {
				m.checkPrinter(pr, s, u, unitFactor(u))
			}
		}
	}
	pa := p.Func("tricorder/duration", "ParseWithUnit")
	if !r.Need(pa != nil, "duration.ParseWithUnit") {
		return
	}
	// what is parsed with the unit of seconds, by sign, fixes the number read;
	// the other units must give that number over their factor
	ex := NewExec(p, withCond(m.client(false, false), otherKind("unit")))
	str := ex.ts.Sym("text", types.Typ[types.String])
	parse := func(u string) []Outcome {
		var res []Outcome
		for _, o := range ex.Run(pa, []*Term{str, ex.unitArg(u)}, nil, newState()) {
			if o.Panic || len(o.Ret) != 2 || !o.Ret[1].isNil() && ex.nonNil(o.St, o.Ret[1]) {
				continue
			}
			res = append(res, o)
		}
		r.Ran(ex, p.fname(pa)+" "+u)
		return res
	}
	// two paths that one text can take: no fact of one contradicts the other
	compatible := func(a, b *State) bool {
		for f, v := range a.facts {
			if w, ok := b.facts[f]; ok && v != w {
				return false
			}
		}
		return true
	}
	base := parse("Second")
	r.Check(len(base) > 0, "parse", p.fname(pa), "a path parses a text", "none")
	for _, u := range names {
		got := parse(u)
		f := new(big.Rat).Inv(unitFactor(u))
		site := p.fname(pa) + " unit " + u
		used := map[int]bool{}
		for _, g := range got {
			have := m.total(ex, g.St, ex.fieldVal(g.Ret[0], m.sec, m.secT), ex.fieldVal(g.Ret[0], m.nano, m.nanT))
			var want []*Term
			ok := false
			for i, b := range base {
				if !compatible(b.St, g.St) {
					continue
				}
				w := m.scaled(ex, b.St, m.total(ex, b.St, ex.fieldVal(b.Ret[0], m.sec, m.secT), ex.fieldVal(b.Ret[0], m.nano, m.nanT)), f)
				want = append(want, w)
				if w == have {
					ok, used[i] = true, true
				}
			}
			r.Check(ok, "parse", site, "the number is divided by the factor of the unit", "gives %v, expected %v", have, want)
		}
		r.Check(len(used) == len(base), "parse", site, "the text is read as for seconds", "%d of %d ways of reading a text", len(used), len(base))
	}
}
