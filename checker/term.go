package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math/big"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Op is the constructor of a value-numbered term.
type Op uint8

const (
	OConst   Op = iota // C (nil C: the nil/zero value of T)
	OSym               // S: an unknown value
	OAlloc             // Aux: allocating instruction, S: context
	OGlobal            // Aux: *ssa.Global (its address)
	OFunc              // Aux: *ssa.Function
	OClosure           // Aux: *ssa.Function, Args: bindings
	OField             // address of field I of struct at Args[0]
	OElem              // address of element Args[1] of slice/array Args[0]
	OLoad              // value stored at address Args[0]; S: epoch
	OFieldV            // field I of struct value Args[0]
	OStruct            // struct value, Args: fields
	OBin               // Aux: token
	OUn                // Aux: token
	OLin               // sum of Coef[i]*Args[i] + C
	OConv              // conversion to T
	OIface             // interface holding Args[0] with dynamic type Aux
	OAssert            // dynamic value of Args[0] as type T
	OIsType            // bool: dynamic type of Args[0] is Aux
	OLen               // len(Args[0])
	OCap               // cap
	OCall              // result of library call; Aux: name, S: site ("" when pure)
	OExtract           // component I of tuple-valued Args[0]
	OTuple             //
	OPhi               // one of Args
	OJoin              // loop-carried or over-large join; S: place
	OLookup            // map value at key; S: epoch
	OMapOk             // map has key; S: epoch
	ORecv              // received value; S: site
	OSlice             // Args: x, lo, hi (nil allowed as absent)
	OAppend            // append(Args[0], elements Args[1:]...); I=1: Args[1] is a slice
	ORangeK            // key of a map/string iteration step
	ORangeV            // value of the step
	OConcat            // string concatenation
	OZero              // zero value of struct/array type T
	OIndexV            // element of array/string value
	OCmp               // normalised comparison, Aux: EQL, LSS, LEQ
	OTop               // undefined
)

var opNames = map[Op]string{OConst: "const", OSym: "sym", OAlloc: "alloc", OGlobal: "global", OFunc: "func", OClosure: "closure",
	OField: "field", OElem: "elem", OLoad: "load", OFieldV: "fieldv", OStruct: "struct", OBin: "bin", OUn: "un", OLin: "lin", OConv: "conv",
	OIface: "iface", OAssert: "assert", OIsType: "istype", OLen: "len", OCap: "cap", OCall: "call", OExtract: "extract", OTuple: "tuple",
	OPhi: "phi", OJoin: "join", OLookup: "lookup", OMapOk: "mapok", ORecv: "recv", OSlice: "slice", OAppend: "append", ORangeK: "rangek",
	ORangeV: "rangev", OConcat: "concat", OZero: "zero", OIndexV: "indexv", OCmp: "cmp", OTop: "top"}

// Term is a hash-consed value-numbering term: equal terms denote equal values
// (within one analysed activation).
type Term struct {
	id   int
	Op   Op
	Args []*Term
	C    constant.Value
	T    types.Type
	Aux  any
	S    string
	I    int
	Coef []constant.Value
	cls  string // see Exec.class
}

// Terms is an interning table.
type Terms struct {
	m      map[string]*Term
	n      int
	typeID map[types.Type]string
	auxID  map[any]int
	sums   map[sumKey]*Term
	buf    []byte
}

// sumKey is an argument list of Add.
type sumKey struct {
	a, b *Term
	sign int64
	t    types.Type
}

func newTerms() *Terms {
	return &Terms{m: make(map[string]*Term), auxID: make(map[any]int), typeID: make(map[types.Type]string), sums: make(map[sumKey]*Term)}
}

func (ts *Terms) typeName(t types.Type) string {
	s, ok := ts.typeID[t]
	if !ok {
		s = types.TypeString(t, nil)
		ts.typeID[t] = s
	}
	return s
}

func (ts *Terms) aux(a any) string {
	switch a := a.(type) {
	case nil:
		return ""
	case string:
		return a
	case token.Token:
		return a.String()
	case types.Type:
		return "T:" + ts.typeName(a)
	}
	id, ok := ts.auxID[a]
	if !ok {
		id = len(ts.auxID) + 1
		ts.auxID[a] = id
	}
	return "#" + strconv.Itoa(id)
}

func (ts *Terms) mk(t Term) *Term {
	k := ts.buf[:0]
	k = strconv.AppendInt(k, int64(t.Op), 10)
	k = append(k, '|')
	k = strconv.AppendInt(k, int64(t.I), 10)
	k = append(k, '|')
	k = append(k, t.S...)
	k = append(k, '|')
	k = append(k, ts.aux(t.Aux)...)
	k = append(k, '|')
	for _, a := range t.Args {
		if a == nil {
			k = append(k, "_,"...)
		} else {
			k = strconv.AppendInt(k, int64(a.id), 10)
			k = append(k, ',')
		}
	}
	for _, c := range t.Coef {
		k = append(append(k, '*'), c.ExactString()...)
	}
	if t.C != nil {
		k = append(append(append(k, '='), t.C.ExactString()...), t.C.Kind().String()...)
	}
	switch t.Op {
	case OConst, OConv, OAssert, OZero:
		if t.T != nil {
			k = append(append(k, '@'), ts.typeName(t.T)...)
		}
	}
	ts.buf = k
	if x := ts.m[string(k)]; x != nil {
		return x
	}
	ts.n++
	t.id, t.cls = ts.n, ""
	x := &t
	ts.m[string(k)] = x
	return x
}

func (ts *Terms) Sym(name string, t types.Type) *Term { return ts.mk(Term{Op: OSym, S: name, T: t}) }

func (ts *Terms) Const(c constant.Value, t types.Type) *Term {
	// Distinguish constants by underlying basic type only where it matters:
	// named string kinds keep their value identity across conversions.
	if c == nil {
		return ts.Nil(t)
	}
	if c.Kind() == constant.Float || c.Kind() == constant.Int {
		if b, ok := t.Underlying().(*types.Basic); ok {
			if b.Info()&types.IsInteger != 0 {
				c = constant.ToInt(c)
			} else if b.Info()&types.IsFloat != 0 {
				c = constant.ToFloat(c)
				// keep exact rational value, normalised representation
				if i := constant.ToInt(c); i.Kind() == constant.Int {
					c = i
				}
			}
		}
	}
	x := ts.mk(Term{Op: OConst, C: c, T: constTypeClass(t)})
	return x
}

// constTypeClass collapses types so that e.g. types.Type("x") and "x" are one
// constant; the static SSA types already keep kinds apart.
func constTypeClass(t types.Type) types.Type {
	if b, ok := t.Underlying().(*types.Basic); ok {
		switch {
		case b.Info()&types.IsString != 0:
			return types.Typ[types.String]
		case b.Info()&types.IsBoolean != 0:
			return types.Typ[types.Bool]
		case b.Info()&types.IsInteger != 0:
			return types.Typ[types.Int]
		case b.Info()&types.IsFloat != 0:
			return types.Typ[types.Float64]
		}
	}
	return t
}

func (ts *Terms) Int(i int64) *Term { return ts.Const(constant.MakeInt64(i), types.Typ[types.Int]) }
func (ts *Terms) Str(s string) *Term {
	return ts.Const(constant.MakeString(s), types.Typ[types.String])
}
func (ts *Terms) Bool(b bool) *Term { return ts.Const(constant.MakeBool(b), types.Typ[types.Bool]) }
func (ts *Terms) Nil(t types.Type) *Term {
	return ts.mk(Term{Op: OConst, S: "nil", T: types.Typ[types.UntypedNil]})
}
func (ts *Terms) Field(base *Term, idx int, t types.Type) *Term {
	if base.Op == OPhi {
		var alts []*Term
		for _, a := range base.Args {
			alts = append(alts, ts.Field(a, idx, t))
		}
		return ts.Phi(alts, t)
	}
	return ts.mk(Term{Op: OField, Args: []*Term{base}, I: idx, T: t})
}

// Phi makes a term denoting one of alts.
func (ts *Terms) Phi(alts []*Term, t types.Type) *Term {
	seen := make(map[*Term]bool)
	var flat []*Term
	var add func(a *Term)
	add = func(a *Term) {
		if a.Op == OPhi {
			for _, b := range a.Args {
				add(b)
			}
			return
		}
		if !seen[a] {
			seen[a] = true
			flat = append(flat, a)
		}
	}
	for _, a := range alts {
		add(a)
	}
	if len(flat) == 1 {
		return flat[0]
	}
	sort.Slice(flat, func(i, j int) bool { return flat[i].id < flat[j].id })
	return ts.mk(Term{Op: OPhi, Args: flat, T: t})
}

func (t *Term) isConst() bool { return t.Op == OConst && t.C != nil }
func (t *Term) isNil() bool   { return t.Op == OConst && t.S == "nil" }

func (t *Term) boolVal() (bool, bool) {
	if t.isConst() && t.C.Kind() == constant.Bool {
		return constant.BoolVal(t.C), true
	}
	return false, false
}
func (t *Term) strVal() (string, bool) {
	if t.isConst() && t.C.Kind() == constant.String {
		return constant.StringVal(t.C), true
	}
	return "", false
}
func (t *Term) intVal() (int64, bool) {
	if t.isConst() && t.C.Kind() == constant.Int {
		return constant.Int64Val(t.C)
	}
	return 0, false
}

func isNumeric(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&(types.IsInteger|types.IsFloat) != 0
}
func isInteger(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}
func isFloat(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsFloat != 0
}
func isUnsigned(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsUnsigned != 0
}
func isString(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}
func isBool(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsBoolean != 0
}

// --- linear normal form -------------------------------------------------

type linForm struct {
	terms map[*Term]constant.Value
	c     constant.Value
}

func (ts *Terms) toLin(t *Term) linForm {
	if t.isConst() && (t.C.Kind() == constant.Int || t.C.Kind() == constant.Float) {
		return linForm{map[*Term]constant.Value{}, t.C}
	}
	if t.Op == OLin {
		m := make(map[*Term]constant.Value)
		for i, a := range t.Args {
			m[a] = t.Coef[i]
		}
		return linForm{m, t.C}
	}
	return linForm{map[*Term]constant.Value{t: constant.MakeInt64(1)}, constant.MakeInt64(0)}
}

func normNum(c constant.Value) constant.Value {
	if i := constant.ToInt(c); i.Kind() == constant.Int {
		return i
	}
	return constant.ToFloat(c)
}

func (ts *Terms) fromLin(l linForm, t types.Type) *Term {
	var keys []*Term
	for k, c := range l.terms {
		if constant.Sign(c) != 0 {
			keys = append(keys, k)
		}
	}
	if len(keys) == 0 {
		return ts.Const(normNum(l.c), t)
	}
	sort.Slice(keys, func(i, j int) bool { return keys[i].id < keys[j].id })
	if len(keys) == 1 && constant.Sign(l.c) == 0 && constant.Compare(l.terms[keys[0]], token.EQL, constant.MakeInt64(1)) {
		return keys[0]
	}
	var coefs []constant.Value
	for _, k := range keys {
		coefs = append(coefs, normNum(l.terms[k]))
	}
	return ts.mk(Term{Op: OLin, Args: keys, Coef: coefs, C: normNum(l.c), T: t})
}

func (ts *Terms) Add(a, b *Term, sign int64, t types.Type) *Term {
	key := sumKey{a, b, sign, t}
	if r := ts.sums[key]; r != nil {
		return r
	}
	r := ts.add(a, b, sign, t)
	ts.sums[key] = r
	return r
}

func (ts *Terms) add(a, b *Term, sign int64, t types.Type) *Term {
	x, y := ts.toLin(a), ts.toLin(b)
	s := constant.MakeInt64(sign)
	r := linForm{make(map[*Term]constant.Value), constant.BinaryOp(x.c, token.ADD, constant.BinaryOp(y.c, token.MUL, s))}
	for k, c := range x.terms {
		r.terms[k] = c
	}
	for k, c := range y.terms {
		d := constant.BinaryOp(c, token.MUL, s)
		if o, ok := r.terms[k]; ok {
			d = constant.BinaryOp(o, token.ADD, d)
		}
		r.terms[k] = d
	}
	return ts.fromLin(r, t)
}

func (ts *Terms) Scale(a *Term, c constant.Value, t types.Type) *Term {
	x := ts.toLin(a)
	r := linForm{make(map[*Term]constant.Value), constant.BinaryOp(x.c, token.MUL, c)}
	for k, d := range x.terms {
		r.terms[k] = constant.BinaryOp(d, token.MUL, c)
	}
	return ts.fromLin(r, t)
}

// Bin builds a binary operation in normal form. Comparison results are OCmp
// terms, possibly under a NOT.
func (ts *Terms) Bin(op token.Token, a, b *Term, opT, resT types.Type) *Term {
	switch op {
	case token.EQL, token.NEQ, token.LSS, token.LEQ, token.GTR, token.GEQ:
		return ts.Cmp(op, a, b, opT)
	}
	if isString(resT) && op == token.ADD {
		return ts.Concat(a, b)
	}
	if isNumeric(resT) {
		num := func(t *Term) bool {
			return t.isConst() && (t.C.Kind() == constant.Int || t.C.Kind() == constant.Float)
		}
		switch op {
		case token.ADD:
			return ts.Add(a, b, 1, resT)
		case token.SUB:
			return ts.Add(a, b, -1, resT)
		case token.MUL:
			if num(a) {
				return ts.Scale(b, a.C, resT)
			}
			if num(b) {
				return ts.Scale(a, b.C, resT)
			}
			if b.id < a.id {
				a, b = b, a
			}
		case token.QUO:
			if num(b) && constant.Sign(b.C) != 0 {
				if isFloat(resT) {
					return ts.Scale(a, constant.BinaryOp(constant.MakeInt64(1), token.QUO, constant.ToFloat(b.C)), resT)
				}
				if num(a) {
					return ts.Const(constant.BinaryOp(a.C, token.QUO_ASSIGN, b.C), resT)
				}
				if constant.Compare(b.C, token.EQL, constant.MakeInt64(1)) {
					return a
				}
			}
		case token.REM:
			if num(a) && num(b) && constant.Sign(b.C) != 0 && isInteger(resT) {
				return ts.Const(constant.BinaryOp(a.C, token.REM, b.C), resT)
			}
			if num(b) && constant.Compare(b.C, token.EQL, constant.MakeInt64(1)) {
				return ts.Const(constant.MakeInt64(0), resT)
			}
		case token.SHL:
			if s, ok := b.intVal(); ok && s >= 0 && s < 62 && isInteger(resT) {
				return ts.Scale(a, constant.MakeInt64(1<<uint(s)), resT)
			}
		case token.AND, token.OR, token.XOR:
			if num(a) && num(b) {
				return ts.Const(constant.BinaryOp(a.C, op, b.C), resT)
			}
			if b.id < a.id {
				a, b = b, a
			}
		}
	}
	return ts.mk(Term{Op: OBin, Aux: op, Args: []*Term{a, b}, T: resT})
}

func (ts *Terms) Not(x *Term) *Term {
	if v, ok := x.boolVal(); ok {
		return ts.Bool(!v)
	}
	if x.Op == OUn && x.Aux == token.NOT {
		return x.Args[0]
	}
	return ts.mk(Term{Op: OUn, Aux: token.NOT, Args: []*Term{x}, T: types.Typ[types.Bool]})
}

// Cmp normalises a comparison to EQL/LSS/LEQ (negated where needed). For
// integers the negation of < is folded into <=; for floats it is not (NaN).
func (ts *Terms) Cmp(op token.Token, a, b *Term, opT types.Type) *Term {
	neg := false
	switch op {
	case token.NEQ:
		op, neg = token.EQL, true
	case token.GTR:
		op, a, b = token.LSS, b, a
	case token.GEQ:
		op, a, b = token.LEQ, b, a
	}
	intCmp := isInteger(opT)
	if op == token.LEQ && intCmp { // a <= b  ==  !(b < a)
		op, a, b, neg = token.LSS, b, a, !neg
	}
	if a.isConst() && b.isConst() {
		v := constant.Compare(a.C, op, b.C)
		return ts.Bool(v != neg)
	}
	if a == b && op == token.EQL && !isFloat(opT) {
		return ts.Bool(!neg)
	}
	// the length of a string against zero
	emptyTest := func(x *Term) *Term {
		return ts.Cmp(token.EQL, x.Args[0], ts.Str(""), types.Typ[types.String])
	}
	strLen := func(x *Term) bool {
		return x.Op == OLen && len(x.Args) == 1 && x.Args[0].T != nil && isString(x.Args[0].T)
	}
	isN := func(x *Term, n int64) bool { v, ok := x.intVal(); return ok && v == n }
	var empty *Term
	flip := false
	switch {
	case op == token.EQL && strLen(a) && isN(b, 0), op == token.LSS && strLen(a) && isN(b, 1):
		empty = emptyTest(a)
	case op == token.EQL && strLen(b) && isN(a, 0):
		empty = emptyTest(b)
	case op == token.LSS && strLen(b) && isN(a, 0):
		empty, flip = emptyTest(b), true
	}
	if empty != nil {
		if neg != flip {
			return ts.Not(empty)
		}
		return empty
	}
	if a == b && op == token.LSS {
		return ts.Bool(neg)
	}
	if op == token.EQL {
		// boolean equality with a constant
		if isBool(opT) {
			x, c := a, b
			if _, ok := x.boolVal(); ok {
				x, c = b, a
			}
			if v, ok := c.boolVal(); ok {
				if v == neg {
					return ts.Not(x)
				}
				return x
			}
		}
		if b.id < a.id {
			a, b = b, a
		}
	}
	t := ts.mk(Term{Op: OCmp, Aux: op, Args: []*Term{a, b}, T: types.Typ[types.Bool], I: b2i(isFloat(opT)) * 2, S: ""})
	if neg {
		return ts.Not(t)
	}
	return t
}

func b2i(b bool) int {
	if b {
		return 1
	}
	return 0
}

func (ts *Terms) Concat(a, b *Term) *Term {
	var parts []*Term
	add := func(t *Term) {
		var ps []*Term
		if t.Op == OConcat {
			ps = t.Args
		} else {
			ps = []*Term{t}
		}
		for _, p := range ps {
			if s, ok := p.strVal(); ok {
				if s == "" {
					continue
				}
				if n := len(parts); n > 0 {
					if q, ok := parts[n-1].strVal(); ok {
						parts[n-1] = ts.Str(q + s)
						continue
					}
				}
			}
			parts = append(parts, p)
		}
	}
	add(a)
	add(b)
	if len(parts) == 0 {
		return ts.Str("")
	}
	if len(parts) == 1 {
		return parts[0]
	}
	return ts.mk(Term{Op: OConcat, Args: parts, T: types.Typ[types.String]})
}

// contains reports whether sub occurs in t.
func (t *Term) contains(sub *Term) bool {
	if t == sub {
		return true
	}
	for _, a := range t.Args {
		if a != nil && a.contains(sub) {
			return true
		}
	}
	return false
}

func (t *Term) anyTerm(f func(*Term) bool) bool {
	if f(t) {
		return true
	}
	for _, a := range t.Args {
		if a != nil && a.anyTerm(f) {
			return true
		}
	}
	return false
}

// alts lists the alternatives of a term.
func (t *Term) alts() []*Term {
	if t.Op == OPhi {
		return t.Args
	}
	return []*Term{t}
}

// root follows an address or derived value to the object it belongs to.
func (t *Term) root() *Term {
	for {
		switch t.Op {
		case OField, OElem, OLoad, OFieldV, OSlice, OAssert, OLookup, OExtract, OIndexV:
			if len(t.Args) == 0 {
				return t
			}
			t = t.Args[0]
		default:
			return t
		}
	}
}

// ownerChain calls f for every ancestor in the address chain.
func (t *Term) hasAncestor(x *Term) bool {
	for {
		if t == x {
			return true
		}
		switch t.Op {
		case OField, OElem, OLoad, OFieldV, OSlice, OAssert, OLookup, OExtract, OIndexV:
			if len(t.Args) == 0 {
				return false
			}
			t = t.Args[0]
		case OPhi:
			for _, a := range t.Args {
				if a.hasAncestor(x) {
					return true
				}
			}
			return false
		default:
			return false
		}
	}
}

func fieldName(t types.Type, i int) string {
	if st, ok := derefType(t).Underlying().(*types.Struct); ok && i < st.NumFields() {
		return st.Field(i).Name()
	}
	return fmt.Sprint(i)
}

// String renders a term for diagnostics.
func (t *Term) String() string { return t.str(0) }

func (t *Term) str(d int) string {
	if t == nil {
		return "_"
	}
	if d > 8 {
		return "…"
	}
	arg := func(i int) string { return t.Args[i].str(d + 1) }
	switch t.Op {
	case OConst:
		if t.C == nil {
			return "nil"
		}
		return t.C.ExactString()
	case OSym:
		return t.S
	case OAlloc:
		n := "new"
		if a, ok := t.Aux.(*ssa.Alloc); ok && a.Comment != "" {
			n = a.Comment
		}
		return fmt.Sprintf("%s#%d", n, t.id)
	case OGlobal:
		return "&" + t.Aux.(*ssa.Global).Name()
	case OFunc:
		return t.Aux.(*ssa.Function).Name()
	case OClosure:
		return "closure:" + t.Aux.(*ssa.Function).Name()
	case OField:
		return "&" + t.Args[0].str(d+1) + "." + fieldName(t.Args[0].T, t.I)
	case OElem:
		return "&" + arg(0) + "[" + arg(1) + "]"
	case OLoad:
		s := arg(0)
		if strings.HasPrefix(s, "&") {
			return s[1:]
		}
		return "*" + s
	case OFieldV:
		return arg(0) + "." + fieldName(t.Args[0].T, t.I)
	case OLin:
		var ps []string
		for i, a := range t.Args {
			if t.Coef[i].ExactString() == "1" {
				ps = append(ps, a.str(d+1))
			} else {
				ps = append(ps, t.Coef[i].String()+"*"+a.str(d+1))
			}
		}
		if constant.Sign(t.C) != 0 {
			ps = append(ps, t.C.String())
		}
		return "(" + strings.Join(ps, "+") + ")"
	case OBin, OCmp:
		return "(" + arg(0) + " " + t.Aux.(token.Token).String() + " " + arg(1) + ")"
	case OUn:
		return t.Aux.(token.Token).String() + arg(0)
	case OConv:
		return types.TypeString(t.T, shortQual) + "(" + arg(0) + ")"
	case OIface:
		return arg(0)
	case OCall:
		var ps []string
		for i := range t.Args {
			ps = append(ps, arg(i))
		}
		return fmt.Sprint(t.Aux) + "(" + strings.Join(ps, ", ") + ")"
	}
	var ps []string
	for i := range t.Args {
		if t.Args[i] != nil {
			ps = append(ps, arg(i))
		}
	}
	x := ""
	if t.S != "" {
		x = "#" + fmt.Sprint(t.id)
	}
	return opNames[t.Op] + x + "(" + strings.Join(ps, ", ") + ")"
}

func shortQual(p *types.Package) string { return p.Name() }

// subst replaces terms bottom-up.
func (ts *Terms) subst(t *Term, f func(*Term) *Term) *Term {
	if r := f(t); r != nil {
		return r
	}
	if len(t.Args) == 0 {
		return t
	}
	changed := false
	args := make([]*Term, len(t.Args))
	for i, a := range t.Args {
		if a == nil {
			continue
		}
		args[i] = ts.subst(a, f)
		if args[i] != a {
			changed = true
		}
	}
	if !changed {
		return t
	}
	if t.Op == OLin {
		acc := ts.Const(t.C, t.T)
		for i, a := range args {
			acc = ts.Add(acc, ts.Scale(a, t.Coef[i], t.T), 1, t.T)
		}
		return acc
	}
	n := *t
	n.Args = args
	return ts.mk(n)
}

// --- intervals -----------------------------------------------------------

// Interval is a range of numbers; nil bounds are infinite.
type Interval struct {
	lo, hi         *big.Rat
	loOpen, hiOpen bool
	empty          bool
}

func ratOf(c constant.Value) *big.Rat {
	switch c.Kind() {
	case constant.Int, constant.Float:
		r, ok := new(big.Rat).SetString(c.ExactString())
		if ok {
			return r
		}
	}
	return nil
}

func point(r *big.Rat) Interval { return Interval{lo: r, hi: r} }
func ivInt(lo, hi int64) Interval {
	return Interval{lo: big.NewRat(lo, 1), hi: big.NewRat(hi, 1)}
}
func ivGE(lo int64) Interval { return Interval{lo: big.NewRat(lo, 1)} }
func ivLE(hi int64) Interval { return Interval{hi: big.NewRat(hi, 1)} }
func ivGT(lo int64) Interval { return Interval{lo: big.NewRat(lo, 1), loOpen: true} }
func ivLT(hi int64) Interval { return Interval{hi: big.NewRat(hi, 1), hiOpen: true} }

func (a Interval) add(b Interval) Interval {
	var r Interval
	if a.lo != nil && b.lo != nil {
		r.lo, r.loOpen = new(big.Rat).Add(a.lo, b.lo), a.loOpen || b.loOpen
	}
	if a.hi != nil && b.hi != nil {
		r.hi, r.hiOpen = new(big.Rat).Add(a.hi, b.hi), a.hiOpen || b.hiOpen
	}
	return r
}

func (a Interval) scale(c *big.Rat) Interval {
	var r Interval
	m := func(x *big.Rat) *big.Rat {
		if x == nil {
			return nil
		}
		return new(big.Rat).Mul(x, c)
	}
	switch c.Sign() {
	case 0:
		return point(new(big.Rat))
	case 1:
		return Interval{lo: m(a.lo), hi: m(a.hi), loOpen: a.loOpen, hiOpen: a.hiOpen}
	default:
		r = Interval{lo: m(a.hi), hi: m(a.lo), loOpen: a.hiOpen, hiOpen: a.loOpen}
	}
	return r
}

func (a Interval) meet(b Interval) Interval {
	r := a
	if b.lo != nil {
		if r.lo == nil || b.lo.Cmp(r.lo) > 0 {
			r.lo, r.loOpen = b.lo, b.loOpen
		} else if b.lo.Cmp(r.lo) == 0 {
			r.loOpen = r.loOpen || b.loOpen
		}
	}
	if b.hi != nil {
		if r.hi == nil || b.hi.Cmp(r.hi) < 0 {
			r.hi, r.hiOpen = b.hi, b.hiOpen
		} else if b.hi.Cmp(r.hi) == 0 {
			r.hiOpen = r.hiOpen || b.hiOpen
		}
	}
	if r.lo != nil && r.hi != nil {
		c := r.lo.Cmp(r.hi)
		if c > 0 || (c == 0 && (r.loOpen || r.hiOpen)) {
			r.empty = true
		}
	}
	return r
}

func (a Interval) hull(b Interval) Interval {
	if a.empty {
		return b
	}
	if b.empty {
		return a
	}
	r := a
	if b.lo == nil || a.lo == nil {
		r.lo = nil
	} else if c := b.lo.Cmp(a.lo); c < 0 {
		r.lo, r.loOpen = b.lo, b.loOpen
	} else if c == 0 {
		r.loOpen = a.loOpen && b.loOpen
	}
	if b.hi == nil || a.hi == nil {
		r.hi = nil
	} else if c := b.hi.Cmp(a.hi); c > 0 {
		r.hi, r.hiOpen = b.hi, b.hiOpen
	} else if c == 0 {
		r.hiOpen = a.hiOpen && b.hiOpen
	}
	return r
}

// intTighten closes open bounds of an integer interval.
func (a Interval) intTighten() Interval {
	r := a
	one := big.NewRat(1, 1)
	if r.lo != nil {
		if !r.lo.IsInt() {
			q := new(big.Int).Div(r.lo.Num(), r.lo.Denom())
			r.lo, r.loOpen = new(big.Rat).SetInt(q.Add(q, big.NewInt(1))), false
		} else if r.loOpen {
			r.lo, r.loOpen = new(big.Rat).Add(r.lo, one), false
		}
	}
	if r.hi != nil {
		if !r.hi.IsInt() {
			q := new(big.Int).Div(r.hi.Num(), r.hi.Denom())
			r.hi, r.hiOpen = new(big.Rat).SetInt(q), false
		} else if r.hiOpen {
			r.hi, r.hiOpen = new(big.Rat).Sub(r.hi, one), false
		}
	}
	if r.lo != nil && r.hi != nil && r.lo.Cmp(r.hi) > 0 {
		r.empty = true
	}
	return r
}

// ltZero: (definitely <0, definitely >=0)
func (a Interval) ltZero() (yes, no bool) {
	if a.hi != nil && (a.hi.Sign() < 0 || (a.hi.Sign() == 0 && a.hiOpen)) {
		yes = true
	}
	if a.lo != nil && a.lo.Sign() >= 0 {
		no = true
	}
	return
}

func (a Interval) leZero() (yes, no bool) {
	if a.hi != nil && a.hi.Sign() <= 0 {
		yes = true
	}
	if a.lo != nil && (a.lo.Sign() > 0 || (a.lo.Sign() == 0 && a.loOpen)) {
		no = true
	}
	return
}

func (a Interval) isZero() (yes, no bool) {
	if a.lo != nil && a.hi != nil && a.lo.Sign() == 0 && a.hi.Sign() == 0 {
		yes = true
	}
	if a.lo != nil && (a.lo.Sign() > 0 || (a.lo.Sign() == 0 && a.loOpen)) {
		no = true
	}
	if a.hi != nil && (a.hi.Sign() < 0 || (a.hi.Sign() == 0 && a.hiOpen)) {
		no = true
	}
	return
}

func (a Interval) String() string {
	l, h := "-inf", "inf"
	if a.lo != nil {
		l = a.lo.RatString()
	}
	if a.hi != nil {
		h = a.hi.RatString()
	}
	lb, rb := "[", "]"
	if a.loOpen {
		lb = "("
	}
	if a.hiOpen {
		rb = ")"
	}
	return lb + l + "," + h + rb
}
