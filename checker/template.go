package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"strings"
	"sync"
	"text/template/parse"

	"golang.org/x/tools/go/ssa"
)

// Templates are programs too: their constant text is parsed and interpreted,
// calling the methods they name on the data they are given.

type tmplSet struct {
	html  bool
	main  string
	trees map[string]*parse.Tree
	funcs bool // functions of its own
	err   string
}

var tmplCache sync.Map // *Program -> map[*ssa.Global]*tmplSet

func isTemplate(t types.Type) (html, ok bool) {
	switch types.TypeString(t, nil) {
	case "*html/template.Template":
		return true, true
	case "*text/template.Template":
		return false, true
	}
	return false, false
}

// globalTemplates: the templates package variables hold after initialisation.
func (p *Program) globalTemplates() map[*ssa.Global]*tmplSet {
	type entry struct {
		once sync.Once
		m    map[*ssa.Global]*tmplSet
	}
	v, _ := tmplCache.LoadOrStore(p, &entry{})
	e := v.(*entry)
	e.once.Do(func() {
		e.m = map[*ssa.Global]*tmplSet{}
		for _, sp := range p.Prog.AllPackages() {
			if !p.isRepoPkg(sp.Pkg) || sp.Func("init") == nil {
				continue
			}
			var gs []*ssa.Global
			for _, mem := range sp.Members {
				if g, ok := mem.(*ssa.Global); ok {
					if _, ok := isTemplate(derefType(g.Type())); ok && p.constGlobal(g) {
						gs = append(gs, g)
					}
				}
			}
			if len(gs) == 0 {
				continue
			}
			c := &Client{Sequential: true}
			self := sp
			c.Inline = func(f *ssa.Function) bool { return f.Pkg == self && !p.registrationFunc(f) }
			ex := NewExec(p, c)
			st := newState()
			for _, mem := range sp.Members {
				if g, ok := mem.(*ssa.Global); ok {
					typ := derefType(g.Type())
					ex.Store(st, ex.ts.mk(Term{Op: OGlobal, Aux: g, T: g.Type()}), ex.zero(typ), typ, "start")
				}
			}
			st.fEpoch = newState().fEpoch
			outs := ex.Run(sp.Func("init"), nil, nil, st)
			for _, g := range gs {
				var s *tmplSet
				for _, o := range outs {
					if o.Panic {
						continue
					}
					t := o.St.mem[ex.ts.mk(Term{Op: OGlobal, Aux: g, T: g.Type()})]
					if t == nil {
						s = nil
						break
					}
					s = templateIn(t)
				}
				if s != nil {
					e.m[g] = s
				}
			}
		}
	})
	return e.m
}

// templateIn: the template a term constructs.
func templateIn(t *Term) *tmplSet {
	s := &tmplSet{trees: map[string]*parse.Tree{}}
	var texts []string
	name := ""
	known := true
	var walk func(t *Term)
	walk = func(t *Term) {
		switch t.Op {
		case OExtract:
			walk(t.Args[0])
			return
		case OCall:
			n, _ := t.Aux.(string)
			s.html = s.html || strings.Contains(n, "html/template.")
			switch {
			case strings.HasSuffix(n, "/template.Must"), strings.HasSuffix(n, "Template).Option"), strings.HasSuffix(n, "Template).Delims") && false:
				walk(t.Args[0])
				return
			case strings.HasSuffix(n, "Template).Funcs"):
				s.funcs = true
				walk(t.Args[0])
				return
			case strings.HasSuffix(n, "/template.New"):
				name, _ = t.Args[0].strVal()
				return
			case strings.HasSuffix(n, "Template).New"):
				walk(t.Args[0])
				name, _ = t.Args[1].strVal()
				return
			case strings.HasSuffix(n, "Template).Parse"):
				walk(t.Args[0])
				x, ok := t.Args[1].strVal()
				if !ok {
					known = false
				}
				texts = append(texts, name, x)
				return
			}
		}
		known = false
	}
	walk(t)
	if !known || len(texts) == 0 {
		return nil
	}
	for i := 0; i < len(texts); i += 2 {
		tr := parse.New(texts[i])
		tr.Mode = parse.SkipFuncCheck
		if _, err := tr.Parse(texts[i+1], "", "", s.trees); err != nil {
			s.err = err.Error()
		}
	}
	s.main = name
	return s
}

// tmplOf: the template behind the receiver of Execute.
func (ex *Exec) tmplOf(t *Term) *tmplSet {
	if t.Op == OLoad && t.Args[0].Op == OGlobal {
		return ex.P.globalTemplates()[t.Args[0].Aux.(*ssa.Global)]
	}
	return templateIn(t)
}

// tval is a value in a template.
type tval struct {
	x *Term
	T types.Type // nil: unknown
}

type tmplRun struct {
	ex   *Exec
	c    *callCtx
	set  *tmplSet
	site string
	errs []*State // executing ends with an error in these states
	deep int
}

type tmplVars struct {
	name string
	val  tval
	up   *tmplVars
}

func (v *tmplVars) get(n string) (tval, bool) {
	for ; v != nil; v = v.up {
		if v.name == n {
			return v.val, true
		}
	}
	return tval{}, false
}

const (
	evTmplPrint = "template: print"
	evTmplRaw   = "template: print as is"
	evTmplRange = "template: range"
	evTmplTurn  = "template: turn"
	evTmplPanic = "template: panic"
	evTmplGap   = "template: not understood"
)

func (ex *Exec) templateExec(c *callCtx, site string) []Outcome {
	set := ex.tmplOf(c.args[0])
	et := c.sig.Results().At(0).Type()
	fail := ex.ts.Sym("template error "+site, et)
	if set == nil || set.err != "" {
		if ex.muted == 0 {
			why := "the template is not a constant"
			if set != nil {
				why = set.err
			}
			ex.emit(c.st, &Event{Kind: EvExt, Instr: c.in, Fr: c.fr, Name: evTmplGap, Args: []*Term{ex.ts.Str(why)}})
		}
		return []Outcome{{St: c.st, Ret: ex.unknownResults(c.sig, c.name, site, nil)}}
	}
	name, data := set.main, c.args[len(c.args)-1]
	if strings.HasSuffix(c.name, "ExecuteTemplate") {
		name, _ = c.args[2].strVal()
	}
	r := &tmplRun{ex: ex, c: c, set: set, site: site}
	var sts []*State
	if tr := set.trees[name]; tr != nil {
		for i, d := range data.alts() {
			st := c.st
			if i < len(data.alts())-1 {
				st = st.clone()
			}
			v := r.reveal(st, tval{d, nil})
			sts = append(sts, r.list(tr.Root, v, &tmplVars{name: "$", val: v}, st)...)
		}
	} else {
		r.gap(c.st, "no template "+name)
		sts = []*State{c.st}
	}
	var outs []Outcome
	for _, st := range sts {
		// the writer may fail at any time
		outs = append(outs, Outcome{St: st, Ret: []*Term{ex.ts.mk(Term{Op: OCall, Aux: c.name, S: site, T: et})}})
	}
	for _, st := range r.errs {
		ex.addFact(st, ex.ts.Cmp(token.EQL, fail, ex.ts.Nil(nil), et), false)
		outs = append(outs, Outcome{St: st, Ret: []*Term{fail}})
	}
	return ex.mergeOutcomes(outs, true, "tmpl"+site)
}

func (r *tmplRun) emit(st *State, name string, v tval) {
	ev := &Event{Kind: EvExt, Instr: r.c.in, Fr: r.c.fr, Name: name, T: v.T}
	if v.x != nil {
		ev.Args = []*Term{v.x}
	}
	r.ex.emit(st, ev)
}

func (r *tmplRun) gap(st *State, why string) {
	r.emit(st, evTmplGap, tval{r.ex.ts.Str(why), nil})
}

// reveal looks inside an interface.
func (r *tmplRun) reveal(st *State, v tval) tval {
	if v.T != nil {
		if _, ok := v.T.Underlying().(*types.Interface); !ok {
			return v
		}
	}
	if T := r.ex.dynType(st, v.x); T != nil {
		return tval{r.ex.assertVal(st, v.x, T), T}
	}
	return v
}

func (r *tmplRun) merge(sts []*State, place string) []*State {
	idx := map[string]int{}
	var res []*State
	for _, s := range sts {
		k := s.key()
		if i, ok := idx[k]; ok {
			res[i] = r.ex.joinStates(res[i], s, "tmpl"+r.site+place, false)
			continue
		}
		idx[k] = len(res)
		res = append(res, s)
	}
	return res
}

func (r *tmplRun) list(n *parse.ListNode, dot tval, vars *tmplVars, st *State) []*State {
	sts := []*State{st}
	if n == nil {
		return sts
	}
	r.deep++
	defer func() { r.deep-- }()
	if r.deep > 60 {
		r.gap(st, "deep recursion")
		return sts
	}
	for _, x := range n.Nodes {
		var next []*State
		for _, s := range sts {
			ss, v := r.node(x, dot, vars, s)
			if v != nil {
				vars = v
			}
			next = append(next, ss...)
		}
		sts = r.merge(next, fmt.Sprintf("@%d", x.Position()))
	}
	return sts
}

type tres struct {
	st *State
	v  tval
}

func (r *tmplRun) node(n parse.Node, dot tval, vars *tmplVars, st *State) ([]*State, *tmplVars) {
	ex := r.ex
	switch n := n.(type) {
	case *parse.TextNode, *parse.CommentNode:
		return []*State{st}, nil
	case *parse.ActionNode:
		var sts []*State
		var bound *tmplVars
		for _, o := range r.pipe(n.Pipe, dot, vars, st) {
			if len(n.Pipe.Decl) > 0 {
				if bound != nil {
					r.gap(st, "a variable with several values")
				}
				bound = &tmplVars{name: n.Pipe.Decl[0].Ident[0], val: o.v, up: vars}
			} else {
				for _, o2 := range r.stringed(o) {
					what := evTmplPrint
					if !r.set.html {
						what = evTmplRaw
					}
					r.emit(o2.st, what, o2.v)
					sts = append(sts, o2.st)
				}
				continue
			}
			sts = append(sts, o.st)
		}
		return sts, bound
	case *parse.IfNode:
		return r.branch(n.Pipe, n.List, n.ElseList, dot, vars, st, false), nil
	case *parse.WithNode:
		return r.branch(n.Pipe, n.List, n.ElseList, dot, vars, st, true), nil
	case *parse.RangeNode:
		return r.rangeOver(n, dot, vars, st), nil
	case *parse.TemplateNode:
		tr := r.set.trees[n.Name]
		if tr == nil {
			r.gap(st, "no template "+n.Name)
			return []*State{st}, nil
		}
		outs := []tres{{st, tval{ex.ts.Nil(nil), nil}}}
		if n.Pipe != nil {
			outs = r.pipe(n.Pipe, dot, vars, st)
		}
		var sts []*State
		for _, o := range outs {
			v := r.reveal(o.st, o.v)
			sts = append(sts, r.list(tr.Root, v, &tmplVars{name: "$", val: v}, o.st)...)
		}
		return sts, nil
	}
	r.gap(st, n.String())
	return []*State{st}, nil
}

// truth: the condition under which a value counts as true.
func (r *tmplRun) truth(st *State, v tval) *Term {
	ex := r.ex
	if v.T == nil {
		return ex.ts.mk(Term{Op: OCall, Aux: "template.truth", Args: []*Term{v.x}, T: types.Typ[types.Bool]})
	}
	switch u := v.T.Underlying().(type) {
	case *types.Basic:
		switch {
		case isBool(u):
			return v.x
		case isString(u):
			return ex.ts.Not(ex.ts.Cmp(token.EQL, v.x, ex.ts.Str(""), u))
		case isNumeric(u):
			return ex.ts.Not(ex.ts.Cmp(token.EQL, v.x, ex.ts.Const(constant.MakeInt64(0), u), u))
		}
	case *types.Slice, *types.Map:
		return ex.ts.Not(ex.ts.Cmp(token.EQL, ex.lenOf(st, v.x, false, v.T), ex.ts.Int(0), types.Typ[types.Int]))
	case *types.Pointer, *types.Interface, *types.Signature, *types.Chan:
		return ex.ts.Not(ex.ts.Cmp(token.EQL, v.x, ex.ts.Nil(nil), v.T))
	case *types.Struct:
		return ex.ts.Bool(true)
	}
	return ex.ts.mk(Term{Op: OCall, Aux: "template.truth", Args: []*Term{v.x}, T: types.Typ[types.Bool]})
}

func (r *tmplRun) branch(p *parse.PipeNode, yes, no *parse.ListNode, dot tval, vars *tmplVars, st *State, with bool) []*State {
	var sts []*State
	for _, o := range r.pipe(p, dot, vars, st) {
		v := r.reveal(o.st, o.v)
		inner := vars
		if len(p.Decl) > 0 {
			inner = &tmplVars{name: p.Decl[0].Ident[0], val: v, up: vars}
		}
		d := dot
		if with {
			d = v
		}
		c := r.truth(o.st, v)
		t, known := r.ex.truth(o.st, c)
		if !known || t {
			s := o.st
			if !known {
				s = s.clone()
			}
			if r.ex.addFact(s, c, true) {
				sts = append(sts, r.list(yes, d, inner, s)...)
			}
		}
		if !known || !t {
			if r.ex.addFact(o.st, c, false) {
				sts = append(sts, r.list(no, dot, inner, o.st)...)
			}
		}
	}
	return r.merge(sts, fmt.Sprintf("@if%d", p.Position()))
}

func (r *tmplRun) rangeOver(n *parse.RangeNode, dot tval, vars *tmplVars, st *State) []*State {
	ex := r.ex
	var sts []*State
	for _, o := range r.pipe(n.Pipe, dot, vars, st) {
		v := r.reveal(o.st, o.v)
		it := types.Type(types.Typ[types.Int])
		var elem tval
		idx := ex.ts.Sym("element "+r.site+fmt.Sprint(n.Pos), it)
		var key tval
		key = tval{idx, it}
		if v.T != nil {
			switch u := v.T.Underlying().(type) {
			case *types.Slice:
				addr := ex.elemAddr(v.x, idx, types.NewPointer(u.Elem()))
				elem = tval{r.load(o.st, addr, u.Elem()), u.Elem()}
			case *types.Map:
				k := ex.ts.Sym("key "+r.site+fmt.Sprint(n.Pos), u.Key())
				key = tval{k, u.Key()}
				elem = tval{ex.loadMapVal(o.st, v.x, k, u), u.Elem()}
			default:
				r.gap(o.st, "range over "+v.T.String())
			}
		} else {
			r.gap(o.st, "range over an unknown value")
		}
		r.emit(o.st, evTmplRange, v)
		// nothing
		empty := o.st.clone()
		cond := r.truth(o.st, v)
		if ex.addFact(empty, cond, false) {
			sts = append(sts, r.list(n.ElseList, dot, vars, empty)...)
		}
		some := o.st
		if elem.x == nil || !ex.addFact(some, cond, true) {
			continue
		}
		elem = r.reveal(some, elem)
		inner := vars
		switch len(n.Pipe.Decl) {
		case 1:
			inner = &tmplVars{name: n.Pipe.Decl[0].Ident[0], val: elem, up: vars}
		case 2:
			inner = &tmplVars{name: n.Pipe.Decl[0].Ident[0], val: key, up: vars}
			inner = &tmplVars{name: n.Pipe.Decl[1].Ident[0], val: elem, up: inner}
		}
		// around until nothing new is learnt (what holds before the loop and
		// after any number of turns)
		cur := []*State{some}
		all := []*State{}
		for turn := 0; turn < 3 && len(cur) > 0; turn++ {
			var after []*State
			for _, s := range cur {
				// the element of this turn is another one
				ex.regen(s, idx)
				for _, s2 := range r.list(n.List, elem, inner, s.clone()) {
					r.emit(s2, evTmplTurn, v)
					after = append(after, s2)
				}
			}
			after = r.merge(after, fmt.Sprintf("@r%d.%d", n.Pos, turn))
			all = append(all, after...)
			cur = nil
			for _, s := range after {
				cur = append(cur, s.clone())
			}
		}
		sts = append(sts, r.merge(all, fmt.Sprintf("@r%d", n.Pos))...)
	}
	return r.merge(sts, fmt.Sprintf("@range%d", n.Pos))
}

func (r *tmplRun) load(st *State, addr *Term, T types.Type) *Term {
	r.ex.emit(st, &Event{Kind: EvLoad, Instr: r.c.in, Fr: r.c.fr, Addr: addr, T: T})
	return r.ex.Load(st, addr, T)
}

func (r *tmplRun) pipe(p *parse.PipeNode, dot tval, vars *tmplVars, st *State) []tres {
	outs := []tres{{st: st}}
	for i, cmd := range p.Cmds {
		var next []tres
		for _, o := range outs {
			var last *tval
			if i > 0 {
				v := o.v
				last = &v
			}
			next = append(next, r.command(cmd, dot, vars, o.st, last)...)
		}
		outs = next
	}
	return outs
}

func (r *tmplRun) command(cmd *parse.CommandNode, dot tval, vars *tmplVars, st *State, last *tval) []tres {
	first := cmd.Args[0]
	if len(cmd.Args) == 1 && last == nil {
		return r.value(first, dot, vars, st, nil)
	}
	// arguments
	outs := []struct {
		st   *State
		args []tval
	}{{st: st}}
	for _, a := range cmd.Args[1:] {
		var next []struct {
			st   *State
			args []tval
		}
		for _, o := range outs {
			for _, v := range r.value(a, dot, vars, o.st, nil) {
				next = append(next, struct {
					st   *State
					args []tval
				}{v.st, append(append([]tval(nil), o.args...), v.v)})
			}
		}
		outs = next
	}
	var res []tres
	for _, o := range outs {
		args := o.args
		if last != nil {
			args = append(args, *last)
		}
		if args == nil {
			args = []tval{}
		}
		res = append(res, r.value(first, dot, vars, o.st, args)...)
	}
	return res
}

// value evaluates an operand; args, if not nil, are passed to its last part.
func (r *tmplRun) value(n parse.Node, dot tval, vars *tmplVars, st *State, args []tval) []tres {
	ex := r.ex
	lit := func(c constant.Value, T types.Type) []tres { return []tres{{st, tval{ex.ts.Const(c, T), T}}} }
	switch n := n.(type) {
	case *parse.DotNode:
		return []tres{{st, dot}}
	case *parse.NilNode:
		return []tres{{st, tval{ex.ts.Nil(nil), nil}}}
	case *parse.BoolNode:
		return lit(constant.MakeBool(n.True), types.Typ[types.Bool])
	case *parse.StringNode:
		return lit(constant.MakeString(n.Text), types.Typ[types.String])
	case *parse.NumberNode:
		if n.IsInt {
			return lit(constant.MakeInt64(n.Int64), types.Typ[types.Int])
		}
		return lit(constant.MakeFloat64(n.Float64), types.Typ[types.Float64])
	case *parse.FieldNode:
		return r.chain(dot, n.Ident, st, args)
	case *parse.VariableNode:
		v, ok := vars.get(n.Ident[0])
		if !ok {
			r.gap(st, "variable "+n.Ident[0])
			v = tval{ex.ts.Sym("template variable "+n.Ident[0], nil), nil}
		}
		return r.chain(v, n.Ident[1:], st, args)
	case *parse.ChainNode:
		var res []tres
		for _, o := range r.value(n.Node, dot, vars, st, nil) {
			res = append(res, r.chain(o.v, n.Field, o.st, args)...)
		}
		return res
	case *parse.PipeNode:
		return r.pipe(n, dot, vars, st)
	case *parse.IdentifierNode:
		return r.function(n.Ident, args, st)
	}
	r.gap(st, n.String())
	return []tres{{st, tval{ex.ts.Sym("template value", nil), nil}}}
}

func (r *tmplRun) function(name string, args []tval, st *State) []tres {
	ex := r.ex
	b := types.Type(types.Typ[types.Bool])
	var xs []*Term
	for _, a := range args {
		xs = append(xs, a.x)
	}
	out := func(T types.Type) []tres {
		return []tres{{st, tval{ex.ts.mk(Term{Op: OCall, Aux: "template." + name, Args: xs, T: T}), T}}}
	}
	switch name {
	case "not":
		if len(args) == 1 {
			return []tres{{st, tval{ex.ts.Not(r.truth(st, r.reveal(st, args[0]))), b}}}
		}
	case "eq", "ne", "lt", "le", "gt", "ge":
		if len(args) == 2 && args[0].T != nil && args[1].T != nil {
			T := args[0].T
			switch name {
			case "eq":
				return []tres{{st, tval{ex.ts.Cmp(token.EQL, xs[0], xs[1], T), b}}}
			case "ne":
				return []tres{{st, tval{ex.ts.Not(ex.ts.Cmp(token.EQL, xs[0], xs[1], T)), b}}}
			case "lt":
				return []tres{{st, tval{ex.ts.Cmp(token.LSS, xs[0], xs[1], T), b}}}
			case "ge":
				return []tres{{st, tval{ex.ts.Not(ex.ts.Cmp(token.LSS, xs[0], xs[1], T)), b}}}
			case "gt":
				return []tres{{st, tval{ex.ts.Cmp(token.LSS, xs[1], xs[0], T), b}}}
			case "le":
				return []tres{{st, tval{ex.ts.Not(ex.ts.Cmp(token.LSS, xs[1], xs[0], T)), b}}}
			}
		}
		return out(b)
	case "and", "or":
		if len(args) > 0 {
			var res []tres
			cur := st
			for i, a := range args {
				c := r.truth(cur, r.reveal(cur, a))
				if i == len(args)-1 {
					res = append(res, tres{cur, a})
					break
				}
				stop := name == "or"
				s := cur.clone()
				if ex.addFact(s, c, stop) {
					res = append(res, tres{s, a})
				}
				if !ex.addFact(cur, c, !stop) {
					break
				}
			}
			return res
		}
	case "len":
		if len(args) == 1 && args[0].T != nil {
			return []tres{{st, tval{ex.lenOf(st, xs[0], false, args[0].T), types.Typ[types.Int]}}}
		}
		return out(types.Typ[types.Int])
	case "print", "printf", "println", "html", "js", "urlquery":
		for _, a := range args {
			for _, o := range r.stringed(tres{st, a}) {
				st = o.st
			}
		}
		return out(types.Typ[types.String])
	case "index":
		if len(args) == 2 && args[0].T != nil {
			if u, ok := args[0].T.Underlying().(*types.Slice); ok {
				return []tres{{st, tval{ex.Load(st, ex.elemAddr(xs[0], xs[1], types.NewPointer(u.Elem())), u.Elem()), u.Elem()}}}
			}
		}
	}
	r.gap(st, "function "+name)
	return out(nil)
}

// chain follows fields and methods.
func (r *tmplRun) chain(v tval, names []string, st *State, args []tval) []tres {
	outs := []tres{{st, v}}
	for i, n := range names {
		var as []tval
		if i == len(names)-1 {
			as = args
		}
		var next []tres
		for _, o := range outs {
			next = append(next, r.field(o.v, n, o.st, as)...)
		}
		outs = next
	}
	return outs
}

func (r *tmplRun) field(v tval, name string, st *State, args []tval) []tres {
	ex := r.ex
	// one alternative at a time
	if alts := v.x.alts(); len(alts) > 1 {
		var res []tres
		for _, a := range alts {
			if a.isNil() {
				continue
			}
			res = append(res, r.field(tval{a, v.T}, name, st.clone(), args)...)
		}
		return res
	}
	v = r.reveal(st, v)
	if v.T == nil {
		r.gap(st, "."+name+" of an unknown value")
		return []tres{{st, tval{ex.ts.Sym("template value", nil), nil}}}
	}
	if v.x.isNil() {
		r.emit(st, evTmplPanic, tval{ex.ts.Str("." + name + " of nil"), nil})
		r.errs = append(r.errs, st)
		return nil
	}
	obj, path, _ := types.LookupFieldOrMethod(v.T, true, nil, name)
	switch obj := obj.(type) {
	case *types.Func:
		recv := v
		f := ex.P.Prog.LookupMethod(v.T, obj.Pkg(), name)
		if f == nil {
			// a method of the pointer, on an addressable value
			if pt := types.NewPointer(v.T); v.x.Op == OLoad {
				if f = ex.P.Prog.LookupMethod(pt, obj.Pkg(), name); f != nil {
					recv = tval{v.x.Args[0], pt}
				}
			}
		}
		if f == nil {
			r.gap(st, "method "+name+" of "+v.T.String())
			return []tres{{st, tval{ex.ts.Sym("template value", nil), nil}}}
		}
		return r.invoke(f, recv, args, st)
	case *types.Var:
		x, T := v.x, v.T
		for _, i := range path {
			if pt, ok := T.Underlying().(*types.Pointer); ok {
				s := pt.Elem().Underlying().(*types.Struct)
				T = s.Field(i).Type()
				x = r.load(st, ex.fieldAddr(x, i, pt), T)
				continue
			}
			s := T.Underlying().(*types.Struct)
			ft := s.Field(i).Type()
			if x.Op == OLoad {
				x = r.load(st, ex.fieldAddr(x.Args[0], i, types.NewPointer(T)), ft)
			} else {
				x = ex.fieldVal(x, i, ft)
			}
			T = ft
		}
		return []tres{{st, tval{x, T}}}
	}
	r.emit(st, evTmplPanic, tval{ex.ts.Str("no field or method " + name + " in " + v.T.String()), nil})
	r.errs = append(r.errs, st)
	return nil
}

func (r *tmplRun) invoke(f *ssa.Function, recv tval, args []tval, st *State) []tres {
	ex := r.ex
	d := *r.c
	d.st = st
	d.sig = f.Signature
	d.args = []*Term{recv.x}
	for _, a := range args {
		d.args = append(d.args, a.x)
	}
	if len(d.args) != len(f.Params) && f.Blocks != nil {
		r.emit(st, evTmplPanic, tval{ex.ts.Str("wrong number of arguments of " + f.Name()), nil})
		r.errs = append(r.errs, st)
		return nil
	}
	// each use in the template is a call site of its own
	fr := *r.c.fr
	d.fr = &fr
	d.fr.ctx = fmt.Sprintf("%s/tmpl:%s", r.c.fr.ctx, f.Name())
	var res []tres
	for _, o := range ex.callFn(&d, f, nil) {
		if o.Panic {
			r.emit(o.St, evTmplPanic, tval{o.PV, nil})
			r.errs = append(r.errs, o.St)
			continue
		}
		rs := f.Signature.Results()
		if rs.Len() == 0 || len(o.Ret) == 0 {
			r.gap(o.St, "a method without a result")
			continue
		}
		if rs.Len() == 2 {
			e := o.St.clone()
			if ex.addFact(e, ex.ts.Cmp(token.EQL, o.Ret[1], ex.ts.Nil(nil), rs.At(1).Type()), false) {
				r.errs = append(r.errs, e)
			}
		}
		res = append(res, tres{o.St, tval{o.Ret[0], rs.At(0).Type()}})
	}
	return res
}

// stringed: values that know how to print themselves do.
func (r *tmplRun) stringed(o tres) []tres {
	v := r.reveal(o.st, o.v)
	if v.T == nil {
		return []tres{{o.st, v}}
	}
	if r.set.html {
		// typed strings are trusted as they are
		if n, ok := types.Unalias(v.T).(*types.Named); ok && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "html/template" {
			return []tres{{o.st, v}}
		}
	}
	for _, m := range []string{"Error", "String"} {
		obj, _, _ := types.LookupFieldOrMethod(v.T, false, nil, m)
		fn, ok := obj.(*types.Func)
		if !ok || fn.Signature().Params().Len() != 0 || fn.Signature().Results().Len() != 1 || !isString(fn.Signature().Results().At(0).Type()) {
			continue
		}
		if f := r.ex.P.Prog.LookupMethod(v.T, fn.Pkg(), m); f != nil {
			return r.invoke(f, v, nil, o.st)
		}
	}
	return []tres{{o.st, v}}
}
