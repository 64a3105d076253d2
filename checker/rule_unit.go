package main

import (
	"go/constant"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Property{ID: "C13", MinObs: 40,
		Rule:   "every registration entry point is interpreted with a distribution whose unit is unassigned, the same, or another one: the unit is assigned exactly once, in one critical section, and a registration with another unit can only fail; nothing else ever assigns the unit; every operation on values is checked per value type and unit.",
		Assume: []string{"float arithmetic is compared as the expression that is computed, not its rounding"},
		Run:    runC13})
}

// registrations: the functions through which clients register metrics.
func (p *Program) registrations() []*ssa.Function {
	var fs []*ssa.Function
	for _, root := range p.roots("tricorder") {
		if root.Kind != "api" {
			continue
		}
		unit, val := false, false
		ps := root.Fn.Signature.Params()
		for i := 0; i < ps.Len(); i++ {
			t := ps.At(i).Type()
			if strings.HasSuffix(types.TypeString(t, nil), "/units.Unit") {
				unit = true
			}
			if it, ok := t.Underlying().(*types.Interface); ok && it.Empty() {
				val = true
			}
		}
		if unit && val {
			fs = append(fs, root.Fn)
		}
	}
	return fs
}

// isGlobalErr: the value of the package's error variable of that name.
func (p *Program) isGlobalErr(t *Term, name string) bool {
	if t.Op != OLoad || t.Args[0].Op != OGlobal {
		return false
	}
	g, ok := t.Args[0].Aux.(*ssa.Global)
	return ok && g.Name() == name && (g.Pkg == p.Pkg("tricorder") || g.Pkg == p.Pkg("tricorder/messages"))
}

func runC13(r *Report) {
	m := newDistModel(r)
	if m == nil || !r.Need(m.isSet >= 0, "the flag that records that a distribution has its unit") {
		return
	}
	p := r.P
	regs := p.registrations()
	r.Min("registration functions", 3, len(regs))
	isReg := map[*ssa.Function]bool{}
	type job struct {
		f    *ssa.Function
		typ  string
		mode string
	}
	var jobs []job
	for _, f := range regs {
		isReg[f] = true
		for _, typ := range []string{"CumulativeDistribution", "NonCumulativeDistribution"} {
			for _, mode := range []string{"unassigned", "same unit", "other unit"} {
				jobs = append(jobs, job{f, typ, mode})
			}
		}
	}
	parallel(len(jobs), func(k int) {
		j := jobs[k]
		T := types.NewPointer(p.Named("tricorder", j.typ))
		c := distCase{op: j.typ + ", " + j.mode, typ: j.typ, set: j.mode != "unassigned", empty: -1, notCum: j.typ[0] == 'N'}
		var unit *Term
		res := runDistOn(r, m, c, j.f, func(ex *Exec, cl *Client, self *Term) []*Term {
			old := ex.ts.Sym("unit:set", structOf(m.D).Field(m.unit).Type())
			args := ex.symArgs(j.f)
			for i, q := range j.f.Params {
				if it, ok := q.Type().Underlying().(*types.Interface); ok && it.Empty() {
					args[i] = ex.ts.mk(Term{Op: OIface, Args: []*Term{self}, Aux: T, T: q.Type()})
				}
				if strings.HasSuffix(types.TypeString(q.Type(), nil), "/units.Unit") {
					unit = args[i]
				}
			}
			cl.Cond = func(ex *Exec, st *State, t *Term) (bool, bool) {
				if t.Op == OCmp && (t.Args[0] == old && t.Args[1] == unit || t.Args[0] == unit && t.Args[1] == old) && c.set {
					return j.mode == "same unit", true
				}
				return false, false
			}
			return args
		})
		site := p.fname(j.f) + ", " + c.op
		seen := map[string]bool{}
		for _, o := range res.outs {
			if o.Panic {
				continue
			}
			r.Check(len(o.St.locks) == 0, "unlocked", site, "the lock is released", "the lock is still held")
			acct, _ := o.St.Get("acct", nil)
			for _, e := range o.Ret[len(o.Ret)-1].alts() {
				kind := "?"
				switch {
				case e.isNil():
					kind = "ok"
				case p.isGlobalErr(e, "ErrWrongUnit"):
					kind = "wrong unit"
				case p.isGlobalErr(e, "ErrPathInUse"):
					kind = "path in use"
				}
				seen[kind] = true
				switch j.mode {
				case "unassigned":
					r.Check(kind == "ok" || kind == "path in use", "first", site, "the first registration does not fail for its unit", "returns %v", e)
					r.Check(kind != "ok" || acct == "1", "first", site, "the first registration assigns the unit, once", "a path returns success after %d changes of the distribution", len(acct))
				case "same unit":
					r.Check(kind == "ok" || kind == "path in use", "again", site, "a registration with the same unit does not fail for its unit", "returns %v", e)
				case "other unit":
					r.Check(kind == "wrong unit" || kind == "path in use", "other", site, "a registration with another unit fails", "returns %v", e)
				}
			}
		}
		want := map[string]string{"unassigned": "ok", "same unit": "ok", "other unit": "wrong unit"}[j.mode]
		r.Check(seen[want], "answer", site, "the answer is: "+want, "no path gives this answer")
		for _, s := range res.sections {
			ch := s.changed()
			for _, i := range ch {
				if j.mode == "unassigned" && (i == m.unit || i == m.isSet) {
					continue
				}
				r.Check(false, "frame", site, "field "+m.name(i)+" is left as it was", "changed in %s", s.site)
			}
			for _, a := range s.cnt {
				r.Check(false, "frame", site, "the counters are left as they were", "counter %v changed in %s", a.T, s.site)
			}
			if j.mode == "unassigned" && len(ch) > 0 {
				r.Check(s.fin[m.unit] == unit, "assign", site, "the unit becomes the unit of the registration", "the unit becomes %v", s.fin[m.unit])
				v, isC := s.fin[m.isSet].boolVal()
				r.Check(isC && v, "assign", site, "the unit is marked as assigned in the same critical section", "the mark becomes %v", s.fin[m.isSet])
			}
		}
	})
	// nothing else assigns the unit
	var others []Root
	for _, root := range p.roots("tricorder", "tricorder/...") {
		if !isReg[root.Fn] {
			others = append(others, root)
		}
	}
	r.runRoots(others, func(root Root) *Client {
		return &Client{Event: func(ex *Exec, st *State, ev *Event) {
			if ev.Kind != EvStore || ex.muted > 0 {
				return
			}
			b, i, ok := fieldOf(ev.Addr, m.D)
			if !ok || i != m.unit && i != m.isSet || b.Op == OAlloc {
				return
			}
			r.Check(viaRegistration(ev.Fr, isReg), "assign-once", p.fname(root.Fn), "the unit is assigned only by registrations", "%s assigns %s", r.where(ev), m.name(i))
		}}
	}, nil)
	// values by type and unit
	for _, c := range distCasesOK(m, p) {
		res := runDist(r, m, c)
		if res == nil {
			continue
		}
		ex := res.ex
		var want *Term
		ft := types.Typ[types.Float64]
		switch c.op {
		case "Add":
			want = amountOf(ex, res.args[1], c.unit)
		case "Remove":
			want = ex.ts.Scale(amountOf(ex, res.args[1], c.unit), constant.MakeInt64(-1), ft)
		case "Update":
			want = ex.ts.Add(amountOf(ex, res.args[2], c.unit), amountOf(ex, res.args[1], c.unit), -1, ft)
		}
		i := m.role["Sum"]
		live := false
		for _, o := range res.outs {
			live = live || !o.Panic
		}
		r.Check(live, "accepts", c.String(), "the value is accepted", "no path returns normally")
		for _, s := range res.sections {
			if s.panicking || s.fin[i] == s.init[i] {
				continue
			}
			for _, f := range s.fin[i].alts() {
				d := normAmount(ex, ex.ts.Add(f, s.init[i], -1, ft))
				r.Check(d == normAmount(ex, want), "conversion", c.String(), "the value counts in the unit of the distribution", "the sum changes by %v, expected %v", d, want)
			}
		}
	}
	f64, dur := types.Type(types.Typ[types.Float64]), p.libType("time", "Duration")
	for _, typ := range []string{"CumulativeDistribution", "NonCumulativeDistribution"} {
		for _, op := range []string{"Add", "Update", "Remove"} {
			if op != "Add" && typ[0] != 'N' {
				continue
			}
			for _, c := range []distCase{{vt: f64, vt2: f64}, {vt: dur, vt2: dur}, {vt: dur, vt2: dur, unit: "None", set: true}, {vt: dur, vt2: f64, unit: "Bytes", set: true}, {vt: f64, vt2: dur, unit: "Celsius", set: true}} {
				c.op, c.typ, c.empty, c.notCum = op, typ, 0, typ[0] == 'N'
				if op != "Update" {
					if c.vt == f64 && c.set {
						continue
					}
					c.vt2 = nil
				}
				res := runDist(r, m, c)
				if res == nil {
					continue
				}
				for _, o := range res.outs {
					r.Check(o.Panic, "refuses", c.String(), "the value is refused", "the call returns normally")
				}
			}
		}
	}
}

func viaRegistration(fr *Frame, isReg map[*ssa.Function]bool) bool {
	for f := fr; f != nil; f = f.parent {
		if isReg[f.fn] {
			return true
		}
	}
	return false
}
