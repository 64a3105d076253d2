package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Property{ID: "C32", MinObs: 100, Run: runC32,
		Rule: "the package's initialisation is interpreted for every operating system with a wrapper: each built-in metric that is registered is evaluated the way a reader does (its group's update function is run, then its variable is read or its function is called) with the results of the operating system and the runtime left symbolic, and what comes out must be the documented quantity, scaled to the unit it is registered with"})
}

// builtin is what a built-in metric is documented to report.
type builtin struct {
	unit string
	lin  map[string]int64 // quantity -> factor
	lin2 map[string]int64 // on darwin, if that differs
	call string           // or: the result of a library call
	what func(b *builtins, ex *Exec, st *State, v *Term) bool
}

func one(q string) map[string]int64  { return map[string]int64{q: 1} }
func kilo(q string) map[string]int64 { return map[string]int64{q: 1024} }
func timeval(q string) map[string]int64 {
	return map[string]int64{"rusage." + q + ".Sec": 1000000000, "rusage." + q + ".Usec": 1000}
}

var builtinTable = map[string]builtin{
	"/proc/memory/total":                   {unit: "Byte", lin: map[string]int64{"memstats.Sys": 1, "memstats.HeapReleased": -1}},
	"/proc/cpu/user":                       {unit: "Second", lin: timeval("Utime")},
	"/proc/cpu/sys":                        {unit: "Second", lin: timeval("Stime")},
	"/proc/go/num-goroutines":              {unit: "None", lin: one("goroutines")},
	"/proc/go/version":                     {unit: "None", call: "runtime.Version"},
	"/proc/memory/max-resident-set-size":   {unit: "Byte", lin: kilo("rusage.Maxrss"), lin2: one("rusage.Maxrss")},
	"/proc/memory/shared":                  {unit: "Byte", lin: kilo("rusage.Ixrss"), lin2: one("rusage.Ixrss")},
	"/proc/memory/unshared-data":           {unit: "Byte", lin: kilo("rusage.Idrss"), lin2: one("rusage.Idrss")},
	"/proc/memory/unshared-stack":          {unit: "Byte", lin: kilo("rusage.Isrss"), lin2: one("rusage.Isrss")},
	"/proc/memory/soft-page-fault":         {unit: "None", lin: one("rusage.Minflt")},
	"/proc/memory/hard-page-fault":         {unit: "None", lin: one("rusage.Majflt")},
	"/proc/memory/swaps":                   {unit: "None", lin: one("rusage.Nswap")},
	"/proc/io/input":                       {unit: "None", lin: one("rusage.Inblock")},
	"/proc/io/output":                      {unit: "None", lin: one("rusage.Oublock")},
	"/proc/ipc/sent":                       {unit: "None", lin: one("rusage.Msgsnd")},
	"/proc/ipc/received":                   {unit: "None", lin: one("rusage.Msgrcv")},
	"/proc/signals/received":               {unit: "None", lin: one("rusage.Nsignals")},
	"/proc/scheduler/involuntary-switches": {unit: "None", lin: one("rusage.Nivcsw")},
	"/proc/scheduler/voluntary-switches":   {unit: "None", lin: one("rusage.Nvcsw")},
	"/proc/io/num-open-file-descriptors":   {unit: "None", what: (*builtins).openFiles},
	"/proc/name":                           {unit: "None", what: (*builtins).programName},
	"/proc/args":                           {unit: "None", what: (*builtins).programArgs},
	"/proc/start-time":                     {unit: "None", call: "time.Now"},
}

type builtinReg struct {
	path, spec, group, unit *Term
	where                   string
	st                      *State
}

type builtins struct {
	r      *Report
	regs   []builtinReg
	update map[*Term]*Term
	dirs   map[*Term]string
	skip   map[*ssa.Function]string
	phase  string
}

func (b *builtins) hook(c *Client) {
	inline := c.Inline
	c.Inline = func(f *ssa.Function) bool {
		return b.skip[f] == "" && (inline == nil || inline(f))
	}
	c.Ext = func(ex *Exec, cc *callCtx) ([]Outcome, bool) {
		st := cc.st
		ret := func(ts ...*Term) ([]Outcome, bool) { return []Outcome{{St: st, Ret: ts}}, true }
		errT := types.Universe.Lookup("error").Type()
		if cc.fn != nil && b.skip[cc.fn] != "" {
			a := cc.args
			switch b.skip[cc.fn] {
			case "NewGroup":
				return ret(ex.unknownResults(cc.fn.Signature, "NewGroup", ex.site(cc.fr, cc.in), nil)...)
			case "Update":
				b.update[a[0]] = a[1]
				return ret()
			case "Metric":
				b.add(ex, st, cc, "", a[0], a[1], nil, a[2])
				return ret(ex.ts.Nil(errT))
			case "MetricInGroup":
				b.add(ex, st, cc, "", a[0], a[1], a[2], a[3])
				return ret(ex.ts.Nil(errT))
			case "GroupMetric":
				b.add(ex, st, cc, "", a[1], a[2], a[0], a[3])
				return ret(ex.ts.Nil(errT))
			case "DirMetric":
				b.add(ex, st, cc, b.dirs[a[0]], a[1], a[2], nil, a[3])
				return ret(ex.ts.Nil(errT))
			case "DirMetricInGroup":
				b.add(ex, st, cc, b.dirs[a[0]], a[1], a[2], a[3], a[4])
				return ret(ex.ts.Nil(errT))
			case "Directory", "DirDirectory":
				rs := ex.unknownResults(cc.fn.Signature, "directory", ex.site(cc.fr, cc.in), nil)
				base := ""
				path := a[0]
				if b.skip[cc.fn] == "DirDirectory" {
					base, path = b.dirs[a[0]], a[1]
				}
				if s, ok := ex.Resolve(st, path).strVal(); ok {
					b.dirs[rs[0]] = base + "/" + strings.Trim(s, "/")
				}
				return ret(rs[0], ex.ts.Nil(errT))
			}
		}
		switch cc.name {
		case "runtime.NumGoroutine":
			return ret(ex.ts.Sym(b.phase+"goroutines", types.Typ[types.Int]))
		case "runtime.ReadMemStats":
			b.fill(ex, st, cc.args[0], "memstats")
			return ret()
		case "syscall.Getrusage":
			who := int64(0) // of this process
			w, ok := cc.args[0].intVal()
			q := "rusage"
			if !ok || w != who {
				q = fmt.Sprintf("rusage of %v", cc.args[0])
			}
			failed := st.clone()
			failed.Set("failed", nil, "")
			rs := ex.unknownResults(cc.common.Signature(), cc.name, ex.site(cc.fr, cc.in), nil)
			ex.noteNonNil(failed, rs[0])
			b.fill(ex, st, cc.args[1], q)
			return []Outcome{{St: st, Ret: []*Term{ex.ts.Nil(errT)}}, {St: failed, Ret: rs}}, true
		case "os.Open", "os.ReadDir", "io/ioutil.ReadDir":
			if s, ok := ex.Resolve(st, cc.args[0]).strVal(); ok {
				st.Set("opened", nil, s)
			}
		}
		return nil, false
	}
}

// fill: a library function fills in a struct.
func (b *builtins) fill(ex *Exec, st *State, p *Term, name string) {
	T := derefType(p.T)
	ex.Store(st, p, b.filled(ex, T, b.phase+name), T, name)
}

func (b *builtins) filled(ex *Exec, T types.Type, name string) *Term {
	s := structUnder(T)
	if s == nil {
		return ex.ts.Sym(name, T)
	}
	var args []*Term
	for i := 0; i < s.NumFields(); i++ {
		args = append(args, b.filled(ex, s.Field(i).Type(), name+"."+s.Field(i).Name()))
	}
	return ex.structOf(args, T)
}

func (b *builtins) add(ex *Exec, st *State, cc *callCtx, dir string, path, spec, group, unit *Term) {
	if ex.muted > 0 {
		return
	}
	if dir != "" {
		if s, ok := ex.Resolve(st, path).strVal(); ok {
			path = ex.ts.Str(dir + "/" + strings.Trim(s, "/"))
		}
	}
	reg := builtinReg{path, spec, group, unit, b.r.P.Pos(cc.in.Pos()), st.clone()}
	// one call in a loop over a table stands for the entries of the table
	var L, j *Term
	path.anyTerm(func(x *Term) bool {
		if x.Op == OElem {
			x.Args[1].anyTerm(func(y *Term) bool {
				if y.Op == OJoin {
					L, j = x.Args[0], y
				}
				return j != nil
			})
		}
		return j != nil
	})
	if j == nil {
		b.regs = append(b.regs, reg)
		return
	}
	n, ok := ex.lenOf(st, L, false, types.Typ[types.Int]).intVal()
	if L.T != nil {
		if at, isA := derefType(L.T).Underlying().(*types.Array); isA {
			n, ok = at.Len(), true
		}
	}
	if !ok || n > 1000 {
		b.regs = append(b.regs, reg)
		return
	}
	idx := func(t *Term, k int64) *Term {
		if t == nil {
			return nil
		}
		var f func(t *Term) *Term
		f = func(t *Term) *Term {
			switch {
			case t.Op == OElem && t.Args[0] == L && t.Args[1].contains(j):
				return ex.elemAddr(L, ex.ts.Int(k), t.T)
			case t.Op == OField:
				return ex.ts.Field(f(t.Args[0]), t.I, t.T)
			case t.Op == OLoad:
				if a := f(t.Args[0]); a != t.Args[0] {
					return ex.Load(st, a, t.T)
				}
			case len(t.Args) == 1:
				if a := f(t.Args[0]); a != t.Args[0] {
					c := *t
					c.Args = []*Term{a}
					return ex.ts.mk(c)
				}
			}
			return t
		}
		return f(t)
	}
	for k := int64(0); k < n; k++ {
		b.regs = append(b.regs, builtinReg{idx(path, k), idx(spec, k), idx(group, k), idx(unit, k), reg.where, reg.st})
	}
}

// linear: v as a sum of quantities.
func (b *builtins) linear(ex *Exec, v *Term) map[*Term]constant.Value {
	r := map[*Term]constant.Value{}
	var add func(t *Term, c constant.Value, depth int)
	add = func(t *Term, c constant.Value, depth int) {
		l := ex.ts.toLin(t)
		if constant.Sign(l.c) != 0 {
			r[nil] = l.c
		}
		for k, d := range l.terms {
			d = constant.BinaryOp(c, token.MUL, d)
			if depth < 20 && k.Op == OConv && len(k.Args) == 1 && isInteger(k.T) && k.Args[0].T != nil && isInteger(k.Args[0].T) && sizeOf(k.T) >= sizeOf(k.Args[0].T) {
				add(k.Args[0], d, depth+1)
				continue
			}
			if depth < 20 && k.Op == OBin && k.Aux == token.SHL {
				if s, ok := k.Args[1].intVal(); ok && s >= 0 && s < 62 {
					add(k.Args[0], constant.BinaryOp(d, token.MUL, constant.MakeInt64(1<<uint(s))), depth+1)
					continue
				}
			}
			if o, ok := r[k]; ok {
				d = constant.BinaryOp(o, token.ADD, d)
			}
			r[k] = d
		}
	}
	add(v, constant.MakeInt64(1), 0)
	return r
}

func (b *builtins) isLinear(ex *Exec, v *Term, want map[string]int64) bool {
	got := b.linear(ex, v)
	if len(got) != len(want) {
		return false
	}
	for k, c := range got {
		if k == nil || k.Op != OSym {
			return false
		}
		w, ok := want[k.S]
		if !ok || !constant.Compare(c, token.EQL, constant.MakeInt64(w)) {
			return false
		}
	}
	return true
}

func mentions(t *Term, g string) bool {
	return t.anyTerm(func(x *Term) bool { return x.Op == OGlobal && strings.HasSuffix(fmt.Sprint(x.Aux), g) })
}

func (b *builtins) openFiles(ex *Exec, st *State, v *Term) bool {
	if n, ok := v.intVal(); ok {
		return n == -1
	}
	dir, _ := st.Get("opened", nil)
	return dir == "/proc/self/fd" && v.Op == OLen && v.anyTerm(func(x *Term) bool {
		return x.Op == OCall && strings.Contains(strings.ToLower(fmt.Sprint(x.Aux)), "readdir")
	})
}

func (b *builtins) programName(ex *Exec, st *State, v *Term) bool {
	return v.Op == OLoad && v.Args[0].Op == OElem && v.Args[0].Args[1] == ex.ts.Int(0) && mentions(v.Args[0].Args[0], "os.Args")
}

func (b *builtins) programArgs(ex *Exec, st *State, v *Term) bool {
	return mentions(v, "os.Args") && !b.programName(ex, st, v)
}

func runC32(r *Report) {
	p0 := r.P
	defer func() { r.P = p0 }()
	b := &builtins{r: r}
	b.run("linux")
	p, err := Load(p0.Repo, "darwin")
	if r.Check(err == nil, "load", "darwin", "the program type-checks for darwin", "%v", err) {
		r.P = p
		b.run("darwin")
	}
}

func (b *builtins) run(goos string) {
	r, p := b.r, b.r.P
	b.regs, b.update, b.dirs = nil, map[*Term]*Term{}, map[*Term]string{}
	b.skip = map[*ssa.Function]string{}
	put := func(f *ssa.Function, s string) {
		if r.Need(f != nil, s) {
			b.skip[f] = s
		}
	}
	put(p.Func("tricorder", "NewGroup"), "NewGroup")
	put(p.Func("tricorder", "RegisterMetric"), "Metric")
	put(p.Func("tricorder", "RegisterMetricInGroup"), "MetricInGroup")
	put(p.Func("tricorder", "RegisterDirectory"), "Directory")
	put(p.Method("tricorder", "Group", "RegisterUpdateFunc"), "Update")
	put(p.Method("tricorder", "Group", "RegisterMetric"), "GroupMetric")
	put(p.Method("tricorder", "DirectorySpec", "RegisterMetric"), "DirMetric")
	put(p.Method("tricorder", "DirectorySpec", "RegisterMetricInGroup"), "DirMetricInGroup")
	put(p.Method("tricorder", "DirectorySpec", "RegisterDirectory"), "DirDirectory")
	b.phase = "initially, "
	ex, st0, _ := r.initRunWith("tricorder", nil, nil, nil, b.hook)
	if ex == nil || st0 == nil {
		return
	}
	b.phase = ""
	r.Ran(ex, "initialisation on "+goos)
	units := map[string]string{}
	up := p.Pkg("tricorder/units")
	if !r.Need(up != nil, "package units") {
		return
	}
	for _, n := range []string{"None", "Byte", "Second"} {
		if c, ok := up.Members[n].(*ssa.NamedConst); ok {
			units[n] = constant.StringVal(c.Value.Value)
		}
	}
	seen := map[string]int{}
	values := 0
	for _, g := range b.regs {
		path, ok := ex.Resolve(g.st, g.path).strVal()
		if !r.Check(ok, "registered", g.where, "the path of a built-in metric is known", "it is %v", g.path) {
			continue
		}
		path = "/" + strings.Trim(path, "/")
		want, ok := builtinTable[path]
		if !ok {
			continue
		}
		seen[path]++
		label := goos + ": " + path
		u, ok := ex.Resolve(g.st, g.unit).strVal()
		r.Check(ok && u == units[want.unit], "unit", label, "it is registered with the unit it is documented with", "with %v", g.unit)
		// a reader has the group brought up to date first
		sts := []*State{st0}
		if g.group != nil {
			if f := b.update[ex.Resolve(g.st, g.group)]; f != nil {
				sts = nil
				for _, o := range b.call(ex, label+": update", f, st0.clone()) {
					if !o.Panic {
						sts = append(sts, o.St)
					}
				}
			}
		}
		for _, st := range sts {
			spec := listBase(g.spec)
			if _, bad := st.Get("failed", nil); bad {
				continue // the operating system refused
			}
			var vals []Outcome
			if pt, ok := spec.T.Underlying().(*types.Pointer); ok {
				vals = []Outcome{{St: st, Ret: []*Term{ex.Load(st, spec, pt.Elem())}}}
			} else {
				vals = b.call(ex, label+": callback", spec, st.clone())
			}
			for _, o := range vals {
				if o.Panic || len(o.Ret) != 1 {
					continue
				}
				if _, bad := o.St.Get("failed", nil); bad {
					continue
				}
				v := ex.Resolve(o.St, o.Ret[0])
				lin := want.lin
				if goos == "darwin" && want.lin2 != nil {
					lin = want.lin2
				}
				for _, v := range v.alts() {
					values++
					switch {
					case lin != nil:
						good := b.isLinear(ex, v, lin)
						if !good && path == "/proc/memory/total" {
							// more was released than obtained: as before
							s, h := b.sym(ex, o.St, "memstats.Sys"), b.sym(ex, o.St, "memstats.HeapReleased")
							if s != nil && h != nil {
								less, ok := ex.truth(o.St, ex.ts.Cmp(token.LSS, s, h, s.T))
								good = ok && less || ok == false && len(v.alts()) > 1
							}
						}
						r.Check(good, "quantity", label, "it reports what it is documented to report", "it reports %v, not %v", v, lin)
					case want.call != "":
						r.Check(v.anyTerm(func(x *Term) bool { return x.Op == OCall && x.Aux == want.call }), "quantity", label, "it reports what it is documented to report", "it reports %v, not %s()", v, want.call)
					default:
						r.Check(want.what(b, ex, o.St, v), "quantity", label, "it reports what it is documented to report", "it reports %v", v)
					}
				}
			}
		}
	}
	for _, path := range sortedKeys(builtinTable) {
		if goos == "darwin" && path == "/proc/io/num-open-file-descriptors" {
			continue
		}
		r.Check(seen[path] > 0, "registered", goos+": "+path, "it is registered", "it is not")
	}
	r.Min("values of built-in metrics on "+goos, 20, values)
}

func (b *builtins) sym(ex *Exec, st *State, name string) *Term {
	for f := range st.facts {
		var r *Term
		f.anyTerm(func(x *Term) bool {
			if x.Op == OSym && x.S == name {
				r = x
			}
			return r != nil
		})
		if r != nil {
			return r
		}
	}
	return nil
}

// call calls a function value.
func (b *builtins) call(ex *Exec, label string, f *Term, st *State) []Outcome {
	fin := b.r.P.Pkg("tricorder").Func("init")
	outs := ex.RunWith(label, func(st *State) []Outcome {
		return ex.callValue(ex.entryCtx(label, fin, nil, st), f)
	}, st)
	b.r.Check(ex.err == "" && len(outs) > 0, "converges", label, "the function is analysed", "%s", ex.err)
	return outs
}
