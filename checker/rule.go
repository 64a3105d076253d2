package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"
	"sync"

	"golang.org/x/tools/go/ssa"
)

// Ob is one proof obligation: a rule applied to a construct.
type Ob struct {
	Rule   string `json:"rule"`
	Site   string `json:"site"`
	What   string `json:"what"`
	OK     bool   `json:"ok"`
	Detail string `json:"detail,omitempty"`
}

// Report collects the obligations of one property.
type Report struct {
	Prop    string
	P       *Program
	mu      sync.Mutex
	obs     map[string]*Ob
	funcs   map[string]bool
	sites   map[string]bool
	steps   int
	runs    int
	notes   []string
	configs []string
}

func newReport(id string, p *Program) *Report {
	return &Report{Prop: id, P: p, obs: map[string]*Ob{}, funcs: map[string]bool{}, sites: map[string]bool{}}
}

// Check records an obligation. The same obligation met several times (in
// several contexts) counts once and fails if it fails anywhere.
func (r *Report) Check(ok bool, rule, site, what string, detail string, a ...any) bool {
	r.mu.Lock()
	defer r.mu.Unlock()
	k := rule + "|" + site + "|" + what
	o := r.obs[k]
	if o == nil {
		o = &Ob{Rule: rule, Site: site, What: what, OK: true}
		r.obs[k] = o
	}
	if !ok && o.OK {
		o.OK = false
		o.Detail = fmt.Sprintf(detail, a...)
	}
	return ok
}

// Need is an obligation that an anchor of the property can be resolved.
func (r *Report) Need(ok bool, what string) bool {
	return r.Check(ok, "anchor", "-", what, "the code that provides this could not be identified: %s", what)
}

// Min is an obligation that a rule found at least n instances.
func (r *Report) Min(rule string, n, got int) {
	r.Check(got >= n, "coverage", "-", rule, "rule %q was applied to %d constructs; at least %d were confirmed by hand", rule, got, n)
}

// Ran records the outcome of one interpreter run.
func (r *Report) Ran(ex *Exec, root string) {
	r.mu.Lock()
	for f := range ex.seenFn {
		r.funcs[f.String()] = true
	}
	for s := range ex.seenSite {
		r.sites[r.P.InstrPos(s)] = true
	}
	r.steps += ex.steps
	r.runs++
	r.mu.Unlock()
	r.Check(ex.err == "", "converges", root, "the analysis of this entry point reaches a fixpoint", "%s", ex.err)
}

func (r *Report) Violations() []*Ob {
	var v []*Ob
	for _, o := range r.obs {
		if !o.OK {
			v = append(v, o)
		}
	}
	sort.Slice(v, func(i, j int) bool {
		if v[i].Rule != v[j].Rule {
			return v[i].Rule < v[j].Rule
		}
		return v[i].Site+v[i].What < v[j].Site+v[j].What
	})
	return v
}

// --- resolving entry points ---------------------------------------------------

func (p *Program) Func(pkg, name string) *ssa.Function {
	sp := p.Pkg(pkg)
	if sp == nil {
		return nil
	}
	return sp.Func(name)
}

func (p *Program) Named(pkg, name string) *types.Named {
	sp := p.Pkg(pkg)
	if sp == nil {
		return nil
	}
	tn, _ := sp.Pkg.Scope().Lookup(name).(*types.TypeName)
	if tn == nil {
		return nil
	}
	n, _ := types.Unalias(tn.Type()).(*types.Named)
	return n
}

// Method finds a method by the exported type it belongs to.
func (p *Program) Method(pkg, typ, name string) *ssa.Function {
	n := p.Named(pkg, typ)
	if n == nil {
		return nil
	}
	for _, t := range []types.Type{n, types.NewPointer(n)} {
		if sel := p.Prog.MethodSets.MethodSet(t).Lookup(n.Obj().Pkg(), name); sel != nil {
			return p.Prog.MethodValue(sel)
		}
	}
	return nil
}

// short names a function without the module prefix.
func short(s string) string {
	return strings.ReplaceAll(strings.ReplaceAll(s, modPrefix+"/go/", ""), "tricorder/", "")
}

func (p *Program) fname(f *ssa.Function) string {
	if f == nil {
		return "-"
	}
	return short(f.String())
}

// where names the construct an event belongs to: function plus operation, not
// the line, so that obligations are stable.
func (r *Report) where(ev *Event) string {
	return fmt.Sprintf("%s (%s)", r.P.fname(ev.Fr.fn), r.P.InstrPos(ev.Instr))
}

// isOf: t is (a pointer to) a type sharing the struct of n.
func sameStruct(t types.Type, n *types.Named) bool {
	if t == nil || n == nil {
		return false
	}
	d := derefType(t)
	if _, ok := d.Underlying().(*types.Struct); !ok {
		return false
	}
	return structKey(d) == structKey(n)
}

// fieldOf: addr is field i of an object with n's struct.
func fieldOf(addr *Term, n *types.Named) (base *Term, i int, ok bool) {
	if addr.Op != OField || !sameStruct(addr.Args[0].T, n) {
		return nil, 0, false
	}
	return addr.Args[0], addr.I, true
}

func structOf(n *types.Named) *types.Struct {
	s, _ := n.Underlying().(*types.Struct)
	return s
}

func fieldIdx(n *types.Named, name string) int {
	if n == nil {
		return -1
	}
	s := structOf(n)
	if s == nil {
		return -1
	}
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Name() == name {
			return i
		}
	}
	return -1
}

func nthField(n *types.Named, i int) string {
	if s := structOf(n); s != nil && i >= 0 && i < s.NumFields() {
		return s.Field(i).Name()
	}
	return "?"
}

// params makes symbolic arguments for a function, overridden by name order.
func (ex *Exec) symArgs(f *ssa.Function, over ...*Term) []*Term {
	var as []*Term
	for i, p := range f.Params {
		if i < len(over) && over[i] != nil {
			as = append(as, over[i])
			continue
		}
		as = append(as, ex.ts.Sym("param:"+p.Name(), p.Type()))
	}
	return as
}

func sortedStrings(s []string) []string {
	sort.Strings(s)
	return s
}

func sortedKeys[V any](m map[string]V) []string {
	var s []string
	for k := range m {
		s = append(s, k)
	}
	return sortedStrings(s)
}
