package main

import (
	"fmt"
	"go/token"
	"strings"
)

func init() {
	register(&Property{ID: "C36", MinObs: 5, Run: runC36,
		Rule: "the client's main function is interpreted with each remote call succeeding or failing: the variable a reply is decoded into holds nothing of another reply; what a failed call left behind is never written to standard output; at the end of the program, and where it gives up, everything that was received has been written there"})
}

// replies follows what the client received.
type replies struct {
	r    *Report
	objs map[int]*Term
	n    int
}

// of: the replies that t is made of.
func (c *replies) of(st *State, t *Term) map[*Term]bool {
	found := map[*Term]bool{}
	seen := map[*Term]bool{}
	var visit func(t *Term)
	visit = func(t *Term) {
		if t == nil || seen[t] {
			return
		}
		seen[t] = true
		if t.Op == OAlloc {
			if _, ok := st.Get("reply", t); ok {
				found[t] = true
			}
			for id, o := range c.objs {
				if _, ok := st.Get(fmt.Sprintf("carries %d", id), t); ok {
					found[o] = true
				}
			}
			for a, v := range st.mem {
				if objOf(a) == t {
					visit(v)
				}
			}
		}
		for _, a := range t.Args {
			visit(a)
		}
	}
	visit(t)
	return found
}

// roots: the objects an argument gives access to.
func allocsIn(t *Term, into map[*Term]bool) {
	t.anyTerm(func(x *Term) bool {
		if x.Op == OAlloc {
			into[x] = true
		}
		return false
	})
}

func isStdout(t *Term) bool {
	return t.anyTerm(func(x *Term) bool {
		return x.Op == OGlobal && strings.HasSuffix(fmt.Sprint(x.Aux), "os.Stdout")
	})
}

func (c *replies) client() *Client {
	r := c.r
	cl := &Client{}
	cl.Ext = func(ex *Exec, cc *callCtx) ([]Outcome, bool) {
		st := cc.st
		where := r.P.Pos(cc.in.Pos())
		if cc.name == "(*net/rpc.Client).Call" && len(cc.args) == 4 {
			obj := objOf(listBase(cc.args[3]))
			if ex.muted == 0 {
				c.n++
				r.Check(obj.Op == OAlloc, "own", where, "a reply is decoded into a variable of its own", "into %v", obj)
				v, used := st.Get("reply", obj)
				r.Check(!used, "own", where, "a reply is decoded into storage that no other reply has touched", "the reply before it %s", map[string]string{"got": "is still there", "printed": "is still there", "failed": "failed"}[v])
				other := ""
				for a, v := range st.mem {
					if objOf(a) == obj {
						for o := range c.of(st, v) {
							other = o.String()
						}
					}
				}
				r.Check(other == "", "own", where, "a reply is decoded into storage that no other reply has touched", "it holds parts of %s", other)
			}
			c.objs[obj.id] = obj
			site := ex.site(cc.fr, cc.in)
			ex.havocReach(st, obj, site)
			rs := ex.unknownResults(cc.common.Signature(), cc.name, site, nil)
			ex.regen(st, rs[0])
			bad := st.clone()
			bad.Set("reply", obj, "failed")
			ex.noteNonNil(bad, rs[0])
			st.Set("reply", obj, "got")
			return []Outcome{{St: st, Ret: []*Term{ex.ts.Nil(rs[0].T)}}, {St: bad, Ret: rs}}, true
		}
		carried := map[*Term]bool{}
		out := cc.name == "fmt.Print" || cc.name == "fmt.Println" || cc.name == "fmt.Printf"
		for _, a := range cc.args {
			for o := range c.of(st, a) {
				carried[o] = true
			}
			out = out || isStdout(a)
		}
		if noReturnExt[cc.name] && ex.muted == 0 {
			c.end(ex, st, where)
		}
		if len(carried) == 0 {
			return nil, false
		}
		if out {
			for o := range carried {
				v, _ := st.Get("reply", o)
				if ex.muted == 0 {
					r.Check(v != "failed", "failed", where, "what a failed call leaves behind is not printed", "%v is", o)
				}
				if v == "got" {
					st.Set("reply", o, "printed")
				}
			}
			return nil, false
		}
		// what is handed the reply along with it may hold it from now on
		with := map[*Term]bool{}
		for _, a := range cc.args {
			allocsIn(a, with)
		}
		for w := range with {
			if _, ok := st.Get("reply", w); ok {
				continue
			}
			for o := range carried {
				st.Set(fmt.Sprintf("carries %d", o.id), w, "")
			}
		}
		return nil, false
	}
	return cl
}

// end: the program ends in st.
func (c *replies) end(ex *Exec, st *State, where string) {
	for _, a := range st.X {
		if a.K != "reply" || a.V != "got" {
			continue
		}
		unfit := false // one could not be encoded
		for f, v := range st.facts {
			if !v && f.Op == OCmp && f.Aux == token.EQL && f.anyTerm(func(x *Term) bool { return c.objs[x.id] == x && x.Op == OAlloc }) {
				unfit = true
			}
		}
		c.r.Check(unfit, "printed", where, "every reply is printed to standard output", "%v is not", a.T)
	}
	c.r.Check(true, "printed", where, "every reply is printed to standard output", "")
}

func runC36(r *Report) {
	p := r.P
	main := p.Func("tricorderclient", "main")
	if !r.Need(main != nil, "the client's main function") {
		return
	}
	c := &replies{r: r, objs: map[int]*Term{}}
	ex := NewExec(p, c.client())
	outs := ex.Run(main, nil, nil, newState())
	r.Ran(ex, "the client")
	r.Check(ex.err == "" && len(outs) > 0, "converges", "main", "the client is analysed", "%s", ex.err)
	for _, o := range outs {
		if !o.Panic {
			c.end(ex, o.St, "the end of main")
		}
	}
	r.Min("remote calls", 1, c.n)
}
