package main

import (
	"go/token"
	"go/types"
	"strings"
)

// sweeps collects what every completed iteration of a loop did. A rule notes
// what happens in an iteration as a must-atom whose term mentions the loop's
// index; what is noted on every way around the loop was done for every index
// the loop went through.
type sweeps struct {
	done map[string]map[string]Atom // loop -> notes present on every back edge
}

func newSweeps() *sweeps { return &sweeps{done: map[string]map[string]Atom{}} }

const sweepMark = "sw:"

// note records in st that the current iteration did kind on t (value v).
func (s *sweeps) note(st *State, kind string, t *Term, v string) {
	st.SetMust(sweepMark+kind, t, v)
}

func loopOf(j *Term) string { return j.S[:strings.LastIndex(j.S, ":")] }

// back is the rule's Back hook.
func (s *sweeps) back(ex *Exec, st *State, next func(j *Term) *Term) {
	place := ""
	mentions := func(t *Term) bool {
		return t.anyTerm(func(x *Term) bool {
			if x.Op == OJoin && strings.Contains(x.S, ":") && next(x) != nil {
				place = loopOf(x)
				return true
			}
			return false
		})
	}
	cur := map[string]map[string]Atom{}
	for k, a := range st.must {
		if !strings.HasPrefix(a.K, sweepMark) || a.T == nil {
			continue
		}
		place = ""
		if mentions(a.T) {
			if cur[place] == nil {
				cur[place] = map[string]Atom{}
			}
			cur[place][k] = a
			delete(st.must, k)
		}
	}
	if ex.muted > 0 {
		return
	}
	// every loop whose joins are re-bound here, also without any note
	for j := range ex.joins {
		if j.Op == OJoin && strings.Contains(j.S, ":") && next(j) != nil {
			pl := loopOf(j)
			if cur[pl] == nil {
				cur[pl] = map[string]Atom{}
			}
		}
	}
	for pl, c := range cur {
		d, ok := s.done[pl]
		if !ok {
			s.done[pl] = c
			continue
		}
		for k := range d {
			if _, ok := c[k]; !ok {
				delete(d, k)
			}
		}
	}
}

// notes lists the notes of that kind that every iteration of some loop made.
func (s *sweeps) notes(kind string) []Atom {
	var r []Atom
	for _, d := range s.done {
		for _, a := range d {
			if a.K == sweepMark+kind {
				r = append(r, a)
			}
		}
	}
	return r
}

// indexOf splits an index into the loop variable it is and a constant.
func (ex *Exec) indexOf(idx *Term) (j *Term, off int64, ok bool) {
	if idx.Op == OJoin {
		return idx, 0, true
	}
	for x := range ex.joins {
		if idx.contains(x) {
			d := ex.ts.Add(idx, x, -1, types.Typ[types.Int])
			if c, isC := d.intVal(); isC {
				return x, c, true
			}
		}
	}
	return nil, 0, false
}

// stepsUp: the loop variable behind idx starts so that idx is lo and is
// incremented by one on every way around.
func (ex *Exec) stepsUp(idx *Term, lo int64) bool {
	j, off, ok := ex.indexOf(idx)
	if !ok || ex.joins[j] == nil {
		return false
	}
	init, step := false, false
	for v := range ex.joins[j].final {
		if c, isC := v.intVal(); isC && c+off == lo {
			init = true
		} else if d := ex.ts.Add(v, j, -1, types.Typ[types.Int]); d.isConst() {
			if c, isC := d.intVal(); !isC || c != 1 {
				return false
			}
			step = true
		} else {
			return false
		}
	}
	return init && step
}

// sweptDown: in st, after the loop, idx went through n-1..0.
func (ex *Exec) sweptDown(st *State, idx, n *Term) bool {
	it := types.Type(types.Typ[types.Int])
	j, off, ok := ex.indexOf(idx)
	if !ok || ex.joins[j] == nil {
		return false
	}
	init, step := false, false
	for v := range ex.joins[j].final {
		if c, isC := ex.ts.Add(v, j, -1, it).intVal(); isC {
			if c != -1 {
				return false
			}
			step = true
		} else if c, isC := ex.ts.Add(v, n, -1, it).intVal(); isC && c+off == -1 {
			init = true
		} else {
			return false
		}
	}
	if !init || !step {
		return false
	}
	v, ok := ex.truth(st, ex.ts.Cmp(token.LSS, idx, ex.ts.Int(0), it))
	return ok && v
}

// swept: in st, after the loop, idx went through 0..n-1.
func (ex *Exec) swept(st *State, idx, n *Term) bool {
	if !ex.stepsUp(idx, 0) {
		return false
	}
	v, ok := ex.truth(st, ex.ts.Cmp(token.LSS, idx, n, types.Typ[types.Int]))
	return ok && !v
}
