package main

import (
	"fmt"
	"go/types"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"sync"

	"golang.org/x/tools/go/ssa"
)

// Root is a place where other code or another goroutine enters the repository.
type Root struct {
	Fn   *ssa.Function
	Kind string // api, handler, rpc, main, go
	Fvs  []*Term
}

func isHandlerSig(s *types.Signature) bool {
	return s.Params().Len() == 2 && types.TypeString(s.Params().At(0).Type(), nil) == "net/http.ResponseWriter" &&
		types.TypeString(s.Params().At(1).Type(), nil) == "*net/http.Request"
}

func isRPCSig(s *types.Signature) bool {
	if s.Recv() == nil || s.Params().Len() != 2 || s.Results().Len() != 1 || !isErrorType(s.Results().At(0).Type()) {
		return false
	}
	if _, ok := s.Params().At(1).Type().(*types.Pointer); !ok {
		return false
	}
	// net/rpc serves only methods whose argument types are exported or builtin
	for i := 0; i < 2; i++ {
		switch t := types.Unalias(derefType(s.Params().At(i).Type())).(type) {
		case *types.Named:
			if t.Obj().Pkg() != nil && !t.Obj().Exported() {
				return false
			}
		}
	}
	return true
}

// roots lists the entry points of the packages whose path (below go/) has one
// of the given prefixes.
func (p *Program) roots(prefixes ...string) []Root {
	var rs []Root
	for _, f := range p.funcs {
		if f.Synthetic != "" && f.Name() != "init" || f.Pkg == nil && f.Parent() == nil {
			continue
		}
		pkg := f.Pkg
		rel := strings.TrimPrefix(pkg.Pkg.Path(), modPrefix+"/go/")
		hit := false
		for _, x := range prefixes {
			if rel == x || strings.HasSuffix(x, "/...") && (rel+"/" == strings.TrimSuffix(x, "...") || strings.HasPrefix(rel, strings.TrimSuffix(x, "..."))) {
				hit = true
			}
		}
		if !hit {
			continue
		}
		kind := ""
		switch {
		case f.Parent() != nil:
			if isHandlerSig(f.Signature) {
				kind = "handler"
			}
		case pkg.Pkg.Name() == "main":
			if f.Name() == "main" {
				kind = "main"
			}
		case f.Signature.Recv() == nil && ast_IsExported(f.Name()):
			kind = "api"
		case f.Signature.Recv() != nil && ast_IsExported(f.Name()) && exportedRecv(f):
			kind = "api"
		case isHandlerSig(f.Signature) && (p.usedAsVal[f] || f.Name() == "ServeHTTP"):
			kind = "handler"
		case isRPCSig(f.Signature) && ast_IsExported(f.Name()):
			kind = "rpc"
		}
		if kind != "" {
			rs = append(rs, Root{Fn: f, Kind: kind})
		}
	}
	sort.Slice(rs, func(i, j int) bool { return rs[i].Fn.String() < rs[j].Fn.String() })
	return rs
}

func exportedRecv(f *ssa.Function) bool {
	t := f.Signature.Recv().Type()
	n, ok := types.Unalias(derefType(t)).(*types.Named)
	return ok && n.Obj().Exported()
}

// runRoots interprets every root, then every goroutine they start (once per
// function), with the client's rule.
func (r *Report) runRoots(rs []Root, mk func(root Root) *Client, atExit func(ex *Exec, root Root, outs []Outcome)) {
	seen := map[*ssa.Function]bool{}
	var mu sync.Mutex
	var wg sync.WaitGroup
	sem := make(chan struct{}, runtime.NumCPU())
	var crash any
	var start func(root Root)
	start = func(root Root) {
		mu.Lock()
		if seen[root.Fn] {
			mu.Unlock()
			return
		}
		seen[root.Fn] = true
		mu.Unlock()
		wg.Add(1)
		go func() {
			defer wg.Done()
			sem <- struct{}{}
			defer func() { <-sem }()
			defer func() {
				if x := recover(); x != nil {
					mu.Lock()
					if crash == nil {
						crash = fmt.Sprintf("%v in %s\n%s", x, root.Fn, debug.Stack())
					}
					mu.Unlock()
				}
			}()
			c := mk(root)
			inner := c.Event
			var found []Root
			c.Event = func(ex *Exec, st *State, ev *Event) {
				if ev.Kind == EvGo {
					fn := ev.Fn
					if fn == nil && ev.Val != nil && (ev.Val.Op == OClosure || ev.Val.Op == OFunc) {
						fn, _ = ev.Val.Aux.(*ssa.Function)
					}
					if fn != nil && fn.Blocks != nil {
						found = append(found, Root{Fn: fn, Kind: "go"})
					}
				}
				if inner != nil {
					inner(ex, st, ev)
				}
			}
			ex := NewExec(r.P, c)
			outs := ex.Run(root.Fn, nil, nil, newState())
			r.Ran(ex, r.P.fname(root.Fn))
			if atExit != nil {
				atExit(ex, root, outs)
			}
			for _, f := range found {
				start(f)
			}
		}()
	}
	for _, root := range rs {
		start(root)
	}
	wg.Wait()
	if crash != nil {
		panic(crash)
	}
}

// parallel runs f(0..n-1) on all cores; a crash of one is a crash of all.
func parallel(n int, f func(i int)) {
	var wg sync.WaitGroup
	sem := make(chan struct{}, runtime.NumCPU())
	var mu sync.Mutex
	var crash any
	for i := 0; i < n; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			sem <- struct{}{}
			defer func() { <-sem }()
			defer func() {
				if x := recover(); x != nil {
					mu.Lock()
					crash = fmt.Sprintf("%v\n%s", x, debug.Stack())
					mu.Unlock()
				}
			}()
			f(i)
		}()
	}
	wg.Wait()
	if crash != nil {
		panic(crash)
	}
}
