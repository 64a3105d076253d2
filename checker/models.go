package main

import (
	"fmt"
	"go/token"
	"go/types"
	"regexp"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// The trusted boundary: what the checker assumes about library functions.

var nonNilResult = map[string]bool{
	"errors.New": true, "fmt.Errorf": true, "regexp.MustCompile": true, "html/template.Must": true,
	"html/template.New": true, "log.New": true, "net/http.NewServeMux": true, "compress/gzip.NewWriter": true,
	"bytes.NewReader": true, "bytes.NewBuffer": true, "strings.NewReader": true, "net/http.StripPrefix": true,
	"reflect.TypeOf": true, "html/template.Parse": true, "bytes.NewBufferString": true,
}

var resultRange = map[string]Interval{
	"(time.Time).Nanosecond": ivInt(0, 999999999),
	"(reflect.Value).Len":    ivGE(0),
	"runtime.NumGoroutine":   ivGE(0),
}

// pure: the result depends only on the arguments (and, for reflection, on the
// memory they refer to, which carries the current epoch).
func isPureExt(name string) bool {
	for _, p := range []string{"strings.", "strconv.", "math.", "unicode.", "path.", "fmt.Sprint", "errors.Is", "errors.As",
		"(time.Time).", "(time.Duration).", "time.Unix", "time.Date", "time.Duration", "reflect.TypeOf", "reflect.ValueOf", "(reflect.Type).", "(*reflect.rtype).",
		"(reflect.Value).", "(reflect.Kind).", "reflect.Zero", "reflect.Indirect", "net/http.StatusText", "runtime.Version", "bytes.Runes", "bytes.Equal", "bytes.Contains", "bytes.TrimSpace", "bytes.NewReader", "math/bits.",
		"net/http.StripPrefix", "(*net/url.URL).", "(net/url.Values).Get", "(net/url.Values).Has", "(error).Error", "(net/http.Header).Get",
		"html.EscapeString", "reflect.DeepEqual", "unicode/utf8.", "(*regexp.Regexp).", "regexp.", "(flag.Value).String", "os.IsNotExist"} {
		if strings.HasPrefix(name, p) {
			switch name {
			case "(reflect.Value).Call", "(reflect.Value).Set", "(flag.Value).String", "strings.Map", "strings.FieldsFunc", "strings.IndexFunc", "strings.TrimFunc":
				return false
			}
			return !strings.HasPrefix(name, "(reflect.Value).Set")
		}
	}
	return false
}

// readsClientMemory: reflection accessors that read the value behind them.
func readsMemory(name string) bool {
	switch name {
	case "(reflect.Value).Int", "(reflect.Value).Uint", "(reflect.Value).Float", "(reflect.Value).Bool",
		"(reflect.Value).String", "(reflect.Value).Interface", "(reflect.Value).Elem", "(reflect.Value).Index",
		"(reflect.Value).Len", "(reflect.Value).IsNil", "(reflect.Value).Bytes", "(reflect.Value).Complex", "(reflect.Value).IsZero",
		"(reflect.Value).Convert", "(reflect.Value).Field", "(reflect.Value).MapIndex", "(reflect.Value).Slice":
		return true
	}
	return false
}

// isCallbackExt: library entry points that run client-supplied code.
func isCallbackExt(name string) bool {
	switch name {
	case "(reflect.Value).Call", "(reflect.Value).CallSlice", "(flag.Value).String", "(flag.Value).Set", "(flag.Getter).Get",
		"(flag.Getter).String", "(net/http.Handler).ServeHTTP", "(net/http.HandlerFunc).ServeHTTP", "(fmt.Stringer).String":
		return true
	}
	return false
}

// isBlockingExt: library calls that do I/O or otherwise wait.
func isBlockingExt(name string) bool {
	switch {
	case strings.HasPrefix(name, "fmt.Fprint"), strings.HasPrefix(name, "fmt.Print"), strings.HasPrefix(name, "fmt.Scan"),
		strings.HasPrefix(name, "(io."), strings.HasPrefix(name, "io."), strings.HasPrefix(name, "os.") && name != "os.Getpid" && name != "os.IsNotExist",
		strings.HasPrefix(name, "(*os."), strings.HasPrefix(name, "net."), strings.HasPrefix(name, "(net."),
		strings.HasPrefix(name, "net/rpc."), strings.HasPrefix(name, "(*net/rpc."), strings.HasPrefix(name, "log."), strings.HasPrefix(name, "(*log."),
		strings.HasPrefix(name, "(net/http.ResponseWriter).Write"), name == "net/http.Error", name == "net/http.ServeContent",
		name == "time.Sleep", name == "(*sync.WaitGroup).Wait", name == "(*sync.Cond).Wait",
		strings.HasPrefix(name, "(*html/template.Template).Execute"), strings.HasPrefix(name, "(*text/template.Template).Execute"),
		strings.HasPrefix(name, "(*compress/gzip.Writer)."), strings.HasPrefix(name, "(*bytes.Buffer).WriteTo"), strings.HasPrefix(name, "(*bytes.Buffer).ReadFrom"):
		return true
	}
	return false
}

// readOnlyExt: effectful or opaque calls that leave their arguments' memory
// as it is.
func isReadOnlyExt(name string) bool {
	for _, p := range []string{"encoding/json.Marshal", "fmt.", "log.", "(*log.", "errors.", "encoding/gob.Register", "net/http.", "(net/http.",
		"(*net/http.", "html/template.", "(*html/template.", "net/rpc.Register", "os.", "(io.Writer)", "runtime.GC", "sort.IsSorted", "compress/gzip.NewWriter",
		"(*compress/gzip.Writer)", "flag.", "time.", "runtime.Num", "runtime.Version", "bytes.", "reflect.MakeSlice", "reflect.Append", "net/rpc.DialHTTP", "(*os.File)"} {
		if strings.HasPrefix(name, p) {
			return true
		}
	}
	return false
}

var noReturnExt = map[string]bool{"os.Exit": true, "log.Fatal": true, "log.Fatalf": true, "log.Fatalln": true,
	"(*log.Logger).Fatal": true, "(*log.Logger).Fatalf": true, "(*log.Logger).Fatalln": true, "runtime.Goexit": true}

var panicExt = map[string]bool{"log.Panic": true, "log.Panicf": true, "(*log.Logger).Panic": true, "(*log.Logger).Panicf": true, "log.Panicln": true}

// registers function values without calling them now
func registersFunc(name string) bool {
	return strings.HasPrefix(name, "net/http.") || strings.HasPrefix(name, "(*net/http.") || strings.HasPrefix(name, "net/rpc.") ||
		name == "reflect.ValueOf" || name == "time.AfterFunc" || name == "reflect.TypeOf" || name == "(*html/template.Template).Funcs" || strings.HasPrefix(name, "fmt.")
}

func (ex *Exec) external(c *callCtx) []Outcome {
	st, name := c.st, c.name
	site := ex.site(c.fr, c.in)
	ev := &Event{Kind: EvExt, Instr: c.in, Fr: c.fr, Name: name, Args: c.args}
	if strings.HasPrefix(name, "(*sync.") {
		if outs, ok := ex.lockModel(c, site); ok {
			return outs
		}
	}
	if ex.C.Ext != nil {
		if outs, ok := ex.C.Ext(ex, c); ok {
			return outs
		}
	}
	if noReturnExt[name] {
		ex.emit(st, ev)
		return nil
	}
	if panicExt[name] {
		ex.emit(st, ev)
		return []Outcome{{St: st, Panic: true, PV: ex.ts.Sym("log.Panic", nil)}}
	}
	if outs, ok := ex.httpModel(c); ok {
		return outs
	}
	if isCallbackExt(name) {
		ev.Kind = EvCallback
		rets := ex.unknownResults(c.sig, name, site, c.args)
		if len(rets) > 0 {
			ev.Res = rets[0]
		}
		ex.emit(st, ev)
		// A known closure or method value is followed; everything else is
		// client code that may use the whole public API.
		return ex.opaqueKeep(c, name, site, rets)
	}
	if f := templateModel(name); f != nil {
		ex.emit(st, ev)
		return f(ex, c, site)
	}
	switch name {
	case "sort.Search":
		ex.emit(st, ev)
		return ex.sortSearch(c, site)
	case "sort.Sort", "sort.Stable":
		ex.emit(st, ev)
		return ex.sortModel(c, site)
	case "(*sync.Once).Do":
		ex.emit(st, ev)
		d := *c
		d.args = nil
		d.st = st.clone()
		outs := ex.callValue(&d, c.args[1])
		return append(outs, Outcome{St: st})
	}
	rets := ex.extResults(c, site)
	if len(rets) > 0 {
		ev.Res = rets[0]
	}
	ex.emit(st, ev)
	if name == "time.AfterFunc" && len(c.args) > 1 {
		ex.publish(st, c.args[1])
		ex.emit(st, &Event{Kind: EvGo, Instr: c.in, Fr: c.fr, Val: c.args[1]})
	}
	// function arguments: the library may call them any number of times
	outs := []Outcome{}
	if !registersFunc(name) {
		for _, a := range c.args {
			if a.Op != OFunc && a.Op != OClosure {
				continue
			}
			fn, ok := a.Aux.(*ssa.Function)
			if !ok || fn.Blocks == nil {
				continue
			}
			var as []*Term
			for i, p := range fn.Params {
				as = append(as, ex.ts.Sym(fmt.Sprintf("arg%d:%s", i, site), p.Type()))
			}
			d := *c
			d.st = st.clone()
			d.args = as
			for _, o := range ex.callFn(&d, fn, a.Args) {
				if o.Panic {
					outs = append(outs, o)
					continue
				}
				if o.St.key() != st.key() {
					outs = append(outs, Outcome{St: o.St, Ret: rets})
				} else {
					st = ex.joinStates(st, o.St, "ho"+site, false)
				}
			}
		}
	}
	if !isPureExt(name) {
		if !isReadOnlyExt(name) {
			for _, a := range c.args {
				ex.havocReach(st, a, "o"+site)
			}
		}
	}
	return append(outs, Outcome{St: st, Ret: rets})
}

func (ex *Exec) opaqueKeep(c *callCtx, name, site string, rets []*Term) []Outcome {
	outs := ex.opaque(c, name, site, true)
	for i := range outs {
		if !outs[i].Panic {
			outs[i].Ret = rets
			for _, r := range rets {
				ex.regen(outs[i].St, r.regenRoot())
			}
		}
	}
	return outs
}

func (ex *Exec) extResults(c *callCtx, site string) []*Term {
	s := site
	if isPureExt(c.name) {
		s = ""
		if readsMemory(c.name) {
			s = c.st.gEpoch
		}
	}
	if t := ex.foldPure(c); t != nil {
		return []*Term{t}
	}
	args := c.args
	if n := len(args); n > 0 && (c.name == "fmt.Sprintf" || c.name == "fmt.Sprint" || c.name == "fmt.Sprintln") {
		// what is formatted, not the slice it is passed in
		if es := ex.sliceElems(c.st, args[n-1], nil); es != nil {
			args = append(append([]*Term(nil), args[:n-1]...), es...)
		}
	}
	rets := ex.unknownResults(c.sig, c.name, s, args)
	if s == site {
		for _, r := range rets {
			ex.regen(c.st, r.regenRoot())
		}
	}
	return rets
}

var strBool = map[string]func(a, b string) bool{"strings.HasPrefix": strings.HasPrefix, "strings.HasSuffix": strings.HasSuffix,
	"strings.Contains": strings.Contains, "strings.EqualFold": strings.EqualFold, "strings.ContainsAny": strings.ContainsAny}
var strStr = map[string]func(a, b string) string{"strings.TrimPrefix": strings.TrimPrefix, "strings.TrimSuffix": strings.TrimSuffix,
	"strings.Trim": strings.Trim, "strings.TrimLeft": strings.TrimLeft, "strings.TrimRight": strings.TrimRight}
var strOne = map[string]func(a string) string{"strings.ToLower": strings.ToLower, "strings.ToUpper": strings.ToUpper, "strings.TrimSpace": strings.TrimSpace}
var strInt = map[string]func(a, b string) int{"strings.Index": strings.Index, "strings.Count": strings.Count, "strings.LastIndex": strings.LastIndex}

// foldPure evaluates string helpers on constants.
func (ex *Exec) foldPure(c *callCtx) *Term {
	strs := func(n int) ([]string, bool) {
		var r []string
		for i := 0; i < n; i++ {
			s, ok := c.args[i].strVal()
			if !ok {
				return nil, false
			}
			r = append(r, s)
		}
		return r, true
	}
	switch c.name {
	case "strings.TrimSpace":
		if s, ok := strs(1); ok {
			return ex.ts.Str(strings.TrimSpace(s[0]))
		}
	case "strings.Replace":
		if s, ok := strs(3); ok {
			if n, ok := c.args[3].intVal(); ok {
				return ex.ts.Str(strings.Replace(s[0], s[1], s[2], int(n)))
			}
		}
	case "strings.ReplaceAll":
		if s, ok := strs(3); ok {
			return ex.ts.Str(strings.ReplaceAll(s[0], s[1], s[2]))
		}
	case "(*regexp.Regexp).ReplaceAllString":
		re := c.args[0]
		if re.Op == OCall && re.Aux == "regexp.MustCompile" {
			pat, ok1 := re.Args[0].strVal()
			src, ok2 := c.args[1].strVal()
			rep, ok3 := c.args[2].strVal()
			if ok1 && ok2 && ok3 {
				if x, err := regexp.Compile(pat); err == nil {
					return ex.ts.Str(x.ReplaceAllString(src, rep))
				}
			}
		}
	case "(time.Duration).Nanoseconds":
		return c.args[0]
	case "(time.Duration).Microseconds", "(time.Duration).Milliseconds":
		it := types.Type(types.Typ[types.Int64])
		k := int64(1000)
		if strings.HasSuffix(c.name, "Milliseconds") {
			k = 1000000
		}
		return ex.ts.Bin(token.QUO, c.args[0], ex.ts.Int(k), it, it)
	}
	if f, ok := strBool[c.name]; ok {
		if s, ok := strs(2); ok {
			return ex.ts.Bool(f(s[0], s[1]))
		}
	}
	if f, ok := strStr[c.name]; ok {
		if s, ok := strs(2); ok {
			return ex.ts.Str(f(s[0], s[1]))
		}
	}
	if f, ok := strOne[c.name]; ok {
		if s, ok := strs(1); ok {
			return ex.ts.Str(f(s[0]))
		}
	}
	if f, ok := strInt[c.name]; ok {
		if s, ok := strs(2); ok {
			return ex.ts.Int(int64(f(s[0], s[1])))
		}
	}
	return nil
}

func (ex *Exec) lockModel(c *callCtx, site string) ([]Outcome, bool) {
	st := c.st
	ret := []Outcome{{St: st}}
	name := c.name
	isMu := strings.HasPrefix(name, "(*sync.Mutex).") || strings.HasPrefix(name, "(*sync.RWMutex).")
	if !isMu {
		return nil, false
	}
	m := name[strings.LastIndex(name, ".")+1:]
	addr := c.args[0]
	pos := ex.P.InstrPos(c.in)
	acquire := func(st *State, write bool) {
		ex.emit(st, &Event{Kind: EvLock, Instr: c.in, Fr: c.fr, Addr: addr, Write: write})
		ex.lockEpoch(st, addr, "l"+site)
		snap := st.clone()
		for i := range snap.locks {
			snap.locks[i].snap = nil
		}
		st.locks = append(st.locks, Lock{addr, write, pos, snap})
	}
	switch m {
	case "Lock":
		acquire(st, true)
		return ret, true
	case "RLock":
		acquire(st, false)
		return ret, true
	case "TryLock", "TryRLock":
		f := st.clone()
		acquire(st, m == "TryLock")
		return []Outcome{{St: st, Ret: []*Term{ex.ts.Bool(true)}}, {St: f, Ret: []*Term{ex.ts.Bool(false)}}}, true
	case "Unlock", "RUnlock":
		write := m == "Unlock"
		found := -1
		for i, l := range st.locks {
			if l.addr == addr && l.write == write {
				found = i
			}
		}
		ev := &Event{Kind: EvUnlock, Instr: c.in, Fr: c.fr, Addr: addr, Write: write}
		if found < 0 {
			ev.Name = "unheld"
		}
		ex.emit(st, ev)
		if found >= 0 {
			st.locks = append(append([]Lock(nil), st.locks[:found]...), st.locks[found+1:]...)
			if len(st.locks) == 0 {
				st.flushPend()
			}
			ex.lockEpoch(st, addr, "u"+site)
		}
		return ret, true
	}
	return nil, false
}

// lockEpoch: memory guarded by the lock may have changed.
func (ex *Exec) lockEpoch(st *State, addr *Term, e string) {
	if ex.C.Sequential {
		return
	}
	ex.killEpoch(st, e)
	if addr.Op == OField {
		base := addr.Args[0]
		if st.isFresh(base) && base.Op == OAlloc {
			return
		}
		st.bEpoch[base] = e
		ex.dropShared(st, base)
		return
	}
	st.gEpoch = e
	ex.dropShared(st, nil)
}

// sortSearch: the smallest index in [0,n) whose predicate holds, or n.
func (ex *Exec) sortSearch(c *callCtx, site string) []Outcome {
	st := c.st
	n := c.args[0]
	bound := ex.ts.Sym("bound:search", types.Typ[types.Int])
	d := *c
	d.st = st.clone()
	d.args = []*Term{bound}
	pre := d.st.clone()
	outs := ex.callValue(&d, c.args[1])
	var pred *Term
	ok := true
	var pan []Outcome
	for _, o := range outs {
		if o.Panic {
			pan = append(pan, o)
			continue
		}
		if pred != nil || !sameMem(pre, o.St) {
			ok = false
			break
		}
		pred = o.Ret[0]
	}
	var r *Term
	if ok && pred != nil {
		r = ex.ts.mk(Term{Op: OCall, Aux: "sort.Search", Args: []*Term{n, pred}, T: types.Typ[types.Int]})
	} else {
		r = ex.ts.mk(Term{Op: OCall, Aux: "sort.Search?", S: site, Args: []*Term{n}, T: types.Typ[types.Int]})
		ex.regen(st, r)
	}
	st.facts[ex.ts.Cmp(token.LSS, r, ex.ts.Int(0), types.Typ[types.Int])] = false
	if t := ex.ts.Cmp(token.LSS, n, r, types.Typ[types.Int]); t.Op == OCmp {
		st.facts[t] = false
	}
	return append(pan, Outcome{St: st, Ret: []*Term{r}})
}

func sameMem(a, b *State) bool {
	if len(a.mem) != len(b.mem) {
		return false
	}
	for k, v := range a.mem {
		if b.mem[k] != v {
			return false
		}
	}
	return a.key() == b.key()
}

func (ex *Exec) sortModel(c *callCtx, site string) []Outcome {
	st := c.st
	data := c.args[0]
	if dyn := ex.dynType(st, data); dyn != nil {
		v := ex.assertVal(st, data, dyn)
		for _, m := range []string{"Len", "Less", "Swap"} {
			f := ex.P.Prog.LookupMethod(dyn, nil, m)
			if f == nil || f.Blocks == nil {
				continue
			}
			as := []*Term{v}
			for i := 1; i < len(f.Params); i++ {
				as = append(as, ex.ts.Sym(fmt.Sprintf("sort%d:%s", i, site), types.Typ[types.Int]))
			}
			d := *c
			d.st = st.clone()
			d.args = as
			ex.callFn(&d, f, nil)
		}
		ex.havocReach(st, v, "s"+site)
		if sl, ok := dyn.Underlying().(*types.Slice); ok {
			st.fEpoch["E:"+types.TypeString(sl.Elem(), nil)] = "s" + site
		}
	}
	return []Outcome{{St: st}}
}

func templateModel(name string) func(ex *Exec, c *callCtx, site string) []Outcome {
	switch name {
	case "(*html/template.Template).Execute", "(*text/template.Template).Execute",
		"(*html/template.Template).ExecuteTemplate", "(*text/template.Template).ExecuteTemplate":
		return (*Exec).templateExec
	}
	return nil
}

// httpModel follows handlers through the wrappers of net/http.
func (ex *Exec) httpModel(c *callCtx) ([]Outcome, bool) {
	switch c.name {
	case "(net/http.HandlerFunc).ServeHTTP":
		if f := c.args[0]; f.Op == OFunc || f.Op == OClosure {
			d := *c
			d.args = c.args[1:]
			return ex.callValue(&d, f), true
		}
	case "(net/http.Handler).ServeHTTP":
		if h := c.args[0]; h.Op == OCall && h.Aux == "net/http.StripPrefix" && len(c.args) == 3 {
			req := ex.ts.Sym("request below "+h.Args[0].String(), c.args[2].T)
			d := *c
			d.args = []*Term{c.args[1], req}
			return ex.serve(&d, h.Args[1]), true
		}
	}
	return nil, false
}

// serve calls handler h with c.args = (writer, request).
func (ex *Exec) serve(c *callCtx, h *Term) []Outcome {
	if dyn := ex.dynType(c.st, h); dyn != nil {
		v := ex.assertVal(c.st, h, dyn)
		if v.Op == OFunc || v.Op == OClosure {
			return ex.callValue(c, v)
		}
		if f := ex.P.Prog.LookupMethod(dyn, nil, "ServeHTTP"); f != nil && f.Blocks != nil {
			d := *c
			d.args = append([]*Term{v}, c.args...)
			return ex.callFn(&d, f, nil)
		}
	}
	if h.Op == OFunc || h.Op == OClosure {
		return ex.callValue(c, h)
	}
	d := *c
	d.name = "(net/http.Handler).ServeHTTP"
	d.args = append([]*Term{h}, c.args...)
	d.sig = types.NewSignatureType(nil, nil, nil, nil, nil, false)
	return ex.external(&d)
}
