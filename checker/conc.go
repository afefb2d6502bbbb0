package main

// C27: variables that several goroutines use. A lockset analysis over the
// whole program: which mutexes are held at each instruction, which variables
// are shared, and which accesses to them are not protected.

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C27", "Lockset analysis of the whole program: the mutexes held at every instruction, across calls; every shared variable is accessed under its mutex or atomically, every mutex is released on every path, none is taken twice, nothing blocks while one is held, and functions that run concurrently change no captured variables.", func(r *Report) {
		r.section(func() {
			c := r.lockAnalysis()
			c.balance()
			c.shared()
			c.owned()
			c.captured()
			c.given()
			c.copies()
		})
	})
}

type lockSet map[string]int // mutex -> 1 read, 2 write

func (s lockSet) clone() lockSet {
	o := lockSet{}
	for k, v := range s {
		o[k] = v
	}
	return o
}

func (s lockSet) String() string {
	var l []string
	for k := range s {
		l = append(l, k)
	}
	sort.Strings(l)
	return "{" + strings.Join(l, ", ") + "}"
}

// meet keeps what both hold.
func (s lockSet) meet(o lockSet) lockSet {
	n := lockSet{}
	for k, v := range s {
		if w, ok := o[k]; ok {
			if w < v {
				v = w
			}
			n[k] = v
		}
	}
	return n
}

func (s lockSet) join(o lockSet) lockSet {
	n := s.clone()
	for k, v := range o {
		if n[k] < v {
			n[k] = v
		}
	}
	return n
}

func sameSet(a, b lockSet) bool {
	if len(a) != len(b) {
		return false
	}
	for k, v := range a {
		if b[k] != v {
			return false
		}
	}
	return true
}

type lockState struct {
	must, may lockSet
	defers    lockSet // deferred unlocks (may)
	mustDefer lockSet
}

type site struct {
	call ssa.CallInstruction
	fn   *ssa.Function // caller
}

type conc struct {
	r     *Report
	fns   []*ssa.Function
	sites map[*ssa.Function][]site
	roots map[*ssa.Function]bool // called from outside, or as a value
	entry map[*ssa.Function]lockSet
	at    map[ssa.Instruction]*lockState
	exit  map[*ssa.Function]lockSet // locks that a helper leaves held
	held  map[*ssa.Function]lockSet // locks that a caller may hold
	frees map[*ssa.Function]lockSet // locks that a helper releases
	bind  map[*ssa.FreeVar]ssa.Value
	conc  map[*ssa.Function]string // runs concurrently with others, and why
	start map[*ssa.Function]bool   // runs before anything else
}

func mutexOp(c *ssa.CallCommon) (op string, addr ssa.Value) {
	f := c.StaticCallee()
	if f == nil || f.Signature.Recv() == nil || len(c.Args) == 0 {
		return "", nil
	}
	t := f.Signature.Recv().Type().String()
	if t != "*sync.Mutex" && t != "*sync.RWMutex" {
		return "", nil
	}
	return f.Name(), c.Args[0]
}

func isMutexType(t types.Type) bool {
	s := t.String()
	if p, ok := t.Underlying().(*types.Pointer); ok {
		s = p.Elem().String()
	}
	return s == "sync.Mutex" || s == "sync.RWMutex"
}

// key names a memory location, "" if it is unknown.
func (c *conc) key(v ssa.Value) string {
	switch x := v.(type) {
	case *ssa.Global:
		return x.Pkg.Pkg.Name() + "." + x.Name()
	case *ssa.FieldAddr:
		if k := c.key(x.X); k != "" {
			return k + "." + fieldName(x)
		}
	case *ssa.UnOp:
		if x.Op != token.MUL {
			return ""
		}
		if a, ok := x.X.(*ssa.Alloc); ok {
			// a variable that is set once
			if s := onlyStore(a); s != nil {
				return c.key(s.Val)
			}
			return ""
		}
		if fv, ok := x.X.(*ssa.FreeVar); ok {
			if a := c.cellOf(fv); a != nil {
				if s := onlyStore(a); s != nil && !c.storedElsewhere(a) {
					return c.key(s.Val)
				}
				return ""
			}
		}
		if k := c.key(x.X); k != "" {
			return "*" + k
		}
	case *ssa.FreeVar:
		if b := c.bind[x]; b != nil {
			if a, ok := b.(*ssa.Alloc); ok {
				return fmt.Sprintf("%s/%s@%d", a.Parent().Name(), a.Name(), a.Pos())
			}
			return c.key(b)
		}
	case *ssa.Parameter:
		return "$" + x.Parent().RelString(nil) + "#" + fmt.Sprint(paramIndex(x))
	case *ssa.Alloc:
		return fmt.Sprintf("%s/%s@%d", x.Parent().Name(), x.Name(), x.Pos())
	case *ssa.ChangeType:
		return c.key(x.X)
	case *ssa.Phi:
		k := c.key(x.Edges[0])
		for _, e := range x.Edges[1:] {
			if c.key(e) != k {
				return ""
			}
		}
		return k
	}
	return ""
}

// storedElsewhere: a closure changes the variable.
func (c *conc) storedElsewhere(v ssa.Value) bool {
	for _, ref := range *v.Referrers() {
		if mc, ok := ref.(*ssa.MakeClosure); ok {
			g := mc.Fn.(*ssa.Function)
			for i, b := range mc.Bindings {
				if b != v {
					continue
				}
				for _, y := range *g.FreeVars[i].Referrers() {
					if s, ok := y.(*ssa.Store); ok && s.Addr == ssa.Value(g.FreeVars[i]) {
						return true
					}
				}
				if c.storedElsewhere(g.FreeVars[i]) {
					return true
				}
			}
		}
	}
	return false
}

// visible: the key means the same within the function: it is global, or
// belongs to a function around it.
func visible(k string, f *ssa.Function) bool {
	if !strings.Contains(k, "$") {
		return true
	}
	for p := f.Parent(); p != nil; p = p.Parent() {
		if strings.HasPrefix(k, "$"+p.RelString(nil)+"#") {
			return true
		}
	}
	return false
}

func paramIndex(p *ssa.Parameter) int {
	for i, q := range p.Parent().Params {
		if p == q {
			return i
		}
	}
	return -1
}

func onlyStore(a *ssa.Alloc) *ssa.Store {
	var out *ssa.Store
	for _, ref := range *a.Referrers() {
		switch x := ref.(type) {
		case *ssa.Store:
			if x.Addr == ssa.Value(a) {
				if out != nil {
					return nil
				}
				out = x
			}
		}
	}
	return out
}

func (r *Report) lockAnalysis() *conc {
	c := &conc{r: r, sites: map[*ssa.Function][]site{}, roots: map[*ssa.Function]bool{}, entry: map[*ssa.Function]lockSet{}, held: map[*ssa.Function]lockSet{},
		at: map[ssa.Instruction]*lockState{}, exit: map[*ssa.Function]lockSet{}, frees: map[*ssa.Function]lockSet{},
		bind: map[*ssa.FreeVar]ssa.Value{}, conc: map[*ssa.Function]string{}, start: map[*ssa.Function]bool{}}
	c.fns = append(c.fns, r.L.Fns...)
	for _, p := range r.L.SSA {
		if p != nil && r.L.isRepo(p.Pkg) {
			if f := p.Func("init"); f != nil && f.Blocks != nil {
				c.fns = append(c.fns, f)
				c.start[f] = true
			}
		}
	}
	own := map[*ssa.Function]bool{}
	for _, f := range c.fns {
		own[f] = true
		r.Funcs[f.String()] = true
	}
	taken := map[*ssa.Function]bool{} // used as a value
	given := map[*ssa.Function]bool{} // only passed to functions that call it
	for _, f := range c.fns {
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				if mc, ok := ins.(*ssa.MakeClosure); ok {
					g := mc.Fn.(*ssa.Function)
					for i, fv := range g.FreeVars {
						c.bind[fv] = mc.Bindings[i]
					}
				}
				var callee *ssa.Function
				ci, isCall := ins.(ssa.CallInstruction)
				if isCall {
					callee = ci.Common().StaticCallee()
					if callee != nil && own[callee] {
						if _, isGo := ins.(*ssa.Go); !isGo {
							c.sites[callee] = append(c.sites[callee], site{ci, f})
						} else {
							c.conc[callee] = "started by go"
							c.roots[callee] = true
						}
					}
				}
				for _, op := range ins.Operands(nil) {
					g := funcOf(*op)
					if g == nil || g.Synthetic != "" && !strings.HasPrefix(g.Synthetic, "bound") && !strings.HasPrefix(g.Synthetic, "thunk") {
						continue
					}
					if isCall && op == &ci.Common().Value {
						continue
					}
					if m, ok := ins.(*ssa.MakeClosure); ok && ssa.Value(m.Fn.(*ssa.Function)) == *op {
						continue
					}
					if strings.HasPrefix(g.Synthetic, "bound") || strings.HasPrefix(g.Synthetic, "thunk") {
						// the method behind it
						if o, ok := g.Object().(*types.Func); ok {
							if d := r.L.Prog.FuncValue(o); d != nil && own[d] {
								c.roots[d] = true
								if why := c.concurrentUse(ins); why != "" {
									c.conc[d] = why
								}
							}
						}
						continue
					}
					taken[g] = true
					if s, ok := c.calledBack(ins, *op); ok {
						given[g] = true
						c.sites[g] = append(c.sites[g], s...)
						continue
					}
					c.roots[g] = true
					if why := c.concurrentUse(ins); why != "" {
						c.conc[g] = why
					}
				}
			}
		}
	}
	for _, f := range c.fns {
		o := f.Object()
		if o != nil && o.Exported() {
			recv := f.Signature.Recv()
			if recv == nil {
				c.roots[f] = true
			} else if n, ok := types.Unalias(derefType(recv.Type())).(*types.Named); ok && n.Obj().Exported() {
				c.roots[f] = true
			} else if ok && c.implementsForeign(f) {
				c.roots[f] = true
			}
		}
		if len(c.sites[f]) == 0 {
			c.roots[f] = true
		}
	}
	// functions that only run at the start of the process
	for ch := true; ch; {
		ch = false
		for _, f := range c.fns {
			if c.start[f] {
				continue
			}
			ok := false
			if strings.HasPrefix(f.Name(), "init#") {
				ok = true
			} else if len(c.sites[f]) > 0 && !(f.Object() != nil && f.Object().Exported()) && !taken[f] && c.conc[f] == "" {
				ok = true
				for _, s := range c.sites[f] {
					ok = ok && c.start[s.fn]
				}
			}
			if ok {
				c.start[f] = true
				ch = true
			}
		}
	}
	c.solve()
	return c
}

func funcOf(v ssa.Value) *ssa.Function {
	switch x := v.(type) {
	case *ssa.Function:
		return x
	case *ssa.MakeClosure:
		return x.Fn.(*ssa.Function)
	}
	return nil
}

// implementsForeign: the method may be called by a library through an
// interface.
func (c *conc) implementsForeign(f *ssa.Function) bool {
	recv := f.Signature.Recv().Type()
	for _, g := range c.fns {
		for _, b := range g.Blocks {
			for _, ins := range b.Instrs {
				if m, ok := ins.(*ssa.MakeInterface); ok && types.Identical(derefType(m.X.Type()), derefType(recv)) {
					return true
				}
			}
		}
	}
	return false
}

// calledBack: the function value is passed to a function of the repository
// that does nothing but call it; the calls are returned.
func (c *conc) calledBack(ins ssa.Instruction, v ssa.Value) ([]site, bool) {
	ci, ok := ins.(*ssa.Call)
	if !ok {
		// stored in a local variable that is only called
		if s, ok := ins.(*ssa.Store); ok {
			if a, ok := s.Addr.(*ssa.Alloc); ok && onlyStore(a) == s {
				return c.onlyCalled(a)
			}
		}
		return nil, false
	}
	callee := ci.Common().StaticCallee()
	if callee == nil || callee.Blocks == nil || !c.r.L.isRepoFn(callee) {
		return nil, false
	}
	var out []site
	for i, a := range ci.Common().Args {
		if a != v || i >= len(callee.Params) {
			continue
		}
		for _, ref := range *callee.Params[i].Referrers() {
			switch x := ref.(type) {
			case *ssa.Call:
				if x.Call.Value != ssa.Value(callee.Params[i]) {
					return nil, false
				}
				out = append(out, site{x, callee})
			case *ssa.Defer:
				if x.Call.Value != ssa.Value(callee.Params[i]) {
					return nil, false
				}
				out = append(out, site{x, callee})
			case *ssa.DebugRef:
			default:
				return nil, false
			}
		}
	}
	return out, len(out) > 0
}

func (c *conc) onlyCalled(a *ssa.Alloc) ([]site, bool) {
	var out []site
	var uses func(v ssa.Value, cell bool) bool
	uses = func(v ssa.Value, cell bool) bool {
		for _, ref := range *v.Referrers() {
			switch x := ref.(type) {
			case *ssa.Store:
				if !cell || x.Addr != v {
					return false
				}
			case *ssa.UnOp:
				if !cell || !uses(x, false) {
					return false
				}
			case *ssa.Call:
				if x.Call.Value != v {
					return false
				}
				out = append(out, site{x, x.Parent()})
			case *ssa.MakeClosure:
				g := x.Fn.(*ssa.Function)
				for i, bd := range x.Bindings {
					if bd == v && !uses(g.FreeVars[i], true) {
						return false
					}
				}
			case *ssa.DebugRef:
			default:
				return false
			}
		}
		return true
	}
	if !uses(a, true) {
		return nil, false
	}
	return out, len(out) > 0
}

// concurrentUse: the function value goes to a place from where it is called
// at any time.
func (c *conc) concurrentUse(ins ssa.Instruction) string {
	switch x := ins.(type) {
	case *ssa.Go:
		return "started by go"
	case *ssa.Call:
		name := ""
		if x.Call.IsInvoke() {
			name = x.Call.Method.FullName()
		} else if f := x.Call.StaticCallee(); f != nil {
			name = f.RelString(nil)
			if c.r.L.isRepoFn(f) {
				return ""
			}
		}
		if i := strings.Index(name, "httprouter"); i >= 0 {
			return "is an HTTP handler"
		}
		for _, p := range []string{"FunctionalGauge", "HandleFunc", "HandlerFunc", "AfterFunc", "WithGenericValue", "http.Server", "expvar."} {
			if strings.Contains(name, p) {
				return "is called by " + name
			}
		}
	case *ssa.ChangeType:
		if strings.HasSuffix(x.Type().String(), "http.HandlerFunc") || strings.HasSuffix(x.Type().String(), "httprouter.Handle") {
			return "is an HTTP handler"
		}
	case *ssa.Return:
		if res := x.Parent().Signature.Results(); res.Len() == 1 {
			s := res.At(0).Type().String()
			if strings.HasSuffix(s, "http.HandlerFunc") || strings.HasSuffix(s, "httprouter.Handle") {
				return "is an HTTP handler"
			}
		}
		if c.inits(x.Parent(), map[*ssa.Function]bool{}) {
			return "is kept in a package variable"
		}
	case *ssa.Store:
		switch a := x.Addr.(type) {
		case *ssa.Global:
			return "is kept in " + a.Name()
		case *ssa.FieldAddr:
			if g, ok := a.X.(*ssa.Global); ok {
				return "is kept in " + g.Name()
			}
		}
	case *ssa.MakeInterface:
		for _, ref := range *x.Referrers() {
			if i, ok := ref.(ssa.Instruction); ok {
				if why := c.concurrentUse(i); why != "" {
					return why
				}
			}
		}
	}
	return ""
}

// inits: the function is called by the initialiser of a package variable.
func (c *conc) inits(f *ssa.Function, seen map[*ssa.Function]bool) bool {
	if seen[f] {
		return false
	}
	seen[f] = true
	for _, g := range c.fns {
		for _, b := range g.Blocks {
			for _, ins := range b.Instrs {
				if ci, ok := ins.(*ssa.Call); ok && ci.Call.StaticCallee() == f {
					if c.start[g] || g.Synthetic != "" && g.Name() == "init" {
						return true
					}
					// the result is returned again
					for _, ref := range *ci.Referrers() {
						if _, ok := ref.(*ssa.Return); ok && c.inits(g, seen) {
							return true
						}
					}
				}
			}
		}
	}
	return false
}

// translate a key of the caller for the callee, and back.
func (c *conc) toCallee(s lockSet, ci ssa.CallInstruction, callee *ssa.Function) lockSet {
	n := lockSet{}
	args := ci.Common().Args
	for k, v := range s {
		if visible(k, callee) {
			n[k] = v
		}
		for i, a := range args {
			if i >= len(callee.Params) {
				break
			}
			if ak := c.key(a); ak != "" && (k == ak || strings.HasPrefix(k, ak+".")) {
				n["$"+callee.RelString(nil)+"#"+fmt.Sprint(i)+k[len(ak):]] = v
			}
		}
	}
	return n
}

func (c *conc) toCaller(s lockSet, ci ssa.CallInstruction, callee *ssa.Function) lockSet {
	n := lockSet{}
	args := ci.Common().Args
	for k, v := range s {
		pre := "$" + callee.RelString(nil) + "#"
		if !strings.HasPrefix(k, pre) {
			if visible(k, callee) {
				n[k] = v
			}
			continue
		}
		rest := k[len(pre):]
		idx, tail := rest, ""
		if i := strings.IndexByte(rest, '.'); i >= 0 {
			idx, tail = rest[:i], rest[i:]
		}
		var i int
		fmt.Sscan(idx, &i)
		if i < len(args) {
			if ak := c.key(args[i]); ak != "" {
				n[ak+tail] = v
			}
		}
	}
	return n
}

func (c *conc) solve() {
	for round := 0; round < 12; round++ {
		changed := false
		for _, f := range c.fns {
			if c.flow(f) {
				changed = true
			}
		}
		for _, f := range c.fns {
			var e lockSet
			if c.roots[f] {
				e = lockSet{}
			} else {
				first := true
				for _, s := range c.sites[f] {
					st := c.at[s.call]
					x := lockSet{}
					if st != nil {
						if _, isDefer := s.call.(*ssa.Defer); !isDefer {
							x = c.toCallee(st.must, s.call, f)
						}
					}
					if first {
						e, first = x, false
					} else {
						e = e.meet(x)
					}
				}
				if e == nil {
					e = lockSet{}
				}
			}
			h := lockSet{}
			for _, s := range c.sites[f] {
				if st := c.at[s.call]; st != nil {
					h = h.join(c.toCallee(st.may.join(c.held[s.fn]), s.call, f))
				}
			}
			if !sameSet(h, c.held[f]) {
				c.held[f] = h
				changed = true
			}
			if !sameSet(e, c.entry[f]) || c.entry[f] == nil {
				c.entry[f] = e
				changed = true
			}
		}
		if !changed {
			break
		}
	}
}

func (c *conc) flow(f *ssa.Function) bool {
	in := map[*ssa.BasicBlock]*lockState{}
	e := c.entry[f]
	if e == nil {
		e = lockSet{}
	}
	in[f.Blocks[0]] = &lockState{must: e.clone(), may: e.clone(), defers: lockSet{}, mustDefer: lockSet{}}
	work := []*ssa.BasicBlock{f.Blocks[0]}
	var exitMust lockSet
	frees := lockSet{}
	steps := 0
	for len(work) > 0 && steps < 5000 {
		steps++
		b := work[0]
		work = work[1:]
		st := in[b]
		cur := &lockState{must: st.must.clone(), may: st.may.clone(), defers: st.defers.clone(), mustDefer: st.mustDefer.clone()}
		for _, ins := range b.Instrs {
			c.at[ins] = &lockState{must: cur.must.clone(), may: cur.may.clone(), defers: cur.defers.clone(), mustDefer: cur.mustDefer.clone()}
			switch x := ins.(type) {
			case *ssa.Call:
				c.transfer(x, cur, frees)
			case *ssa.Defer:
				c.deferred(x, cur)
			case *ssa.RunDefers:
				for k := range cur.defers {
					delete(cur.must, k)
				}
				for k := range cur.mustDefer {
					delete(cur.may, k)
				}
			}
		}
		if len(b.Succs) == 0 {
			if _, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
				if exitMust == nil {
					exitMust = cur.must.clone()
				} else {
					exitMust = exitMust.meet(cur.must)
				}
			}
		}
		for _, s := range b.Succs {
			o := in[s]
			if o == nil {
				in[s] = &lockState{must: cur.must.clone(), may: cur.may.clone(), defers: cur.defers.clone(), mustDefer: cur.mustDefer.clone()}
				work = append(work, s)
				continue
			}
			m, y, d, md := o.must.meet(cur.must), o.may.join(cur.may), o.defers.join(cur.defers), o.mustDefer.meet(cur.mustDefer)
			if !sameSet(m, o.must) || !sameSet(y, o.may) || !sameSet(d, o.defers) || !sameSet(md, o.mustDefer) {
				in[s] = &lockState{must: m, may: y, defers: d, mustDefer: md}
				work = append(work, s)
			}
		}
	}
	ex := lockSet{}
	for k, v := range exitMust {
		if e[k] == 0 {
			ex[k] = v
		}
	}
	changed := !sameSet(ex, c.exit[f]) || !sameSet(frees, c.frees[f])
	c.exit[f], c.frees[f] = ex, frees
	return changed
}

func (c *conc) transfer(x *ssa.Call, cur *lockState, frees lockSet) {
	op, addr := mutexOp(x.Common())
	if op != "" {
		k := c.key(addr)
		if k == "" {
			return
		}
		switch op {
		case "Lock":
			cur.must[k], cur.may[k] = 2, 2
		case "RLock":
			if cur.must[k] == 0 {
				cur.must[k], cur.may[k] = 1, 1
			}
		case "Unlock", "RUnlock":
			if cur.may[k] == 0 {
				frees[k] = 2
			}
			delete(cur.must, k)
			delete(cur.may, k)
		}
		return
	}
	f := x.Common().StaticCallee()
	if f == nil || !c.r.L.isRepoFn(f) {
		return
	}
	for k := range c.toCaller(c.frees[f], x, f) {
		delete(cur.must, k)
		delete(cur.may, k)
	}
	for k, v := range c.toCaller(c.exit[f], x, f) {
		cur.must[k], cur.may[k] = v, v
	}
}

// deferred: the locks that the deferred call releases.
func (c *conc) deferred(x *ssa.Defer, cur *lockState) {
	op, addr := mutexOp(x.Common())
	if op == "Unlock" || op == "RUnlock" {
		if k := c.key(addr); k != "" {
			cur.defers[k], cur.mustDefer[k] = 2, 2
		}
		return
	}
	f := x.Common().StaticCallee()
	if f == nil || f.Blocks == nil || !c.r.L.isRepoFn(f) {
		return
	}
	for k := range c.toCaller(c.frees[f], x, f) {
		cur.defers[k], cur.mustDefer[k] = 2, 2
	}
	// a closure that unlocks
	for _, b := range f.Blocks {
		for _, ins := range b.Instrs {
			if ci, ok := ins.(*ssa.Call); ok {
				if op, addr := mutexOp(ci.Common()); op == "Unlock" || op == "RUnlock" {
					if k := c.key(addr); k != "" && visible(k, f) {
						cur.defers[k], cur.mustDefer[k] = 2, 2
					}
				}
			}
		}
	}
}

// balance: locks are released on every path, not taken twice, not waited
// with, and taken in one order.
func (c *conc) balance() {
	r := c.r
	order := map[string]map[string]ssa.Instruction{}
	n := 0
	for _, f := range c.fns {
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				st := c.at[ins]
				if st == nil {
					continue
				}
				mine := st
				st = &lockState{must: st.must, may: st.may.join(c.held[f]), defers: st.defers, mustDefer: st.mustDefer}
				switch x := ins.(type) {
				case *ssa.Call:
					op, addr := mutexOp(x.Common())
					switch op {
					case "Lock", "RLock":
						n++
						k := c.key(addr)
						r.ob("locks", "the mutex is known: "+f.Name(), k != "", r.L.pos(ins), "%s", addr)
						r.ob("locks", "a mutex is not taken twice: "+k+" in "+f.Name(), st.may[k] == 0, r.L.pos(ins), "it may be held already")
						for h := range st.may {
							if h == k {
								continue
							}
							if order[h] == nil {
								order[h] = map[string]ssa.Instruction{}
							}
							order[h][k] = ins
						}
					case "Unlock", "RUnlock":
						k := c.key(addr)
						r.ob("locks", "only a mutex that is held is released: "+k+" in "+f.Name(), st.must[k] > 0 || c.frees[f][k] > 0, r.L.pos(ins), "it may not be held")
					case "TryLock", "TryRLock":
						r.ob("locks", "the state of the mutex is known: "+f.Name(), false, r.L.pos(ins), "TryLock")
					}
					if op == "" && len(st.may) > 0 {
						c.noWait(ins, x.Common(), st)
					}
				case *ssa.Send, *ssa.Select, *ssa.Go:
					if len(st.may) > 0 {
						ok := false
						if s, is := x.(*ssa.Select); is {
							ok = !s.Blocking
						}
						if _, is := x.(*ssa.Go); is {
							ok = true
						}
						r.ob("locks", "nobody waits while holding a mutex: "+f.Name(), ok, r.L.pos(ins), "holding %s", st.may)
					}
				case *ssa.UnOp:
					if x.Op == token.ARROW && len(st.may) > 0 {
						r.ob("locks", "nobody waits while holding a mutex: "+f.Name(), false, r.L.pos(ins), "holding %s", st.may)
					}
				case *ssa.Return:
					// the state behind the deferred calls
					held := mine.may.clone()
					for k := range c.entry[f] {
						delete(held, k)
					}
					for k := range c.exit[f] {
						if !c.roots[f] {
							delete(held, k)
						}
					}
					if len(held) > 0 || usesMutex(f) {
						r.ob("locks", "every mutex is released: "+f.Name(), len(held) == 0, r.L.pos(ins), "%s may be held at the end", held)
					}
				case *ssa.Panic:
					if len(mine.may) > 0 {
						r.ob("locks", "every mutex is released: "+f.Name(), false, r.L.pos(ins), "panics holding %s", mine.may)
					}
				}
			}
		}
	}
	for a, m := range order {
		for b, ins := range m {
			_, rev := order[b][a]
			r.ob("locks", "mutexes are taken in one order: "+a+", "+b, !rev, r.L.pos(ins), "")
		}
	}
	r.count("locks", 8)
	r.ob("locks", "the mutexes of the program were found", n >= 3, "", "%d places take one", n)
}

func usesMutex(f *ssa.Function) bool {
	for _, b := range f.Blocks {
		for _, ins := range b.Instrs {
			if ci, ok := ins.(ssa.CallInstruction); ok {
				if op, _ := mutexOp(ci.Common()); op != "" {
					return true
				}
			}
		}
	}
	return false
}

// noWait: the call does not wait for others.
func (c *conc) noWait(ins ssa.Instruction, cc *ssa.CallCommon, st *lockState) {
	r := c.r
	name := ""
	if cc.IsInvoke() {
		name = cc.Method.FullName()
	} else if f := cc.StaticCallee(); f != nil {
		if r.L.isRepoFn(f) {
			return // its instructions are looked at with what is held
		}
		name = f.RelString(nil)
	} else if _, ok := cc.Value.(*ssa.Builtin); ok {
		return
	} else {
		for _, g := range c.fns {
			for _, s := range c.sites[g] {
				if s.call.Common() == cc {
					return
				}
			}
		}
		name = "a function value"
	}
	ok := neverBlocks(name) || strings.HasPrefix(name, "github.com/modern-go/reflect2")
	if !ok && (strings.HasPrefix(name, "(*sync.Pool).") || strings.HasPrefix(name, "(*sync.Mutex).") || strings.HasPrefix(name, "(*sync.RWMutex).")) {
		ok = true
	}
	r.ob("locks", "nobody waits while holding a mutex: "+ins.Parent().Name(), ok, r.L.pos(ins), "calls %s, holding %s", name, st.may)
}

// access to memory that may be shared
type access struct {
	ins    ssa.Instruction
	write  bool
	atomic bool
	locks  lockSet
	what   string
	fn     *ssa.Function
}

// synced: types that protect themselves.
func synced(t types.Type) bool {
	s := derefType(t).String()
	if strings.HasPrefix(s, "sync.") || strings.HasPrefix(s, "sync/atomic.") {
		return true
	}
	if _, ok := t.Underlying().(*types.Chan); ok {
		return true
	}
	if n, ok := types.Unalias(derefType(t)).(*types.Named); ok && n.Obj().Pkg() != nil && !strings.HasPrefix(n.Obj().Pkg().Path(), repoPrefix) {
		p := n.Obj().Pkg().Path()
		return p == "github.com/sirupsen/logrus" || p == "github.com/rcrowley/go-metrics" || p == "time" || p == "context"
	}
	return false
}

// uses collects what happens to the memory behind an address or reference.
func (c *conc) uses(v ssa.Value, ref bool, seen map[ssa.Value]bool, out *[]access, fields func(t types.Type) bool) {
	if seen[v] || v.Referrers() == nil {
		return
	}
	seen[v] = true
	add := func(ins ssa.Instruction, write, atomic bool, what string) {
		l := lockSet{}
		if st := c.at[ins]; st != nil {
			l = st.must
		}
		*out = append(*out, access{ins, write, atomic, l, what, ins.Parent()})
	}
	// mutable: memory behind a value of the type can change
	for _, refi := range *v.Referrers() {
		switch x := refi.(type) {
		case *ssa.DebugRef:
		case *ssa.UnOp:
			if x.Op == token.MUL {
				add(x, false, false, "read")
				if refType(x.Type()) && !synced(x.Type()) && fields(x.Type()) {
					c.uses(x, true, seen, out, fields)
				}
			}
		case *ssa.Store:
			if x.Addr == v {
				add(x, true, false, "write")
			} else if ref {
				// the reference is kept somewhere
				if a, ok := x.Addr.(*ssa.Alloc); ok {
					c.loads(a, func(u *ssa.UnOp) { c.uses(u, true, seen, out, fields) })
				} else {
					add(x, false, false, "kept")
				}
			}
		case *ssa.FieldAddr:
			if ft := x.Type(); !synced(ft) || ref {
				if !synced(derefType(ft)) {
					c.uses(x, false, seen, out, fields)
				}
			}
		case *ssa.IndexAddr:
			c.uses(x, false, seen, out, fields)
		case *ssa.Slice:
			c.uses(x, true, seen, out, fields)
		case *ssa.Phi:
			c.uses(x, ref, seen, out, fields)
		case *ssa.ChangeType:
			c.uses(x, ref, seen, out, fields)
		case *ssa.Extract:
			c.uses(x, ref, seen, out, fields)
		case *ssa.Lookup:
			if x.X == v {
				add(x, false, false, "lookup")
				if refType(x.Type()) || x.CommaOk {
					if fields(x.Type()) {
						c.uses(x, true, seen, out, fields)
					}
				}
			}
		case *ssa.Range:
			for _, y := range *x.Referrers() {
				add(y, false, false, "iteration")
			}
		case *ssa.MapUpdate:
			if x.Map == v {
				add(x, true, false, "update")
			}
		case ssa.CallInstruction:
			cc := x.Common()
			ins := x.(ssa.Instruction)
			if _, ok := x.(*ssa.Go); ok {
				add(ins, true, false, "given to a goroutine")
				continue
			}
			if b, ok := cc.Value.(*ssa.Builtin); ok {
				switch b.Name() {
				case "len", "cap":
					if _, ok := v.Type().Underlying().(*types.Map); ok {
						add(ins, false, false, b.Name())
					}
				case "delete", "clear", "close":
					add(ins, true, false, b.Name())
				case "append":
					add(ins, cc.Args[0] == v, false, "append")
					if val, ok := ins.(ssa.Value); ok && cc.Args[0] == v {
						c.uses(val, true, seen, out, fields)
					}
				case "copy":
					add(ins, cc.Args[0] == v, false, "copy")
				}
				continue
			}
			f := cc.StaticCallee()
			if f != nil && f.Pkg != nil && f.Pkg.Pkg.Path() == "sync/atomic" {
				add(ins, true, true, f.Name())
				continue
			}
			if cc.Value == v {
				continue // a call of a function that does not change
			}
			if f != nil && c.r.L.isRepoFn(f) && f.Blocks != nil {
				w := false
				for i, a := range cc.Args {
					if a == v && i < len(f.Params) {
						w = w || c.writes(f.Params[i], map[ssa.Value]bool{})
					}
				}
				add(ins, w, false, "call of "+f.Name())
				continue
			}
			add(ins, !ref, false, "call of a library")
		}
	}
}

// loads: reads of a variable, in closures as well.
func (c *conc) loads(v ssa.Value, f func(u *ssa.UnOp)) {
	for _, y := range *v.Referrers() {
		switch x := y.(type) {
		case *ssa.UnOp:
			f(x)
		case *ssa.MakeClosure:
			for i, b := range x.Bindings {
				if b == v {
					c.loads(x.Fn.(*ssa.Function).FreeVars[i], f)
				}
			}
		}
	}
}

// writes: the function changes the memory behind the parameter.
func (c *conc) writes(p ssa.Value, seen map[ssa.Value]bool) bool {
	if seen[p] || p.Referrers() == nil {
		return false
	}
	seen[p] = true
	for _, ref := range *p.Referrers() {
		switch x := ref.(type) {
		case *ssa.Store:
			if x.Addr == p {
				return true
			}
		case *ssa.MapUpdate:
			if x.Map == p {
				return true
			}
		case *ssa.FieldAddr:
			if c.writes(x, seen) {
				return true
			}
		case *ssa.IndexAddr:
			if c.writes(x, seen) {
				return true
			}
		case *ssa.UnOp:
			if x.Op == token.MUL && refType(x.Type()) && c.writes(x, seen) {
				return true
			}
		case *ssa.Lookup:
			if c.writes(x, seen) {
				return true
			}
		case *ssa.Extract:
			if refType(x.Type()) && c.writes(x, seen) {
				return true
			}
		case *ssa.Slice:
			if c.writes(x, seen) {
				return true
			}
		case *ssa.Phi:
			if c.writes(x, seen) {
				return true
			}
		case ssa.CallInstruction:
			cc := x.Common()
			if b, ok := cc.Value.(*ssa.Builtin); ok {
				if b.Name() == "delete" || b.Name() == "clear" || b.Name() == "copy" && cc.Args[0] == p || b.Name() == "append" && cc.Args[0] == p {
					return true
				}
				continue
			}
			f := cc.StaticCallee()
			if f == nil || f.Blocks == nil || !c.r.L.isRepoFn(f) {
				continue
			}
			for i, a := range cc.Args {
				if a == p && i < len(f.Params) && c.writes(f.Params[i], seen) {
					return true
				}
			}
		}
	}
	return false
}

func refType(t types.Type) bool {
	switch u := t.Underlying().(type) {
	case *types.Pointer, *types.Slice, *types.Map:
		return true
	case *types.Tuple:
		for i := 0; i < u.Len(); i++ {
			if refType(u.At(i).Type()) {
				return true
			}
		}
	}
	return false
}

// judge: accesses to one variable need a common lock, or are all atomic.
func (c *conc) judge(rule, what string, acc []access) {
	r := c.r
	written, atomic := false, false
	for _, a := range acc {
		written = written || a.write
		atomic = atomic || a.atomic
	}
	if !written {
		r.ob(rule, what+" does not change", true, "", "%d accesses", len(acc))
		return
	}
	if atomic {
		for _, a := range acc {
			r.ob(rule, what+" is only used atomically: "+a.fn.Name(), a.atomic, r.L.pos(a.ins), "%s", a.what)
		}
		return
	}
	// the lock of most accesses
	count := map[string]int{}
	for _, a := range acc {
		for k := range a.locks {
			count[k]++
		}
	}
	best := ""
	for k, n := range count {
		if best == "" || n > count[best] || n == count[best] && k < best {
			best = k
		}
	}
	for _, a := range acc {
		m := a.locks[best]
		ok := best != "" && (m == 2 || m == 1 && !a.write)
		d := "no mutex is held"
		if best != "" {
			d = fmt.Sprintf("%s without %s", a.what, best)
		}
		r.ob(rule, what+" is used under its mutex: "+a.fn.Name(), ok, r.L.pos(a.ins), "%s", d)
	}
}

// shared: package variables.
func (c *conc) shared() {
	r := c.r
	n := 0
	for _, g := range r.L.globals() {
		t := derefType(g.Type())
		if strings.HasPrefix(g.Name(), "init$") || synced(t) {
			continue
		}
		n++
		var acc []access
		for _, f := range c.fns {
			if c.start[f] {
				continue
			}
			for _, b := range f.Blocks {
				for _, ins := range b.Instrs {
					for _, op := range ins.Operands(nil) {
						if *op == ssa.Value(g) {
							acc = append(acc, c.globalUse(g, ins)...)
						}
					}
				}
			}
		}
		// an instruction is listed once for each way it was reached
		seen := map[ssa.Instruction]int{}
		var uniq []access
		for _, a := range acc {
			if i, ok := seen[a.ins]; ok {
				uniq[i].write = uniq[i].write || a.write
				continue
			}
			seen[a.ins] = len(uniq)
			uniq = append(uniq, a)
		}
		c.judge("shared", g.Pkg.Pkg.Name()+"."+g.Name(), uniq)
	}
	r.count("shared", 8)
	r.ob("shared", "package variables were found", n >= 5, "", "%d", n)
}

// globalUse: uses of a package variable by one instruction.
func (c *conc) globalUse(g *ssa.Global, ins ssa.Instruction) []access {
	var acc []access
	all := func(types.Type) bool { return true }
	// restrict the referrers to this instruction
	one := func(v ssa.Value, ref bool) {
		c.uses(v, ref, map[ssa.Value]bool{}, &acc, all)
	}
	st := c.at[ins]
	l := lockSet{}
	if st != nil {
		l = st.must
	}
	switch x := ins.(type) {
	case *ssa.UnOp:
		// the variable itself is read; what is behind it counts as well
		acc = append(acc, access{ins, false, false, l, "read", ins.Parent()})
		if refType(x.Type()) && !synced(x.Type()) && len(mutexFields(x.Type())) == 0 {
			one(x, true)
		}
		return acc
	case *ssa.Store:
		return []access{{ins, x.Addr == ssa.Value(g), false, l, "write", ins.Parent()}}
	case *ssa.FieldAddr:
		if !synced(derefType(x.Type())) && len(mutexFields(g.Type())) == 0 {
			one(x, false)
		}
		return acc
	case *ssa.IndexAddr:
		one(x, false)
		return acc
	case *ssa.Slice:
		one(x, true)
		return acc
	case ssa.CallInstruction:
		f := x.Common().StaticCallee()
		if f != nil && f.Pkg != nil && f.Pkg.Pkg.Path() == "sync/atomic" {
			return []access{{ins, true, true, l, f.Name(), ins.Parent()}}
		}
		w := true
		if f != nil && f.Blocks != nil && c.r.L.isRepoFn(f) {
			w = false
			if len(mutexFields(g.Type())) > 0 {
				return nil // owned
			}
			for i, a := range x.Common().Args {
				if a == ssa.Value(g) && i < len(f.Params) {
					w = w || c.writes(f.Params[i], map[ssa.Value]bool{})
				}
			}
		}
		return []access{{ins, w, false, l, "call", ins.Parent()}}
	case *ssa.DebugRef:
		return nil
	}
	return []access{{ins, true, false, l, "the address is given away", ins.Parent()}}
}

// mutexFields: the mutexes of a struct, or of what a pointer refers to; its
// other fields are looked at by owned.
func mutexFields(t types.Type) []string {
	st, ok := derefType(t).Underlying().(*types.Struct)
	if !ok {
		return nil
	}
	var mu []string
	for i := 0; i < st.NumFields(); i++ {
		if isMutexType(st.Field(i).Type()) {
			mu = append(mu, st.Field(i).Name())
		}
	}
	return mu
}

// owned: objects with a mutex of their own.
func (c *conc) owned() {
	r := c.r
	n := 0
	for _, p := range r.L.SSA {
		if p == nil || !r.L.isRepo(p.Pkg) {
			continue
		}
		for _, name := range p.Pkg.Scope().Names() {
			tn, ok := p.Pkg.Scope().Lookup(name).(*types.TypeName)
			if !ok {
				continue
			}
			st, ok := tn.Type().Underlying().(*types.Struct)
			if !ok {
				continue
			}
			mu := mutexFields(tn.Type())
			if len(mu) == 0 {
				continue
			}
			n++
			c.ownFields(tn.Type(), st, mu)
		}
	}
	r.ob("owned", "objects with a mutex were found", n >= 1, "", "%d", n)
	r.count("owned", 3)
}

func (c *conc) ownFields(t types.Type, st *types.Struct, mu []string) {
	r := c.r
	type acc struct {
		access
		base string
		esc  bool
	}
	byField := map[int][]acc{}
	for _, f := range c.fns {
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				fa, ok := ins.(*ssa.FieldAddr)
				if !ok || !types.Identical(derefType(fa.X.Type()), t) || isMutexType(derefType(fa.Type())) {
					continue
				}
				if a, ok := fa.X.(*ssa.Alloc); ok && c.private(a, fa) {
					continue
				}
				base := c.key(fa.X)
				var us []access
				c.uses(fa, false, map[ssa.Value]bool{}, &us, func(t types.Type) bool { return true })
				for _, u := range us {
					byField[fa.Field] = append(byField[fa.Field], acc{u, base, false})
				}
				// memory of the object that is handed out
				seen := map[ssa.Value]bool{}
				var esc func(v ssa.Value)
				esc = func(v ssa.Value) {
					if seen[v] || v.Referrers() == nil {
						return
					}
					seen[v] = true
					for _, ref := range *v.Referrers() {
						switch x := ref.(type) {
						case *ssa.UnOp:
							if x.Op == token.MUL && (refType(x.Type())) {
								if _, isEl := v.(*ssa.IndexAddr); !isEl {
									esc(x)
								}
							}
						case *ssa.Slice:
							esc(x)
						case *ssa.Phi:
							esc(x)
						case *ssa.ChangeType:
							esc(x)
						case *ssa.Return, *ssa.Send, *ssa.MakeInterface:
							byField[fa.Field] = append(byField[fa.Field], acc{access{x, true, false, lockSet{}, "is handed out", x.Parent()}, base, true})
						case *ssa.Store:
							if a, ok := x.Addr.(*ssa.Alloc); ok && x.Val == v {
								for _, y := range *a.Referrers() {
									if u, ok := y.(*ssa.UnOp); ok {
										esc(u)
									}
								}
							}
						}
					}
				}
				esc(fa)
			}
		}
	}
	for i := 0; i < st.NumFields(); i++ {
		if isMutexType(st.Field(i).Type()) || synced(st.Field(i).Type()) {
			continue
		}
		what := t.(*types.Named).Obj().Name() + "." + st.Field(i).Name()
		written := false
		for _, a := range byField[i] {
			written = written || a.write && !a.esc
		}
		if !written {
			r.ob("owned", what+" does not change", true, "", "%d accesses", len(byField[i]))
			continue
		}
		for _, a := range byField[i] {
			if a.esc {
				r.ob("owned", what+" is not handed out", false, r.L.pos(a.ins), "in %s", a.fn.Name())
				continue
			}
			ok := a.atomic
			for _, m := range mu {
				if a.base != "" {
					h := a.locks[a.base+"."+m]
					if p := a.locks["*"+a.base+"."+m]; p > h {
						h = p
					}
					ok = ok || h == 2 || h == 1 && !a.write
				}
			}
			r.ob("owned", what+" is used under the mutex of its object: "+a.fn.Name(), ok, r.L.pos(a.ins), "%s, holding %s", a.what, a.locks)
		}
	}
}

// private: the new object is not known to others yet.
func (c *conc) private(a *ssa.Alloc, at ssa.Instruction) bool {
	for _, ref := range *a.Referrers() {
		switch x := ref.(type) {
		case *ssa.FieldAddr, *ssa.DebugRef:
		case *ssa.UnOp:
		case *ssa.Store:
			if x.Addr != ssa.Value(a) {
				if after(x, nil)[at] {
					return false
				}
			}
		default:
			if after(x, nil)[at] {
				return false
			}
		}
	}
	return true
}

// captured: variables that concurrent functions share with others.
func (c *conc) captured() {
	r := c.r
	n := 0
	var fs []*ssa.Function
	for f := range c.conc {
		fs = append(fs, f)
	}
	sort.Slice(fs, func(i, j int) bool { return fs[i].Pos() < fs[j].Pos() })
	for _, f := range fs {
		n++
		// the function and those within it
		var inner []*ssa.Function
		var add func(g *ssa.Function)
		add = func(g *ssa.Function) {
			inner = append(inner, g)
			for _, h := range g.AnonFuncs {
				add(h)
			}
		}
		add(f)
		isInner := map[*ssa.Function]bool{}
		for _, g := range inner {
			isInner[g] = true
		}
		for _, fv := range f.FreeVars {
			cell, _ := c.bind[fv].(*ssa.Alloc)
			if cell == nil {
				if fv2, ok := c.bind[fv].(*ssa.FreeVar); ok {
					cell = c.cellOf(fv2)
				}
			}
			if cell == nil {
				continue
			}
			if t := derefType(cell.Type()).String(); strings.HasPrefix(t, "sync.") || strings.HasPrefix(t, "sync/atomic.") {
				continue
			}
			// all accesses to the variable
			var in, out []access
			c.cellUses(cell, map[ssa.Value]bool{}, func(a access) {
				if isInner[a.fn] {
					in = append(in, a)
				} else {
					out = append(out, a)
				}
			})
			once := c.conc[f] == "started by go"
			var bad *access
			for i, a := range in {
				if a.write && !a.atomic && !c.guarded(a, append(append([]access{}, in...), out...)) {
					if once && !c.later(f, out) {
						continue // nobody else uses it any more
					}
					bad = &in[i]
				}
			}
			for i, a := range out {
				if a.write && !a.atomic && c.afterStart(f, a) && len(in) > 0 && !c.guarded(a, append(append([]access{}, in...), out...)) {
					bad = &out[i]
				}
			}
			at := r.L.fnPos(f)
			d := ""
			if bad != nil {
				at, d = r.L.pos(bad.ins), bad.what+" without a mutex; "+f.Name()+" "+c.conc[f]
			}
			r.ob("captured", fmt.Sprintf("%s of %s is not changed while others use it", cell.Comment, f.Name()), bad == nil, at, "%s", d)
		}
	}
	r.ob("captured", "functions that run concurrently were found", n >= 5, "", "%d", n)
	r.count("captured", 5)
}

// given: what a goroutine gets as an argument.
func (c *conc) given() {
	r := c.r
	n := 0
	for _, f := range c.fns {
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				g, ok := ins.(*ssa.Go)
				if !ok {
					continue
				}
				n++
				callee := g.Call.StaticCallee()
				later := after(ins, nil)
				for i, a := range g.Call.Args {
					if !refType(a.Type()) || synced(a.Type()) || len(mutexFields(a.Type())) > 0 {
						continue
					}
					all := func(types.Type) bool { return true }
					var in, out, mine []access
					if callee != nil && callee.Blocks != nil && r.L.isRepoFn(callee) && i < len(callee.Params) {
						c.uses(callee.Params[i], true, map[ssa.Value]bool{}, &in, all)
					}
					src := a
					if u, ok := a.(*ssa.UnOp); ok && u.Op == token.MUL {
						if al, ok := u.X.(*ssa.Alloc); ok {
							src = al
						}
					}
					if al, ok := src.(*ssa.Alloc); ok {
						c.cellUses(al, map[ssa.Value]bool{}, func(x access) { mine = append(mine, x) })
					} else {
						c.uses(src, true, map[ssa.Value]bool{}, &mine, all)
					}
					for _, x := range mine {
						if x.ins == ins {
							continue
						}
						if x.fn != f || later[x.ins] {
							// a plain change of the variable leaves the argument alone
							if s, ok := x.ins.(*ssa.Store); ok && s.Addr == src && src != a {
								continue
							}
							out = append(out, x)
						}
					}
					if inCycle(b) {
						if si, ok := src.(ssa.Instruction); ok && !inCycle(si.Block()) {
							out = append(out, in...)
						}
					}
					both := append(append([]access{}, in...), out...)
					var bad *access
					for k := range both {
						x := both[k]
						if x.write && !x.atomic && len(in) > 0 && len(out) > 0 && !c.guarded(x, both) {
							bad = &both[k]
						}
					}
					d := ""
					if bad != nil {
						d = bad.what + " at " + r.L.pos(bad.ins)
					}
					name := "a function"
					if callee != nil {
						name = callee.Name()
					}
					r.ob("given", fmt.Sprintf("argument %d of the goroutine %s is not used by others", i, name), bad == nil, r.L.pos(ins), "%s", d)
				}
			}
		}
	}
	r.ob("given", "goroutines were found", n >= 5, "", "%d", n)
}

func (c *conc) cellOf(fv *ssa.FreeVar) *ssa.Alloc {
	for i := 0; i < 10; i++ {
		switch x := c.bind[fv].(type) {
		case *ssa.Alloc:
			return x
		case *ssa.FreeVar:
			fv = x
		default:
			return nil
		}
	}
	return nil
}

// cellUses: all reads and writes of a variable, in all functions that
// capture it, and changes of the map or slice it holds.
func (c *conc) cellUses(v ssa.Value, seen map[ssa.Value]bool, emit func(a access)) {
	if seen[v] {
		return
	}
	seen[v] = true
	var acc []access
	held := map[ssa.Value]bool{}
	// initialisation is a plain store as well
	_, isCell := derefType(v.Type()).Underlying().(*types.Struct)
	_ = isCell
	c.uses(v, false, held, &acc, func(t types.Type) bool {
		switch t.Underlying().(type) {
		case *types.Map, *types.Slice:
			return true
		}
		return false
	})
	for _, a := range acc {
		emit(a)
	}
	for _, ref := range *v.Referrers() {
		if mc, ok := ref.(*ssa.MakeClosure); ok {
			g := mc.Fn.(*ssa.Function)
			for i, b := range mc.Bindings {
				if b == v {
					c.cellUses(g.FreeVars[i], seen, emit)
				}
			}
		}
	}
}

// guarded: all accesses hold a common mutex.
func (c *conc) guarded(a access, all []access) bool {
	for k, m := range a.locks {
		if m != 2 {
			continue
		}
		ok := true
		for _, b := range all {
			if b.locks[k] == 0 && !b.atomic && b.fn != nil && !(b.write && c.firstStore(b)) {
				ok = false
			}
		}
		if ok {
			return true
		}
	}
	return false
}

func (c *conc) firstStore(a access) bool {
	s, ok := a.ins.(*ssa.Store)
	if !ok {
		return false
	}
	al, ok := s.Addr.(*ssa.Alloc)
	return ok && al.Block() == s.Block()
}

// afterStart: the access may happen after the function was handed out.
func (c *conc) afterStart(f *ssa.Function, a access) bool {
	parent := f.Parent()
	if parent == nil {
		return false
	}
	if a.fn != parent {
		// in another closure: it may run at any time if it is concurrent
		_, conc := c.conc[a.fn]
		return conc
	}
	for _, b := range parent.Blocks {
		for _, ins := range b.Instrs {
			uses := false
			switch x := ins.(type) {
			case *ssa.Go:
				uses = funcOf(x.Call.Value) == f
			case *ssa.Call:
				for _, arg := range x.Call.Args {
					uses = uses || funcOf(arg) == f
				}
			case *ssa.ChangeType:
				uses = funcOf(x.X) == f
			}
			if uses && after(ins, nil)[a.ins] {
				return true
			}
		}
	}
	return false
}

// later: somebody uses the variable after the goroutine was started.
func (c *conc) later(f *ssa.Function, out []access) bool {
	for _, a := range out {
		if c.afterStart(f, a) {
			return true
		}
		if a.fn != f.Parent() {
			return true
		}
	}
	// several goroutines with the same variable
	for _, s := range c.goSites(f) {
		if inCycle(s.Block()) {
			return !c.perIteration(f, s)
		}
	}
	return false
}

func (c *conc) goSites(f *ssa.Function) []ssa.Instruction {
	var out []ssa.Instruction
	if f.Parent() == nil {
		return nil
	}
	for _, b := range f.Parent().Blocks {
		for _, ins := range b.Instrs {
			if g, ok := ins.(*ssa.Go); ok && funcOf(g.Call.Value) == f {
				out = append(out, ins)
			}
		}
	}
	return out
}

func (c *conc) perIteration(f *ssa.Function, s ssa.Instruction) bool {
	for _, fv := range f.FreeVars {
		if a, ok := c.bind[fv].(*ssa.Alloc); ok && !inCycle(a.Block()) {
			return false
		}
	}
	return true
}

// copies: a mutex is not copied with its object.
func (c *conc) copies() {
	r := c.r
	var has func(t types.Type, d int) bool
	has = func(t types.Type, d int) bool {
		if _, ok := t.Underlying().(*types.Pointer); ok {
			return false
		}
		if isMutexType(t) {
			return true
		}
		if st, ok := t.Underlying().(*types.Struct); ok && d < 5 {
			if synced(t) {
				return false
			}
			for i := 0; i < st.NumFields(); i++ {
				if has(st.Field(i).Type(), d+1) {
					return true
				}
			}
		}
		return false
	}
	n := 0
	for _, f := range c.fns {
		n++
		for _, p := range f.Params {
			if has(p.Type(), 0) {
				r.ob("locks", "no mutex is copied: "+f.Name(), false, r.L.fnPos(f), "parameter %s", p.Name())
			}
		}
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				if u, ok := ins.(*ssa.UnOp); ok && u.Op == token.MUL && has(u.Type(), 0) {
					if a, ok := u.X.(*ssa.Alloc); ok && a.Comment == "complit" {
						continue
					}
					r.ob("locks", "no mutex is copied: "+f.Name(), false, r.L.pos(ins), "%s", u.Type())
				}
			}
		}
	}
	r.ob("locks", "functions were searched for copies of mutexes", n > 20, "", "%d", n)
}
