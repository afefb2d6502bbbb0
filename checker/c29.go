package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C29", "Shape analysis of the string cache: abstract lists with named entries and segments of any length, the map and the counters, from every well-formed content and with any change by others between two locked sections.", func(r *Report) {
		r.section(func() { r.stringCache() })
		r.section(func() { r.cacheGauges() })
	})
}

// shapeOf runs the initialisation of the package and finds the parts of the
// cache.
func (r *Report) shapeOf(p *ssa.Package) (*shape, []*shRoles) {
	a := &shape{r: r, pkg: p, types: map[string]types.Type{}, fails: map[string]string{}, headers: map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool{}}
	s := &shState{cells: map[string]sv{}, maps: map[string]map[string]sv{}, segs: map[string]shSeg{}}
	ini := p.Func("init")
	r.must(ini != nil && ini.Blocks != nil, "the package has an initialisation")
	a.enter(s, ini, nil, nil, nil)
	var end *shState
	a.explore([]*shState{s}, func(x *shState) {
		if end == nil || len(x.cells) > len(end.cells) {
			end = x
		}
	})
	r.must(end != nil, "the initialisation of the package is understood: %v", a.fails)
	end.frames = nil
	end.done = false
	a.base = end
	// the type of the entries
	var node *types.Named
	for _, n := range p.Pkg.Scope().Names() {
		tn, ok := p.Pkg.Scope().Lookup(n).(*types.TypeName)
		if !ok {
			continue
		}
		nt, ok := tn.Type().(*types.Named)
		if !ok {
			continue
		}
		st, ok := nt.Underlying().(*types.Struct)
		if !ok {
			continue
		}
		self := 0
		for i := 0; i < st.NumFields(); i++ {
			if types.Identical(st.Field(i).Type(), types.NewPointer(nt)) {
				self++
			}
		}
		if self == 2 {
			r.must(node == nil, "there is one type of list entries")
			node = nt
		}
	}
	r.must(node != nil, "entries of a doubly linked list were found")
	var links, texts []string
	st := node.Underlying().(*types.Struct)
	for i := 0; i < st.NumFields(); i++ {
		if types.Identical(st.Field(i).Type(), types.NewPointer(node)) {
			links = append(links, "."+st.Field(i).Name())
		}
		if isString(st.Field(i).Type()) {
			texts = append(texts, "."+st.Field(i).Name())
		}
	}
	// the places of the cache
	var ptrs, ints, lims []string
	mapObj := ""
	limit := int64(0)
	for id, t := range a.types {
		if !strings.HasPrefix(id, "o") {
			continue
		}
		a.leaves(t, "", func(path string, lt types.Type) {
			c := id + path
			v, ok := end.cells[c]
			if !ok {
				return
			}
			switch u := lt.Underlying().(type) {
			case *types.Pointer:
				if types.Identical(u.Elem(), node) {
					ptrs = append(ptrs, c)
				}
			case *types.Map:
				if v.k == 'm' && types.Identical(u.Elem(), types.NewPointer(node)) {
					mapObj = v.obj
				}
			case *types.Basic:
				if u.Info()&types.IsInteger != 0 && v.k == 'i' && len(v.lin.m) == 0 {
					if v.lin.c == 0 {
						ints = append(ints, c)
					} else {
						lims = append(lims, c)
						limit = v.lin.c
					}
				}
			}
		})
	}
	sort.Strings(ptrs)
	sort.Strings(ints)
	r.must(len(links) == 2 && len(ptrs) == 2 && mapObj != "" && len(ints) >= 1 && len(texts) >= 1, "the list, the map and the counters of the cache were found: %v %v %v %v %v", links, ptrs, mapObj, ints, texts)
	r.must(len(lims) == 1, "the limit of the cache was found: %v", lims)
	var out []*shRoles
	for h := 0; h < 2; h++ {
		for n := 0; n < 2; n++ {
			for _, c := range append(append([]string{}, ints...), "") {
				for _, z := range ints {
					if c == z {
						continue
					}
					for _, tx := range texts {
						out = append(out, &shRoles{head: ptrs[h], tail: ptrs[1-h], next: links[n], prev: links[1-n], text: tx,
							count: c, size: z, mapObj: mapObj, limit: limit, nodeT: node})
					}
				}
			}
		}
	}
	return a, out
}

// run analyses a function of one argument, with a text or without one.
func (a *shape) run(fn *ssa.Function, empty bool, done func(s *shState)) {
	a.vEmpty = empty
	var start []*shState
	for _, conf := range shConfs {
		n := a.install(a.base, conf)
		for c := range a.counters {
			n.cells[c] = svInt(linC(0))
		}
		n.first = "absent"
		if n.vhere {
			n.first = "present"
		}
		text := svText("V")
		if empty {
			if len(conf) > 1 || len(conf) == 1 && n.vhere {
				continue
			}
			text = svText("")
		}
		var args [][]sv
		if fn.Signature.Params().Len() == 0 {
			args = [][]sv{nil}
		} else if isString(fn.Params[len(fn.Params)-1].Type()) {
			args = [][]sv{{text}}
		} else {
			y := a.bytesOf(n, text, "param")
			args = [][]sv{{y}}
			if empty {
				args = append(args, []sv{svNil})
			}
		}
		for _, ar := range args {
			m := n.clone()
			a.enter(m, fn, ar, nil, nil)
			start = append(start, m)
		}
	}
	a.explore(start, done)
}

func (r *Report) cachePkg() *ssa.Package {
	p := r.L.pkg("cache")
	r.must(p != nil, "the package of the string cache exists")
	return p
}

// internFns: the functions that return the cached text of their argument.
func (r *Report) internFns(p *ssa.Package) []*ssa.Function {
	var out []*ssa.Function
	for _, m := range p.Members {
		fn, ok := m.(*ssa.Function)
		if !ok || fn.Object() == nil || !fn.Object().Exported() {
			continue
		}
		sig := fn.Signature
		if sig.Params().Len() == 1 && sig.Results().Len() == 1 && isString(sig.Results().At(0).Type()) {
			pt := sig.Params().At(0).Type()
			if isString(pt) || isByteSlice(pt) {
				out = append(out, fn)
			}
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].Pos() < out[j].Pos() })
	return out
}

// sizeMethod: the method of the cache that gives its size.
func (a *shape) measure(name string) (lin, bool) {
	var got []lin
	bad := false
	var fn *ssa.Function
	for _, f := range a.r.L.Fns {
		if f.Pkg == a.pkg && f.Name() == name && f.Signature.Recv() != nil && f.Signature.Results().Len() == 1 && f.Signature.Params().Len() == 0 {
			// of the object that holds the counters
			t := derefType(f.Signature.Recv().Type())
			for id, ot := range a.types {
				if types.Identical(ot, t) && strings.HasPrefix(a.ro.size, id) {
					fn = f
				}
			}
		}
	}
	if fn == nil {
		return lin{}, false
	}
	obj := ""
	for id, ot := range a.types {
		if types.Identical(ot, derefType(fn.Signature.Recv().Type())) && strings.HasPrefix(a.ro.size, id) {
			obj = id
		}
	}
	n := a.install(a.base, []string{"S1"})
	a.enter(n, fn, []sv{{k: 'p', obj: obj}}, nil, nil)
	a.vEmpty = true
	a.explore([]*shState{n}, func(s *shState) {
		if len(s.result) == 1 && s.result[0].k == 'i' {
			got = append(got, s.result[0].lin)
		} else {
			bad = true
		}
	})
	if bad || len(got) != 1 {
		return lin{}, false
	}
	return got[0], true
}

type shVerdict struct {
	ro     *shRoles
	fails  map[string]string
	obs    []func()
	bad    int
	states int
	checks int
	hit    string
	miss   string
	extra  int64 // what the size holds for an entry besides its text
}

func (r *Report) stringCache() {
	p := r.cachePkg()
	fns := r.internFns(p)
	r.must(len(fns) >= 2, "the functions of the string cache were found")
	a, roles := r.shapeOf(p)
	var best *shVerdict
	for _, ro := range roles {
		v := r.tryRoles(a, ro, fns)
		if best == nil || v.bad < best.bad {
			best = v
		}
		if v.bad > 0 && v.extra > 0 {
			rx := *ro
			rx.extra = v.extra
			if w := r.tryRoles(a, &rx, fns); w.bad < best.bad {
				best, v = w, w
			}
		}
		if v.bad == 0 {
			break // a.alpha and so on belong to these roles
		}
	}
	for _, f := range best.obs {
		f()
	}
	r.note("list %s .. %s, links %s %s, %d abstract states, %d checks of the whole cache", best.ro.head, best.ro.tail, best.ro.next, best.ro.prev, best.states, best.checks)
	a.ro = best.ro
	r.shapeA = a
	r.shapeHit, r.shapeMiss = best.hit, best.miss
	r.count("cache", 8)
}

func (r *Report) tryRoles(a *shape, ro *shRoles, fns []*ssa.Function) *shVerdict {
	v := &shVerdict{ro: ro}
	a.ro = ro
	a.fails = map[string]string{}
	a.states, a.checks, a.n = 0, 0, 1000
	a.counters = map[string]bool{}
	ob := func(rule, construct string, ok bool, where, format string, args ...interface{}) {
		if !ok {
			v.bad++
		}
		v.obs = append(v.obs, func() { r.ob(rule, construct, ok, where, format, args...) })
	}
	// integers of the package
	for _, g := range r.L.globals() {
		if g.Pkg == a.pkg {
			if b, ok := derefType(g.Type()).Underlying().(*types.Basic); ok && b.Info()&types.IsInteger != 0 {
				a.counters["g:"+g.Pkg.Pkg.Path()+"."+g.Name()] = true
			} else if strings.HasPrefix(derefType(g.Type()).String(), "sync/atomic.") {
				a.counters["g:"+g.Pkg.Pkg.Path()+"."+g.Name()+".v"] = true
			}
		}
	}
	// what the limit is compared with
	size, ok := a.measure("Size")
	cnt, ok2 := a.measure("Count")
	ob("cache", "the size and the number of entries can be read", ok && ok2, "", "%v %v", size, cnt)
	if ok {
		a.alpha, a.beta, a.gamma = size.m["z:S1"], size.m["n:S1"], size.c
		ob("cache", "the size covers the texts of all entries and something for each entry", a.alpha >= 1 && a.beta >= 1 && a.gamma >= 0, "", "%s", size)
	}
	if ok2 {
		ob("cache", "the number of entries is read as it is", cnt.equal(linV("n:S1")), "", "%s", cnt)
	}
	ob("cache", "the limit is positive", ro.limit > 0, "", "%d", ro.limit)
	for _, fn := range fns {
		r.Funcs[fn.String()] = true
		for _, empty := range []bool{false, true} {
			what := fn.Name()
			if empty {
				what += " of an empty text"
			}
			before := len(a.fails)
			n, hits, misses := 0, map[string]int{}, map[string]int{}
			wrong, counts, quiet, newest := "", "", true, true
			a.run(fn, empty, func(s *shState) {
				n++
				res := svTop
				if len(s.result) == 1 {
					res = s.result[0]
				}
				want := "V"
				if empty {
					want = ""
				}
				if res.k != 's' || res.obj != want {
					wrong = "it returns " + res.String()
				}
				if !empty {
					a.check(s, r.L.fnPos(fn), "at the end")
					newest = newest && s.front
					if z := s.cells[ro.size]; z.k == 'i' && z.lin.m["len:V"] == 1 && len(z.lin.m) == 1 && z.lin.c > 0 {
						v.extra = z.lin.c
					}
				}
				touched := 0
				for c := range a.counters {
					x := s.cells[c]
					if x.k == 'i' && x.lin.equal(linC(0)) {
						continue
					}
					touched++
					if x.k != 'i' || !x.lin.equal(linC(1)) {
						counts = "a counter is changed by " + x.String()
					}
					if s.first == "present" {
						hits[c]++
					} else {
						misses[c]++
					}
				}
				if empty && touched > 0 {
					quiet = false
				}
				if !empty && touched != 1 {
					counts = fmt.Sprintf("%d counters are changed", touched)
				}
			})
			var fl []string
			i := 0
			for m, w := range a.fails {
				i++
				fl = append(fl, m+" at "+w)
			}
			sort.Strings(fl)
			bad := len(a.fails) - before
			ob("cache", what+" keeps list, map and counters consistent, in order and within the limit", bad == 0, r.L.fnPos(fn), "%s", strings.Join(fl, "; "))
			v.bad += bad
			ob("cache", what+" returns exactly its argument", wrong == "" && n > 0, r.L.fnPos(fn), "%s, %d ways", wrong, n)
			if empty {
				ob("cache", what+" counts nothing", quiet, r.L.fnPos(fn), "")
				continue
			}
			ob("cache", what+" leaves its argument as the entry used last", newest, r.L.fnPos(fn), "")
			hit, miss := "", ""
			for c := range hits {
				hit = c
			}
			for c := range misses {
				miss = c
			}
			ob("cache", what+" counts one hit or one miss", counts == "" && len(hits) == 1 && len(misses) == 1 && hit != miss, r.L.fnPos(fn), "%s %v %v", counts, hits, misses)
			if v.hit == "" {
				v.hit, v.miss = hit, miss
			}
			ob("cache", what+" counts like the others", v.hit == hit && v.miss == miss, r.L.fnPos(fn), "")
		}
	}
	v.fails = a.fails
	v.states, v.checks = a.states, a.checks
	return v
}

// cacheGauges: what the metrics of the cache show.
func (r *Report) cacheGauges() {
	p := r.cachePkg()
	e := r.engine(func(fn *ssa.Function) bool { return false })
	found := map[string]bool{}
	a := r.shapeA
	r.must(a != nil, "the cache was analysed")
	rates := 0
	for _, fn := range r.L.Fns {
		if fn.Pkg != p {
			continue
		}
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				c, ok := ins.(*ssa.Call)
				if !ok || c.Call.StaticCallee() == nil || !strings.Contains(c.Call.StaticCallee().Name(), "FunctionalGauge") {
					continue
				}
				var name string
				var g *ssa.Function
				for _, a := range c.Call.Args {
					if k, ok := a.(*ssa.Const); ok && k.Value != nil && isString(k.Type()) {
						name = constText(k)
					}
					if f := funcOf(a); f != nil {
						g = f
					}
				}
				if g == nil || name == "" {
					r.ob("gauges", "the gauge is known: "+fn.Name(), false, r.L.pos(ins), "")
					continue
				}
				found[name] = true
				at := r.L.fnPos(g)
				switch {
				case strings.HasSuffix(name, ".rate"):
					rates++
					r.hitRate(e, g, name, at)
				case strings.HasSuffix(name, ".size"), strings.HasSuffix(name, ".count"):
					n, wrong := 0, ""
					a.vEmpty = false
					a.fails = map[string]string{}
					a.run(g, false, func(s *shState) {
						n++
						seq, bad := a.sequence(s)
						cnt, z := a.sums(s, seq)
						want := cnt
						if strings.HasSuffix(name, ".size") {
							want = a.limitOf(cnt, z)
						}
						if bad != "" || len(s.result) != 1 || s.result[0].k != 'i' || !s.result[0].lin.equal(want) {
							wrong = fmt.Sprintf("%s for %v", s.result, seq)
						}
					})
					for m, w := range a.fails {
						wrong += m + " at " + w
					}
					r.ob("gauges", name+" shows what the cache holds", wrong == "" && n > 0, at, "%s", wrong)
				}
			}
		}
	}
	r.ob("gauges", "the gauges of the cache were found", rates == 1 && found["binary.cache.size"] && found["binary.cache.count"], "", "%v", found)
	r.count("gauges", 3)
}

func constText(k *ssa.Const) string {
	return constant.StringVal(k.Value)
}

// hitRate: hits of all lookups since it was read last.
func (r *Report) hitRate(e *Engine, g *ssa.Function, name, at string) {
	res := e.Eval(g, nil, nil, nil)
	r.used(res)
	var h, m *Node
	ok := true
	for _, ef := range effs(res, "call", nil) {
		if !strings.HasPrefix(ef.Name, "sync/atomic.Swap") && !strings.HasPrefix(ef.Name, "(*sync/atomic.") {
			continue
		}
		gl := ""
		if t := ef.Args[0].leaf; t != nil && t.op == "global" {
			q := t.obj.(*ssa.Global)
			gl = "g:" + q.Pkg.Pkg.Path() + "." + q.Name()
		}
		zero := strings.Contains(ef.Name, "Swap") && len(ef.Args) == 2 && ef.Args[1] == intConst(0)
		switch {
		case (r.shapeHit == gl || r.shapeHit == gl+".v") && gl != "" && h == nil:
			h = ef.Res
		case (r.shapeMiss == gl || r.shapeMiss == gl+".v") && gl != "" && m == nil:
			m = ef.Res
		default:
			ok = false
		}
		ok = ok && zero
	}
	if !r.ob("gauges", name+" takes both counters and starts them again", ok && h != nil && m != nil, at, "") {
		return
	}
	f64 := g.Signature.Results().At(0).Type()
	conv := func(n *Node) *Node { return mkN("fconv", shortType(f64), nil, f64, n) }
	sum := add(h, m)
	some := and(lessEq(intConst(0), h), lessEq(intConst(0), m))
	none := eq(sum, intConst(0))
	for _, l := range guardedLeaves(res.Results[0]) {
		t := l.T
		c := and(l.Cond, some)
		if sameUnder(c, T.False, T.True) == nil {
			continue // never happens
		}
		if t.op == "bin" && t.aux == "/" {
			okN := sameUnder(c, t.args[0], conv(h)) == nil
			okD := sameUnder(c, t.args[1], conv(sum)) == nil
			if d := t.args[1].leaf; d != nil && d.op == "bin" && d.aux == "+" && len(d.args) == 2 {
				x, y := d.args[0], d.args[1]
				okD = okD || sameUnder(c, x, conv(h)) == nil && sameUnder(c, y, conv(m)) == nil || sameUnder(c, x, conv(m)) == nil && sameUnder(c, y, conv(h)) == nil
			}
			r.ob("gauges", name+" is the share of the hits", okN && okD, at, "%s", short(leafNode(t)))
			r.ob("gauges", name+" is a number even if nothing was looked up", sameUnder(and(c, none), T.False, T.True) == nil, at, "if %s", short(l.Cond))
			continue
		}
		zero := (t.op == "const" || t.op == "fconst") && (t.str(1) == "0")
		r.ob("gauges", name+" is zero only without hits", zero && (sameUnder(and(c, lessThan(intConst(0), h)), T.False, T.True) == nil), at, "%s if %s", short(leafNode(t)), short(l.Cond))
	}
}
