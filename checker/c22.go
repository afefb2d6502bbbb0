package main

// C22: clock skew; C23: fake roots; C21: merging.

import (
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// quiet models calls of the given functions as calls that change nothing that
// is looked at.
func quiet(fns ...*ssa.Function) hook {
	return func(e *Engine, fr *frame, name string, args []*Node, st *State, ins ssa.Instruction) (*Node, bool) {
		for _, fn := range fns {
			if fn == nil || fn.String() != name {
				continue
			}
			var rt types.Type
			if v, ok := ins.(ssa.Value); ok {
				rt = v.Type()
			}
			res := T.Nil
			if rt != nil {
				if tt, ok := rt.(*types.Tuple); !ok || tt.Len() > 0 {
					res = fr.results(ins, "call:"+fn.Name(), rt)
				}
			}
			fr.effect(&Effect{Kind: "call", Name: name, Callee: fn, Args: args, Res: res, Instr: ins}, st)
			return res, true
		}
		return nil, false
	}
}

func init() {
	register("C22", "Value-flow summaries of the correction of a span, of the search for roots and children: final values, arguments of the recursion and conditions are compared with the specification.", func(r *Report) {
		r.section(func() { r.skew() })
		r.section(func() { r.rootsAndChildren() })
	})
	register("C23", "Value-flow summary of the tick and of the fake root: condition, values and the loops that compute them.", func(r *Report) {
		r.section(func() { r.fakeRoot() })
	})
}

func (r *Report) skew() {
	t := r.treeInfo()
	fn := t.correct
	r.must(len(fn.Params) == 4, "correctTreeTimings has %d parameters", len(fn.Params))
	kids := r.entry("", "tree.ChildrenOf")
	e := r.engine(nil, quiet(fn, kids))
	res := e.Eval(fn, nil, nil, nil)
	r.used(res)
	w := r.L.fnPos(fn)
	tree, node, parent, offset := res.Params[0], res.Params[1], res.Params[2], res.Params[3]
	st := t.spanT
	m0 := e.entryMem(res)
	tT := fieldType(st, "Timings")
	get := func(m *Mem, p *Node, f string) *Node { return e.loadAt(m, fieldAddrOf(p, st, f), fieldType(st, f)) }
	tim := func(f string) *Node {
		a := fieldAddrOf(fieldAddrOf(node, st, "Timings"), tT, f)
		return e.loadAt(m0, a, fieldType(tT, f))
	}
	cs, cr, ss, sr := tim("CS"), tim("CR"), tim("SS"), tim("SR")
	zero := intConst(0)
	full := ands(not(eq(cs, zero)), not(eq(cr, zero)), not(eq(ss, zero)), not(eq(sr, zero)))
	tsT := fieldType(st, "Timestamp")
	half := func(n *Node) *Node { return arith(token.QUO, n, intConst(2), tsT) }
	skews := []*Node{
		sub(half(add(cr, cs)), half(add(sr, ss))),
		sub(add(cs, half(sub(cr, cs))), add(sr, half(sub(ss, sr)))),
		half(sub(add(cr, cs), add(sr, ss))),
		half(add(sub(cs, sr), sub(cr, ss))),
	}
	ts := mux(full, add(cs, offset), add(get(m0, node, "Timestamp"), offset))
	// before 2020
	broken := and(not(nilNode(parent)), lessThan(ts, intConst(1577836800000*1000000)))
	// a node is not its own parent
	self := toBool(eq(node, parent))
	want := map[string]*Node{
		"Timestamp": mux(broken, get(m0, parent, "Timestamp"), ts),
		"Duration":  mux(full, sub(cr, cs), get(m0, node, "Duration")),
	}
	other := not(self)
	s := st.Underlying().(*types.Struct)
	for i := 0; i < s.NumFields(); i++ {
		f := s.Field(i).Name()
		got := get(res.Out.mem, node, f)
		wv := want[f]
		if wv == nil {
			wv = get(m0, node, f)
		}
		what := "the " + f + " of a span is kept"
		switch f {
		case "Timestamp":
			what = "start of a span: the client's, shifted by the parent's skew; the parent's if it is broken"
		case "Duration":
			what = "duration of a span: the client's if all timings are known"
		}
		r.sameIf("span", what, w, other, got, wv)
	}
	for _, ef := range effs(res, "", func(ef *Effect) bool {
		return ef.Kind == "store" || ef.Kind == "mapupdate" || ef.Kind == "mapdelete" || ef.Kind == "send" || ef.Kind == "panic" || ef.Kind == "go"
	}) {
		ok := false
		if ef.Kind == "store" {
			ok = true
			for _, g := range guardedLeaves(ef.Args[0]) {
				root := addrRoot(g.T)
				ok = ok && (root.op == "alloc" || leafNode(root) == node)
			}
		}
		r.ob("only", "only the span itself is changed", ok, r.at(ef), "%s %s", ef.Kind, short(firstArg(ef)))
	}
	// recursion
	var kid *Effect
	n := 0
	for _, ef := range effs(res, "call", func(ef *Effect) bool { return ef.Callee == kids }) {
		if kid == nil {
			kid = ef
		} else {
			n++
		}
		r.ob("children", "the children of the span are looked for", ef.Args[0] == tree && ef.Args[1] == get(m0, node, "Id"), r.at(ef), "of %s", short(ef.Args[1]))
	}
	r.must(kid != nil, "the children of a span are not corrected")
	selfs := effs(res, "call", func(ef *Effect) bool { return ef.Callee == fn })
	r.ob("children", "children are corrected at one place", len(selfs) == 1, w, "%d places", len(selfs))
	for _, ef := range selfs {
		wc := r.at(ef)
		if len(ef.Loops) != 1 {
			r.ob("children", "every child is corrected once", false, wc, "not in a loop over the children")
			continue
		}
		L := ef.Loops[0]
		ln := lenOf(kid.Res)
		r.ob("children", "every child is corrected once", ranges(L, ln) && equiv(L.Entry, T.True) && equiv(ef.Cond, inLoop(L, ln)) && ef.Gor == nil && !ef.Defer, wc, "corrected if %s", short(ef.Cond))
		r.same("children", "a child of the same trace is corrected", wc, ef.Args[0], tree)
		r.same("children", "each child is corrected", wc, ef.Args[1], e.elemOf(ef.Mem, kid.Res, leafNode(L.K), types.NewPointer(st)))
		r.same("children", "the child knows its parent", wc, ef.Args[2], node)
		ok := false
		for _, sk := range skews {
			if sameUnder(T.True, ef.Args[3], mux(full, add(offset, sk), offset)) == nil {
				ok = true
			}
		}
		r.ob("children", "the skew of the span is handed to its children", ok, wc, "must be the offset plus half of the difference between the centres of client and server, is %s", short(ef.Args[3]))
		r.sameIf("children", "the parent is corrected before its children", wc, other, get(ef.Mem, node, "Timestamp"), want["Timestamp"])
	}
	r.count("span", 9)
	r.count("children", 6)
}

func firstArg(ef *Effect) *Node {
	if len(ef.Args) > 0 {
		return ef.Args[0]
	}
	return nil
}

func (r *Report) rootsAndChildren() {
	t := r.treeInfo()
	st := t.spanT
	for _, name := range []string{"tree.ChildrenOf", "tree.Roots"} {
		fn := r.entry("", name)
		e := r.engine(nil)
		res := e.Eval(fn, nil, nil, nil)
		look := r.L.fn("", "SpanSlice.GetSpanRef")
		if name == "tree.Roots" && look != nil && len(effs(res, "mapupdate", nil)) == 0 {
			// the parents are looked up in the list
			changes := effs(r.engine(nil).Eval(look, nil, nil, nil), "store", func(ef *Effect) bool {
				return ef.Args[0].leaf == nil || addrRoot(ef.Args[0].leaf).op != "alloc"
			})
			r.ob("roots", "looking for a span changes nothing", len(changes) == 0, r.L.fnPos(look), "%d stores", len(changes))
			e = r.engine(nil, func(_ *Engine, fr *frame, name string, args []*Node, st *State, ins ssa.Instruction) (*Node, bool) {
				v, ok := ins.(ssa.Value)
				if name != look.String() || !ok {
					return nil, false
				}
				res := fr.results(ins, "call:"+look.Name(), v.Type())
				fr.effect(&Effect{Kind: "call", Name: name, Callee: look, Args: args, Res: res, Instr: ins, Pure: true}, st)
				return res, true
			})
			res = e.Eval(fn, nil, nil, nil)
		}
		r.used(res)
		w := r.L.fnPos(fn)
		label := "children"
		if name == "tree.Roots" {
			label = "roots"
		}
		tree := res.Params[0]
		m0 := e.entryMem(res)
		list := t.fld(e, m0, tree, t.spans)
		r.must(len(res.Results) == 1, "%s has %d results", name, len(res.Results))
		b := r.builtSlice(res, res.Results[0], types.NewPointer(st), T.True)
		if b.why != "" || len(b.loops) != 1 {
			r.ob(label, "every span is looked at", false, w, "%s", b.why)
			continue
		}
		L := b.loops[0]
		r.ob(label, "every span is looked at", ranges(L, lenOf(list)) && equiv(L.Entry, T.True), r.at(b.ef), "%s", short(L.Exits[0].Cond))
		p := indexAddrTerm(sliceData(list), add(sliceOff(list), leafNode(L.K)), st)
		r.same(label, "the spans of the trace itself are returned", r.at(b.ef), b.elem, p)
		get := func(f string) *Node { return e.loadAt(m0, fieldAddrOf(p, st, f), fieldType(st, f)) }
		own := eq(get("Parent"), get("Id"))
		var want *Node
		if label == "children" {
			want = and(eq(get("Parent"), res.Params[1]), not(own))
			r.iff(label, "a span with this parent that is not its own parent is a child", r.at(b.ef), b.cond, and(inLoop(L, lenOf(list)), want))
		} else if find := effs(res, "call", func(ef *Effect) bool { return look != nil && ef.Callee == look }); len(find) > 0 {
			// by the lookup that keeps the spans of a trace unique
			c := inLoop(L, lenOf(list))
			f := find[0]
			r.ob(label, "the parent is looked up at one place", len(find) == 1, r.at(f), "")
			r.same(label, "the parent is looked up among all spans", r.at(f), f.Args[0], list)
			r.same(label, "the parent is looked up", r.at(f), f.Args[1], get("Parent"))
			r.ob(label, "the parent is looked up when it is needed", and(and(c, not(own)), not(f.Cond)) == T.False && len(f.Loops) == 1 && f.Loops[0] == L, r.at(f), "if %s", short(f.Cond))
			r.iff(label, "a span that is its own parent or whose parent is missing is a root", r.at(b.ef), b.cond, and(c, or(own, nilNode(f.Res))))
		} else {
			// the set of ids
			var up *Effect
			for _, ef := range effs(res, "mapupdate", nil) {
				r.ob(label, "ids are collected at one place", up == nil, r.at(ef), "")
				up = ef
			}
			r.must(up != nil && len(up.Loops) == 1, "the ids of the spans are not collected")
			U := up.Loops[0]
			q := indexAddrTerm(sliceData(list), add(sliceOff(list), leafNode(U.K)), st)
			r.ob(label, "the ids of all spans are collected first", U != L && ranges(U, lenOf(list)) && equiv(U.Entry, T.True) && equiv(up.Cond, inLoop(U, lenOf(list))) && up.Seq < b.ef.Seq, r.at(up), "if %s", short(up.Cond))
			r.same(label, "each id is collected", r.at(up), up.Args[1], e.loadAt(m0, fieldAddrOf(q, st, "Id"), fieldType(st, "Id")))
			mu := up.Instr.(*ssa.MapUpdate)
			mt := mu.Map.Type()
			v, has := e.mapGet(b.mem, up.Args[0], mt, get("Parent"))
			alt := has
			switch elemT := mt.Underlying().(*types.Map).Elem().Underlying().(type) {
			case *types.Basic:
				if elemT.Kind() == types.Bool && toBool(up.Args[2]) == T.True {
					alt = toBool(v)
				}
			case *types.Pointer:
				if up.Args[2] == q {
					alt = not(nilNode(v))
				}
			}
			c := inLoop(L, lenOf(list))
			w1, w2 := and(c, or(own, not(has))), and(c, or(own, not(alt)))
			if !equiv(b.cond, w1) && equiv(b.cond, w2) {
				w1 = w2
			}
			r.iff(label, "a span that is its own parent or whose parent is missing is a root", r.at(b.ef), b.cond, w1)
		}
		for _, ef := range effs(res, "store", nil) {
			ok := ef.Args[0].leaf != nil && addrRoot(ef.Args[0].leaf).op == "alloc"
			r.ob(label, "the trace is not changed", ok, r.at(ef), "stores to %s", short(ef.Args[0]))
		}
	}
	r.count("children", 4)
	r.count("roots", 6)
}

func (r *Report) fakeRoot() {
	t := r.tickInfo()
	res, e := t.res, t.e
	st := t.tr.spanT
	var add1, first *Effect
	for _, ef := range effs(res, "call", func(ef *Effect) bool { return ef.Callee == t.tr.add && t.inFL(ef) }) {
		r.ob("fake", "a fake root is added at one place", add1 == nil, r.at(ef), "")
		add1 = ef
	}
	r.must(add1 != nil, "no fake root is added")
	for _, ef := range effs(res, "call", func(ef *Effect) bool { return ef.Callee == t.tr.roots && t.inFL(ef) }) {
		if first == nil && ef.Seq < add1.Seq {
			first = ef
		}
	}
	r.must(first != nil, "the roots are not looked for before a fake root is added")
	R := first.Res
	n := lenOf(R)
	w := r.at(add1)
	normal := ands(t.del, not(t.large), not(t.old))
	ptr := types.NewPointer(st)
	m := add1.Mem
	get := func(m *Mem, i *Node, f string) *Node {
		return e.loadAt(m, fieldAddrOf(e.elemOf(m, R, i, ptr), st, f), fieldType(st, f))
	}
	r.sameIf("fake", "the fake root is added to the examined trace", w, add1.Cond, add1.Args[0], t.tr0)

	// when: several roots with the same parent
	several := lessThan(intConst(1), n)
	ok := false
	why := ""
	for _, L := range res.Loops {
		if L.parent != t.FL {
			continue
		}
		K := leafNode(L.K)
		mem := t.loopMem(L, first.Mem)
		for off := int64(0); off <= 1; off++ {
			idx := add(K, intConst(off))
			nn := sub(n, intConst(off))
			others := []*Node{get(mem, intConst(0), "Parent")}
			if off == 1 {
				others = append(others, get(mem, K, "Parent"))
			}
			for _, o := range others {
				differ := not(eq(get(mem, idx, "Parent"), o))
				in := lessThan(K, nn)
				// (a) the loop is left at the first difference
				ends := T.False
				for _, x := range L.Exits {
					ends = or(ends, x.Cond)
				}
				ends2 := restrict(ends, and(L.Entry, several))
				_ = ends2
				if len(L.Exits) == 2 && (equiv(ends, or(not(in), differ)) || equiv(and(several, ends), and(several, or(not(in), differ)))) {
					all := not(lessThan(leafNode(L.KX), nn))
					if equiv(add1.Cond, ands(normal, several, all)) {
						ok = true
					}
				}
				// (b) a flag
				for _, ph := range loopPhis(L) {
					if ph.Mu == nil || ph.Init != T.True {
						continue
					}
					mu := toBool(leafNode(ph.Mu))
					if ranges(L, nn) && sameUnder(and(L.Entry, L.Stay), toBool(ph.Step), and(mu, not(differ))) == nil {
						if equiv(add1.Cond, ands(normal, several, restrictKX(mu, L))) {
							ok = true
						}
					}
				}
			}
		}
	}
	if !ok {
		why = "must happen exactly if a finished trace has several roots and no root has another parent than the first; happens if " + short(add1.Cond)
	}
	r.ob("fake", "a fake root is added if there are several roots, all with the same parent", ok, w, "%s", why)

	// what
	v := restrict(add1.Args[1], add1.Cond)
	fld := func(f string) *Node {
		x := structField(v, f)
		r.must(x != nil, "fake root %s", short(v))
		return x
	}
	zero := intConst(0)
	r.sameIf("values", "its id is the missing parent", w, add1.Cond, fld("Id"), get(m, zero, "Parent"))
	r.sameIf("values", "it belongs to the trace of the roots", w, add1.Cond, fld("Trace"), get(m, zero, "Trace"))
	tr := get(m, zero, "Trace")
	pa := fld("Parent")
	okp := sameUnder(add1.Cond, pa, tr) == nil || sameUnder(add1.Cond, pa, fld("Id")) == nil
	r.ob("values", "it is a root itself", okp, w, "parent is %s", short(pa))
	name, _ := constString(fld("Name"))
	svc, _ := constString(fld("Service"))
	r.ob("values", "it is marked as a fake root", name == "fake-root" && svc == "fake-root", w, "name %q, service %q", name, svc)
	r.ob("values", "it has no tags or timings", nilNode(fld("Tags")) == T.True && allZero(fld("Timings")), w, "")

	// first start and last end
	extreme := func(v *Node, val func(m *Mem, i *Node) *Node, less func(a, b *Node) *Node) bool {
		L, p := exitOf(res, v)
		if L == nil {
			return false
		}
		mem := t.loopMem(L, first.Mem)
		K := leafNode(L.K)
		mu := leafNode(p.Mu)
		if sameUnder(and(L.Entry, several), p.Init, val(mem, zero)) != nil {
			return false
		}
		for off := int64(0); off <= 1; off++ {
			x := val(mem, add(K, intConst(off)))
			if !rangesIf(L, sub(n, intConst(off)), several) {
				continue
			}
			if sameUnder(and(L.Entry, L.Stay), p.Step, mux(less(x, mu), x, mu)) == nil {
				return true
			}
		}
		return false
	}
	start := func(m *Mem, i *Node) *Node { return get(m, i, "Timestamp") }
	end := func(m *Mem, i *Node) *Node { return add(get(m, i, "Timestamp"), get(m, i, "Duration")) }
	lt := func(a, b *Node) *Node { return lessThan(a, b) }
	gt := func(a, b *Node) *Node { return lessThan(b, a) }
	ts := restrict(fld("Timestamp"), add1.Cond)
	r.ob("values", "it starts with the first of the roots", extreme(ts, start, lt), w, "starts at %s", short(ts))
	du := restrict(fld("Duration"), add1.Cond)
	r.ob("values", "it ends with the last of the roots", extreme(add(du, ts), end, gt), w, "has the duration %s", short(du))
	r.count("fake", 3)
	r.count("values", 7)
}

func rangesIf(L *Loop, n, cond *Node) bool {
	if len(L.Exits) != 1 {
		return false
	}
	return equiv(and(cond, L.Exits[0].Cond), and(cond, lessEq(n, leafNode(L.K))))
}

// loopMem: memory at some effect of the loop, or m.
func (p *pipe) loopMem(L *Loop, m *Mem) *Mem {
	for _, ef := range p.res.Effects {
		if len(ef.Loops) > 0 && ef.Loops[len(ef.Loops)-1] == L && ef.Mem != nil {
			return ef.Mem
		}
	}
	return m
}

func allZero(n *Node) bool {
	t := n.leaf
	if t == nil {
		return false
	}
	if t.op == "struct" {
		for _, a := range t.args {
			if !allZero(a) {
				return false
			}
		}
		return true
	}
	c, ok := isIntConst(n)
	return ok && c.Sign() == 0
}
