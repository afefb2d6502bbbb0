package main

// C19, C20, C23: what happens at a tick.

import (
	"fmt"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

type tickInfo struct {
	*pipe
	count   *Node // spans of traces that are not too large
	countL  *Loop
	FL      *Loop // of the traces that are examined
	id, tr0 *Node // trace id and trace of an iteration of FL
	in      *Node // condition of the iteration
	mem     *Mem  // at its start
	n       *Node // number of spans of the trace

	deletes           []*Effect // of the examined trace
	del               *Node
	large, old, fresh *Node
	buffer            *Node
	why               string
}

const (
	maxTrace  = 8 * 1024
	maxTotal  = 100000
	maxBlack  = 1024
	ageFactor = 5
)

// the documented buffer times
var bufferTable = []struct{ spans, secs int64 }{{0, 8}, {40000, 6}, {60000, 4}, {80000, 2}}

func (r *Report) tickInfo() *tickInfo {
	p := r.pipe()
	t := &tickInfo{pipe: p}
	res, e := p.res, p.e
	// the number of spans in the system
	for _, L := range res.Loops {
		if L.Over != p.traces || L.parent != p.L {
			continue
		}
		nx := t.nextOf(L)
		if nx == nil {
			continue
		}
		n := p.tr.fld(e, nx.Mem, nx.Args[2], p.tr.count)
		for _, ph := range loopPhis(L) {
			if ph.Mu == nil || !isIntTerm(ph.Mu) || ph.Init != intConst(0) {
				continue
			}
			mu := leafNode(ph.Mu)
			in := and(L.Entry, L.Stay)
			if sameUnder(in, ph.Step, mux(lessEq(n, intConst(maxTrace)), add(mu, n), mu)) == nil && t.whole(L, nx) {
				t.count, t.countL = restrictKX(mu, L), L
			}
		}
	}
	r.must(t.count != nil, "the spans of the traces in the system are not counted: no loop over all traces adds up the spans of those that have at most %d spans", maxTrace)

	// a sum of numbers of spans, which start at 0 and only grow, is not negative
	t.assume(lessThan(t.count, intConst(0)))

	// the examination of every trace
	for _, ef := range effs(res, "mapdelete", func(ef *Effect) bool { return ef.Args[0] == p.traces }) {
		if len(ef.Loops) == 0 {
			continue
		}
		L := ef.Loops[len(ef.Loops)-1]
		if L.Over == p.traces {
			r.must(t.FL == nil || t.FL == L, "traces are examined in several loops")
			t.FL = L
			t.deletes = append(t.deletes, ef)
		}
	}
	r.must(t.FL != nil, "no loop over the traces removes any")
	nx := t.nextOf(t.FL)
	r.must(nx != nil, "the examination does not iterate over the traces")
	t.id, t.tr0, t.mem = nx.Args[1], nx.Args[2], nx.Mem
	t.in = and(nx.Cond, nx.Res)
	t.n = p.tr.fld(e, t.mem, t.tr0, p.tr.count)
	t.del = T.False
	for _, ef := range t.deletes {
		t.del = or(t.del, ef.Cond)
	}
	t.large = lessThan(intConst(maxTrace), t.n)
	t.buffer = intConst(bufferTable[0].secs * 1e9)
	for _, b := range bufferTable[1:] {
		t.buffer = mux(lessThan(t.count, intConst(b.spans)), t.buffer, intConst(b.secs*1e9))
	}
	// the atoms that compare times: which times they are about
	upd := tns(p.tr.fld(e, t.mem, t.tr0, p.tr.updated))
	sta := tns(p.tr.fld(e, t.mem, t.tr0, p.tr.started))
	var nows []*Node
	for _, ef := range effs(res, "call", func(ef *Effect) bool {
		return (ef.Name == "time.Now" || ef.Name == "time.Since") && implies(ef.Cond, p.tick)
	}) {
		x := ef.Res
		if ef.Name == "time.Since" {
			x = add(x, tns(ef.Args[0]))
		} else {
			x = tns(x)
		}
		dup := false
		for _, y := range nows {
			dup = dup || x == y
		}
		if !dup {
			nows = append(nows, x)
		}
	}
	less := []func(a, b *Node) *Node{lessThan, lessEq}
	for _, n1 := range nows {
		for _, n2 := range nows {
			for _, l1 := range less {
				for _, l2 := range less {
					old := l1(sta, sub(n1, scale(t.buffer, ageFactor)))
					fresh := l2(sub(n2, t.buffer), upd)
					if equiv(t.del, and(t.in, not(ands(not(t.large), not(old), fresh)))) {
						t.old, t.fresh = old, fresh
						return t
					}
				}
			}
		}
	}
	// explain
	if len(nows) > 0 {
		n1, n2 := nows[len(nows)-1], nows[0]
		old := lessThan(sta, sub(n1, scale(t.buffer, ageFactor)))
		fresh := lessThan(sub(n2, t.buffer), upd)
		want := and(t.in, not(ands(not(t.large), not(old), fresh)))
		t.why = fmt.Sprintf("a trace must be finished exactly if it has more than %d spans, or started more than %d buffer times ago, or got no span for the buffer time; it is also finished if %s and not finished if %s", maxTrace, ageFactor, short(and(t.del, not(want))), short(and(want, not(t.del))))
		t.old, t.fresh = old, fresh
	} else {
		t.why = "the time is not looked at"
		t.old, t.fresh = T.False, T.False
	}
	return t
}

// assume: the condition, an atom, never holds.
func (p *pipe) assume(never *Node) {
	if never.atom == nil {
		return
	}
	f := func(n *Node) *Node {
		if n == nil {
			return nil
		}
		return assign(n, never.atom, never.hi != T.True)
	}
	for _, ef := range p.res.Effects {
		ef.Cond = f(ef.Cond)
		for i := range ef.Args {
			ef.Args[i] = f(ef.Args[i])
		}
	}
	for _, L := range p.res.Loops {
		L.Entry, L.Stay = f(L.Entry), f(L.Stay)
		for i := range L.Exits {
			L.Exits[i].Cond = f(L.Exits[i].Cond)
		}
		for _, ph := range loopPhis(L) {
			ph.Init, ph.Step = f(ph.Init), f(ph.Step)
		}
	}
}

// nextOf: the step of the iteration of a loop over a map.
func (p *pipe) nextOf(L *Loop) *Effect {
	for _, ef := range effs(p.res, "next", nil) {
		if len(ef.Loops) > 0 && ef.Loops[len(ef.Loops)-1] == L {
			return ef
		}
	}
	return nil
}

// whole: the loop runs over the whole map, whenever there is a tick.
func (t *tickInfo) whole(L *Loop, nx *Effect) bool {
	return len(L.Exits) == 1 && L.Exits[0].Cond == not(nx.Res)
}

func (t *tickInfo) inFL(ef *Effect) bool {
	for _, L := range ef.Loops {
		if L == t.FL {
			return true
		}
	}
	return false
}

// rest drops the condition of the iteration.
func (t *tickInfo) fate(c *Node) *Node { return and(t.in, c) }

func init() {
	register("C19", "Value-flow summary of the examination of the traces at a tick: the conditions and order of removal, correction, hand-over and counting of a trace are compared with each other and with the specification.", func(r *Report) {
		r.section(func() { r.exactlyOnce() })
	})
	register("C20", "Value-flow summary of the tick: the loops that count and discard spans and trim the blacklist are compared, variable by variable, with the specified limits.", func(r *Report) {
		r.section(func() { r.bounded() })
	})
}

// mapKeyTrue: the value stored into the blacklist makes isBlack true.
func (p *pipe) marksBlack(ef *Effect) bool {
	if b, ok := p.blackT.Underlying().(*types.Map).Elem().Underlying().(*types.Basic); ok && b.Kind() == types.Bool {
		return ef.Args[2] == T.True || toBool(ef.Args[2]) == T.True
	}
	return true
}

func (r *Report) exactlyOnce() {
	t := r.tickInfo()
	res := t.res
	nx := t.nextOf(t.FL)
	w := r.at(nx)
	r.ob("examine", "every trace is examined at every tick", t.whole(t.FL, nx) && equiv(nx.Cond, t.tick), w, "the loop over the traces has no other exit and runs at every tick")
	r.ob("remove", "a trace is removed when it is finished, and only then", t.why == "", w, "%s", t.why)
	for i, ef := range t.deletes {
		r.ob("remove", "the examined trace is removed", ef.Args[1] == t.id, r.at(ef), "removes %s", short(ef.Args[1]))
		for _, g := range t.deletes[:i] {
			r.ob("remove", "a trace is removed once", and(g.Cond, ef.Cond) == T.False, r.at(ef), "")
		}
	}
	done := t.del
	normal := ands(done, not(t.large), not(t.old))
	count := func(name string, want *Node) {
		ms := marks(res, name)
		got := T.False
		for _, m := range ms {
			r.ob("counted", name+" is counted once per trace", t.inFL(m) && len(m.Loops) == len(t.deletes[0].Loops) && and(got, m.Cond) == T.False && m.Args[1] == intConst(1), r.at(m), "marks %s", short(m.Args[1]))
			got = or(got, m.Cond)
		}
		r.iff("counted", name, w, got, want)
	}
	count("traces.toolarge", and(done, t.large))
	count("traces.tooold", ands(done, not(t.large), t.old))
	bl := T.False
	for _, ef := range effs(res, "mapupdate", func(ef *Effect) bool { return ef.Args[0] == t.black }) {
		r.ob("blacklist", "the examined trace is blacklisted", t.inFL(ef) && t.isID(r, ef.Args[1]) && t.marksBlack(ef), r.at(ef), "stores %s", short(ef.Args[1]))
		bl = or(bl, ef.Cond)
	}
	r.iff("blacklist", "a trace that is too large or too old is blacklisted", w, bl, ands(done, or(t.large, t.old)))
	for _, ef := range effs(res, "mapupdate", func(ef *Effect) bool { return ef.Args[0] == t.traces && and(ef.Cond, t.tick) != T.False }) {
		r.ob("remove", "no trace is added at a tick", false, r.at(ef), "if %s", short(ef.Cond))
	}

	// the unique root
	R := t.rootsOf(r, normal)
	if R == nil {
		return
	}
	one := eq(lenOf(R), intConst(1))
	okc, nok := and(normal, one), and(normal, not(one))
	count("traces.noroot", nok)
	var corr *Effect
	cs := effs(res, "call", func(ef *Effect) bool { return ef.Callee == t.tr.correct })
	r.ob("corrected", "a trace is corrected at one place", len(cs) == 1, w, "%d calls", len(cs))
	for _, ef := range cs {
		corr = ef
		r.iff("corrected", "a trace with one root is corrected", r.at(ef), ef.Cond, okc)
		r.sameIf("corrected", "it is the examined trace", r.at(ef), ef.Cond, ef.Args[0], t.tr0)
		root := t.e.elemOf(ef.Mem, R, intConst(0), types.NewPointer(t.tr.spanT))
		r.sameIf("corrected", "it is corrected from its root on", r.at(ef), ef.Cond, ef.Args[1], root)
		r.sameIf("corrected", "the root has no parent", r.at(ef), ef.Cond, ef.Args[2], T.Nil)
		r.sameIf("corrected", "the root is not moved", r.at(ef), ef.Cond, ef.Args[3], intConst(0))
		r.ob("corrected", "a trace is corrected in the loop itself", ef.Gor == nil && !ef.Defer, r.at(ef), "")
	}
	sends := effs(res, "send", nil)
	for _, ef := range effs(res, "send", func(ef *Effect) bool { return ef.Gor != nil }) {
		r.ob("sent", "a trace is handed over by the loop itself", false, r.at(ef), "by another goroutine")
	}
	r.ob("sent", "a trace is handed over at one place", len(sends) == 1, w, "%d sends", len(sends))
	for _, ef := range sends {
		r.ob("sent", "the hand-over waits for the receiver", ef.Name != "select-default" && ef.Name != "select", r.at(ef), "%s", ef.Name)
		r.ob("sent", "a trace is handed over after its correction", corr != nil && ef.Seq > corr.Seq, r.at(ef), "")
		r.iff("sent", "a trace with one root is handed over", r.at(ef), ef.Cond, okc)
		r.same("sent", "it is handed over to the output", r.at(ef), ef.Args[0], t.out)
		r.sameIf("sent", "all its spans are handed over", r.at(ef), ef.Cond, ef.Args[1], t.tr.fld(t.e, ef.Mem, t.tr0, t.tr.spans))
		r.ob("sent", "each trace is handed over once", len(ef.Loops) == len(t.deletes[0].Loops), r.at(ef), "")
	}
	count("traces.finished", okc)
	count("traces.corrected", okc)
	for _, ef := range effs(res, "close", nil) {
		r.ob("sent", "the output is not closed", false, r.at(ef), "closes %s", short(ef.Args[0]))
	}
	r.count("counted", 10)
	r.count("sent", 6)
	r.count("corrected", 6)
}

// rootsOf: the roots that decide over the examined trace: those found at
// first, or those after a fake root was added.
func (t *tickInfo) rootsOf(r *Report, normal *Node) *Node {
	var first, second, add *Effect
	for _, ef := range effs(t.res, "call", func(ef *Effect) bool { return ef.Callee == t.tr.add && t.inFL(ef) }) {
		if add != nil {
			r.ob("roots", "a root is added at one place", false, r.at(ef), "")
			return nil
		}
		add = ef
	}
	for _, ef := range effs(t.res, "call", func(ef *Effect) bool { return ef.Callee == t.tr.roots && t.inFL(ef) }) {
		r.ob("roots", "the roots of the examined trace are looked for", sameUnder(ef.Cond, ef.Args[0], t.tr0) == nil && ef.Gor == nil, r.at(ef), "of %s", short(ef.Args[0]))
		switch {
		case add == nil || ef.Seq < add.Seq:
			if first != nil {
				r.ob("roots", "the roots are looked for once, and again after a root was added", false, r.at(ef), "")
				return nil
			}
			first = ef
		default:
			if second != nil {
				r.ob("roots", "the roots are looked for once, and again after a root was added", false, r.at(ef), "")
				return nil
			}
			second = ef
		}
	}
	if first == nil || add != nil && second == nil {
		r.ob("roots", "the roots are looked for once, and again after a root was added", false, "", "no call")
		return nil
	}
	r.iff("roots", "the roots are looked for when a trace is finished", r.at(first), first.Cond, normal)
	if add == nil {
		return first.Res
	}
	r.iff("roots", "the roots are looked for again when a root was added", r.at(second), second.Cond, add.Cond)
	return mux(add.Cond, second.Res, first.Res)
}

func (r *Report) bounded() {
	t := r.tickInfo()
	res, e := t.res, t.e
	nx := t.nextOf(t.FL)
	w := r.at(nx)
	r.ob("limit", "a trace ends by its size, its age or by silence", t.why == "", w, "%s", t.why)
	r.ob("limit", "every trace is examined at every tick", t.whole(t.FL, nx) && equiv(nx.Cond, t.tick), w, "")
	r.ob("limit", "the spans are counted at every tick", equiv(t.countL.Entry, T.True) || equiv(t.nextOf(t.countL).Cond, t.tick), r.at(t.nextOf(t.countL)), "")

	// discarding
	var ds []*Effect
	for _, ef := range effs(res, "mapdelete", func(ef *Effect) bool { return ef.Args[0] == t.traces }) {
		if len(ef.Loops) == 0 || ef.Loops[len(ef.Loops)-1] != t.FL {
			ds = append(ds, ef)
		}
	}
	r.ob("discard", "traces are discarded at one place", len(ds) == 1, w, "%d places", len(ds))
	for _, d := range ds {
		r.section(func() { t.discards(r, d) })
	}

	// the blacklist
	var bs []*Effect
	for _, ef := range effs(res, "mapdelete", func(ef *Effect) bool { return ef.Args[0] == t.black }) {
		bs = append(bs, ef)
	}
	r.ob("blacklist", "the blacklist is trimmed at one place", len(bs) == 1, w, "%d places", len(bs))
	for _, b := range bs {
		wb := r.at(b)
		L := b.Loops[len(b.Loops)-1]
		bn := t.nextOf(L)
		if bn == nil || L.Over != t.black {
			r.ob("blacklist", "the blacklist is trimmed in a loop over it", false, wb, "")
			continue
		}
		ln := e.mapLen(bn.Mem, t.black, t.blackT)
		full := not(lessThan(ln, intConst(maxBlack)))
		// the number of entries before the loop and after an iteration
		var lp *LoopPhi
		for _, p := range loopPhis(L) {
			if p.Mu != nil && leafNode(p.Mu) == ln {
				lp = p
			}
		}
		entry := T.True
		inv := T.True
		if lp != nil && lp.Init != nil && lp.Step != nil {
			fullOf := func(n *Node) *Node { return not(lessThan(n, intConst(maxBlack))) }
			if implies(t.tick, not(fullOf(lp.Init))) || and(L.Entry, not(fullOf(lp.Init))) == T.False {
				entry = fullOf(lp.Init)
				if and(L.Stay, not(fullOf(lp.Step))) == T.False {
					inv = full
				}
			}
		}
		if inv == T.True {
			entry = T.True
		}
		r.ob("blacklist", "the blacklist is trimmed at every tick", (equiv(L.Entry, T.True) || equiv(L.Entry, and(t.tick, entry))) && implies(and(t.tick, entry), atFirst(bn.Cond, L)) || equiv(bn.Cond, and(t.tick, entry)), wb, "is trimmed if %s", short(bn.Cond))
		stay := ands(bn.Res, full)
		base := and(bn.Cond, stay)
		r.iff("blacklist", fmt.Sprintf("an entry is removed as long as there are %d", maxBlack), wb, and(inv, b.Cond), base)
		r.same("blacklist", "an entry of the blacklist is removed", wb, b.Args[1], bn.Args[1])
		ends := T.False
		for _, x := range L.Exits {
			ends = or(ends, x.Cond)
		}
		ok := implies(ends, not(stay)) && implies(and(base, ends), T.False)
		if inv != T.True {
			// it ends without an entry left or with few enough after this one
			few := lessThan(lp.Step, intConst(maxBlack))
			ok = ands(bn.Cond, bn.Res, ends, not(few)) == T.False
		}
		r.ob("blacklist", fmt.Sprintf("the loop ends when fewer than %d are left", maxBlack), ok, wb, "ends if %s", short(ends))
		r.ob("blacklist", "the blacklist is trimmed after traces were added to it", later(b, t.blackAdds()), wb, "")
	}
	// gauges
	for _, g := range []struct {
		name string
		want *Node
	}{{"traces.partial.span.count", t.count}} {
		gs := effs(res, "call", func(ef *Effect) bool { return metricOf(ef) == g.name })
		for _, ef := range gs {
			r.same("gauge", g.name, r.at(ef), ef.Args[1], g.want)
			r.iff("gauge", g.name+" is updated at every tick", r.at(ef), ef.Cond, t.tick)
		}
	}
	r.count("discard", 8)
	r.count("blacklist", 5)
}

func later(ef *Effect, l []*Effect) bool {
	for _, x := range l {
		if x.Seq > ef.Seq {
			return false
		}
	}
	return true
}

func (t *tickInfo) blackAdds() []*Effect {
	return effs(t.res, "mapupdate", func(ef *Effect) bool { return ef.Args[0] == t.black })
}

func atFirst(c *Node, L *Loop) *Node { return subst(c, L.K, intConst(0)) }

// mapLen reads the number of entries of a map.
func (e *Engine) mapLen(m *Mem, mv *Node, mt types.Type) *Node {
	return apply1(mv, func(y *Term) *Node {
		if y.op == "nil" {
			return intConst(0)
		}
		a := mapCell("maplen", y, mt, nil)
		return rread(m.region(regionKey(a), addrRoot(a)), a, intType)
	})
}

// discards: the loop that removes the largest traces.
func (t *tickInfo) discards(r *Report, d *Effect) {
	res, e := t.res, t.e
	w := r.at(d)
	L := d.Loops[len(d.Loops)-1]
	// the list is sorted by decreasing size
	var srt *Effect
	for _, ef := range effs(res, "sort", nil) {
		if ef.Seq < d.Seq && len(ef.Loops) == len(d.Loops)-1 {
			srt = ef
		}
	}
	r.must(srt != nil, "the traces are not sorted before they are discarded")
	list := stripIface(srt.Args[0])
	et := sliceElem(srt)
	r.must(et != nil, "sorted list %s", short(list))
	entry := func(m *Mem, i *Node) (tree, id, n *Node) {
		v := e.elemOf(m, list, i, et)
		get := func(v *Node, vt types.Type, want types.Type) *Node {
			st, ok := vt.Underlying().(*types.Struct)
			if !ok {
				return nil
			}
			for k := 0; k < st.NumFields(); k++ {
				if types.Identical(st.Field(k).Type(), want) && v.leaf != nil && v.leaf.op == "struct" {
					return v.leaf.args[k]
				}
			}
			return nil
		}
		idT := r.L.typ("proxy", "Id")
		ptr := types.NewPointer(t.tr.t)
		if types.Identical(et, ptr) {
			tree = v
		} else {
			tree = get(v, et, ptr)
			id = get(v, et, idT)
		}
		if tree != nil {
			if id == nil && t.tr.trace != "" {
				id = t.tr.fld(e, m, tree, t.tr.trace)
			}
			n = t.tr.fld(e, m, tree, t.tr.count)
		}
		return
	}
	i, j := leafNode(mk("bound", "i", nil, intType)), leafNode(mk("bound", "j", nil, intType))
	_, _, ni := entry(srt.Mem, i)
	_, _, nj := entry(srt.Mem, j)
	r.must(ni != nil, "sorted list of %s", et)
	r.ob("discard", "the largest traces come first", srt.Args[1] == lessThan(nj, ni), r.at(srt), "sorted with %s", short(srt.Args[1]))
	// all traces are in the list
	b := r.builtSlice(res, list, et, T.True)
	okList := b.why == "" && len(b.loops) == 1
	if okList {
		bn := t.nextOf(b.loops[0])
		okList = bn != nil && b.loops[0].Over == t.traces && t.whole(b.loops[0], bn)
		if okList {
			v := b.elem
			okList = containsNode(v, bn.Args[2]) && (v == bn.Args[2] || containsNode(v, bn.Args[1])) && equiv(b.cond, and(bn.Cond, bn.Res))
			if v.leaf != nil && v.leaf.op == "struct" {
				for k, a := range v.leaf.args {
					if types.Identical(et.Underlying().(*types.Struct).Field(k).Type(), types.NewPointer(t.tr.t)) {
						okList = okList && a == bn.Args[2]
					} else if types.Identical(et.Underlying().(*types.Struct).Field(k).Type(), r.L.typ("proxy", "Id")) {
						okList = okList && a == bn.Args[1]
					}
				}
			}
		}
	}
	r.ob("discard", "all traces are candidates", okList, r.at(srt), "list: %s %s", short(list), b.why)
	// total
	var rem *LoopPhi
	var sumL *Loop
	for _, ph := range loopPhis(L) {
		if ph.Mu == nil || !isIntTerm(ph.Mu) || ph.Init.leaf == nil {
			continue
		}
		for _, M := range res.Loops {
			nx := t.nextOf(M)
			if nx == nil || M.Over != t.traces || M == t.countL || M == t.FL {
				continue
			}
			for _, q := range loopPhis(M) {
				if q.Mu == nil || restrictKX(leafNode(q.Mu), M) != ph.Init || q.Init != intConst(0) {
					continue
				}
				n := t.tr.fld(e, nx.Mem, nx.Args[2], t.tr.count)
				if sameUnder(and(M.Entry, M.Stay), q.Step, add(leafNode(q.Mu), n)) == nil && t.whole(M, nx) {
					rem, sumL = ph, M
				}
			}
		}
	}
	r.ob("discard", "the spans of all traces are added up", rem != nil, w, "")
	if rem == nil {
		return
	}
	_ = sumL
	mu := leafNode(rem.Mu)
	K := leafNode(L.K)
	_, id, n := entry(d.Mem, K)
	over := not(lessThan(mu, intConst(maxTotal)))
	inRange := lessThan(K, lenOf(list))
	start := lessThan(intConst(maxTotal), t.count)
	if t.tr.trace != "" {
		// a trace is kept under its id
		if tree, _, _ := entry(d.Mem, K); sameUnder(d.Cond, d.Args[1], t.tr.fld(e, d.Mem, tree, t.tr.trace)) == nil {
			id = d.Args[1]
		}
	}
	r.same("discard", "the trace at hand is removed", w, d.Args[1], id)
	r.ob("discard", "traces are discarded as long as there are too many spans", and(d.Cond, not(ands(t.tick, start, over, inRange))) == T.False, w, "discarded if %s", short(d.Cond))
	// entering: the early return below the limit is implied by the loop's own test
	init := rem.Init
	enter := ands(t.tick, start, not(lessThan(init, intConst(maxTotal))))
	r.ob("discard", fmt.Sprintf("traces are discarded when there are more than %d spans", maxTotal), implies(ands(enter, over, inRange), d.Cond), w, "discarded if %s", short(d.Cond))
	ends := T.False
	for _, x := range L.Exits {
		ends = or(ends, x.Cond)
	}
	r.iff("discard", "discarding goes on until there are few enough spans", w, ends, not(and(over, inRange)))
	r.sameIf("discard", "the spans of a discarded trace are subtracted", w, and(L.Entry, L.Stay), rem.Step, sub(mu, n))
	// meters
	sum := func(name string, step *Node) {
		ms := marks(res, name)
		r.ob("discard", name+" is counted", len(ms) == 1, w, "%d places", len(ms))
		for _, m := range ms {
			v := m.Args[1]
			ok := false
			for _, q := range loopPhis(L) {
				if q.Mu == nil || q.Init != intConst(0) {
					continue
				}
				if restrictKX(leafNode(q.Mu), L) == v && sameUnder(and(L.Entry, L.Stay), q.Step, add(leafNode(q.Mu), step)) == nil {
					ok = true
				}
			}
			if name == "spans.discarded" && v == sub(init, restrictKX(mu, L)) || name == "traces.discarded" && v == leafNode(L.KX) {
				ok = true
			}
			r.ob("discard", name+" is what was discarded", ok, r.at(m), "marks %s", short(v))
			r.ob("discard", name+" is counted whenever traces are discarded", implies(enter, m.Cond) && len(m.Loops) == len(d.Loops)-1, r.at(m), "if %s", short(m.Cond))
		}
	}
	sum("spans.discarded", n)
	sum("traces.discarded", intConst(1))
}

// sliceElem: element type of the slice that is sorted.
func sliceElem(ef *Effect) types.Type {
	c, ok := ef.Instr.(ssa.CallInstruction)
	if !ok || len(c.Common().Args) == 0 {
		return nil
	}
	v := c.Common().Args[0]
	if mi, ok := v.(*ssa.MakeInterface); ok {
		v = mi.X
	}
	s, ok := v.Type().Underlying().(*types.Slice)
	if !ok {
		return nil
	}
	return s.Elem()
}

// isID: the value is the id of the examined trace: its key in the map, or a
// field of the trace that is always set to the key.
func (t *tickInfo) isID(r *Report, n *Node) bool {
	if n == t.id {
		return true
	}
	x := n.leaf
	if x == nil || x.op != "load" || x.args[0].leaf == nil || x.args[0].leaf.op != "fieldaddr" {
		return false
	}
	fa := x.args[0].leaf
	if fa.args[0] != t.tr0 || !r.onlyConstructed(fa.obj) {
		return false
	}
	ups := 0
	for _, u := range effs(t.res, "mapupdate", func(ef *Effect) bool { return ef.Args[0] == t.traces }) {
		ups++
		set := false
		keyed := func(res *EvalResult, tree, key *Node) {
			if tree.leaf == nil || tree.leaf.op != "alloc" {
				return
			}
			for _, st := range effs(res, "store", nil) {
				if a := st.Args[0].leaf; a != nil && a.op == "fieldaddr" && a.obj == fa.obj && a.args[0] == tree {
					set = st.Args[1] == key && (res != t.res && st.Cond == T.True || and(u.Cond, not(st.Cond)) == T.False)
				}
			}
		}
		keyed(t.res, u.Args[2], u.Args[1])
		for _, c := range effs(t.res, "call", func(ef *Effect) bool { return ef.Callee != nil && ef.Res == u.Args[2] }) {
			for i, a := range c.Args {
				if a == u.Args[1] {
					x := r.engine(r.allRepo).Eval(c.Callee, nil, nil, nil)
					if len(x.Results) == 1 {
						keyed(x, x.Results[0], x.Params[i])
					}
				}
			}
		}
		if !set {
			return false
		}
	}
	return ups > 0
}
