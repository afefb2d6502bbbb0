package main

// C18: every span joins its trace.

import (
	"go/types"
	"math/big"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C18", "Value-flow summary of the correction loop (every effect with its condition, relative to one iteration) and of adding a span to a trace; insertion and search positions are compared as terms.", func(r *Report) {
		r.section(func() { r.intake() })
		r.section(func() { r.addSpan() })
		r.section(func() { r.makeTree() })
	})
}

func (r *Report) intake() {
	p := r.pipe()
	e, res := p.e, p.res
	w := r.at(p.recv)
	sel := p.recv.Instr.(*ssa.Select)

	// waiting
	var se *Effect
	for _, ef := range effs(res, "select", nil) {
		if ef.Instr == p.recv.Instr {
			se = ef
		}
	}
	r.ob("loop", "every iteration waits for a span or the next tick", se != nil && se.Cond == T.True && sel.Blocking && p.L.Entry == T.True, w, "the select is reached in every iteration")
	for i, s := range sel.States {
		r.ob("loop", "the loop only receives", s.Dir == types.RecvOnly, w, "case %d", i)
	}
	good := len(p.ticks) > 0
	for _, t := range p.ticks {
		d := r.tickPeriod(p, t)
		good = good && d != nil && d.Sign() > 0 && d.Cmp(big.NewInt(1e9)) <= 0
	}
	r.ob("loop", "traces are examined at least once per second", good, w, "%d tickers", len(p.ticks))
	ends := T.False
	for _, x := range p.L.Exits {
		ends = or(ends, x.Cond)
	}
	ok := p.recvOk(p.recv)
	r.iff("loop", "ends when the input is closed", w, ends, and(p.recv.Cond, not(ok)))
	for _, ef := range effs(res, "panic", nil) {
		r.ob("loop", "does not panic", false, r.at(ef), "panics if %s", short(ef.Cond))
	}

	// a received span
	valid := p.valid()
	id := p.sfield("Trace")
	black := p.isBlack(p.recv.Mem, id)
	old, has := e.mapGet(p.recv.Mem, p.traces, p.tracesT, id)
	take := and(valid, not(black))
	missing := nilNode(old)
	var make *Effect
	for _, ef := range effs(res, "call", func(ef *Effect) bool { return ef.Callee == p.tr.makeFn }) {
		r.ob("take", "traces are made at one place", make == nil, r.at(ef), "")
		make = ef
	}
	r.must(make != nil, "no trace is made")
	if equiv(make.Cond, and(take, not(has))) {
		missing = not(has) // the traces of the map are never nil
	}
	r.iff("take", "a trace is made for the first span of an unknown trace", r.at(make), make.Cond, and(take, missing))
	r.sameIf("take", "the trace is made with the id of the span", r.at(make), make.Cond, make.Args[0], id)
	n := 0
	for _, ef := range effs(res, "mapupdate", func(ef *Effect) bool { return ef.Args[0] == p.traces }) {
		n++
		r.iff("take", "the new trace is kept", r.at(ef), ef.Cond, make.Cond)
		r.sameIf("take", "the new trace is kept under its id", r.at(ef), ef.Cond, ef.Args[1], id)
		r.sameIf("take", "what is kept is the new trace", r.at(ef), ef.Cond, ef.Args[2], make.Res)
	}
	r.ob("take", "new traces are kept at one place", n == 1, w, "%d places store a trace", n)
	n = 0
	for _, ef := range effs(res, "call", func(ef *Effect) bool { return ef.Callee == p.tr.add && and(ef.Cond, p.recv.Cond) != T.False }) {
		n++
		r.ob("take", "the span is added once", len(ef.Loops) == 1 && ef.Gor == nil && !ef.Defer, r.at(ef), "")
		r.iff("take", "a span with ids whose trace is not blacklisted is added", r.at(ef), ef.Cond, take)
		r.sameIf("take", "it is added to the trace with its trace id", r.at(ef), ef.Cond, ef.Args[0], mux(missing, make.Res, old))
		r.sameIf("take", "it is added as it was received", r.at(ef), ef.Cond, ef.Args[1], p.span)
	}
	r.ob("take", "the span is added at one place", n == 1, w, "%d calls add a span", n)
	n = 0
	for _, ef := range marks(res, "blacklist.span.received") {
		n++
		r.iff("dropped", "a span of a blacklisted trace is counted", r.at(ef), ef.Cond, and(valid, black))
		r.same("dropped", "it is counted once", r.at(ef), ef.Args[1], intConst(1))
	}
	r.ob("dropped", "dropped spans are counted", n == 1, w, "%d places count", n)

	// nothing else changes when a span is received
	for _, ef := range res.Effects {
		if ef.Pure || and(ef.Cond, p.recv.Cond) == T.False || ef.Instr == p.recv.Instr || ef == make {
			continue
		}
		switch ef.Kind {
		case "mapdelete", "send", "close", "go", "clear":
			if len(ef.Loops) > 0 {
				r.ob("quiet", "receiving a span changes nothing else", false, r.at(ef), "%s if %s", ef.Kind, short(and(ef.Cond, p.recv.Cond)))
			}
		case "mapupdate":
			r.ob("quiet", "receiving a span changes nothing else", ef.Args[0] == p.traces, r.at(ef), "map entry")
		case "store":
			a := ef.Args[0].leaf
			r.ob("quiet", "receiving a span changes nothing else", a != nil && addrRoot(a).op == "alloc", r.at(ef), "stores to %s", short(ef.Args[0]))
		case "call":
			fn := ef.Callee
			okc := fn == nil || fn == p.tr.add || fn == p.tr.debug || !r.L.isRepoFn(fn)
			r.ob("quiet", "receiving a span changes nothing else", okc, r.at(ef), "calls %s", ef.Name)
		}
	}
	r.count("take", 8)
	r.count("loop", 5)
	r.count("dropped", 3)
}

// tickPeriod: the period of the ticker whose channel is received from.
func (r *Report) tickPeriod(p *pipe, t *Effect) *big.Int {
	for _, ef := range effs(p.res, "call", named("time.NewTicker", "time.Tick")) {
		if ef.Res == nil || ef.Res.leaf == nil || len(ef.Loops) > 0 || ef.Cond != T.True {
			continue
		}
		if contains(t.Args[0], ef.Res.leaf) {
			c, _ := isIntConst(ef.Args[0])
			return c
		}
	}
	return nil
}

// searchPos: n is the first position of the list (of the trace, as it was at
// the beginning) whose id is not before id in the order of the list; desc and
// asc tell for which order.
func (r *Report) searchPos(e *Engine, n, list, id *Node, m *Mem, strictOk bool) (desc, asc bool) {
	t := n.leaf
	if t == nil || t.op != "search" || t.args[0] != lenOf(list) {
		return
	}
	i := leafNode(mk("bound", "i", nil, types.Typ[types.Int]))
	st := r.L.typ("proxy", "Span")
	a := indexAddrTerm(sliceData(list), add(sliceOff(list), i), st)
	x := e.loadAt(m, fieldAddrOf(a, st, "Id"), fieldType(st, "Id"))
	pred := t.args[1]
	desc = pred == lessEq(x, id) || strictOk && pred == lessThan(x, id)
	asc = pred == lessEq(id, x) || strictOk && pred == lessThan(id, x)
	return
}

func (r *Report) addSpan() {
	t := r.treeInfo()
	res := t.addRes
	e := res.E
	r.must(t.spans != "" && t.count != "" && t.updated != "", "fields of a trace: spans %q, number of spans %q, time of the last span %q", t.spans, t.count, t.updated)
	tree, span := res.Params[0], res.Params[1]
	st := t.spanT
	id := structField(span, "Id")
	r.must(id != nil, "added span %s", short(span))
	merge := r.entry("", "mergeSpansInPlace")
	ms := effs(res, "call", func(ef *Effect) bool { return ef.Callee == merge })
	r.must(len(ms) == 1 && len(ms[0].Loops) == 0, "AddSpan merges at %d places", len(ms))
	m := ms[0]
	found := m.Cond
	m0 := e.entryMem(res)
	list := t.fld(e, m0, tree, t.spans)
	w := r.at(m)

	// search
	ptr := restrict(m.Args[0], found)
	var pos *Node
	if a := ptr.leaf; a != nil && a.op == "indexaddr" && a.args[0] == sliceData(list) {
		pos = sub(a.args[1], sliceOff(list))
	}
	r.must(pos != nil, "AddSpan merges into %s", short(ptr))
	at := func(i *Node, m *Mem, f string) *Node {
		return e.loadAt(m, fieldAddrOf(indexAddrTerm(sliceData(list), add(sliceOff(list), i), st), st, f), fieldType(st, f))
	}
	d1, a1 := r.searchPos(e, pos, list, id, m0, false)
	r.ob("search", "a span with the same id is searched in the ordered list", d1 || a1, w, "merges with the span at %s", short(pos))
	want := and(lessThan(pos, lenOf(list)), eq(at(pos, m0, "Id"), id))
	r.iff("search", "a span is merged if its id is in the list", w, found, want)
	r.sameIf("search", "the span is merged as it is", w, found, m.Args[1], span)

	// insertion
	fin := t.fld(e, res.Out.mem, tree, t.spans)
	ins := not(found)
	fin2 := restrict(fin, ins)
	sh := r.inserted(res, fin2, list, span, ins, st)
	if sh.why == "" {
		d2, a2 := r.searchPos(e, sh.pos, list, id, m0, true)
		r.ob("insert", "a new span is inserted at its place in the order", d1 && d2 || a1 && a2 || sh.pos == pos && (d1 || a1), sh.where, "is inserted at %s", short(sh.pos))
	} else {
		r.ob("insert", "a new span is inserted at its place in the order", false, sh.where, "%s", sh.why)
	}
	r.sameIf("insert", "the list is kept when a span is merged", w, found, fin, list)

	// bookkeeping
	c0, c1 := t.fld(e, m0, tree, t.count), t.fld(e, res.Out.mem, tree, t.count)
	if x := sameUnder(ins, c1, lenOf(fin2)); x == nil {
		r.sameIf("count", "the number of spans is that of the list", w, found, c1, lenOf(list))
	} else {
		r.same("count", "the number of spans grows with every new span", w, c1, mux(found, c0, add(c0, intConst(1))))
	}
	up := t.fld(e, res.Out.mem, tree, t.updated)
	ok := true
	for _, g := range guardedLeaves(up) {
		ok = ok && g.T.op == "sym" && len(effs(res, "call", func(ef *Effect) bool { return ef.Name == "time.Now" && ef.Res == leafNode(g.T) })) == 1
	}
	r.ob("count", "the time of the last span is set", ok, w, "is %s", short(up))

	// nothing else of the trace or its spans is changed
	for _, ef := range effs(res, "store", nil) {
		a := ef.Args[0].leaf
		if a == nil {
			for _, g := range guardedLeaves(restrict(ef.Args[0], ef.Cond)) {
				a = g.T
			}
		}
		root := addrRoot(a)
		okS := root.op == "alloc"
		what := short(ef.Args[0])
		if a.op == "fieldaddr" && a.args[0] == tree {
			f := a.obj.(*types.Var).Name()
			okS = f == t.spans || f == t.count || f == t.updated
		}
		if ef == sh.store {
			okS = true
		}
		if restrict(ef.Args[0], ef.Cond) == fieldAddrOf(ptr, st, "Parent") {
			okS = implies(ef.Cond, found)
		}
		r.ob("else", "nothing else is changed", okS, r.at(ef), "stores to %s", what)
	}
	for _, ef := range effs(res, "", func(ef *Effect) bool {
		return ef.Kind == "mapupdate" || ef.Kind == "mapdelete" || ef.Kind == "send" || ef.Kind == "panic" || ef.Kind == "clear"
	}) {
		r.ob("else", "nothing else is changed", false, r.at(ef), "%s", ef.Kind)
	}
	for _, ef := range effs(res, "copy", nil) {
		r.ob("else", "nothing else is changed", sh.copies[ef], r.at(ef), "copies to %s", short(ef.Args[0]))
	}
	r.count("search", 3)
	r.count("insert", 2)
	r.count("count", 2)
}

type insertion struct {
	pos    *Node
	store  *Effect
	copies map[*Effect]bool
	where  string
	why    string
}

// inserted: fin is list with span inserted at a position.
func (r *Report) inserted(res *EvalResult, fin, list, span, cond *Node, st types.Type) *insertion {
	x := &insertion{copies: map[*Effect]bool{}}
	t := fin.leaf
	if t == nil {
		x.why = "the list becomes " + short(fin)
		return x
	}
	// append(list[:p], append([]Span{span}, list[p:]...)...)
	if t.op == "appends" && t.args[0].leaf != nil && t.args[0].leaf.op == "slice" {
		hd, tl := t.args[0], t.args[1]
		p := lenOf(hd)
		if u := tl.leaf; u != nil && u.op == "appends" && sliceData(hd) == sliceData(list) && sliceOff(hd) == sliceOff(list) {
			one, rest := u.args[0], u.args[1]
			v := res.E.elemOf(res.Out.mem, one, intConst(0), st)
			if lenOf(one) == intConst(1) && v == span && sliceData(rest) == sliceData(list) && sliceOff(rest) == add(sliceOff(list), p) && lenOf(rest) == sub(lenOf(list), p) {
				x.pos = p
				return x
			}
		}
	}
	// append(list, x); copy(new[p+1:], new[p:]); new[p] = span
	if t.op == "append" && t.args[0] == list && len(t.args) == 2 {
		for _, ef := range effs(res, "store", func(ef *Effect) bool { return len(ef.Loops) == 0 }) {
			a := ef.Args[0].leaf
			if a == nil || a.op != "indexaddr" || a.args[0] != sliceData(fin) {
				continue
			}
			x.where = r.at(ef)
			p := sub(a.args[1], sliceOff(fin))
			if !implies(cond, ef.Cond) || !implies(ef.Cond, cond) || ef.Args[1] != span {
				x.why = "stores " + short(ef.Args[1]) + " if " + short(ef.Cond)
				return x
			}
			for _, c := range effs(res, "copy", nil) {
				d, s := c.Args[0], c.Args[1]
				if sliceData(d) != sliceData(fin) || sliceData(s) != sliceData(fin) || c.Seq > ef.Seq {
					continue
				}
				// shifting p.. by one; the source may end anywhere at or after the old end
				ns := lenOf(s)
				if sliceOff(d) == add(sliceOff(s), intConst(1)) && sliceOff(s) == add(sliceOff(fin), p) && lenOf(d) == sub(lenOf(list), p) &&
					(ns == sub(lenOf(list), p) || ns == sub(lenOf(fin), p)) && equiv(c.Cond, cond) {
					x.copies[c] = true
					x.pos, x.store = p, ef
					return x
				}
			}
			x.why = "the following spans are not moved by one place before the span is stored"
		}
	}
	if x.why == "" {
		x.why = "the list becomes " + short(fin)
	}
	return x
}

func (r *Report) makeTree() {
	t := r.treeInfo()
	e := r.engine(nil)
	res := e.Eval(t.makeFn, nil, nil, nil)
	r.used(res)
	r.must(len(res.Results) == 1, "newTree has one result")
	v := res.Results[0]
	w := r.L.fnPos(t.makeFn)
	r.ob("new", "a trace is a new object", v.leaf != nil && v.leaf.op == "alloc", w, "%s", short(v))
	r.same("new", "a trace starts without spans", w, lenOf(t.fld(e, res.Out.mem, v, t.spans)), intConst(0))
	r.same("new", "a trace starts with no spans counted", w, t.fld(e, res.Out.mem, v, t.count), intConst(0))
	for _, f := range []string{t.started, t.updated} {
		x := t.fld(e, res.Out.mem, v, f)
		ok := len(effs(res, "call", func(ef *Effect) bool { return ef.Name == "time.Now" && ef.Res == x })) == 1
		r.ob("new", "the times of a trace start as the current time", ok, w, "%s is %s", f, short(x))
	}
	r.count("new", 5)
}
