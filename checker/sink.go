package main

// C25, C26: the Datadog output; C28: the buffer of recent spans.

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C25", "Value-flow of the Datadog output: the blocking operations of its loop, the condition of the hand-over of a batch, the state after it, and the loop that submits batches.", func(r *Report) {
		r.section(func() { r.sinkLoop().batches() })
		r.section(func() { r.sinkLoop().submit() })
	})
	register("C26", "Value-flow of the conversion to Datadog spans: every field of the stored span, the memory it is stored in, and the list it is added to.", func(r *Report) {
		r.section(func() { r.sinkLoop().mapping() })
	})
	register("C28", "Value-flow of the ring of recent spans: every write of the ring, its positions, and the order in which it is read.", func(r *Report) {
		r.section(func() { r.ring() })
	})
}

type sinkInfo struct {
	r         *Report
	e         *Engine
	res       *EvalResult
	transport *Node
	in        *Node
	L         *Loop // main loop
	R, tick   *Effect
	got       *Node // a trace was received
	trace     *Node
}

func (r *Report) sinkLoop() *sinkInfo {
	k := &sinkInfo{r: r}
	fn := r.entry("datadog", "Sink")
	k.e = r.engine(nil)
	k.res = k.e.Eval(fn, nil, nil, nil)
	r.used(k.res)
	r.must(len(k.res.Params) == 2, "Sink has %d parameters", len(k.res.Params))
	k.transport, k.in = k.res.Params[0], k.res.Params[1]
	for _, ef := range effs(k.res, "recv", func(ef *Effect) bool { return ef.Gor == nil }) {
		r.must(len(ef.Loops) == 1, "Sink receives outside of its loop, or in a nested one")
		ch := ef.Args[len(ef.Args)-1]
		if ch == k.in {
			r.must(k.R == nil, "Sink receives traces at several places")
			k.R = ef
		} else {
			r.must(k.tick == nil, "Sink receives from several other channels")
			k.tick = ef
		}
	}
	r.must(k.R != nil && k.tick != nil, "Sink does not wait for traces and a ticker")
	k.L = k.R.Loops[0]
	k.trace = k.R.Res
	ok := T.True
	if t := k.trace.leaf; t != nil && t.op == "recvval" {
		ok = symNode(mk("recvok", t.aux, nil, types.Typ[types.Bool], t.args...))
	}
	k.got = and(k.R.Cond, ok)
	return k
}

func (k *sinkInfo) batches() {
	r, res, L := k.r, k.res, k.L
	wh := r.at(k.R)
	// waiting
	var selR *Effect
	for _, ef := range effs(res, "select", func(ef *Effect) bool { return ef.Gor == nil }) {
		if ef.Instr == k.R.Instr {
			selR = ef
		}
	}
	r.ob("waits", "the output waits for a trace or the ticker, whatever comes first", selR != nil && selR.Cond == L.Entry && selR.Name == "select" && k.tick.Instr == k.R.Instr && len(selR.Instr.(*ssa.Select).States) == 2, wh, "")
	exits := T.False
	for _, x := range L.Exits {
		exits = or(exits, x.Cond)
	}
	r.iff("waits", "the output ends with the channel only", wh, exits, and(k.R.Cond, not(k.got)))

	// ticker
	tick := false
	walkTerms(k.tick.Args[len(k.tick.Args)-1], func(t *Term) bool {
		for _, ef := range effs(res, "call", named("time.NewTicker")) {
			if ef.Res.leaf == t && len(ef.Loops) == 0 && ef.Args[0] == intConst(2000000000) {
				tick = true
			}
		}
		return true
	})
	r.ob("waits", "the ticker ticks every two seconds", tick, r.at(k.tick), "%s", short(k.tick.Args[len(k.tick.Args)-1]))
	for _, ef := range effs(res, "call", func(ef *Effect) bool { return strings.HasPrefix(ef.Name, "(*time.Ticker).") }) {
		r.ob("waits", "the ticker is not stopped before the end", ef.Defer && len(ef.Loops) == 0, r.at(ef), "%s", ef.Name)
	}

	// hand-over
	var snd, sel *Effect
	for _, ef := range res.Effects {
		if ef.Gor != nil || len(ef.Loops) == 0 || ef.Loops[0] != L {
			continue
		}
		switch ef.Kind {
		case "send":
			r.ob("blocks", "a batch is handed over at one place", snd == nil, r.at(ef), "")
			r.ob("blocks", "the hand-over does not block", ef.Name == "select-default", r.at(ef), "%s", ef.Name)
			snd = ef
		case "select":
			if ef != selR {
				sel = ef
				if s, ok := ef.Instr.(*ssa.Select); ok {
					r.ob("blocks", "no other operation of the loop blocks", !s.Blocking && len(s.States) == 1, r.at(ef), "select with %d cases", len(s.States))
				}
			}
		case "recv":
			r.ob("blocks", "no other operation of the loop blocks", ef == k.R || ef == k.tick, r.at(ef), "receive")
		case "call":
			r.ob("blocks", "no other operation of the loop blocks", neverBlocks(ef.Name), r.at(ef), "calls %s", ef.Name)
		case "go":
			r.ob("blocks", "no goroutines are started in the loop", false, r.at(ef), "")
		}
	}
	if snd == nil || sel == nil {
		r.ob("blocks", "batches are handed over", false, wh, "")
		return
	}
	ws := r.at(snd)

	// values after the loop over the spans of a trace
	fix := func(n *Node) *Node {
		for _, M := range res.Loops {
			if M.KX != nil && M.parent == L && ranges(M, lenOf(k.trace)) {
				n = subst(n, M.KX, lenOf(k.trace))
			}
		}
		return n
	}

	// state
	var batch, count, last *LoopPhi
	for _, p := range loopPhis(L) {
		if p.Mu == nil {
			continue
		}
		mu := leafNode(p.Mu)
		if mu == snd.Args[1] {
			batch = p
			continue
		}
		if isInteger(p.typ) {
			// counts spans: grows by the spans of a trace
			for _, g := range guardedLeaves(restrict(fix(p.Step), k.got)) {
				if leafNode(g.T) == add(mu, lenOf(k.trace)) {
					count = p
				}
			}
		}
		if p.typ != nil && p.typ.String() == "time.Time" {
			last = p
		}
	}
	r.ob("state", "the handed over batch is the collected one", batch != nil, ws, "%s", short(snd.Args[1]))
	r.ob("state", "the collected spans are counted", count != nil, ws, "")
	r.ob("state", "the time of the last hand-over is known", last != nil, ws, "")
	if batch == nil || count == nil || last == nil {
		return
	}
	n, lm := leafNode(count.Mu), leafNode(last.Mu)
	total := add(n, lenOf(k.trace))
	F := fix(sel.Cond)
	full := and(k.got, lessEq(intConst(1000), total))
	var now []*Node
	walkTerms(F, func(t *Term) bool {
		if t.op == "tns" {
			now = append(now, leafNode(t))
		}
		return true
	})
	ok := false
	var want *Node
	zero := intConst(0)
	lastNs := tns(lm)
	for _, x := range now {
		if x == lastNs {
			continue
		}
		elapsed := sub(x, lastNs)
		want = or(full, ands(k.tick.Cond, lessEq(intConst(1800000000), elapsed), lessThan(zero, n)))
		// the number of spans is not negative
		pos := and(lessEq(zero, n), lessEq(zero, lenOf(k.trace)))
		if equiv(and(pos, F), and(pos, want)) || sameUnder(pos, boolVal(F), boolVal(want)) == nil {
			ok = true
		}
	}
	r.ob("flush", "a batch is handed over when it has 1000 spans, and with a tick if it was not just before", ok, ws, "is handed over if %s", short(F))
	r.iff("flush", "the handed over batch is sent unless the receiver is busy", ws, impliedNode(fix(snd.Cond), F), T.True)

	told := T.False
	for _, ef := range effs(res, "call", func(ef *Effect) bool {
		return ef.Gor == nil && len(ef.Loops) == 1 && ef.Seq > sel.Seq && reports(ef.Name)
	}) {
		told = or(told, fix(ef.Cond))
	}
	lost := ands(F, not(fix(snd.Cond)), not(told))
	r.ob("silent", "a batch that is dropped is reported", lost == T.False, ws, "not if %s", short(lost))

	// after it
	fresh := restrict(fix(batch.Step), F)
	r.ob("state", "after the hand-over a new batch is started", fresh.leaf != nil && fresh.leaf.op == "alloc" && fresh.leaf != batch.Mu && varies(fresh.leaf, L), ws, "becomes %s", short(fresh))
	r.ob("state", "the first batch is empty", batch.Init.leaf != nil && batch.Init.leaf.op == "alloc", ws, "%s", short(batch.Init))
	mk0 := 0
	for _, ef := range effs(res, "makemap", func(ef *Effect) bool { return ef.Res == fresh }) {
		mk0++
		r.ob("state", "the new batch is made by the hand-over", len(ef.Loops) == 1 && implies(fix(ef.Cond), F), r.at(ef), "if %s", short(ef.Cond))
	}
	r.sameIf("state", "the batch is kept until then", ws, and(L.Entry, and(fix(L.Stay), not(F))), fix(batch.Step), leafNode(batch.Mu))
	r.sameIf("state", "the count starts again", ws, and(fix(L.Stay), F), fix(count.Step), zero)
	r.sameIf("state", "the spans of a trace are counted", ws, ands(fix(L.Stay), not(F), k.got), fix(count.Step), total)
	r.sameIf("state", "a tick changes nothing else", ws, ands(fix(L.Stay), not(F), k.tick.Cond), fix(count.Step), n)
	r.ob("state", "the count starts with 0", count.Init == zero, ws, "%s", short(count.Init))
	ls := restrict(fix(last.Step), and(fix(L.Stay), F))
	r.ob("state", "the time of the hand-over is kept", ls.leaf != nil && strings.HasPrefix(ls.leaf.aux, "now") || isNow(ls), ws, "%s", short(ls))
	r.sameIf("state", "the time of the last hand-over is kept until the next", ws, and(fix(L.Stay), not(F)), fix(last.Step), lm)

	// the batch is not used after the hand-over
	for _, ef := range effs(res, "mapupdate", func(ef *Effect) bool { return ef.Gor == nil }) {
		if ef.Args[0] == leafNode(batch.Mu) {
			r.ob("state", "a batch is not changed any more when it is handed over", ef.Seq < snd.Seq, r.at(ef), "")
		}
	}
	for _, ef := range effs(res, "mapdelete", nil) {
		r.ob("state", "nothing is taken out of a batch", false, r.at(ef), "")
	}
	for _, ef := range effs(res, "clear", nil) {
		r.ob("state", "nothing is taken out of a batch", false, r.at(ef), "")
	}

	// the channel
	mc := effs(res, "makechan", func(ef *Effect) bool { return ef.Res == snd.Args[0] && len(ef.Loops) == 0 })
	c, _ := int64(0), false
	if len(mc) == 1 {
		c, _ = constInt64(mc[0].Args[0])
	}
	r.ob("blocks", "batches wait in a channel of their own with a fixed capacity", c > 0, ws, "capacity %d", c)
	for _, ef := range effs(res, "close", func(ef *Effect) bool { return ef.Args[0] == snd.Args[0] }) {
		r.ob("blocks", "the channel of batches stays open until the end", ef.Defer && len(ef.Loops) == 0 || ef.Seq > snd.Seq && len(ef.Loops) == 0, r.at(ef), "")
	}
	r.count("waits", 3)
	r.count("blocks", 4)
	r.count("flush", 2)
	r.count("state", 10)
}

func impliedNode(a, b *Node) *Node {
	if implies(a, b) {
		return T.True
	}
	return T.False
}

func boolVal(c *Node) *Node { return mux(c, intConst(1), intConst(0)) }

func isNow(n *Node) bool {
	return n.leaf != nil && strings.Contains(n.leaf.String(), "now@")
}

// varies: the object is made anew in each iteration.
func varies(t *Term, L *Loop) bool {
	for _, a := range t.args {
		if a == leafNode(L.K) {
			return true
		}
	}
	return false
}

func (k *sinkInfo) submit() {
	r, res := k.r, k.res
	// the goroutine that receives batches
	var snd *Effect
	for _, ef := range effs(res, "send", func(ef *Effect) bool { return ef.Gor == nil }) {
		snd = ef
	}
	r.must(snd != nil, "no batch is handed over")
	rc := effs(res, "recv", func(ef *Effect) bool { return ef.Args[len(ef.Args)-1] == snd.Args[0] })
	if !r.ob("submit", "batches are received at one place", len(rc) == 1, r.at(snd), "%d places", len(rc)) {
		return
	}
	R := rc[0]
	wh := r.at(R)
	r.ob("submit", "batches are submitted by a goroutine of their own that was started before", R.Gor != nil && R.Gor.Cond == T.True && len(R.Gor.Loops) == 0 && R.Gor.Seq < k.R.Seq, wh, "")
	if !r.ob("submit", "every batch is taken", len(R.Loops) == 1 && R.Cond == R.Loops[0].Entry, wh, "if %s", short(R.Cond)) {
		return
	}
	L := R.Loops[0]
	okv := recvOK(R)
	exits := T.False
	for _, x := range L.Exits {
		exits = or(exits, x.Cond)
	}
	r.iff("submit", "submitting ends with the channel only", wh, exits, not(okv))
	for _, ef := range effs(res, "panic", func(ef *Effect) bool { return ef.Gor == R.Gor }) {
		r.ob("submit", "submitting does not end by a panic", false, r.at(ef), "")
	}
	for _, ef := range effs(res, "call", nil) {
		r.ob("submit", "the process goes on whatever happens", !terminates(ef.Name), r.at(ef), "calls %s", ef.Name)
	}
	var call *Effect
	for _, ef := range effs(res, "call", named("tracer.Transport).SendTraces")) {
		r.ob("submit", "batches are submitted at one place", call == nil, r.at(ef), "")
		call = ef
	}
	r.must(call != nil, "batches are not submitted")
	wc := r.at(call)
	r.ob("submit", "the transport of the program is used", call.Args[0] == k.transport, wc, "%s", short(call.Args[0]))
	r.ob("submit", "a batch is submitted once, by the goroutine that received it", call.Gor == R.Gor && len(call.Loops) == 1 && call.Loops[0] == L, wc, "")
	told := T.False
	for _, ef := range effs(res, "call", func(ef *Effect) bool {
		return ef.Gor == R.Gor && len(ef.Loops) == 1 && ef.Loops[0] == L && ef.Seq > call.Seq && reports(ef.Name)
	}) {
		told = or(told, ef.Cond)
	}
	if E := errOf(call); r.ob("silent", "the transport says if submitting failed", E != nil, wc, "") {
		lost := ands(call.Cond, not(nilNode(E)), not(told))
		r.ob("silent", "a submission that fails is reported", lost == T.False, wc, "not if %s", short(lost))
	}
	// the list
	b := r.builtSlice(res, call.Args[1], nil2(call.Args[1]), T.True)
	batch := R.Res
	if !r.ob("submit", "a batch is submitted as a list of its traces", b.why == "" && len(b.loops) == 1, wc, "the list %s", b.why) {
		return
	}
	var next *Effect
	for _, ef := range effs(res, "next", func(ef *Effect) bool {
		return len(ef.Loops) > 0 && ef.Loops[len(ef.Loops)-1] == b.loops[0]
	}) {
		next = ef
	}
	if !r.ob("submit", "the traces of a batch are looked at one by one", next != nil && next.Args[0] == batch, wc, "") {
		return
	}
	in := next.Cond
	for _, x := range b.loops[0].Exits {
		r.iff("submit", "every trace of a batch is looked at", wc, and(in, x.Cond), and(in, not(next.Res)))
	}
	r.iff("submit", "every trace of a batch is submitted", wc, b.cond, and(in, next.Res))
	val := next.Args[2]
	r.ob("submit", "the spans of a trace are submitted together", b.elem == val || sameUnder(b.cond, b.elem, val) == nil, wc, "%s", short(b.elem))
	// condition: a batch with traces is submitted, unless traces are logged instead
	want := and(okv, not(eq(lenOf(call.Args[1]), intConst(0))))
	env := T.False
	walkTerms(call.Cond, func(t *Term) bool {
		return true
	})
	if at := envAtom(call.Cond); at != nil {
		env = atomNode(at)
	}
	got := and(call.Cond, not(env))
	alt := and(call.Cond, env)
	w2, w3 := and(want, not(env)), and(okv, not(env))
	okc := alt == T.False && (equiv(got, w2) || equiv(got, w3)) || env == T.False && (equiv(call.Cond, want) || equiv(call.Cond, okv))
	r.ob("submit", "every batch is submitted, unless traces are only logged", okc, wc, "if %s", short(call.Cond))
	r.count("submit", 10)
}

func nil2(n *Node) types.Type {
	if n.leaf != nil && n.leaf.typ != nil {
		if s, ok := n.leaf.typ.Underlying().(*types.Slice); ok {
			return s.Elem()
		}
	}
	return nil
}

// envAtom: the condition that depends on the environment of the process.
func envAtom(c *Node) *Term {
	for c.atom != nil {
		found := false
		walkTerms(atomNode(c.atom), func(t *Term) bool {
			if strings.Contains(t.aux, "os.Getenv") {
				found = true
			}
			return true
		})
		if found {
			return c.atom
		}
		if c.hi != T.False {
			c = c.hi
		} else {
			c = c.lo
		}
	}
	return nil
}

func (k *sinkInfo) mapping() {
	r, e, res := k.r, k.e, k.res
	var up *Effect
	for _, ef := range effs(res, "mapupdate", func(ef *Effect) bool { return ef.Gor == nil }) {
		r.ob("group", "spans are added to a batch at one place", up == nil, r.at(ef), "")
		up = ef
	}
	r.must(up != nil, "spans are not added to the batch")
	wh := r.at(up)
	if !r.ob("group", "the spans of a trace are looked at one by one", len(up.Loops) == 2 && up.Loops[0] == k.L, wh, "inside of %d loops", len(up.Loops)) {
		return
	}
	L := up.Loops[1]
	st := r.L.typ("proxy", "Span")
	n := lenOf(k.trace)
	r.ob("group", "every span of a trace is looked at, in order", ranges(L, n) && equiv(L.Entry, k.got), wh, "%d exits", len(L.Exits))
	r.iff("group", "every span is added", wh, up.Cond, and(k.got, inLoop(L, n)))
	span := e.elemOf(k.R.Mem, k.trace, leafNode(L.K), st)
	f := func(name string) *Node { return structField(span, name) }
	u64 := types.Typ[types.Uint64]
	id := func(name string) *Node { return e.convert(f(name), fieldType(st, name), u64) }

	// the list of the trace
	r.sameIf("group", "spans are grouped by their trace id", wh, up.Cond, up.Args[1], id("Trace"))
	mt := up.Instr.(*ssa.MapUpdate).Map.Type()
	old, _ := e.mapGet(up.Mem, up.Args[0], mt, up.Args[1])
	app := up.Args[2]
	var ptr *Node
	okA := true
	for _, g := range guardedLeaves(restrict(app, up.Cond)) {
		t := g.T
		if t.op != "append" || len(t.args) != 2 || sameUnder(and(up.Cond, g.Cond), leafNode(t), mkN("append", t.aux, t.obj, t.typ, restrict(old, and(up.Cond, g.Cond)), t.args[1])) != nil {
			okA = false
			break
		}
		if ptr == nil {
			ptr = t.args[1]
		} else if ptr != t.args[1] {
			okA = false
		}
	}
	if !r.ob("group", "a span is added to the spans of its trace", okA && ptr != nil, wh, "the list becomes %s", short(app)) {
		return
	}
	// the memory of the span
	dt := up.Instr.(*ssa.MapUpdate).Map.Type().Underlying().(*types.Map).Elem().Underlying().(*types.Slice).Elem().Underlying().(*types.Pointer).Elem()
	r.ownMemory(res, up, L, ptr, dt)

	// its fields, when it is added
	v := e.loadAt(up.Mem, ptr, dt)
	dur := f("Duration")
	us := intConst(1000)
	tags, tt := f("Tags"), fieldType(st, "Tags")
	tag, has := e.mapGet(k.R.Mem, tags, tt, strConst("error"))
	isErr := ands(has, not(eqStr(tag, "false")), not(eqStr(tag, "0")))
	ts := f("Timestamp")
	want := map[string]*Node{
		"Name":     f("Service"),
		"Service":  f("Service"),
		"Resource": mux(eqStr(f("Name"), ""), strConst("(resource empty)"), f("Name")),
		"Start":    ts,
		"Duration": mux(lessThan(dur, us), us, dur),
		"SpanID":   id("Id"),
		"TraceID":  id("Trace"),
		"ParentID": id("Parent"),
		"Meta":     tags,
		"Sampled":  T.True,
		"Error":    mux(isErr, intConst(1), intConst(0)),
	}
	sdt := dt.Underlying().(*types.Struct)
	for i := 0; i < sdt.NumFields(); i++ {
		name := sdt.Field(i).Name()
		w := want[name]
		if w == nil {
			if !sdt.Field(i).Exported() {
				continue
			}
			w = zeroOf(sdt.Field(i).Type())
		}
		got := structField(v, name)
		if got == nil {
			got = e.loadAt(up.Mem, fieldAddrOf(ptr, types.NewPointer(dt), name), sdt.Field(i).Type())
		}
		// memory of its own is zero where nothing is stored
		fa := fieldAddrOf(ptr, types.NewPointer(dt), name)
		for _, g := range guardedLeaves(got) {
			if g.T.op != "load" {
				continue
			}
			for _, a := range guardedLeaves(fa) {
				if g.T.args[0] == leafNode(a.T) && addrRoot(a.T).op != "global" {
					got = subst(got, g.T, zeroOf(sdt.Field(i).Type()))
				}
			}
		}
		r.sameIf("field", name, wh, up.Cond, got, w)
	}
	// nothing else is written
	own := map[*Node]bool{ptr: true}
	for i := 0; i < sdt.NumFields(); i++ {
		own[fieldAddrOf(ptr, types.NewPointer(dt), sdt.Field(i).Name())] = true
	}
	for _, ef := range effs(res, "store", func(ef *Effect) bool { return ef.Gor == nil }) {
		ok := true
		for _, g := range guardedLeaves(ef.Args[0]) {
			root := addrRoot(g.T)
			ok = ok && (root.op == "alloc" || leafNode(g.T) == ptr || own[ef.Args[0]] && ef.Seq < up.Seq)
		}
		r.ob("memory", "received spans and handed over spans are not changed", ok, r.at(ef), "stores to %s", short(ef.Args[0]))
	}
	for _, ef := range effs(res, "mapupdate", nil) {
		r.ob("memory", "tags are not changed", ef == up, r.at(ef), "")
	}
	r.count("group", 6)
	r.count("field", 11)
	r.count("memory", 2)
}

// ownMemory: each iteration uses memory that no other iteration uses.
func (r *Report) ownMemory(res *EvalResult, up *Effect, L *Loop, ptr *Node, dt types.Type) {
	wh := r.at(up)
	ok := true
	why := ""
	var slab *LoopPhi
	for _, g := range guardedLeaves(restrict(ptr, up.Cond)) {
		t := g.T
		switch {
		case t.op == "alloc" && varies(t, L):
			continue
		case t.op == "indexaddr" && t.args[1] == intConst(0):
			d := t.args[0].leaf
			if d != nil && d.op == "alloc" && varies(d, L) {
				continue // first of a new block
			}
			if d != nil && d.op == "sdata" {
				for _, p := range loopPhis(L) {
					if p.Mu != nil && leafNode(p.Mu) == d.args[0] {
						slab = p
					}
				}
				if slab != nil && implies(and(up.Cond, g.Cond), not(eq(lenOf(leafNode(slab.Mu)), intConst(0)))) {
					continue
				}
			}
		}
		ok, why = false, short(leafNode(t))
	}
	r.ob("memory", "every span gets memory of its own", ok, wh, "%s", why)
	if slab == nil {
		return
	}
	// the block goes on behind the used element
	et := types.NewSlice(dt)
	_ = et
	mu := leafNode(slab.Mu)
	for _, g := range guardedLeaves(restrict(slab.Step, L.Stay)) {
		t := g.T
		okS := t.op == "slice" && t.args[1] == intConst(1)
		if okS {
			d := t.args[0].leaf
			u := and(and(L.Entry, L.Stay), g.Cond)
			base := restrict(ptr, u)
			okS = d != nil && base.leaf != nil && base.leaf.op == "indexaddr" && base.leaf.args[0] == leafNode(d)
		} else if t.op == "slice" && t.args[0].leaf != nil && t.args[0].leaf.op == "sdata" && t.args[0].leaf.args[0] == mu {
			c, isC := constInt64(t.args[1])
			okS = isC && c >= 1
		}
		r.ob("memory", "a used place is not used again", okS, wh, "the free block becomes %s", short(leafNode(t)))
	}
	// across traces
	for _, p := range loopPhis(up.Loops[0]) {
		if p.Mu == nil || leafNode(p.Mu) != slab.Init {
			continue
		}
		r.ob("memory", "a used place is not used by later traces", lenOf(p.Init) == intConst(0) || p.Init.leaf != nil, wh, "")
		for _, g := range guardedLeaves(restrict(p.Step, up.Loops[0].Stay)) {
			okS := g.T == p.Mu && !mayEnter(g.Cond, L) || leafNode(g.T) == restrictKX(mu, L) || g.T == p.Mu && implies(g.Cond, not(L.Entry))
			r.ob("memory", "a used place is not used by later traces", okS, wh, "the free block becomes %s", short(leafNode(g.T)))
		}
	}
}

func mayEnter(c *Node, L *Loop) bool { return and(c, L.Entry) != T.False }

func (r *Report) ring() {
	read := r.entry("", "SpansBuffer.ReadFrom")
	slice := r.entry("", "SpansBuffer.ToSlice")
	newB := r.entry("", "NewSpansBuffer")
	bt := r.L.typ("", "SpansBuffer")
	st := r.L.typ("proxy", "Span")
	// new
	en := r.engine(nil)
	nres := en.Eval(newB, nil, nil, nil)
	r.used(nres)
	b := nres.Results[0]
	wn := r.L.fnPos(newB)
	list, posF := "", ""
	u := bt.Underlying().(*types.Struct)
	for i := 0; i < u.NumFields(); i++ {
		f := u.Field(i)
		if s, ok := f.Type().Underlying().(*types.Slice); ok && types.Identical(s.Elem(), st) {
			list = f.Name()
		} else if isInteger(f.Type()) {
			r.must(posF == "", "the ring has several positions")
			posF = f.Name()
		}
	}
	r.must(list != "" && posF != "", "the ring of recent spans has no list or no position")
	ptrT := types.NewPointer(bt)
	get := func(e *Engine, m *Mem, b *Node, f string) *Node {
		return e.loadAt(m, fieldAddrOf(b, ptrT, f), fieldType(bt, f))
	}
	pos0 := get(en, nres.Out.mem, b, posF)
	l0 := get(en, nres.Out.mem, b, list)
	r.ob("new", "the ring has the capacity it was made with", lenOf(l0) == nres.Params[0] && l0.leaf != nil && l0.leaf.op == "slice" && l0.leaf.args[0].leaf.op == "alloc", wn, "%s", short(l0))
	r.ob("new", "a new ring is empty", pos0 == intConst(0), wn, "%s", short(pos0))

	// writing
	e := r.engine(nil)
	res := e.Eval(read, nil, nil, nil)
	r.used(res)
	buf, ch := res.Params[0], res.Params[1]
	rc := effs(res, "recv", func(ef *Effect) bool { return ef.Args[0] == ch })
	r.must(len(rc) == 1 && len(rc[0].Loops) == 1, "traces are received at %d places", len(rc))
	R := rc[0]
	LR := R.Loops[0]
	okv := recvOK(R)
	exits := T.False
	for _, x := range LR.Exits {
		exits = or(exits, x.Cond)
	}
	r.iff("write", "the ring takes traces until the channel is closed", r.at(R), exits, not(okv))
	r.ob("write", "every trace is taken", R.Cond == LR.Entry, r.at(R), "if %s", short(R.Cond))
	trace := R.Res
	posA := fieldAddrOf(buf, ptrT, posF)
	var wr *Effect
	posSt := []*Effect{}
	for _, ef := range effs(res, "store", nil) {
		a := ef.Args[0].leaf
		switch {
		case ef.Args[0] == posA:
			posSt = append(posSt, ef)
		case a != nil && addrRoot(a).op == "alloc":
		case a != nil && a.op == "indexaddr":
			r.ob("write", "spans are stored at one place", wr == nil, r.at(ef), "")
			wr = ef
		default:
			r.ob("write", "nothing but the ring is changed", false, r.at(ef), "stores to %s", short(ef.Args[0]))
		}
	}
	r.must(wr != nil, "spans are not stored in the ring")
	ww := r.at(wr)
	if !r.ob("write", "the spans of a trace are stored one by one", len(wr.Loops) == 2 && wr.Loops[0] == LR, ww, "") {
		return
	}
	L := wr.Loops[1]
	r.ob("write", "every span of a trace is stored, in order", ranges(L, lenOf(trace)) && equiv(L.Entry, okv), ww, "%d exits", len(L.Exits))
	r.iff("write", "every span is stored", ww, wr.Cond, and(okv, inLoop(L, lenOf(trace))))
	// the ring is not the memory of a trace: it is made by NewSpansBuffer
	r.ob("write", "the span itself is stored", wr.Args[1] == e.elemOf(R.Mem, trace, leafNode(L.K), st) || wr.Args[1] == e.elemOf(wr.Mem, trace, leafNode(L.K), st), ww, "%s", short(wr.Args[1]))
	ls := get(e, wr.Mem, buf, list)
	var pos *LoopPhi
	for _, p := range loopPhis(L) {
		if p.Mu != nil && isInteger(p.typ) && wr.Args[0] == indexAddrTerm(sliceData(ls), add(sliceOff(ls), leafNode(p.Mu)), st) {
			pos = p
		}
	}
	if !r.ob("write", "a span is stored at the position", pos != nil, ww, "stores to %s", short(wr.Args[0])) {
		return
	}
	mu := leafNode(pos.Mu)
	n := lenOf(ls)
	r.sameIf("write", "the position moves to the next place, and from the last to the first", ww, and(lessThan(mu, n), inLoop(L, lenOf(trace))), unwrap(pos.Step, n), mux(lessThan(add(mu, intConst(1)), n), add(mu, intConst(1)), intConst(0)))
	// the position is used by these functions only
	for _, fn := range r.L.Fns {
		if r.Funcs[fn.String()] {
			continue
		}
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				fa, ok := ins.(*ssa.FieldAddr)
				if !ok || !types.Identical(fa.X.Type(), ptrT) {
					continue
				}
				f := u.Field(fa.Field)
				if f.Name() != list && f.Name() != posF {
					continue
				}
				for _, x := range *fa.Referrers() {
					un, ok := x.(*ssa.UnOp)
					r.ob("write", "no one else changes the ring", ok && (f.Name() == posF || !elemWritten(un)), r.L.pos(ins), "in %s", fn)
				}
			}
		}
	}
	// the position is kept from trace to trace
	start := T.False
	_ = start
	pm := get(e, R.Mem, buf, posF)
	r.same("write", "a trace is stored behind the trace before", ww, pos.Init, pm)
	fin := false
	for _, p := range loopPhis(LR) {
		if p.Addr != nil && leafNode(p.Addr) == posA && p.Mu != nil {
			step := restrict(p.Step, okv)
			fin = p.Init == e.loadAt(newMem(), posA, fieldType(bt, posF)) && (step == restrictKX(mu, L) || step == mu)
			r.ob("write", "the position is kept", fin, ww, "becomes %s", short(step))
		}
	}
	r.ob("write", "the position is kept", fin, ww, "")
	_ = posSt

	// reading
	es := r.engine(nil)
	sres := es.Eval(slice, nil, nil, nil)
	r.used(sres)
	sb := sres.Params[0]
	ws := r.L.fnPos(slice)
	m0 := newMem()
	sl := get(es, m0, sb, list)
	sp := get(es, m0, sb, posF)
	sn := lenOf(sl)
	for _, ef := range effs(sres, "store", nil) {
		a := ef.Args[0].leaf
		r.ob("read", "reading does not change the ring", a != nil && addrRoot(a).op == "alloc", r.at(ef), "stores to %s", short(ef.Args[0]))
	}
	out := sres.Results[0]
	// the list is built by one loop over all places, or by two over both parts
	type part struct {
		L    *Loop
		p    *LoopPhi
		elem *Node
		cond *Node
	}
	var parts []part
	cur := out
	why := ""
	for i := 0; i < 3 && why == ""; i++ {
		L, p := exitOf(sres, cur)
		if L == nil {
			if lenOf(cur) != intConst(0) {
				why = "starts as " + short(cur)
			}
			break
		}
		pt := part{L: L, p: p}
		for _, g := range guardedLeaves(restrict(p.Step, L.Stay)) {
			switch {
			case g.T == p.Mu:
			case g.T.op == "append" && len(g.T.args) == 2 && g.T.args[0] == leafNode(p.Mu) && pt.elem == nil:
				pt.elem, pt.cond = g.T.args[1], g.Cond
			default:
				why = "becomes " + short(leafNode(g.T))
			}
		}
		if pt.elem == nil && why == "" {
			why = "does not grow"
		}
		parts = append([]part{pt}, parts...)
		cur = p.Init
	}
	r.ob("read", "the recent spans are collected in a list", why == "" && (len(parts) == 1 || len(parts) == 2), ws, "the list %s", why)
	if why != "" || len(parts) < 1 || len(parts) > 2 {
		return
	}
	for i, pt := range parts {
		K := leafNode(pt.L.K)
		var idx, cnt *Node
		switch {
		case len(parts) == 1:
			cnt = sn
			idx = mux(lessThan(add(sp, K), sn), add(sp, K), sub(add(sp, K), sn))
		case i == 0:
			cnt, idx = sub(sn, sp), add(sp, K)
		default:
			cnt, idx = sp, K
		}
		r.ob("read", "every place of the ring is looked at once", ranges(pt.L, cnt) && len(pt.L.Exits) == 1, ws, "%d exits", len(pt.L.Exits))
		got := pt.elem
		in := ands(pt.L.Entry, inLoop(pt.L, cnt), lessThan(sp, sn), lessEq(intConst(0), sp), lessEq(intConst(0), K))
		okE := true
		sawOK := false
		for _, g := range guardedLeaves(idx) {
			u := and(in, g.Cond)
			at := leafNode(g.T)
			want := es.elemOf(m0, sl, at, st)
			if x := sameUnder(u, deepRestrict(unwrapIdx(got, sp, K, sn, at), u), want); x != nil {
				okE = false
				why = short(got)
			}
			nz := not(eq(structField(want, "Id"), intConst(0)))
			c := deepRestrict(unwrapIdx(boolVal(pt.cond), sp, K, sn, at), u)
			if x := sameUnder(u, c, boolVal(nz)); x != nil {
				sawOK = true
				why = short(pt.cond)
			}
		}
		r.ob("read", "spans are listed from the oldest to the latest", okE, ws, "element %s", why)
		r.ob("read", "places that were not used yet are left out, and no others", !sawOK, ws, "kept if %s", why)
	}
	r.count("new", 2)
	r.count("write", 9)
	r.count("read", 3)
}

// unwrap rewrites x%n for 0 <= x <= n.
func unwrap(v, n *Node) *Node {
	return rewriteMod(v, func(x, m *Node) *Node {
		if m != n {
			return nil
		}
		return mux(lessThan(x, n), x, sub(x, n))
	})
}

// unwrapIdx rewrites (p+k)%n to at, its value in the case at hand.
func unwrapIdx(v, p, k, n, at *Node) *Node {
	return rewriteMod(v, func(x, m *Node) *Node {
		if m != n || x != add(p, k) {
			return nil
		}
		return at
	})
}

// rewriteMod replaces remainders x%m.
func rewriteMod(v *Node, f func(x, m *Node) *Node) *Node {
	for i := 0; i < 8; i++ {
		var t *Term
		var to *Node
		walkTerms(v, func(y *Term) bool {
			if t == nil && y.op == "bin" && y.aux == "%" {
				if r := f(y.args[0], y.args[1]); r != nil {
					t, to = y, r
				}
			}
			return t == nil
		})
		if t == nil {
			break
		}
		v = subst(v, t, to)
	}
	return v
}

// neverBlocks: functions of libraries that return without waiting.
func neverBlocks(name string) bool {
	n := strings.TrimPrefix(strings.TrimPrefix(name, "("), "*")
	for _, p := range []string{"strings.", "strconv.", "fmt.Sprint", "errors.", "sort.", "math.", "bytes.", "unicode", "sync/atomic.", "encoding/binary.", "github.com/pkg/errors."} {
		if strings.HasPrefix(n, p) {
			return true
		}
	}
	if strings.HasPrefix(n, "time.") {
		switch n {
		case "time.Now", "time.Since", "time.Until", "time.Unix", "time.UnixMilli", "time.UnixMicro", "time.Date":
			return true
		}
		return strings.HasPrefix(n, "time.Time).") || strings.HasPrefix(n, "time.Duration).")
	}
	if strings.HasPrefix(n, "github.com/sirupsen/logrus.") {
		f := n[strings.LastIndexByte(n, '.')+1:]
		return !strings.HasPrefix(f, "Fatal") && !strings.HasPrefix(f, "Panic") && !strings.HasPrefix(f, "Exit")
	}
	return strings.HasPrefix(n, "github.com/rcrowley/go-metrics.")
}

// elemWritten: an element of the loaded slice is written, or the slice goes
// elsewhere.
func elemWritten(v ssa.Value) bool { return elemWrittenIn(v, map[ssa.Value]bool{}) }

func elemWrittenIn(v ssa.Value, seen map[ssa.Value]bool) bool {
	if seen[v] {
		return false
	}
	seen[v] = true
	if v.Referrers() == nil {
		return true
	}
	for _, x := range *v.Referrers() {
		switch x := x.(type) {
		case *ssa.IndexAddr:
			if !onlyLoaded(x) {
				return true
			}
		case *ssa.Slice:
			if elemWrittenIn(x, seen) {
				return true
			}
		case *ssa.Phi:
			if elemWrittenIn(x, seen) {
				return true
			}
		case *ssa.Call:
			if f := x.Call.StaticCallee(); f != nil && f.Blocks != nil {
				for i, a := range x.Call.Args {
					if a == v && (i >= len(f.Params) || elemWrittenIn(f.Params[i], seen)) {
						return true
					}
				}
				continue
			}
			b, ok := x.Call.Value.(*ssa.Builtin)
			if ok && (b.Name() == "append" || b.Name() == "copy") && x.Call.Args[0] != v {
				continue // the source
			}
			if !ok || b.Name() != "len" && b.Name() != "cap" {
				return true
			}
		case *ssa.DebugRef:
		default:
			return true
		}
	}
	return false
}

// terminates: functions that end the process.
func terminates(name string) bool {
	n := strings.TrimPrefix(strings.TrimPrefix(name, "("), "*")
	f := n[strings.LastIndexByte(n, '.')+1:]
	switch {
	case n == "os.Exit", n == "runtime.Goexit", n == "syscall.Exit":
		return true
	case strings.HasPrefix(n, "log.") || strings.HasPrefix(n, "github.com/sirupsen/logrus."):
		return strings.HasPrefix(f, "Fatal") || strings.HasPrefix(f, "Panic") || strings.HasPrefix(f, "Exit")
	}
	return f == "FatalOnError"
}

// reports: functions that tell somebody.
func reports(name string) bool {
	n := strings.TrimPrefix(strings.TrimPrefix(name, "("), "*")
	f := n[strings.LastIndexByte(n, '.')+1:]
	switch {
	case strings.HasPrefix(n, "github.com/sirupsen/logrus."), strings.HasPrefix(n, "log."):
		for _, p := range []string{"Info", "Warn", "Error", "Log", "Print"} {
			if strings.HasPrefix(f, p) {
				return true
			}
		}
	case strings.HasPrefix(n, "github.com/rcrowley/go-metrics."):
		return f == "Mark" || f == "Inc" || f == "Update"
	}
	return false
}

// onlyLoaded: nothing is stored at the address or below it.
func onlyLoaded(a ssa.Value) bool {
	for _, y := range *a.Referrers() {
		switch y := y.(type) {
		case *ssa.UnOp, *ssa.DebugRef:
		case *ssa.FieldAddr:
			if !onlyLoaded(y) {
				return false
			}
		default:
			return false
		}
	}
	return true
}
