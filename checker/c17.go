package main

// C17: the stages of the proxy are connected; C24: finished traces are
// forwarded to all outputs.

import (
	"fmt"
	"go/types"
	"reflect"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C17", "Value-flow of the start-up code: channels, goroutines, conditions and the order of start are compared with the stages of the proxy in both configurations.", func(r *Report) {
		r.section(func() { r.wiring().check() })
	})
	register("C24", "Value-flow of the goroutine that takes finished traces: the loop over the spans, the condition under which a span is kept, and the sends to the outputs.", func(r *Report) {
		r.section(func() { r.wiring().forwarding() })
	})
}

// start is one start of a function in a goroutine, directly or by a closure.
type start struct {
	ef   *Effect // go statement or the call inside of the goroutine
	args []*Node
	cond *Node
	gor  *Effect // the go statement
}

func starts(res *EvalResult, fn *ssa.Function) []start {
	var l []start
	for _, ef := range res.Effects {
		if fn != nil && ef.Kind == "call" && ef.Callee == fn {
			l = append(l, start{ef, ef.Args, ef.Cond, ef.Gor})
		}
	}
	return l
}

type wiring struct {
	r    *Report
	s    *serving
	e    *Engine
	main *EvalResult

	correct, send, consume, newSender, sink, read *ssa.Function

	http, proc, sinkCh, bufCh *Node
	buffer                    *Node
	kafka                     *Node // condition
	forward                   *Effect
}

func (r *Report) wiring() *wiring {
	w := &wiring{r: r}
	w.correct = r.entry("", "ErrorCorrectSpans")
	w.send = r.entry("balance", "Sender.Send")
	w.consume = r.entry("balance", "Consume")
	w.newSender = r.entry("balance", "NewSender")
	w.sink = r.entry("datadog", "Sink")
	w.read = r.entry("", "SpansBuffer.ReadFrom")
	w.s = r.serving(r.mainOpaque())
	w.main, w.e = w.s.main, w.s.main.E
	return w
}

// chans resolves a channel value to the channels it may be.
func (w *wiring) chans(n *Node, mem *Mem) []*Node {
	var l []*Node
	for _, g := range guardedLeaves(n) {
		l = append(l, leafNode(g.T))
	}
	return l
}

// listed: the elements of a list that was made by appends or as a literal.
func (w *wiring) listed(n *Node, mem *Mem, et types.Type) ([]*Node, bool) {
	t := n.leaf
	if t == nil {
		return nil, false
	}
	switch t.op {
	case "nil":
		return nil, true
	case "append":
		l, ok := w.listed(t.args[0], mem, et)
		return append(l, t.args[1:]...), ok
	case "appends":
		l, ok := w.listed(t.args[0], mem, et)
		m, ok2 := w.listed(t.args[1], mem, et)
		return append(l, m...), ok && ok2
	}
	c, ok := constInt64(lenOf(n))
	if !ok || c > 64 {
		return nil, false
	}
	var l []*Node
	for i := int64(0); i < c; i++ {
		l = append(l, w.e.elemOf(mem, n, intConst(i), et))
	}
	return l, true
}

// targetOf resolves `list[i]` of a list of channels.
func (w *wiring) targetOf(n *Node, mem *Mem) *Node {
	t := n.leaf
	if t == nil || t.op != "load" && t.op != "deref" && len(t.args) != 1 {
		return n
	}
	a := t.args[0].leaf
	if a == nil || a.op != "indexaddr" {
		return n
	}
	i, ok := constInt64(a.args[1])
	d := a.args[0].leaf
	if !ok || d == nil || d.op != "sdata" {
		return n
	}
	l, ok := w.listed(d.args[0], mem, t.typ)
	if !ok || i < 0 || i >= int64(len(l)) {
		return n
	}
	return l[i]
}

func (w *wiring) locate() {
	r := w.r
	// the channel of finished traces
	cs := starts(w.main, w.correct)
	r.must(len(cs) > 0, "the correction of spans is never started")
	for _, c := range cs {
		r.must(len(c.args) == 2, "ErrorCorrectSpans has %d parameters", len(c.args))
		if w.proc == nil {
			w.proc = c.args[1]
		}
	}
	for _, ef := range effs(w.main, "recv", func(ef *Effect) bool { return ef.Args[0] == w.proc }) {
		if w.forward == nil {
			w.forward = ef
		}
	}
	w.http = inputChannel(r, w.s)
}

// opaqueIn: a value depends on a call that is not followed.
func opaqueIn(n *Node) bool {
	found := false
	walkTerms(n, func(t *Term) bool {
		found = found || strings.HasPrefix(t.aux, "ext:")
		return !found
	})
	return found
}

// agent: the Datadog output talks to the agent that was configured.
func (w *wiring) agent(sk *start) {
	r := w.r
	wh := r.at(sk.ef)
	var to func(n *Node, res *EvalResult, env map[*Node]*Node, depth int) (host, port *Node)
	to = func(n *Node, res *EvalResult, env map[*Node]*Node, depth int) (host, port *Node) {
		for _, ef := range effs(res, "call", nil) {
			if ef.Res == nil || stripIface(ef.Res) != stripIface(n) && ef.Res != n {
				continue
			}
			val := func(a *Node) *Node {
				for k, v := range env {
					if k.leaf != nil {
						a = subst(a, k.leaf, v)
					}
				}
				return a
			}
			if named("tracer.NewTransport")(ef) && len(ef.Args) == 2 {
				return val(ef.Args[0]), val(ef.Args[1])
			}
			if ef.Callee == nil || depth > 3 || len(ef.Callee.Blocks) == 0 || ef.Callee.Pkg == nil || !r.L.isRepo(ef.Callee.Pkg.Pkg) {
				continue
			}
			sub := r.engine(nil).Eval(ef.Callee, nil, nil, nil)
			r.used(sub)
			if len(sub.Results) != 1 {
				continue
			}
			in := map[*Node]*Node{}
			for i, p := range sub.Params {
				if i < len(ef.Args) {
					in[p] = val(ef.Args[i])
				}
			}
			return to(sub.Results[0], sub, in, depth+1)
		}
		return nil, nil
	}
	host, port := to(sk.args[0], w.main, nil, 0)
	if host == nil {
		return // another way to make a transport
	}
	flags := func(n *Node) map[string]bool {
		m := map[string]bool{}
		walkTerms(n, func(t *Term) bool {
			if v, ok := t.obj.(*types.Var); ok && t.op == "fieldaddr" && len(t.args) > 0 && t.args[0].leaf != nil {
				if p, ok := t.args[0].leaf.typ.(*types.Pointer); ok {
					if st, ok := p.Elem().Underlying().(*types.Struct); ok {
						for i := 0; i < st.NumFields(); i++ {
							if st.Field(i) == v {
								if l := reflect.StructTag(st.Tag(i)).Get("long"); l != "" {
									m[l] = true
								}
							}
						}
					}
				}
			}
			return true
		})
		return m
	}
	h, p := flags(host), flags(port)
	if opaqueIn(host) || opaqueIn(port) {
		return // formatted in a way that is not followed
	}
	r.ob("outputs", "the Datadog output talks to the host that was given", h["trace-host"] && !h["trace-port"], wh, "host %s", short(host))
	r.ob("outputs", "the Datadog output talks to the port that was given", p["trace-port"] && !p["trace-host"], wh, "port %s", short(port))
}

// version: the protocol that is spoken knows consumer groups (0.10.2).
func (w *wiring) version(co start) {
	r := w.r
	n := 0
	for _, fn := range r.L.Fns {
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				s, ok := ins.(*ssa.Store)
				if !ok {
					continue
				}
				fa, ok := s.Addr.(*ssa.FieldAddr)
				if !ok || fieldName(fa) != "Version" || !strings.HasSuffix(derefType(fa.X.Type()).String(), "Shopify/sarama.Config") {
					continue
				}
				n++
				old := false
				if u, ok := s.Val.(*ssa.UnOp); ok {
					if g, ok := u.X.(*ssa.Global); ok {
						var v [4]int
						c, _ := fmt.Sscanf(g.Name(), "V%d_%d_%d_%d", &v[0], &v[1], &v[2], &v[3])
						old = c == 4 && v[0] == 0 && (v[1] < 10 || v[1] == 10 && v[2] < 2) || g.Name() == "MinVersion"
					}
				}
				r.ob("modes", "the version of the Kafka protocol knows consumer groups", !old, r.L.pos(s), "%s", s.Val)
			}
		}
	}
	r.ob("modes", "the version of the Kafka protocol is set: the oldest one knows no consumer groups", n > 0, r.at(co.ef), "")
}

func (w *wiring) check() {
	r := w.r
	w.locate()
	e, main := w.e, w.main
	once := func(rule, what string, l []start, cond *Node) *start {
		wh := r.L.fnPos(main.Fn)
		if len(l) > 0 {
			wh = r.at(l[0].ef)
		}
		if !r.ob(rule, what+" is started at one place", len(l) == 1, wh, "%d places", len(l)) {
			return nil
		}
		s := &l[0]
		r.ob(rule, what+" runs in its own goroutine, before the server is started", s.gor != nil && len(s.ef.Loops) == 0 && s.gor.Seq < w.s.serve.Seq && !s.ef.Defer, wh, "")
		if cond != nil {
			r.iff(rule, what+" is started", wh, s.cond, cond)
		}
		return s
	}
	r.ob("server", "the server is started in every configuration", w.s.serve.Cond == T.True && len(w.s.serve.Loops) == 0, r.at(w.s.serve), "if %s", short(w.s.serve.Cond))

	// outputs
	sk := once("outputs", "the Datadog output", starts(main, w.sink), T.True)
	bf := once("outputs", "the buffer of recent spans", starts(main, w.read), T.True)
	if sk == nil || bf == nil {
		return
	}
	w.sinkCh, w.bufCh, w.buffer = sk.args[1], bf.args[1], bf.args[0]
	w.agent(sk)

	// the buffer is the one that the admin interface shows
	shown := false
	toSlice := r.entry("", "SpansBuffer.ToSlice")
	for _, ef := range effs(main, "call", named("admin.WithGenericValue")) {
		path, _ := constString(ef.Args[0])
		f := stripIface(ef.Args[1]).leaf
		if path == "/spans" && f != nil && f.op == "closure" {
			fn := f.obj.(*ssa.Function)
			ok := strings.HasPrefix(fn.Name(), "ToSlice") && f.args[0] == w.buffer
			if !ok {
				sub, err := e.closureEval(stripIface(ef.Args[1]), nil, ef.Mem)
				if err == nil {
					for _, c := range effs(sub, "call", func(c *Effect) bool { return c.Callee == toSlice }) {
						ok = ok || c.Args[0] == w.buffer && c.Cond == T.True && len(sub.Results) == 1 && stripIface(sub.Results[0]) == c.Res
					}
				}
			}
			shown = ok
			r.ob("outputs", "the admin interface shows the buffer of recent spans", ok, r.at(ef), "%s", short(ef.Args[1]))
		}
	}
	r.ob("outputs", "recent spans are shown at /spans", shown, r.at(w.s.serve), "")

	// the forwarding goroutine
	rc := effs(main, "recv", func(ef *Effect) bool { return ef.Args[0] == w.proc })
	r.ob("forward", "finished traces are received at one place", len(rc) == 1, r.at(bf.ef), "%d places", len(rc))
	if len(rc) != 1 {
		return
	}
	g := rc[0].Gor
	r.ob("forward", "finished traces are received by a goroutine of their own", g != nil && g.Cond == T.True && len(g.Loops) == 0 && g.Seq < w.s.serve.Seq, r.at(rc[0]), "")

	// modes
	cons := starts(main, w.consume)
	r.must(len(cons) == 1, "kafka is consumed at %d places", len(cons))
	co := cons[0]
	w.kafka = co.cond
	at := topAtom(w.kafka)
	addr := false
	if at != nil {
		walkTerms(atomNode(at), func(t *Term) bool {
			if t.op == "fieldaddr" {
				if v, ok := t.obj.(*types.Var); ok && v.Name() == "Addresses" {
					addr = true
				}
			}
			return true
		})
	}
	okK := addr && at.op == "eq0" && w.kafka == not(atomNode(at)) && at.args[0].leaf != nil && at.args[0].leaf.op == "len"
	r.ob("modes", "kafka is used exactly if brokers are configured", okK, r.at(co.ef), "if %s", short(w.kafka))
	snd := once("modes", "the kafka sender", starts(main, w.send), w.kafka)
	if snd == nil {
		return
	}
	r.ob("modes", "consuming does not start in a loop", len(co.ef.Loops) == 0 && co.gor == nil, r.at(co.ef), "")
	r.same("modes", "the kafka sender gets the spans of the server", r.at(snd.ef), snd.args[1], w.http)
	ns0 := starts(main, w.newSender)
	r.must(len(ns0) == 1, "kafka senders are made at %d places", len(ns0))
	r.iff("modes", "the kafka sender is made", r.at(ns0[0].ef), ns0[0].cond, w.kafka)
	r.ob("modes", "the spans are sent by the kafka sender", snd.args[0] == tupleElem(ns0[0].ef.Res, 0), r.at(snd.ef), "%s", short(snd.args[0]))
	r.ob("modes", "sender and consumer use the same topic", len(ns0[0].args) > 1 && len(co.args) > 1 && ns0[0].args[1] == co.args[1], r.at(co.ef), "%s and %s", short(ns0[0].args[1]), short(co.args[1]))
	grp := co.args[0].leaf
	okG := false
	for _, ef := range effs(main, "call", named("sarama.NewConsumerGroupFromClient")) {
		if x := tupleElem(ef.Res, 0); x != nil && grp != nil && x.leaf == grp {
			okG = ef.Args[1] == ns0[0].args[0]
		}
	}
	// what the modes need is there
	r.stopsIf(main, ns0[0].ef, snd.ef, "the sender")
	for _, ef := range effs(main, "call", func(ef *Effect) bool {
		return ef.Gor == nil && ef.Seq < co.ef.Seq && (named("sarama.NewConsumerGroupFromClient")(ef) || named("kafka.EnsureTopics")(ef))
	}) {
		r.stopsIf(main, ef, co.ef, map[bool]string{true: "the topic", false: "the consumer"}[strings.HasSuffix(ef.Name, "EnsureTopics")])
	}
	r.ob("modes", "sender and consumer use the same brokers", okG, r.at(co.ef), "consumer group %s", short(co.args[0]))

	w.version(co)
	for _, ef := range effs(main, "call", named("kafka.EnsureTopics")) {
		if len(ef.Args) != 2 {
			continue
		}
		st, ok := ef.Instr.(ssa.CallInstruction)
		if !ok {
			continue
		}
		sl, ok := st.Common().Args[1].Type().Underlying().(*types.Slice)
		if !ok {
			continue
		}
		list, known := w.listed(ef.Args[1], ef.Mem, sl.Elem())
		if !known {
			continue
		}
		found, seen := false, 0
		if el, ok := sl.Elem().Underlying().(*types.Struct); ok {
			for _, t := range list {
				for j := 0; j < el.NumFields(); j++ {
					if el.Field(j).Name() == "Name" {
						seen++
						found = found || getField(t, el, j) == co.args[1]
					}
				}
			}
		}
		if seen > 0 || len(list) == 0 {
			r.ob("modes", "the topic that is used is the one that is made sure to exist", found, r.at(ef), "")
		}
	}

	// the callback
	sp := leafNode(mk("sym", "$span", nil, r.L.typ("proxy", "Span")))
	sub, err := e.closureEval(co.args[2], []*Node{sp}, co.ef.Mem)
	r.must(err == nil, "callback of the consumer: %v", err)
	r.used(sub)
	var kin *Node
	ns := 0
	for _, ef := range effs(sub, "", func(ef *Effect) bool { return ef.Kind == "send" || ef.Kind == "select" }) {
		ns++
		if !r.ob("modes", "consumed spans are handed over by plain sends", ef.Kind == "send" && len(ef.Args) == 2, r.at(ef), "%s", ef.Kind) {
			continue
		}
		v := ef.Args[1]
		r.ob("modes", "every consumed span is handed over once, and waits", ef.Kind == "send" && ef.Name != "select" && ef.Name != "select-default" && ef.Cond == T.True && len(ef.Loops) == 0 && ef.Gor == nil && (v == sp || copyOfSpan(v, sp)), r.at(ef), "%s of %s if %s", ef.Name, short(v), short(ef.Cond))
		kin = ef.Args[0]
	}
	r.ob("modes", "consumed spans are handed over at one place", ns == 1, r.at(co.ef), "%d places", ns)
	if kin == nil {
		return
	}

	// the correction stage
	all := T.False
	for _, c := range starts(main, w.correct) {
		wh := r.at(c.ef)
		r.ob("correct", "one correction stage runs", and(all, c.cond) == T.False && len(c.ef.Loops) == 0, wh, "")
		all = or(all, c.cond)
		r.ob("correct", "the correction runs in its own goroutine, before the server is started", c.gor != nil && c.gor.Seq < w.s.serve.Seq, wh, "")
		r.sameIf("correct", "without kafka the spans of the server are corrected", wh, and(c.cond, not(w.kafka)), c.args[0], w.http)
		r.sameIf("correct", "with kafka the consumed spans are corrected", wh, and(c.cond, w.kafka), c.args[0], kin)
		r.same("correct", "corrected traces are forwarded", wh, c.args[1], w.proc)
	}
	r.iff("correct", "a correction stage runs", r.L.fnPos(main.Fn), all, T.True)

	// distinct channels
	names := []string{"spans of the server", "consumed spans", "finished traces", "traces for Datadog", "traces for the buffer"}
	cl := []*Node{w.http, kin, w.proc, w.sinkCh, w.bufCh}
	made := map[*Node]bool{}
	for _, ef := range effs(main, "makechan", nil) {
		made[ef.Res] = len(ef.Loops) == 0
	}
	for i, c := range cl {
		ok := made[c]
		for j, d := range cl {
			ok = ok && (i == j || c != d)
		}
		r.ob("channels", "the "+names[i]+" have a channel of their own", ok, r.L.fnPos(main.Fn), "%s", short(c))
	}
	for _, ef := range effs(main, "close", nil) {
		for i, c := range cl {
			if ef.Args[0] == c {
				r.ob("channels", "the channel of the "+names[i]+" stays open", ef.Seq > w.s.serve.Seq || ef.Defer && ef.Gor == nil, r.at(ef), "closed")
			}
		}
	}
	// no one else takes from the channels
	for _, ef := range effs(main, "recv", nil) {
		for i, c := range cl {
			if ef.Args[0] != c || ef.Gor == nil {
				if ef.Args[0] == c {
					r.ob("channels", "no one else takes the "+names[i], false, r.at(ef), "received by the start-up code")
				}
				continue
			}
			var own bool
			for _, fn := range []*ssa.Function{w.correct, w.send, w.sink, w.read} {
				for _, s := range starts(main, fn) {
					own = own || s.gor == ef.Gor
				}
			}
			r.ob("channels", "no one else takes the "+names[i], own || ef == rc[0], r.at(ef), "")
		}
	}
	for _, ef := range main.Effects {
		if ef.Kind != "send" {
			continue
		}
		for i, c := range cl[:2] {
			if ef.Args[0] == c {
				r.ob("channels", "no one else sends "+names[i], false, r.at(ef), "")
			}
		}
	}

	// the handlers of the server
	for _, ep := range w.s.endpoints {
		if ep.method != "POST" {
			continue
		}
		h, err := e.closureEval(ep.handler, nil, ep.ef.Mem)
		r.must(err == nil, "handler of %s: %v", ep.path, err)
		n := 0
		for _, ef := range effs(h, "send", nil) {
			n++
			r.same("channels", "the spans of "+ep.path+" are taken by the next stage", r.at(ef), ef.Args[0], w.http)
		}
		r.ob("channels", "the spans of "+ep.path+" are sent", n > 0, r.at(ep.ef), "")
	}

	// consuming ends with the server
	for _, ef := range main.Effects {
		if ef.Kind != "call" || ef == co.ef {
			continue
		}
		for i, a := range ef.Args {
			if i == 0 && a == co.ef.Res && a != T.Nil && ef.Name == "dynamic" {
				r.ob("server", "kafka is consumed as long as the server runs", ef.Defer || ef.Seq > w.s.serve.Seq, r.at(ef), "stopped before")
			}
		}
	}
	r.count("outputs", 7)
	r.count("modes", 10)
	r.count("correct", 5)
	r.count("channels", 11)
}

// copyOfSpan: a struct built from all fields of v.
func copyOfSpan(n, v *Node) bool {
	if n == v {
		return true
	}
	t := n.leaf
	if t == nil || t.op != "struct" {
		return false
	}
	st, ok := t.typ.Underlying().(*types.Struct)
	if !ok {
		return false
	}
	for i := range t.args {
		f := t.args[i].leaf
		if f == nil {
			return false
		}
		if f.op == "field" && f.args[0] == v && f.obj == types.Object(st.Field(i)) {
			continue
		}
		return false
	}
	return true
}

func (w *wiring) forwarding() {
	r := w.r
	w.locate()
	e, main := w.e, w.main
	sk, bf := starts(main, w.sink), starts(main, w.read)
	r.must(len(sk) == 1 && len(bf) == 1, "outputs")
	w.sinkCh, w.bufCh = sk[0].args[1], bf[0].args[1]
	rc := effs(main, "recv", func(ef *Effect) bool { return ef.Args[0] == w.proc })
	r.must(len(rc) == 1 && len(rc[0].Loops) == 1, "finished traces are received at %d places", len(rc))
	R := rc[0]
	L := R.Loops[0]
	wh := r.at(R)
	trace := R.Res
	got := R.Cond
	in := func(ef *Effect) bool { return len(ef.Loops) > 0 && ef.Loops[0] == L && ef.Gor == R.Gor }
	okv := recvOK(R)
	r.ob("receive", "every finished trace is taken", R.Cond == T.True || equiv(R.Cond, L.Entry), wh, "if %s", short(got))
	exits := T.False
	for _, x := range L.Exits {
		exits = or(exits, x.Cond)
	}
	r.iff("receive", "the goroutine ends with the channel only", wh, exits, not(okv))
	st := r.L.typ("proxy", "Span")

	// conversion
	var conv *Effect
	for _, ef := range effs(main, "call", func(ef *Effect) bool { return in(ef) && ef.Name == "dynamic" }) {
		r.ob("convert", "spans are converted at one place", conv == nil, r.at(ef), "")
		conv = ef
	}
	r.must(conv != nil && len(conv.Loops) == 2, "the spans of a trace are not converted")
	C := conv.Loops[1]
	wc := r.at(conv)
	K := leafNode(C.K)
	elem := e.elemOf(R.Mem, trace, K, st)
	r.ob("convert", "every span of the trace is looked at, in order", ranges(C, lenOf(trace)) && equiv(and(okv, C.Entry), okv), wc, "%d exits", len(C.Exits))
	r.iff("convert", "every span is converted", wc, and(okv, conv.Cond), and(okv, inLoop(C, lenOf(trace))))
	r.ob("convert", "the converter of the embedding program is used", conv.Args[0] == main.Params[1], wc, "%s", short(conv.Args[0]))
	r.same("convert", "the span itself is converted", wc, conv.Args[1], elem)
	res, err := tupleElem(conv.Res, 0), tupleElem(conv.Res, 1)
	r.must(res != nil && err != nil, "result of the converter %s", short(conv.Res))

	// the sends
	want := map[*Node]string{w.sinkCh: "Datadog", w.bufCh: "the buffer of recent spans"}
	seen := map[*Node]*Node{}
	var value *Node
	for _, ef := range effs(main, "send", in) {
		ws := r.at(ef)
		var tgt []*Node
		if len(ef.Loops) == 1 {
			tgt = []*Node{w.targetOf(ef.Args[0], ef.Mem)}
		} else if len(ef.Loops) == 2 {
			// list[K] for all K
			D := ef.Loops[1]
			if a := ef.Args[0].leaf; a != nil && len(a.args) == 1 && a.args[0].leaf != nil && a.args[0].leaf.op == "indexaddr" {
				ia := a.args[0].leaf
				if d := ia.args[0].leaf; d != nil && d.op == "sdata" && ia.args[1] == leafNode(D.K) && ranges(D, lenOf(d.args[0])) {
					tgt, _ = w.listed(d.args[0], ef.Mem, a.typ)
				}
			}
		}
		r.ob("send", "the receivers of a trace are known", len(tgt) > 0, ws, "sends to %s", short(ef.Args[0]))
		for _, t := range tgt {
			n, ok := want[t]
			if !r.ob("send", "a trace is sent to the outputs only", ok, ws, "sends to %s", short(t)) {
				continue
			}
			r.ob("send", "a trace waits for "+n, ef.Name != "select-default" && !strings.HasPrefix(ef.Name, "select"), ws, "%s", ef.Name)
			c := ef.Cond
			if len(ef.Loops) == 2 {
				c = and(ef.Loops[1].Entry, okv)
			}
			if seen[t] == nil {
				seen[t] = T.False
			}
			r.ob("send", "a trace is sent once to "+n, and(seen[t], c) == T.False, ws, "")
			seen[t] = or(seen[t], c)
			if value == nil {
				value = ef.Args[1]
			}
			r.ob("send", "all outputs get the same spans", ef.Args[1] == value || sameUnder(ef.Cond, ef.Args[1], value) == nil, ws, "%s", short(ef.Args[1]))
		}
		// after all spans were converted
		r.ob("send", "a trace is sent when all spans are converted", ef.Seq > conv.Seq && (len(ef.Loops) < 2 || ef.Loops[1] != C), ws, "")
	}
	for t, n := range want {
		if seen[t] == nil {
			r.ob("send", "every trace is sent to "+n, false, wh, "no send")
			continue
		}
		r.iff("send", "every trace is sent to "+n, wh, and(okv, seen[t]), okv)
	}
	r.must(value != nil, "traces are not sent")

	// the sent spans
	zero := intConst(0)
	fld := func(f string) *Node { return fieldVal(res, st, f) }
	good := ands(nilNode(err), not(eq(fld("Id"), zero)), not(eq(fld("Trace"), zero)))
	b := r.filtered(main, value, C, trace)
	if b.why != "" {
		r.ob("spans", "the converted spans are sent in their order", false, wh, "%s", b.why)
	} else {
		r.iff("spans", "a span is kept if it was converted and has ids", r.at(b.ef), and(okv, b.cond), ands(okv, inLoop(C, lenOf(trace)), good))
		r.ob("spans", "the sent spans have memory of their own", ownMemory(b.init, trace, L), wh, "the list starts as %s", short(b.init))
		r.ob("spans", "the converted span is sent", b.elem == res || copyOfSpan(b.elem, res), r.at(b.ef), "%s", short(b.elem))
		r.ob("spans", "a span is read before its place is used again", b.ef.Seq > conv.Seq, r.at(b.ef), "")
	}
	for _, ef := range effs(main, "store", in) {
		ok := true
		for _, g := range guardedLeaves(ef.Args[0]) {
			ok = ok && addrRoot(g.T).op == "alloc"
		}
		if b.ef == ef {
			ok = true
		}
		r.ob("spans", "nothing else is changed", ok, r.at(ef), "stores to %s", short(ef.Args[0]))
	}
	r.count("receive", 2)
	r.count("convert", 5)
	r.count("send", 10)
	r.count("spans", 4)
}

// recvOK: the condition that a receive delivered a value.
func recvOK(ef *Effect) *Node {
	if t := ef.Res.leaf; t != nil && t.op == "recvval" {
		return symNode(mk("recvok", "", nil, types.Typ[types.Bool], t.args[0]))
	}
	return T.True
}

// fieldVal: field f of a struct value.
func fieldVal(v *Node, st types.Type, f string) *Node {
	if x := structField(v, f); x != nil {
		return x
	}
	return nil
}

// ownMemory: the list uses no memory, new memory of this iteration of L, or
// the memory of src from its start.
func ownMemory(v, src *Node, L *Loop) bool {
	for _, g := range guardedLeaves(v) {
		n := leafNode(g.T)
		if isNil(g.T) == T.True || capOf(n) == intConst(0) {
			continue
		}
		d := sliceData(n)
		if d == sliceData(src) && sliceOff(n) == sliceOff(src) {
			continue
		}
		if d.leaf == nil || d.leaf.op != "alloc" || !varies(d.leaf, L) {
			return false
		}
	}
	return true
}

// filtered: v is a list that starts empty, possibly in the memory of the
// list it is made from, and grows by at most one element in each iteration of C.
func (r *Report) filtered(res *EvalResult, v *Node, C *Loop, src *Node) *built {
	x := &built{}
	for _, p := range loopPhis(C) {
		if p.Mu == nil || restrictKX(leafNode(p.Mu), C) != v && leafNode(p.Mu) != v {
			continue
		}
		x.init = p.Init
		if lenOf(p.Init) != intConst(0) {
			x.why = "the list starts as " + short(p.Init)
			return x
		}
		for _, g := range guardedLeaves(restrict(p.Step, C.Stay)) {
			switch {
			case g.T == p.Mu:
			case g.T.op == "append" && len(g.T.args) == 2 && g.T.args[0] == leafNode(p.Mu) && x.elem == nil:
				x.elem = g.T.args[1]
				x.cond = and(C.Stay, g.Cond)
			default:
				x.why = "the list becomes " + short(leafNode(g.T))
				return x
			}
		}
		if x.elem == nil {
			x.why = "nothing is added"
			return x
		}
		for _, ef := range effs(res, "append", nil) {
			if len(ef.Loops) > 0 && ef.Loops[len(ef.Loops)-1] == C {
				x.ef = ef
			}
		}
		if x.ef == nil {
			x.why = "no append"
		}
		return x
	}
	x.why = "the sent list is " + short(v)
	return x
}

// stopsIf: if the call fails the program ends, or the start-up returns, before
// the step.
func (r *Report) stopsIf(main *EvalResult, call, step *Effect, what string) {
	E := errOf(call)
	if E == nil {
		// the operation ends the program itself
		return
	}
	stop := T.False
	for _, ef := range main.Effects {
		if ef.Gor != nil || ef.Seq < call.Seq || ef.Seq > step.Seq {
			continue
		}
		switch {
		case ef.Kind == "call" && terminates(ef.Name):
			c := ef.Cond
			if strings.HasSuffix(ef.Name, "FatalOnError") {
				if len(ef.Args) == 0 {
					continue
				}
				c = and(c, not(nilNode(ef.Args[0])))
			}
			stop = or(stop, c)
		case ef.Kind == "panic" || ef.Kind == "return" && ef.Ctx != nil && ef.Ctx.parent == nil:
			stop = or(stop, ef.Cond)
		}
	}
	lost := ands(call.Cond, not(nilNode(E)), step.Cond, not(stop))
	r.ob("modes", "the program does not start without "+what, lost == T.False, r.at(call), "it does if %s", short(lost))
}
