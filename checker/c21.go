package main

// C21: two spans with the same id are merged.

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C21", "Value-flow summary of the merge of two spans: the final value of every field, and the order in which the tags of both are written to the resulting map, are compared with the specification.", func(r *Report) {
		r.section(func() { r.merging() })
	})
}

func (r *Report) merging() {
	fn := r.entry("", "mergeSpansInPlace")
	r.must(len(fn.Params) == 2, "mergeSpansInPlace has %d parameters", len(fn.Params))
	e := r.engine(nil)
	res := e.Eval(fn, nil, nil, nil)
	r.used(res)
	w := r.L.fnPos(fn)
	old, nw := res.Params[0], res.Params[1]
	st := r.L.typ("proxy", "Span")
	r.must(st != nil, "type proxy.Span")
	m0, m1 := e.entryMem(res), res.Out.mem
	tT := fieldType(st, "Timings")
	get := func(m *Mem, f string) *Node { return e.loadAt(m, fieldAddrOf(old, st, f), fieldType(st, f)) }
	tim := func(m *Mem, f string) *Node {
		a := fieldAddrOf(fieldAddrOf(old, st, "Timings"), tT, f)
		return e.loadAt(m, a, fieldType(tT, f))
	}
	ofNew := func(f string) *Node {
		x := structField(nw, f)
		if x == nil {
			x = structField(structField(nw, "Timings"), f)
		}
		r.must(x != nil, "field %s of the merged span", f)
		return x
	}
	zero := intConst(0)
	valid := func(x *Node) *Node { return lessThan(zero, x) }
	srv := or(valid(ofNew("SR")), valid(ofNew("SS")))

	// times are not negative
	times := T.True
	for _, f := range []string{"CS", "CR", "SR", "SS"} {
		times = ands(times, lessEq(zero, ofNew(f)), lessEq(zero, tim(m0, f)))
	}

	empty := strConst("")
	for _, f := range []string{"Name", "Service"} {
		n, o := ofNew(f), get(m0, f)
		want := mux(srv, mux(not(eq(n, empty)), n, o), mux(eq(o, empty), n, o))
		r.same("fields", "the "+f+" of the server is preferred, one is better than none", w, get(m1, f), want)
	}
	for _, f := range []string{"Id", "Trace", "Timestamp", "Duration"} {
		r.same("fields", "the "+f+" is that of the first span", w, get(m1, f), get(m0, f))
	}
	for _, f := range []string{"SR", "SS"} {
		n, o := ofNew(f), tim(m0, f)
		r.sameIf("timings", f+" is taken from the span that has it", w, times, tim(m1, f), mux(valid(n), n, o))
	}
	for _, f := range []string{"CS", "CR"} {
		n, o := ofNew(f), tim(m0, f)
		want := mux(srv, mux(valid(o), o, n), mux(valid(n), n, o))
		r.sameIf("timings", f+" is that of the client, or the server's if the client has none", w, times, tim(m1, f), want)
	}

	// the parent
	e2 := r.engine(nil, quiet(fn))
	t := r.treeInfo()
	ar := e2.Eval(t.add, nil, nil, nil)
	r.used(ar)
	ms := effs(ar, "call", func(ef *Effect) bool { return ef.Callee == fn })
	r.must(len(ms) == 1, "AddSpan merges at %d places", len(ms))
	m := ms[0]
	ptr := restrict(m.Args[0], m.Cond)
	r.sameIf("parent", "the merged span is the added one", r.at(m), m.Cond, m.Args[1], ar.Params[1])
	fill := func(m0, m1 *Mem, e *Engine, p, np, cond *Node) (keep, fill bool) {
		a := fieldAddrOf(p, st, "Parent")
		pt := fieldType(st, "Parent")
		o, f := e.loadAt(m0, a, pt), e.loadAt(m1, a, pt)
		return sameUnder(cond, f, o) == nil, sameUnder(cond, f, mux(eq(o, zero), np, o)) == nil
	}
	np := structField(ar.Params[1], "Parent")
	r.must(np != nil, "parent of the added span")
	k1, f1 := fill(e2.entryMem(ar), ar.Out.mem, e2, ptr, np, m.Cond)
	k2, f2 := fill(m0, m1, e, old, ofNew("Parent"), T.True)
	r.ob("parent", "a missing parent is filled in, a known one is kept", (k1 || f1) && (k2 || f2) && (f1 || f2), r.at(m), "AddSpan: kept %v, filled %v; merge: kept %v, filled %v", k1, f1, k2, f2)

	// counted
	n := 0
	for _, ef := range marks(res, "spans.merged") {
		r.ob("counted", "every merge is counted once", ef.Cond == T.True && len(ef.Loops) == 0 && ef.Args[1] == intConst(1), r.at(ef), "if %s", short(ef.Cond))
		n++
	}
	for _, ef := range marks(ar, "spans.merged") {
		r.ob("counted", "every merge is counted once", equiv(ef.Cond, m.Cond) && len(ef.Loops) == 0 && ef.Args[1] == intConst(1), r.at(ef), "if %s", short(ef.Cond))
		n++
	}
	r.ob("counted", "merges are counted", n == 1, w, "at %d places", n)

	// tags
	for _, server := range []bool{true, false} {
		c, want, what := srv, "old new", "tags of the server win over those of the client"
		if !server {
			c, want, what = not(srv), "new old", "tags of the stored span win over those of a client"
		}
		ln := func(m *Node) *Node { return e.mapLen(m0, m, fieldType(st, "Tags")) }
		o, n := get(m0, "Tags"), ofNew("Tags")
		for i := 0; i < 9; i++ {
			// without, with empty, or with stored tags and new tags
			cc, drop, label := c, map[string]bool{}, ""
			for j, m := range []*Node{o, n} {
				empty := eq(ln(m), zero)
				switch []int{i % 3, i / 3}[j] {
				case 0:
					cc = ands(cc, not(nilNode(m)), not(empty))
				case 1:
					cc = ands(cc, not(nilNode(m)), empty)
					drop[[]string{"old", "new"}[j]] = true
					label += []string{", stored tags empty", ", new tags empty"}[j]
				case 2:
					cc = ands(cc, nilNode(m), empty)
					drop[[]string{"old", "new"}[j]] = true
					label += []string{", no stored tags", ", no new tags"}[j]
				}
			}
			keep := func(s string) string {
				var out []string
				for _, x := range strings.Fields(s) {
					if !drop[x] {
						out = append(out, x)
					}
				}
				return strings.Join(out, " ")
			}
			got, why := r.tagLayers(e, res, cc, o, n, get(m1, "Tags"))
			got = keep(got)
			r.ob("tags", what+label, why == "" && got == keep(want), w, "tags are written in the order [%s], must be [%s] %s", got, keep(want), why)
		}
	}

	for _, ef := range effs(res, "", func(ef *Effect) bool {
		return ef.Kind == "store" || ef.Kind == "send" || ef.Kind == "panic" || ef.Kind == "go"
	}) {
		ok := false
		if ef.Kind == "store" {
			ok = true
			for _, g := range guardedLeaves(ef.Args[0]) {
				root := addrRoot(g.T)
				ok = ok && (root.op == "alloc" || leafNode(root) == old)
			}
		}
		r.ob("only", "only the stored span is changed", ok, r.at(ef), "%s %s", ef.Kind, short(firstArg(ef)))
	}
	r.count("fields", 6)
	r.count("timings", 4)
	r.count("tags", 18)
	r.count("parent", 2)
}

// tagLayers finds the order in which the tags of the spans are written into
// the final map, the last one wins.
func (r *Report) tagLayers(e *Engine, res *EvalResult, cond, old, nw, final *Node) (string, string) {
	// mu of a loop variable that stays or is replaced by a new map while nil
	init := map[*Term]*Node{}
	for _, L := range res.Loops {
		for _, p := range loopPhis(L) {
			if p.Mu == nil {
				continue
			}
			if _, ok := p.Mu.typ.Underlying().(*types.Map); !ok {
				continue
			}
			init[p.Mu] = p.Init
			if x := restrictKX(leafNode(p.Mu), L).leaf; x != nil {
				init[x] = p.Init
			}
			// the variable stays the same map, or is filled while nil
			for _, g := range guardedLeaves(p.Step) {
				if g.T == p.Mu {
					continue
				}
				fresh := g.T.op == "alloc"
				if !fresh || !implies(g.Cond, nilNode(leafNode(p.Mu))) {
					delete(init, p.Mu)
				}
			}
		}
	}
	layers := map[string][]string{"old": {"old"}, "new": {"new"}, "nil": nil}
	var why string
	var token func(n, c *Node) string
	tokenT := func(t *Term) string {
		if in, ok := init[t]; ok {
			return token(in, cond)
		}
		switch leafNode(t) {
		case old:
			return "old"
		case nw:
			return "new"
		case T.Nil:
			return "nil"
		}
		if t.op == "alloc" {
			return t.String()
		}
		return "?" + t.String()
	}
	token = func(n, c *Node) string {
		n = restrict(n, c)
		set := map[string]bool{}
		var news []Guarded
		for _, g := range guardedLeaves(n) {
			if implies(c, not(g.Cond)) {
				continue
			}
			if g.T.op == "alloc" {
				news = append(news, g)
				continue
			}
			set[tokenT(g.T)] = true
		}
		// a new map in place of a missing one
		for _, g := range news {
			ok := false
			for _, m := range guardedLeaves(n) {
				if m.T.op != "alloc" && implies(and(c, g.Cond), nilNode(leafNode(m.T))) {
					ok = true
				}
			}
			if !ok {
				set[g.T.String()] = true
			}
		}
		if len(set) != 1 {
			return "?" + short(n)
		}
		for k := range set {
			return k
		}
		return "?"
	}
	mt := fieldType(r.L.typ("proxy", "Span"), "Tags")
	for _, ef := range effs(res, "", func(ef *Effect) bool {
		return ef.Kind == "mapupdate" || ef.Kind == "mapdelete" || ef.Kind == "clear" && ef.Seq >= 0
	}) {
		if implies(cond, not(ef.Cond)) {
			continue
		}
		if ef.Kind != "mapupdate" || len(ef.Loops) != 1 {
			return "", "the tags are changed by " + ef.Kind + " at " + r.at(ef)
		}
		L := ef.Loops[0]
		var nx *Effect
		for _, x := range effs(res, "next", nil) {
			if len(x.Loops) == 1 && x.Loops[0] == L {
				if nx != nil {
					return "", "two maps are walked at once"
				}
				nx = x
			}
		}
		if nx == nil {
			return "", "a tag is set outside of a loop over tags at " + r.at(ef)
		}
		src := token(nx.Args[0], and(cond, L.Entry))
		dst := token(ef.Args[0], and(cond, ef.Cond))
		if strings.HasPrefix(src, "?") || strings.HasPrefix(dst, "?") {
			return "", "tags are copied from " + src + " to " + dst
		}
		// the loop may be skipped if there is nothing to copy
		if sk := and(cond, not(L.Entry)); sk != T.False {
			none := or(nilNode(nx.Args[0]), eq(e.mapLen(e.entryMem(res), nx.Args[0], mt), intConst(0)))
			if !implies(sk, none) && !equiv(and(cond, L.Entry), T.False) {
				return "", "tags are copied only if " + short(L.Entry)
			}
		}
		if len(L.Exits) != 1 || !equiv(L.Exits[0].Cond, not(nx.Res)) {
			return "", "the copy at " + r.at(ef) + " ends early"
		}
		if ef.Args[1] != nx.Args[1] || ef.Args[2] != nx.Args[2] {
			return "", "the tag " + short(ef.Args[1]) + " is set to " + short(ef.Args[2])
		}
		in := and(L.Entry, nx.Res)
		under := and(cond, in)
		switch {
		case equiv(and(cond, ef.Cond), under):
			layers[dst] = append(append([]string{}, layers[dst]...), layers[src]...)
		default:
			// kept if it is there already, in the destination or in one that
			// is written later
			kept := ""
			for _, lk := range effs(res, "lookup", func(x *Effect) bool { return len(x.Loops) == 1 && x.Loops[0] == L && x.Args[1] == nx.Args[1] }) {
				_, has := e.mapGet(lk.Mem, lk.Args[0], lk.Instr.(*ssa.Lookup).X.Type(), nx.Args[1])
				if equiv(and(cond, ef.Cond), and(under, not(has))) {
					kept = token(lk.Args[0], and(cond, lk.Cond))
				}
			}
			if kept == "" || strings.HasPrefix(kept, "?") {
				return "", "a tag is set only if " + short(ef.Cond)
			}
			if kept == dst {
				layers[dst] = append(append([]string{}, layers[src]...), layers[dst]...)
				break
			}
			if len(layers[kept]) != 1 || len(layers[src]) != 1 {
				return "", "a tag is set only if " + short(ef.Cond)
			}
			layers[dst] = append(append([]string{}, layers[dst]...), layers[src][0]+"~"+layers[kept][0])
		}
	}
	fin := token(final, cond)
	if strings.HasPrefix(fin, "?") {
		return "", "the tags become " + fin
	}
	// x~y: those of x that are not in y, which must be there too
	ls := layers[fin]
	for i := 0; i < len(ls); i++ {
		x, y, ok := strings.Cut(ls[i], "~")
		if !ok {
			continue
		}
		rest := append(append([]string{}, ls[:i]...), ls[i+1:]...)
		at := -1
		for j, l := range rest {
			if l == y {
				at = j
				break
			}
		}
		if at < 0 {
			return strings.Join(ls, " "), ""
		}
		ls = append(append(append([]string{}, rest[:at]...), x), rest[at:]...)
		i = -1
	}
	// the last one wins
	var out []string
	for i, l := range ls {
		later := false
		for _, x := range ls[i+1:] {
			later = later || x == l
		}
		if !later {
			out = append(out, l)
		}
	}
	return strings.Join(out, " "), why
}
