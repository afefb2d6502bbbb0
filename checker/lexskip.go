package main

import (
	"fmt"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// skipModel: a call of a function that is being evaluated already takes some
// bytes of the input, and says whether it succeeded. (What it takes is what
// the outer call takes: the check is an induction over the nesting.)
func (x *lexer) skipModel() hook {
	byName := map[string]*ssa.Function{}
	for _, fn := range x.r.L.Fns {
		if fn.Pkg != nil && fn.Pkg == x.r.L.pkg("codec/hyperjson") {
			byName[fn.String()] = fn
		}
	}
	return func(e *Engine, fr *frame, name string, args []*Node, st *State, ins ssa.Instruction) (*Node, bool) {
		fn := byName[name]
		if fn == nil || !e.onStack(fr.ctx, fn, nil) {
			return nil, false
		}
		v, ok := ins.(ssa.Value)
		if !ok {
			return nil, false
		}
		for i, p := range fn.Params {
			pt, ok := p.Type().Underlying().(*types.Pointer)
			if !ok || !types.Identical(pt.Elem().Underlying(), x.nx.ptyp.Underlying()) {
				continue
			}
			taken := leafNode(fr.sym(ins, "taken", intType))
			res := fr.results(ins, "call:"+fn.Name(), v.Type())
			fr.effect(&Effect{Kind: "call", Name: name, Callee: fn, FV: taken, Args: args, Res: res, Instr: ins}, st)
			a := apply1(args[i], func(t *Term) *Node { return fieldAddrTerm(leafNode(t), x.nx.ptyp, x.nx.fTail) })
			e.storeAt(st.mem, a, taken, intType, T.True)
			return res, true
		}
		return nil, false
	}
}

// maxNesting: values that are nested no deeper than this are not refused.
const maxNesting = 64

// numbers: the parameters that say where in the nesting a function is.
func (x *lexer) numbers(fn *ssa.Function) (l []int) {
	kind := x.r.L.typ("codec/hyperjson", "Type")
	for i, p := range fn.Params {
		if b, ok := p.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsInteger != 0 && (kind == nil || !types.Identical(p.Type(), kind)) {
			l = append(l, i)
		}
	}
	return l
}

// anyDepth: the first call of one of the functions is one with any numbers as
// arguments: it is the call for a value at any place in the nesting.
func (x *lexer) anyDepth(inner map[*ssa.Function]bool, depths *[]*Node) hook {
	byName := map[string]*ssa.Function{}
	for fn := range inner {
		byName[fn.String()] = fn
	}
	return func(e *Engine, fr *frame, name string, args []*Node, st *State, ins ssa.Instruction) (*Node, bool) {
		fn := byName[name]
		if fn == nil || e.onStack(fr.ctx, fn, nil) {
			return nil, false
		}
		for _, i := range x.numbers(fn) {
			if i < len(args) {
				args[i] = leafNode(fr.sym(ins, fmt.Sprintf("depth%d", i), intType))
				*depths = append(*depths, args[i])
			}
		}
		return nil, false
	}
}

// Skipping an array or an object: the loop over the elements. In each round
// it takes white space, and then either the end, or a key and a value. The
// value is skipped by the function that is being checked, an inner call.

// within: a place in a loop over elements; the byte after some white space.
type within struct {
	q     *lexRun
	B     *Loop
	ctx   *Node // condition of being in a round
	first *Term
	T0    *Node
	W     *Loop
}

// space finds the loop over white space that starts at the position.
func (q *lexRun) spaceIn(B *Loop, on func(*Node) *Node, start, ctx *Node, what string) *within {
	w := &within{q: q, B: B, ctx: ctx}
	for _, L := range q.res.Loops {
		if !nestedIn(L, B) || L.Stay == nil || L.Stay == T.False || and(ctx, on(L.Entry)) == T.False {
			continue
		}
		l := q.loads(on(L.Stay))
		if len(l) != 1 || !loopUses(L, loadIndex(l[0])) {
			continue
		}
		if sameUnder(ctx, on(initOf(L, loadIndex(l[0]))), start) != nil {
			continue
		}
		if sameUnder(ctx, on(L.Entry), T.True) != nil {
			continue
		}
		old := [4]interface{}{q.S, q.ld, q.cut, q.T0}
		q.S, q.ld = L, l[0]
		ok := true
		for b := int64(0); b < 256; b++ {
			must, may := isSpace(b)
			av := q.avail(loadIndex(q.ld))
			stay := subst(on(L.Stay), q.ld, intConst(b))
			goesOn := sameUnder(and(ctx, av), stay, T.True) == nil
			stops := ands(ctx, stay, av) == T.False || sameUnder(ands(ctx, stay, av), T.True, T.False) == nil
			if must && !goesOn || !may && !stops || !goesOn && !stops {
				ok = false
			}
		}
		if x := sameUnder(ands(ctx, on(L.Stay), q.avail(loadIndex(q.ld))), on(nextOf(L, loadIndex(q.ld))), add(loadIndex(q.ld), intConst(1))); x != nil {
			ok = false
		}
		q.S, q.ld = old[0].(*Loop), old[1].(*Term)
		if !ok {
			continue
		}
		f := atExit(leafNode(l[0]), loopsBelow(L, B))
		if f.leaf == nil || f.leaf.op != "load" {
			continue
		}
		w.W, w.first = L, f.leaf
		w.T0 = loadIndex(w.first)
		return w
	}
	q.bad("%s: white space is not skipped", what)
	return nil
}

// tailOf: the place of the next byte, in a memory.
func (q *lexRun) tailIn(m *Mem) *Node {
	return q.e.loadAt(m, q.tailAddr(), intType)
}

func (q *lexRun) tailAddr() *Node {
	return apply1(q.p, func(t *Term) *Node { return fieldAddrTerm(leafNode(t), q.x.nx.ptyp, q.x.nx.fTail) })
}

// containers: b0 starts an array or an object.
func (q *lexRun) containers(b0 int64) {
	r := q.x.r
	what := "an array"
	end := int64(']')
	if b0 == '{' {
		what, end = "an object", '}'
	}
	first := q.first
	top := func(n *Node) *Node {
		if n == nil {
			return nil
		}
		return q.settle(n, first, b0, nil)
	}
	here := q.avail(q.T0)
	var recs []*Effect
	var B *Loop
	for _, ef := range q.res.Effects {
		if ef.Kind != "call" || ef.Callee == nil || ef.Callee.Pkg != q.fn.Pkg || and(here, top(ef.Cond)) == T.False {
			continue
		}
		if len(ef.Loops) != 1 || B != nil && ef.Loops[0] != B {
			q.bad("the values of %s are not skipped one after the other by one loop", what)
			return
		}
		B = ef.Loops[0]
		recs = append(recs, ef)
	}
	if B == nil {
		q.bad("the values of %s are not skipped", what)
		return
	}
	if x := sameUnder(here, top(B.Entry), T.True); x != nil {
		q.bad("%s is refused, if %s", what, short(x))
		return
	}
	// the position at the start of a round
	var pt *LoopPhi
	for _, p := range cellList(B) {
		if p.Addr != nil && p.Addr == q.tailAddr().leaf && p.Mu != nil {
			pt = p
		}
	}
	if pt == nil {
		q.bad("%s: the parser does not move on in each round", what)
		return
	}
	if x := sameUnder(here, top(pt.Init), add(q.T0, intConst(1))); x != nil {
		q.bad("the first value of %s is not looked for right behind its start", what)
	}
	in := and(here, lessEq(intConst(0), leafNode(pt.Mu)))
	w := q.spaceIn(B, top, leafNode(pt.Mu), in, what)
	if w == nil {
		return
	}
	av := and(in, q.avail(w.T0))
	exit := func(n *Node) *Node { return atExit(n, loopChain(B)) }
	xf := exit(leafNode(w.first)).leaf
	r.must(xf != nil, "the byte at the end is known")
	xT := loadIndex(xf)
	left := ands(here, q.avail(xT))
	known := map[*Node]*Node{}
	top0 := top
	top = func(n *Node) *Node { // where there is a byte after the white space
		m, ok := known[n]
		if !ok && n != nil {
			m = deepRestrict(deepRestrict(top0(n), and(here, q.avail(w.T0))), and(here, q.avail(xT)))
			known[n] = m
		}
		return m
	}
	at := func(n *Node, b int64) *Node { return subst(q.settle(top(n), w.first, b, B), xf, intConst(b)) }
	anyRec := func(b int64) (c *Node) {
		c = T.False
		for _, ef := range recs {
			c = or(c, at(ef.Cond, b))
		}
		return c
	}
	never := func(c, n *Node) bool { return and(c, n) == T.False || sameUnder(c, n, T.False) == nil }
	errors := T.True // none of the inner calls failed
	for _, ef := range recs {
		if E := errOf(ef); E != nil {
			errors = and(errors, nilNode(exit(E)))
		} else {
			q.bad("%s: whether an inner value is in order is not known", what)
			return
		}
	}
	// the input ends
	if !never(and(here, not(q.avail(xT))), top0(q.good)) {
		q.bad("%s that is cut off is accepted", what)
	}
	kindType := r.L.typ("codec/hyperjson", "Type")
	r.must(kindType != nil, "type hyperjson.Type")
	value := func(rec []*Effect, ctx *Node, sub func(*Node) *Node, pos, xpos *Node, b int64) {
		k := kindOf(b)
		valid := k != "" && b != '}' && b != ']'
		taken := T.False
		for _, ef := range rec {
			c := sub(ef.Cond)
			if never(ctx, c) {
				continue
			}
			taken = or(taken, c)
			for i, a := range ef.Args {
				if i < len(ef.Callee.Params) && types.Identical(ef.Callee.Params[i].Type(), kindType) && valid {
					if x := sameUnder(and(ctx, c), sub(a), r.tokType(k)); x != nil {
						q.bad("%q in %s is skipped as something else than a %s: %s", rune(b), what, k, short(sub(a)))
						return
					}
				}
			}
			if x := sameUnder(and(ctx, c), sub(q.tailIn(ef.Mem)), pos); x != nil {
				q.bad("a value in %s is skipped from another place: %s", what, short(sub(q.tailIn(ef.Mem))))
				return
			}
			if x := sameUnder(ands(ctx, c, nilNode(errOf(ef))), sub(pt.Step), ef.FV); x != nil {
				q.bad("%s does not go on behind the value that was skipped", what)
				return
			}
			if x := sameUnder(ands(ctx, c, nilNode(errOf(ef))), sub(B.Stay), T.True); x != nil && valid {
				q.bad("%s ends after a value", what)
				return
			}
		}
		if valid {
			if x := sameUnder(ctx, taken, T.True); x != nil {
				q.bad("a value that starts with %q is not skipped in %s, if %s", rune(b), what, short(x))
				return
			}
		}
	}
	// refused: a round with this byte that does not go on is an error
	if b0 == '[' {
		for b := int64(0); b < 256 && len(q.probs) == 0; b++ {
			if must, may := isSpace(b); must || may && q.space(b) {
				continue
			}
			sub := func(n *Node) *Node { return at(n, b) }
			if b == end {
				q.endOf(what, av, left, sub, recs, B, xT, never, anyRec(b))
				continue
			}
			value(recs, av, sub, w.T0, xT, b)
			// the loop was left with this byte: an error
			g := sub(q.good)
			if never(and(av, anyRec(b)), T.True) || kindOf(b) == "" {
				if !never(and(left, errors), g) {
					q.bad("%q is accepted in %s", rune(b), what)
				}
			}
			if !never(and(left, not(errors)), g) {
				q.bad("%s is accepted although a value in it is refused", what)
			}
			if kindOf(b) != "" && !never(ands(left, not(sub(exit(B.Stay)))), g) {
				q.bad("%s is accepted without its end", what)
			}
		}
		return
	}
	for b := int64(0); b < 256 && len(q.probs) == 0; b++ {
		if must, may := isSpace(b); must || may && q.space(b) {
			continue
		}
		sub := func(n *Node) *Node { return at(n, b) }
		if b == end {
			q.endOf(what, av, left, sub, recs, B, xT, never, anyRec(b))
			continue
		}
		if b == '"' {
			q.member(w, pt, recs, sub, av, left, xT, value, never)
			continue
		}
		if !never(av, anyRec(b)) || !never(av, sub(B.Stay)) {
			q.bad("%q is taken for a key", rune(b))
			continue
		}
		if !never(left, sub(q.good)) {
			q.bad("%q is accepted in %s", rune(b), what)
		}
	}
}

// endOf: the end of the array or object.
func (q *lexRun) endOf(what string, av, left *Node, sub func(*Node) *Node, recs []*Effect, B *Loop, xT *Node, never func(c, n *Node) bool, rec *Node) {
	if !never(av, rec) {
		q.bad("the end of %s is taken for a value", what)
		return
	}
	if !never(av, sub(B.Stay)) {
		q.bad("%s goes on after its end", what)
		return
	}
	if x := sameUnder(left, sub(q.good), T.True); x != nil {
		q.bad("the end of %s is refused, if %s", what, short(x))
		return
	}
	if x := sameUnder(left, sub(q.tail()), add(xT, intConst(1))); x != nil {
		q.bad("the place after %s is wrong: %s", what, short(sub(q.tail())))
	}
}

// member: a key and its value.
func (q *lexRun) member(w *within, pt *LoopPhi, recs []*Effect, sub func(*Node) *Node, av, left, xT *Node, value func(rec []*Effect, ctx *Node, sub func(*Node) *Node, pos, xpos *Node, b int64), never func(c, n *Node) bool) {
	B, r := w.B, q.x.r
	oldT, oldF, oldS := q.T0, q.first, q.S
	// the key
	q.T0, q.first, q.S = w.T0, w.first, w.W
	s := q.scanIn(stringScan{}, B, av, sub)
	q.T0, q.first, q.S = oldT, oldF, oldS
	if s == nil || len(q.probs) > 0 {
		return
	}
	pos := add(add(w.T0, intConst(1)), s.X)
	exit := func(n *Node) *Node { return atExit(n, loopChain(B)) }
	for _, d := range s.ends {
		if d.state&2 != 0 {
			continue
		}
		on := func(n *Node) *Node {
			n = inState(sub(n), s.L, d.env)
			n = subst(n, s.at, intConst(d.byte))
			if x := exit(leafNode(s.at)); x.leaf != nil {
				n = subst(n, x.leaf, intConst(d.byte))
			}
			return n
		}
		c := ands(av, q.avail(pos), lessEq(intConst(0), s.X))
		alone := true // the inner call looks for the start of the value
		for _, ef := range recs {
			for _, p := range ef.Callee.Params {
				if types.Identical(p.Type(), r.L.typ("codec/hyperjson", "Type")) {
					alone = false
				}
			}
		}
		if alone {
			for _, b := range "0n\"[" {
				value(recs, c, on, add(pos, intConst(1)), nil, int64(b))
			}
			continue
		}
		w2 := q.spaceIn(B, on, add(pos, intConst(1)), c, "behind a key")
		if w2 == nil {
			return
		}
		c2 := and(c, q.avail(w2.T0))
		xf := exit(leafNode(w2.first)).leaf
		if x := deepRestrict(on(leafNode(w2.first)), c2); x.leaf != nil && x.leaf.op == "load" {
			w2.first = x.leaf
		}
		known := map[*Node]*Node{}
		for b := int64(0); b < 256 && len(q.probs) == 0; b++ {
			if must, may := isSpace(b); must || may && q.space(b) {
				continue
			}
			sub2 := func(n *Node) *Node {
				m, ok := known[n]
				if !ok {
					m = deepRestrict(on(n), c2)
					known[n] = m
				}
				n = q.settle(m, w2.first, b, B)
				if xf != nil {
					n = subst(n, xf, intConst(b))
				}
				return n
			}
			value(recs, c2, sub2, w2.T0, nil, b)
		}
	}
	// whatever happens with a key, the object does not end there
	if !never(and(left, not(sub(exit(B.Stay)))), sub(q.good)) {
		q.bad("an object is accepted without its end")
	}
}
