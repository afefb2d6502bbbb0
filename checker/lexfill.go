package main

import (
	"go/types"
	"strings"
)

// Tokens that arrive in several pieces: when the parser receives more bytes
// in the middle of a token, the loop over its characters goes on where it
// was, in the state it was in. (That the received bytes are the next ones of
// the input, and that the unread ones stay in the buffer, is C04.)

// refills checks every read of the input that happens in one operation.
func (x *lexer) refills(name string) (*lexRun, int) {
	r := x.r
	e := r.engine(nil, x.skipModel())
	fn := r.entry("codec/hyperjson", "Parser."+name)
	q := &lexRun{x: x, e: e, fn: fn}
	r0 := e.Eval(r.entry("codec/hyperjson", "NewWithReader"), nil, nil, nil)
	q.p = r0.Results[0]
	q.res = e.Eval(fn, []*Node{q.p}, nil, r0.Out.mem)
	r.used(q.res)
	root := q.tailAddr().leaf
	r.must(root != nil, "the parser is one object")
	root = addrRoot(root)
	own := func(p *LoopPhi) bool { return p.Addr != nil && addrRoot(p.Addr) == root }
	good := T.True
	if k := len(q.res.Results); k > 0 && isErrorType(fn.Signature.Results().At(k-1).Type()) {
		good = nilNode(q.res.Results[k-1])
	}
	n := 0
	seen := map[*Loop]bool{}
	for _, ef := range q.res.Effects {
		if !strings.HasSuffix(ef.Name, ".Read") || len(ef.Args) == 0 || ef.Res == nil || ef.Cond == T.False {
			continue
		}
		if len(ef.Loops) == 0 {
			q.bad("the input is read once only: it may deliver less")
			continue
		}
		B := ef.Loops[len(ef.Loops)-1]
		E := errOf(ef)
		r.must(E != nil, "reading the input may fail")
		more := lessThan(intConst(0), tupleElem(ef.Res, 0))
		ctx := ands(ef.Cond, more, or(nilNode(E), eq(E, r.ioEOF(e))))
		if ctx == T.False || seen[B] {
			continue
		}
		n++
		seen[B] = true
		if x := sameUnder(ctx, B.Stay, T.True); x != nil {
			q.bad("a token ends where a piece of the input ends, if %s", short(x))
			continue
		}
		var tail *LoopPhi
		for _, p := range cellList(B) {
			if p.Addr == q.tailAddr().leaf {
				tail = p
			}
		}
		if tail == nil || tail.Mu == nil {
			q.bad("the loop does not see that the buffer moves")
			continue
		}
		// the loops over the bytes of one piece
		var inner []*Loop
		for _, L := range q.res.Loops {
			if L.parent == B && L.Stay != nil && L.Stay != T.False {
				inner = append(inner, L)
			}
		}
		none := func(n *Node) *Node { // they have no rounds
			for _, L := range inner {
				n = subst(n, L.KX, intConst(0))
				for _, p := range append(append([]*LoopPhi{}, L.Phis...), cellList(L)...) {
					if p.Mu != nil && p.Init != nil {
						n = substMu(n, p.Mu, p.Init)
					}
				}
			}
			return n
		}
		carried, again := "", ""
		to := ""
		say := func(v string, c, a bool) {
			switch {
			case c && a:
			case c:
				carried = v
			case a:
				again = v
			default:
				q.bad("when more bytes arrive, %s changes: %s", v, to)
			}
		}
		var vars []*LoopPhi
		for _, p := range append(append([]*LoopPhi{}, B.Phis...), cellList(B)...) {
			if own(p) || p.Mu == nil || p.Step == nil {
				continue
			}
			vars = append(vars, p)
		}
		// a variable of an inner loop that does not start with one of this loop
		for _, L := range inner {
			for _, p := range append(append([]*LoopPhi{}, L.Phis...), cellList(L)...) {
				if own(p) || p.Init == nil || p.Step == nil || L.Entry == T.False {
					continue
				}
				free := true
				for _, v := range vars {
					if contains(p.Init, v.Mu) {
						free = false
					}
				}
				if free {
					say(p.Name, false, true)
				}
			}
		}
		after := func(n *Node) *Node {
			c := none(ctx)
			if c == T.False {
				c = T.True
			}
			return deepRestrict(none(deepRestrict(n, ctx)), c)
		}
		for _, p := range vars {
			st := after(p.Step)
			if sameUnder(T.True, st, symNode(p.Mu)) == nil {
				say(p.Name, true, sameUnder(T.True, p.Init, symNode(p.Mu)) == nil)
			} else if sameUnder(T.True, st, p.Init) == nil {
				say(p.Name, false, true)
			} else if sameUnder(T.True, sub(st, after(tail.Step)), sub(symNode(p.Mu), leafNode(tail.Mu))) == nil {
				carried = p.Name // a place in the buffer
			} else {
				to = short(st)
				say(p.Name, false, false)
			}
		}
		// the place in the buffer
		loops := append([]*Loop{B}, inner...)
		for _, L := range loops {
			for _, t := range bytesRead(L.Stay) {
				idx := loadIndex(t)
				if L != B {
					idx = initOf(L, idx)
				}
				off := sub(idx, leafNode(tail.Mu))
				bad := false
				for _, p := range cellList(B) {
					if own(p) && p.Mu != nil && contains(off, p.Mu) {
						bad = true
					}
				}
				free := true
				for _, v := range vars {
					if contains(off, v.Mu) {
						free = false
					}
				}
				if L == B && contains(off, L.K) {
					bad = true
				}
				if _, c := constInt64(off); bad || free && !c {
					// a place in the buffer that moves with it
					moved := false
					for _, v := range vars {
						if contains(off, v.Mu) && sameUnder(T.True, sub(after(v.Step), after(tail.Step)), sub(leafNode(v.Mu), leafNode(tail.Mu))) == nil {
							moved = true
						}
					}
					if !moved {
						q.bad("when more bytes arrive, the place of the next character does not move with them: %s", short(idx))
					}
				} else if free && L != B {
					say("the place of the next character", tail == nil, true)
				}
			}
		}
		if carried != "" && again != "" {
			q.bad("when more bytes arrive, %s goes on, but %s starts again", carried, again)
		}
	}
	// the token is where the buffer is at the end
	if _, ok := fn.Signature.Results().At(0).Type().Underlying().(*types.Struct); ok && len(q.res.Results) > 1 {
		if _, val := q.token(); val != nil {
			q.inBuffer(good, val)
		}
	}
	return q, n
}

// inBuffer: the text of a token is what was taken from the buffer, as it is at
// the end.
func (q *lexRun) inBuffer(good, val *Node) {
	st := q.x.nx.ptyp.Underlying().(*types.Struct)
	at := apply1(q.p, func(t *Term) *Node { return fieldAddrTerm(leafNode(t), q.x.nx.ptyp, q.x.nx.fBuf) })
	buf := q.e.loadAt(q.res.Out.mem, at, st.Field(q.x.nx.fBuf).Type())
	tail := q.tailIn(q.res.Out.mem)
	done := T.True // no loop goes on
	for _, L := range q.res.Loops {
		if L.Stay != nil && L.parent == nil && L.Entry != T.False {
			done = and(done, or(not(L.Entry), not(L.Stay)))
		}
	}
	for _, l := range guardedLeaves(val) {
		c := ands(good, l.Cond, done)
		w := leafNode(l.T)
		if c == T.False || l.T.op != "slice" || sameUnder(c, T.True, T.False) == nil {
			continue
		}
		if x := sameUnder(c, sliceData(w), sliceData(deepRestrict(buf, c))); x != nil {
			q.bad("the text of a token is not in the buffer any more: %s", short(w))
			continue
		}
		d := deepRestrict(sub(deepRestrict(tail, c), add(sliceOff(w), lenOf(w))), c)
		for _, w := range guardedLeaves(d) {
			if k, ok := constInt64(leafNode(w.T)); (!ok || k < 0 || k > 1) && and(c, w.Cond) != T.False {
				q.bad("the text of a token is not what was taken from the buffer, by %s", short(leafNode(w.T)))
				break
			}
		}
	}
}

// bytesRead: the bytes of slices that a value depends on.
func bytesRead(n *Node) []*Term {
	var l []*Term
	seen := map[*Term]bool{}
	walkTerms(n, func(t *Term) bool {
		if t.op == "load" && len(t.args) > 0 && t.args[0].leaf != nil && t.args[0].leaf.op == "indexaddr" && t.typ != nil && isByteType(t.typ) && !seen[t] {
			if b := t.args[0].leaf.args[0].leaf; b != nil && b.op != "global" {
				seen[t] = true
				l = append(l, t)
			}
		}
		return true
	})
	return l
}
