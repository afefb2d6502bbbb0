package main

// C08: the tokens of the parser. The parser is evaluated on bytes that are
// all in memory (C04 decides that any other way to receive them looks the
// same). Every loop over characters is compared with the automaton it has to
// implement: for each of the 256 values of the next byte, and each value of
// the state of the loop, the step is the one of the automaton.

import (
	"fmt"
	"go/types"
	"unicode/utf16"
	"unicode/utf8"

	"golang.org/x/tools/go/ssa"
)

type lexer struct {
	r     *Report
	nx    *nx
	byKey map[string]*lexRun
}

// lexRun is one operation of the parser at an unknown place of the input.
type lexRun struct {
	x     *lexer
	e     *Engine
	fn    *ssa.Function
	res   *EvalResult
	buf   *Node // the input
	data  *Node
	p     *Node
	S     *Loop // the loop over white space
	ld    *Term // byte it looks at
	first *Term // byte at which it stops
	T0    *Node // position of that byte
	good  *Node // success
	cut   *Node // success, at the end of the input also
	when  *Node // assumed of all values
	probs []string
	again map[*Term][]*Loop // loops that look at a byte again
}

func (q *lexRun) bad(format string, args ...interface{}) {
	if len(q.probs) < 4 {
		q.probs = append(q.probs, fmt.Sprintf(format, args...))
	}
}

func (x *lexer) run(fn *ssa.Function) *lexRun { return x.runAt(fn, nil) }

// runAt: calls of these functions are looked at with any numbers as arguments.
func (x *lexer) runAt(fn *ssa.Function, inner map[*ssa.Function]bool) *lexRun {
	r := x.r
	var depths []*Node
	e := r.engine(nil, x.skipModel(), x.anyDepth(inner, &depths))
	q := &lexRun{x: x, e: e, fn: fn}
	mk := r.entry("codec/hyperjson", "NewWithBytes")
	r0 := e.Eval(mk, nil, nil, nil)
	q.buf, q.p = r0.Params[0], r0.Results[0]
	q.data = sliceData(q.buf)
	q.res = e.Eval(fn, []*Node{q.p}, nil, r0.Out.mem)
	r.used(q.res)
	if k := len(q.res.Results); k > 0 && isErrorType(fn.Signature.Results().At(k-1).Type()) {
		q.good = nilNode(q.res.Results[k-1])
	} else {
		q.good = T.True
	}
	q.cut = q.good
	if len(depths) > 0 {
		c := T.True
		for _, d := range depths {
			c = ands(c, lessEq(intConst(0), d), lessEq(d, intConst(maxNesting)))
		}
		q.assume(c)
	}
	// the loop over white space
	for _, L := range q.res.Loops {
		if L.Entry == T.True && L.Stay != T.False && L.Stay != nil {
			l := q.loads(L.Stay)
			if len(l) == 0 {
				continue
			}
			r.must(len(l) == 1 && q.S == nil, "one loop over white space looks at one byte in each round")
			q.S, q.ld = L, l[0]
		}
	}
	r.must(q.S != nil, "%s skips white space with a loop", fn.Name())
	f := atExit(leafNode(q.ld), loopChain(q.S))
	r.must(f.leaf != nil && f.leaf.op == "load", "the byte after the white space is known: %s", short(f))
	q.first = f.leaf
	q.T0 = loadIndex(q.first)
	// everything else is about the case that there is such a byte
	q.cut = q.good
	for _, t := range q.loads(q.good) {
		if loadIndex(t).leaf == nil {
			q.assume(q.avail(q.T0))
			break
		}
	}
	return q
}

// assume simplifies the result.
func (q *lexRun) assume(c *Node) {
	if q.when != nil {
		c = and(q.when, c)
	}
	q.when = c
	on := func(n **Node) {
		if *n != nil {
			*n = deepRestrict(*n, c)
		}
	}
	on(&q.good)
	for _, L := range q.res.Loops {
		if L == q.S {
			continue
		}
		on(&L.Entry)
		on(&L.Stay)
		for _, p := range append(append([]*LoopPhi{}, L.Phis...), cellList(L)...) {
			on(&p.Init)
			on(&p.Step)
		}
	}
	for _, ef := range q.res.Effects {
		on(&ef.Cond)
		for i := range ef.Args {
			on(&ef.Args[i])
		}
	}
	for i := range q.res.Results {
		on(&q.res.Results[i])
	}
}

func loopChain(L *Loop) []*Loop {
	var l []*Loop
	for ; L != nil; L = L.parent {
		l = append(l, L)
	}
	return l
}

func loadIndex(t *Term) *Node { return t.args[0].leaf.args[1] }

// loads: the bytes of the input that a value depends on.
func (q *lexRun) loads(ns ...*Node) []*Term {
	var l []*Term
	seen := map[*Term]bool{}
	for _, n := range ns {
		walkTerms(n, func(t *Term) bool {
			if t.op == "load" && len(t.args) > 0 && t.args[0].leaf != nil && t.args[0].leaf.op == "indexaddr" && t.args[0].leaf.args[0] == q.data {
				if !seen[t] {
					seen[t] = true
					l = append(l, t)
				}
			}
			return true
		})
	}
	return l
}

func (q *lexRun) avail(pos *Node) *Node { return lessThan(pos, lenOf(q.buf)) }

// tail: the position of the first unread byte.
func (q *lexRun) tail() *Node {
	a := apply1(q.p, func(t *Term) *Node { return fieldAddrTerm(leafNode(t), q.x.nx.ptyp, q.x.nx.fTail) })
	n := q.e.loadAt(q.res.Out.mem, a, intType)
	if q.when != nil {
		n = deepRestrict(n, q.when)
	}
	return n
}

// token: the type and the text of the token.
func (q *lexRun) token() (typ, val *Node) {
	t := q.fn.Signature.Results().At(0).Type()
	st := t.Underlying().(*types.Struct)
	for i := 0; i < st.NumFields(); i++ {
		f := getField(q.res.Results[0], st, i)
		if isByteSlice(st.Field(i).Type()) {
			val = f
		} else if isInteger(st.Field(i).Type()) {
			typ = f
		}
	}
	return
}

// nextOf: the value of n in the next round of the loop.
func nextOf(L *Loop, n *Node) *Node {
	var mus []*LoopPhi
	for _, p := range append(append([]*LoopPhi{}, L.Phis...), cellList(L)...) {
		if p.Mu != nil && p.Step != nil && contains(n, p.Mu) {
			mus = append(mus, p)
		}
	}
	// at once: by way of fresh names
	for i, p := range mus {
		n = subst(n, p.Mu, leafNode(mk("sym", fmt.Sprint("$next", i), nil, p.Mu.typ)))
	}
	n = subst(n, L.K, add(leafNode(L.K), intConst(1)))
	for i, p := range mus {
		n = subst(n, mk("sym", fmt.Sprint("$next", i), nil, p.Mu.typ), p.Step)
	}
	return n
}

func initOf(L *Loop, n *Node) *Node {
	for _, p := range append(append([]*LoopPhi{}, L.Phis...), cellList(L)...) {
		if p.Mu != nil {
			n = subst(n, p.Mu, p.Init)
		}
	}
	return subst(n, L.K, intConst(0))
}

// isSpace: white space and separators that have to be skipped, and those for
// which it does not matter.
func isSpace(b int64) (must, may bool) {
	switch b {
	case ' ', '\t', '\n', '\r', ':', ',':
		return true, true
	case '\v', '\f', 0x85, 0xA0:
		return false, true
	}
	return false, false
}

// whitespace: one round of the loop over white space.
func (q *lexRun) whitespace() {
	pos := loadIndex(q.ld)
	av := q.avail(pos)
	for b := int64(0); b < 256; b++ {
		stay := subst(q.S.Stay, q.ld, intConst(b))
		must, may := isSpace(b)
		goesOn := sameUnder(av, stay, T.True) == nil
		stops := and(stay, av) == T.False || sameUnder(and(stay, av), T.True, T.False) == nil
		switch {
		case must && !goesOn:
			q.bad("%q is not skipped", rune(b))
		case !may && !stops:
			q.bad("%q is skipped", rune(b))
		case !goesOn && !stops:
			q.bad("whether %q is skipped depends on something else: %s", rune(b), short(stay))
		}
	}
	if x := sameUnder(and(q.S.Stay, av), nextOf(q.S, pos), add(pos, intConst(1))); x != nil {
		q.bad("white space is not skipped byte by byte, if %s", short(x))
	}
	if x := sameUnder(T.True, initOf(q.S, pos), intConst(0)); x != nil {
		q.bad("does not start at the first unread byte")
	}
	if x := sameUnder(not(q.avail(q.T0)), q.cut, T.False); x != nil {
		q.bad("the end of the input is taken for a token, if %s", short(x))
	}
}

// space: the byte can not be where the white space ends.
func (q *lexRun) space(b int64) bool {
	av := q.avail(loadIndex(q.ld))
	stay := subst(q.S.Stay, q.ld, intConst(b))
	return and(not(stay), av) == T.False
}

func (q *lexRun) withFirst(n *Node, b int64) *Node { return q.settle(n, q.first, b, nil) }

// settle: n if the byte has the value; a loop that looks at this byte again
// (for white space, say) may have no rounds then.
func (q *lexRun) settle(n *Node, first *Term, b int64, outer *Loop) *Node {
	n = subst(n, first, intConst(b))
	l, ok := q.again[first]
	if !ok {
		for _, L := range q.res.Loops {
			if L == q.S || L.Stay == nil || L.Stay == T.False || L.KX == nil || outer != nil && !nestedIn(L, outer) {
				continue
			}
			ld := q.loads(initOf(L, L.Stay))
			if len(ld) == 1 && ld[0] == first && len(q.loads(L.Stay)) == 1 && q.loads(L.Stay)[0] != first {
				l = append(l, L)
			}
		}
		if q.again == nil {
			q.again = map[*Term][]*Loop{}
		}
		q.again[first] = l
	}
	for _, L := range l {
		if subst(initOf(L, L.Stay), first, intConst(b)) != T.False {
			continue
		}
		n = subst(n, L.KX, intConst(0))
		if outer != nil {
			if x := atExit(leafNode(L.KX), loopChain(outer)); x.leaf != nil {
				n = subst(n, x.leaf, intConst(0))
			}
		}
		for _, p := range append(append([]*LoopPhi{}, L.Phis...), cellList(L)...) {
			if p.Mu != nil && p.Init != nil {
				n = substMuIn(n, p.Mu, func(x *Term) *Node {
					v := subst(p.Init, first, intConst(b))
					if outer != nil && contains(leafNode(x), outer.KX) {
						v = atExit(v, loopChain(outer))
					}
					return v
				})
			}
		}
		n = subst(n, first, intConst(b))
	}
	return n
}

// refuses: the operation fails for the first byte.
func (q *lexRun) refuses(b int64) bool {
	g := q.withFirst(q.good, b)
	return and(g, q.avail(q.T0)) == T.False || sameUnder(q.avail(q.T0), g, T.False) == nil
}

// other: all first bytes but the given ones are refused.
func (q *lexRun) others(ok func(b int64) bool, what string) {
	for b := int64(0); b < 256; b++ {
		if !ok(b) && !q.space(b) && !q.refuses(b) {
			q.bad("%q is taken for %s, if %s", rune(b), what, short(and(q.withFirst(q.good, b), q.avail(q.T0))))
		}
	}
}

func kindOf(b int64) string {
	switch b {
	case 'n':
		return "TypeNull"
	case 't', 'f':
		return "TypeBoolean"
	case '"':
		return "TypeString"
	case '{':
		return "TypeObjectBegin"
	case '}':
		return "TypeObjectEnd"
	case '[':
		return "TypeArrayBegin"
	case ']':
		return "TypeArrayEnd"
	}
	if b == '-' || b >= '0' && b <= '9' {
		return "TypeNumber"
	}
	return ""
}

// nextType: the kind of the next value by its first byte.
func (q *lexRun) nextType() {
	q.whitespace()
	q.others(func(b int64) bool { return kindOf(b) != "" }, "the start of a value")
	av := q.avail(q.T0)
	for b := int64(0); b < 256; b++ {
		k := kindOf(b)
		if k == "" {
			continue
		}
		if x := sameUnder(av, q.withFirst(q.good, b), T.True); x != nil {
			q.bad("%q is refused", rune(b))
			continue
		}
		if x := sameUnder(av, q.withFirst(q.res.Results[0], b), q.x.r.tokType(k)); x != nil {
			q.bad("%q does not start a %s", rune(b), k)
		}
	}
	if x := sameUnder(and(av, q.good), q.tail(), q.T0); x != nil {
		q.bad("looking at the kind takes bytes, if %s", short(x))
	}
}

// symbol: a single byte is taken.
func (q *lexRun) symbol(sym int64) {
	q.whitespace()
	q.others(func(b int64) bool { return b == sym }, fmt.Sprintf("%q", rune(sym)))
	av := q.avail(q.T0)
	g := q.withFirst(q.good, sym)
	if x := sameUnder(av, g, T.True); x != nil {
		q.bad("%q is refused, if %s", rune(sym), short(x))
	}
	if x := sameUnder(and(av, g), q.withFirst(q.tail(), sym), add(q.T0, intConst(1))); x != nil {
		q.bad("the place after %q is wrong, if %s", rune(sym), short(x))
	}
}

func (q *lexRun) byteAt(off int64) *Term {
	n := subst(leafNode(q.first), q.first, leafNode(q.first))
	_ = n
	v := q.e.elemOf(newMemOf(q), q.buf, add(q.T0, intConst(off)), byteType)
	q.x.r.must(v.leaf != nil, "a byte of the input: %s", short(v))
	return v.leaf
}

// newMemOf: the memory with the input as it came.
func newMemOf(q *lexRun) *Mem {
	m := newMem()
	if q.e.initMem != nil {
		m = q.e.initMem.clone()
	}
	return m
}

// literal: the bytes of a literal, all of them.
func (q *lexRun) literal(lit, kind string, hasToken bool) {
	n := int64(len(lit))
	all := lessEq(add(q.T0, intConst(n)), lenOf(q.buf))
	bytes := make([]*Term, n)
	g, tail := q.withFirst(q.good, int64(lit[0])), q.withFirst(q.tail(), int64(lit[0]))
	for i := range bytes {
		bytes[i] = q.byteAt(int64(i))
	}
	for i := range bytes {
		// all others are right
		h := g
		for j := range bytes {
			if j != i {
				h = subst(h, bytes[j], intConst(int64(lit[j])))
			}
		}
		for b := int64(0); b < 256; b++ {
			if i > 0 && b != int64(lit[i]) {
				if y := subst(h, bytes[i], intConst(b)); y != T.False && sameUnder(T.True, y, T.False) != nil {
					q.bad("%q is taken for %s", lit[:i]+string(rune(b))+lit[i+1:], lit)
					break
				}
			}
		}
	}
	on := func(v *Node) *Node {
		for i, t := range bytes {
			v = subst(v, t, intConst(int64(lit[i])))
		}
		return v
	}
	g, tail = on(g), on(tail)
	ctx := and(all, lessEq(intConst(0), q.T0))
	if x := sameUnder(ctx, g, T.True); x != nil {
		q.bad("%s is refused, if %s", lit, short(x))
	}
	if x := sameUnder(not(all), g, T.False); x != nil {
		q.bad("a part of %s is enough, if %s", lit, short(x))
	}
	if x := sameUnder(and(ctx, g), tail, add(q.T0, intConst(n))); x != nil {
		q.bad("the place after %s is wrong", lit)
	}
	if hasToken {
		typ, val := q.token()
		if x := sameUnder(and(ctx, g), on(typ), q.x.r.tokType(kind)); x != nil {
			q.bad("%s is not a %s", lit, kind)
		}
		v := deepRestrict(on(val), and(ctx, g))
		if s := sameUnder(and(ctx, g), lenOf(v), intConst(n)); s != nil {
			q.bad("the text of %s has another length", lit)
		} else {
			for _, l := range guardedLeaves(v) {
				if and(l.Cond, and(ctx, g)) == T.False {
					continue
				}
				for i := int64(0); i < n; i++ {
					c := q.e.elemOf(q.res.Out.mem, leafNode(l.T), intConst(i), byteType)
					if q.when != nil {
						c = deepRestrict(c, q.when)
					}
					c = on(c)
					if x := sameUnder(ands(ctx, g, l.Cond), c, intConst(int64(lit[i]))); x != nil {
						q.bad("the text of %s is another one: %s", lit, short(c))
					}
				}
			}
		}
	}
}

// scanner is an automaton over bytes.
type scanner interface {
	start() int
	// step: the next state; done: the token ended before (or with) the byte.
	step(s int, b int64) (next int, done bool)
}

type stringScan struct{}

func (stringScan) start() int { return 0 }
func (stringScan) step(s int, b int64) (int, bool) { // 1: escaped, 2: there are escape sequences
	switch {
	case s&1 != 0:
		return s &^ 1, false
	case b == '\\':
		return 3, false
	case b == '"':
		return s, true
	}
	return s, false
}

type numberScan struct{}

func (numberScan) start() int { return 0 }
func (numberScan) step(s int, b int64) (int, bool) {
	switch b {
	case '-', '+', '.', 'e', 'E':
		return 0, false
	}
	return 0, !(b >= '0' && b <= '9')
}

// scanned is a state of the loop in which it ends.
type scanned struct {
	state int // of the automaton
	byte  int64
	env   map[*Term]*Node
}

type scanRun struct {
	L    *Loop
	X    *Node // length when it ends
	at   *Term // byte at which it ends
	ends []scanned
	envs []map[*Term]*Node
}

// scan compares a loop over the bytes after the first one with an automaton.
func (q *lexRun) scan(b0 int64, a scanner) *scanRun {
	return q.scanIn(a, nil, q.avail(q.T0), func(n *Node) *Node { return q.withFirst(n, b0) })
}

// scanIn: the same in a round of another loop.
func (q *lexRun) scanIn(a scanner, outer *Loop, ctx *Node, on func(*Node) *Node) *scanRun {
	r := q.x.r
	off := add(q.T0, intConst(1))
	var s *scanRun
	var ld *Term
	for _, L := range q.res.Loops {
		if L == q.S || L.Stay == nil || L.Stay == T.False {
			continue
		}
		if on(initOf(L, L.Stay)) == T.False {
			continue // no rounds
		}
		if outer != nil && !nestedIn(L, outer) || sameUnder(ctx, on(L.Entry), T.True) != nil {
			continue
		}
		var at *Term
		ok := true
		for _, t := range q.loads(L.Stay) {
			if t == q.first {
				continue
			}
			if !loopUses(L, loadIndex(t)) {
				ok = false
				continue
			}
			if at != nil {
				ok = false
			}
			at = t
		}
		if at == nil {
			continue
		}
		r.must(ok && s == nil, "%s looks at one byte after the other", q.fn.Name())
		s = &scanRun{L: L}
		ld = at
	}
	r.must(s != nil, "%s has a loop over the bytes of the token", q.fn.Name())
	L := s.L
	ld0, pos0 := ld, loadIndex(ld)
	ld = on(leafNode(ld)).leaf
	r.must(ld != nil && ld.op == "load", "%s looks at a byte", q.fn.Name())
	pos := loadIndex(ld)
	av := q.avail(pos)
	if x := sameUnder(T.True, on(initOf(L, pos0)), off); x != nil {
		q.bad("the loop does not start with the second byte: %s", short(on(initOf(L, pos0))))
	}
	if x := sameUnder(and(on(L.Stay), av), on(nextOf(L, pos0)), add(pos, intConst(1))); x != nil {
		q.bad("the loop does not go byte by byte, if %s", short(x))
	}
	// the state
	type pair struct {
		key string
		ref int
	}
	var mus []*LoopPhi
	for _, p := range append(append([]*LoopPhi{}, L.Phis...), cellList(L)...) {
		if p.Mu != nil && !contains(pos, p.Mu) {
			mus = append(mus, p)
		}
	}
	env := map[*Term]*Node{}
	for _, p := range mus {
		env[p.Mu] = on(p.Init)
	}
	key := func(env map[*Term]*Node) string {
		k := ""
		for _, p := range mus {
			k += fmt.Sprint(env[p.Mu].id, " ")
		}
		return k
	}
	type todo struct {
		env map[*Term]*Node
		ref int
	}
	seen := map[pair]bool{}
	work := []todo{{env, a.start()}}
	for len(work) > 0 {
		w := work[0]
		work = work[1:]
		k := pair{key(w.env), w.ref}
		if seen[k] {
			continue
		}
		seen[k] = true
		r.must(len(seen) < 600, "%s has few states", q.fn.Name())
		s.envs = append(s.envs, w.env)
		ap := func(n *Node) *Node {
			n = on(n)
			for _, p := range mus {
				n = subst(n, p.Mu, w.env[p.Mu])
			}
			return n
		}
		stay0 := ap(L.Stay)
		steps := make([]*Node, len(mus))
		for i, p := range mus {
			steps[i] = ap(p.Step)
		}
		for b := int64(0); b < 256; b++ {
			next, done := a.step(w.ref, b)
			stay := subst(stay0, ld, intConst(b))
			leaves := and(stay, av) == T.False || sameUnder(av, stay, T.False) == nil
			if done {
				if !leaves {
					q.bad("the token does not end at %q", rune(b))
					continue
				}
				s.ends = append(s.ends, scanned{w.ref, b, w.env})
				continue
			}
			if leaves || sameUnder(av, stay, T.True) != nil {
				q.bad("the token ends at %q", rune(b))
				continue
			}
			n := todo{map[*Term]*Node{}, next}
			for i, p := range mus {
				v := deepRestrict(subst(steps[i], ld, intConst(b)), and(av, stay))
				if v.atom != nil || len(q.loads(v)) > 0 {
					r.must(false, "the state after %q is known: %s", rune(b), short(v))
				}
				n.env[p.Mu] = v
			}
			work = append(work, n)
		}
	}
	last := on(atExit(leafNode(ld0), loopsBelow(L, outer)))
	r.must(last.leaf != nil, "the last byte is known: %s", short(last))
	s.at = last.leaf
	s.X = sub(loadIndex(s.at), off)
	return s
}

// nestedIn: L is inside of the other loop.
func nestedIn(L, outer *Loop) bool {
	for L = L.parent; L != nil; L = L.parent {
		if L == outer {
			return true
		}
	}
	return false
}

// loopsBelow: the loop and the ones around it, but not the outer one.
func loopsBelow(L, outer *Loop) []*Loop {
	var l []*Loop
	for ; L != nil && L != outer; L = L.parent {
		l = append(l, L)
	}
	return l
}

func loopUses(L *Loop, n *Node) bool {
	if contains(n, L.K) {
		return true
	}
	for _, p := range append(append([]*LoopPhi{}, L.Phis...), cellList(L)...) {
		if p.Mu != nil && contains(n, p.Mu) {
			return true
		}
	}
	return false
}

// inState: n after the loop ended in the state.
func inState(n *Node, L *Loop, env map[*Term]*Node) *Node {
	for _, p := range append(append([]*LoopPhi{}, L.Phis...), cellList(L)...) {
		if v := env[p.Mu]; p.Mu != nil && v != nil {
			n = substMu(n, p.Mu, v)
		}
	}
	return n
}

// substMu replaces the value of a variable of a loop in any round.
func substMu(n *Node, mu *Term, v *Node) *Node {
	return substMuIn(n, mu, func(*Term) *Node { return v })
}

func substMuIn(n *Node, mu *Term, val func(x *Term) *Node) *Node {
	for i := 0; i < 20; i++ {
		var t *Term
		walkTerms(n, func(x *Term) bool {
			if x.op == mu.op && x.aux == mu.aux && x.obj == mu.obj && t == nil && leafNode(x) != val(x) {
				t = x
			}
			return t == nil
		})
		if t == nil {
			break
		}
		n = subst(n, t, val(t))
	}
	return n
}

// atEnd: n after the loop ended in the state, with the byte.
func (q *lexRun) atEnd(n *Node, s *scanRun, d scanned, b0 int64) *Node {
	n = q.withFirst(n, b0)
	n = inState(n, s.L, d.env)
	return subst(n, s.at, intConst(d.byte))
}

// unfinished: the end of the input is no end of a token.
func (q *lexRun) unfinished(s *scanRun, b0 int64) {
	end := not(q.avail(add(add(q.T0, intConst(1)), s.X)))
	for _, env := range s.envs {
		g := q.withFirst(q.good, b0)
		g = inState(g, s.L, env)
		if x := sameUnder(end, g, T.False); x != nil {
			q.bad("a token that is cut off is accepted, if %s", short(x))
			return
		}
	}
}

// view: the token is a part of the input.
func (q *lexRun) view(ctx, v, off, n *Node, what string) {
	v = deepRestrict(v, ctx)
	for _, l := range guardedLeaves(v) {
		c := and(ctx, l.Cond)
		if c == T.False || sameUnder(c, T.True, T.False) == nil {
			continue
		}
		w := leafNode(l.T)
		if sliceData(w) != q.data {
			q.bad("the text of %s is not a part of the input: %s", what, short(w))
			continue
		}
		if x := sameUnder(c, sliceOff(w), off); x != nil {
			q.bad("the text of %s starts at another place: %s", what, short(sliceOff(w)))
		}
		if x := sameUnder(c, lenOf(w), n); x != nil {
			q.bad("the text of %s has another length: %s", what, short(lenOf(w)))
		}
	}
}

func (q *lexRun) number(b0 int64, hasToken bool) {
	s := q.scan(b0, numberScan{})
	pos := add(add(q.T0, intConst(1)), s.X)
	ctx := ands(q.avail(pos), lessEq(intConst(0), s.X), lessEq(intConst(0), q.T0))
	done := map[string]bool{}
	for _, d := range s.ends {
		g := q.atEnd(q.good, s, d, b0)
		tail := q.atEnd(q.tail(), s, d, b0)
		var typ, val *Node
		key := fmt.Sprint(g.id, " ", tail.id)
		if hasToken {
			typ, val = q.token()
			typ, val = q.atEnd(typ, s, d, b0), q.atEnd(val, s, d, b0)
			key += fmt.Sprint(" ", typ.id, " ", val.id)
		}
		if done[key] {
			continue
		}
		done[key] = true
		if x := sameUnder(ctx, g, T.True); x != nil {
			q.bad("a number before %q is refused, if %s", rune(d.byte), short(x))
			continue
		}
		if x := sameUnder(ctx, tail, pos); x != nil {
			q.bad("the place after a number is wrong: %s", short(tail))
		}
		if hasToken {
			if x := sameUnder(ctx, typ, q.x.r.tokType("TypeNumber")); x != nil {
				q.bad("a number is not a TypeNumber")
			}
			q.view(ctx, val, q.T0, add(s.X, intConst(1)), "a number")
		}
	}
}

func (q *lexRun) str(b0 int64, hasToken bool) {
	s := q.scan(b0, stringScan{})
	off := add(q.T0, intConst(1))
	pos := add(off, s.X)
	ctx := ands(q.avail(pos), lessEq(intConst(0), s.X), lessEq(intConst(0), q.T0))
	q.unfinished(s, b0)
	for _, d := range s.ends {
		g := q.atEnd(q.good, s, d, b0)
		tail := q.atEnd(q.tail(), s, d, b0)
		if d.state&2 == 0 {
			if x := sameUnder(ctx, g, T.True); x != nil {
				q.bad("a string without escape sequences is refused, if %s", short(x))
				continue
			}
			if x := sameUnder(ctx, tail, add(pos, intConst(1))); x != nil {
				q.bad("the place after a string is wrong: %s", short(tail))
			}
			if hasToken {
				typ, val := q.token()
				if x := sameUnder(ctx, q.atEnd(typ, s, d, b0), q.x.r.tokType("TypeString")); x != nil {
					q.bad("a string is not a TypeString")
				}
				q.view(ctx, q.atEnd(val, s, d, b0), off, s.X, "a string")
			}
		}
	}
	for _, d := range s.ends {
		if d.state&2 != 0 && len(q.probs) == 0 {
			q.escapes(s, d, b0, ctx, hasToken)
		}
	}
}

// escapes: the replacement of escape sequences.
func (q *lexRun) escapes(s *scanRun, d scanned, b0 int64, ctx *Node, hasToken bool) {
	r := q.x.r
	off := add(q.T0, intConst(1))
	on := func(n *Node) *Node { return q.atEnd(n, s, d, b0) }
	var D *Loop
	for _, L := range q.res.Loops {
		if L == q.S || L == s.L || L.Stay == nil || L.Stay == T.False || on(L.Entry) == T.False {
			continue
		}
		if x := sameUnder(ctx, on(L.Entry), T.True); x != nil {
			continue
		}
		// it looks at the bytes of the string with a position of its own
		uses := false
		for _, t := range q.loads(on(L.Stay)) {
			uses = uses || loopUses(L, loadIndex(t))
		}
		if uses {
			r.must(D == nil, "%s replaces escape sequences with one loop", q.fn.Name())
			D = L
		}
	}
	r.must(D != nil, "%s replaces escape sequences with a loop", q.fn.Name())
	var idx, out *LoopPhi
	for _, p := range append(append([]*LoopPhi{}, D.Phis...), cellList(D)...) {
		if p.Mu == nil {
			continue
		}
		switch {
		case isInteger(p.typ) && idx == nil:
			idx = p
		case isByteSlice(p.typ) && out == nil:
			out = p
		default:
			r.must(false, "the loop over the escape sequences has a position and a result only, not %s", p.Name)
		}
	}
	r.must(idx != nil && out != nil, "the loop over the escape sequences has a position and a result")
	// the position, as a distance from the start of the string
	IDX := leafNode(idx.Mu)
	base := sub(on(idx.Init), intConst(0))
	if v, ok := constInt64(base); !ok || v != 0 {
		q.bad("the replacement does not start with the first byte: %s", short(base))
		return
	}
	if x := sameUnder(ctx, lenOf(on(out.Init)), intConst(0)); x != nil {
		q.bad("the replaced text does not start empty")
	}
	bytes := map[int64][]*Term{}
	var roots []*Node
	roots = append(roots, D.Stay, idx.Step, out.Step)
	var encs []*Effect
	for _, ef := range q.res.Effects {
		text := ef.Kind == "store" && ef.Args[0].leaf != nil && ef.Args[0].leaf.op == "indexaddr" && contains(ef.Args[0], out.Mu)
		if text || ef.Kind == "call" && hasSuffixAny(ef.Name, "utf8.EncodeRune") {
			for _, l := range ef.Loops {
				if l == D {
					c := *ef
					c.Cond = on(ef.Cond)
					c.Args = []*Node{ef.Args[0], on(ef.Args[1])}
					encs = append(encs, &c)
					roots = append(roots, ef.Cond, ef.Args[1])
				}
			}
		}
	}
	for i := range roots {
		roots[i] = on(roots[i])
	}
	for _, t := range q.loads(roots...) {
		if k, ok := constInt64(sub(sub(loadIndex(t), off), IDX)); ok {
			bytes[k] = append(bytes[k], t)
		} else if t != q.first && t != s.at && loopUses(D, loadIndex(t)) {
			r.must(false, "the bytes of the escape sequence are at a known distance: %s", short(loadIndex(t)))
		}
	}
	r.must(len(bytes[0]) > 0, "the loop looks at the next byte")
	type chars []int64
	type apKey struct {
		n *Node
		i int
		c int64
	}
	memo := map[apKey]*Node{}
	ap := func(n *Node, cs chars) *Node {
		for i, c := range cs {
			if c < 0 {
				continue
			}
			k := apKey{n, i, c}
			v := memo[k]
			if v == nil {
				v = n
				for _, t := range bytes[int64(i)] {
					v = subst(v, t, intConst(c))
				}
				v = foldRunes(v)
				memo[k] = v
			}
			n = v
		}
		return n
	}
	X := s.X
	inside := func(k int64) *Node { return lessThan(add(IDX, intConst(k)), X) }
	exact := func(k int64) *Node { return eq(add(IDX, intConst(k)), X) } // k bytes are left
	pre := ands(ctx, lessEq(intConst(0), IDX))
	stay, step, res := roots[0], roots[1], roots[2]
	// one round: the bytes, what is known of the length, how many bytes are
	// taken and the rune that is appended; n == 0: refused
	round := func(cs chars, where *Node, n int64, want rune, raw bool, also ...bool) bool {
		c := and(pre, where)
		st := ap(stay, cs)
		leaves := sameUnder(c, st, T.False) == nil
		if n == 0 || len(also) > 0 && leaves {
			return leaves
		}
		if sameUnder(c, st, T.True) != nil {
			return false
		}
		c = and(c, st)
		if sameUnder(c, ap(step, cs), add(IDX, intConst(n))) != nil {
			return false
		}
		v := deepRestrict(ap(res, cs), c)
		for _, l := range guardedLeaves(v) {
			lc := and(c, l.Cond)
			if lc == T.False || sameUnder(lc, T.True, T.False) == nil {
				continue
			}
			if !q.appended(l.T, out.Mu, lc, encs, want, raw, func(n *Node) *Node { return ap(n, cs) }) {
				return false
			}
		}
		return true
	}
	tell := func(ok bool, format string, args ...interface{}) {
		if !ok {
			q.bad(format, args...)
		}
	}
	for b := int64(0); b < 256; b++ {
		if b != '\\' {
			tell(round(chars{b}, inside(0), 1, rune(b), true), "the byte %q is not taken as it is", rune(b))
		}
	}
	tell(sameUnder(ands(pre, not(inside(0))), stay, T.False) == nil, "the replacement goes on after the end of the string")
	tell(round(chars{'\\'}, exact(1), 0, 0, false), "a single backslash at the end is accepted")
	esc := map[int64]int64{'"': '"', '\\': '\\', '/': '/', 'b': '\b', 'f': '\f', 'n': '\n', 'r': '\r', 't': '\t'}
	for c := int64(0); c < 256; c++ {
		if c == 'u' {
			continue
		}
		if e, ok := esc[c]; ok {
			tell(round(chars{'\\', c}, inside(1), 2, rune(e), true), "the escape sequence \\%c does not stand for %q", rune(c), rune(e))
		} else {
			tell(round(chars{'\\', c}, inside(1), 2, rune(c), true, true), "the escape sequence \\%q has another meaning", rune(c))
		}
		if len(q.probs) > 3 {
			return
		}
	}
	// \uXXXX
	tell(round(chars{'\\', 'u'}, and(inside(1), not(inside(5))), 0, 0, false), "an escape sequence \\u without four digits is accepted")
	for p := 2; p < 6; p++ {
		for b := int64(0); b < 256; b++ {
			cs := chars{'\\', 'u', '0', '0', '0', '1'}
			cs[p] = b
			if _, hex := hexDigit(b); !hex {
				tell(round(cs, inside(5), 0, 0, false), "%q is taken for a digit of an escape sequence", rune(b))
			}
		}
	}
	if len(q.probs) > 0 {
		return
	}
	digits := "0123456789abcdefABCDEF"
	value := func(cs chars) rune {
		v := int64(0)
		for _, c := range cs[2:6] {
			d, _ := hexDigit(c)
			v = v<<4 | d
		}
		return rune(v)
	}
	// two digits take all values, the others are fixed
	for p := 2; p < 6; p++ {
		for p2 := p + 1; p2 < 6; p2++ {
			for _, c := range digits {
				for k, c2 := range digits {
					if (k+2*int(c))%5 != 0 && k != 0 {
						continue
					}
					cs := chars{'\\', 'u', '0', '0', '0', '0'}
					cs[p], cs[p2] = int64(c), int64(c2)
					v := value(cs)
					if utf16.IsSurrogate(v) {
						continue
					}
					if !round(cs, exact(6), 6, v, false) {
						q.bad("the escape sequence \\u%04x does not stand for its character", v)
						return
					}
				}
			}
		}
	}
	hex4 := func(v rune) chars {
		h := fmt.Sprintf("%04x", v)
		return chars{int64(h[0]), int64(h[1]), int64(h[2]), int64(h[3])}
	}
	for _, v := range []rune{0xD7FF, 0xE000, 0xFFFF, 0x1234, 0xFEDC} {
		tell(round(append(chars{'\\', 'u'}, hex4(v)...), inside(5), 6, v, false), "the escape sequence \\u%04x does not stand for its character", v)
	}
	// surrogates
	for _, v := range []rune{0xD800, 0xDABC, 0xDBFF, 0xDC00, 0xDDEF, 0xDFFF} {
		one := append(chars{'\\', 'u'}, hex4(v)...)
		tell(round(one, and(inside(5), not(inside(11))), 6, v, false), "a single surrogate \\u%04x is not replaced", v)
		for p, c := range []int64{'\\', 'u'} {
			for b := int64(0); b < 256; b++ {
				if b == c {
					continue
				}
				cs := append(append(chars{}, one...), '\\', 'u')
				cs[6+p] = b
				tell(round(cs, inside(11), 6, v, false), "a surrogate \\u%04x before %q is not replaced on its own", v, rune(b))
				if len(q.probs) > 3 {
					return
				}
			}
		}
		for _, v2 := range []rune{0xDC00, 0xDFFF, 0xDD37, 0xDBFF, 0xE000, 0xD800, 0x0041} {
			cs := append(append(append(chars{}, one...), '\\', 'u'), hex4(v2)...)
			if c := utf16.DecodeRune(v, v2); c != utf8.RuneError {
				tell(round(cs, inside(11), 12, c, false), "the pair \\u%04x\\u%04x does not stand for its character", v, v2)
			} else {
				tell(round(cs, inside(11), 6, v, false), "\\u%04x\\u%04x is no pair, but is taken for one", v, v2)
			}
		}
		for p := 8; p < 12; p++ {
			for _, b := range []int64{'g', 'G', '/', ':', '@', '`', ' ', '"', '\\', 0, 255} {
				cs := append(append(append(chars{}, one...), '\\', 'u'), hex4(0xDC00)...)
				cs[p] = b
				tell(round(cs, inside(11), 0, 0, false) || round(cs, inside(11), 6, v, false), "\\u%04x and an unreadable escape sequence are taken for a pair", v)
			}
		}
	}
	// after the last byte
	//
	// The text grows no faster than the position (each round takes at least as
	// many bytes as it appends), so the bytes ahead are still the input's: all
	// loads of one byte are the same value.
	fin := func(n *Node) *Node {
		n = on(n)
		n = substMu(substMu(n, idx.Mu, IDX), out.Mu, leafNode(out.Mu))
		for _, t := range q.loads(n) {
			if k, ok := constInt64(sub(sub(loadIndex(t), off), IDX)); ok {
				if len(bytes[k]) == 0 {
					bytes[k] = append(bytes[k], t)
				}
				n = subst(n, t, leafNode(bytes[k][0]))
			}
		}
		return n
	}
	g, tail := fin(q.good), fin(q.tail())
	over := and(ctx, eq(IDX, X))
	tell(sameUnder(over, g, T.True) == nil, "a string with escape sequences is refused")
	if x := sameUnder(ands(ctx, inside(0), not(fin(D.Stay))), g, T.False); x != nil {
		q.bad("a string with an unreadable escape sequence is accepted, if %s", short(x))
	}
	tell(sameUnder(over, tail, add(add(off, X), intConst(1))) == nil, "the place after a string with escape sequences is wrong")
	if hasToken {
		typ, val := q.token()
		tell(sameUnder(over, fin(typ), r.tokType("TypeString")) == nil, "a string with escape sequences is not a TypeString")
		tell(sameUnder(over, fin(val), leafNode(out.Mu)) == nil, "the text of a string with escape sequences is another one: %s", short(on(val)))
	}
}

// appended: t is the text so far with one more character.
func (q *lexRun) appended(t, out *Term, c *Node, encs []*Effect, want rune, raw bool, ap func(*Node) *Node) bool {
	text := string(want)
	if raw {
		text = string([]byte{byte(want)})
	}
	switch t.op {
	case "append":
		if t.args[0] != leafNode(out) || len(t.args) != 1+len(text) {
			return false
		}
		for i := range []byte(text) {
			if sameUnder(c, t.args[1+i], intConst(int64(text[i]))) != nil {
				return false
			}
		}
		return true
	case "appends":
		x := t.args[1].leaf
		if t.args[0] != leafNode(out) || x == nil || raw && want >= 0x80 {
			return false
		}
		switch x.op {
		case "runestr":
			return sameUnder(c, ap(x.args[0]), intConst(int64(want))) == nil
		case "slice":
			// encoded elsewhere
			for _, ef := range encs {
				if ef.Kind == "call" && ef.Res == x.args[2] && sliceData(ef.Args[0]) == x.args[0] && sameUnder(c, sliceOff(ef.Args[0]), x.args[1]) == nil &&
					sameUnder(c, ap(ef.Cond), T.True) == nil && sameUnder(c, ap(ef.Args[1]), intConst(int64(want))) == nil {
					return true
				}
			}
		}
		return false
	case "slice":
		// written behind the end
		if o := leafNode(out); t.args[0] == sliceData(o) && len(text) == 1 && sameUnder(c, t.args[1], sliceOff(o)) == nil && sameUnder(c, t.args[2], add(lenOf(o), intConst(1))) == nil {
			at := indexAddrTerm(sliceData(o), add(sliceOff(o), lenOf(o)), byteType)
			n := 0
			for _, ef := range encs {
				if ef.Kind == "store" && sameUnder(c, ap(ef.Cond), T.False) != nil {
					n++
					if ef.Args[0] != at || sameUnder(c, ap(ef.Cond), T.True) != nil || sameUnder(c, ap(ef.Args[1]), intConst(int64(text[0]))) != nil {
						return false
					}
				}
			}
			if n > 0 {
				return n == 1
			}
		}
		// encoded behind the end
		if raw && want >= 0x80 {
			return false
		}
		o := leafNode(out)
		if t.args[0] != sliceData(o) || sameUnder(c, t.args[1], sliceOff(o)) != nil {
			return false
		}
		n := 0
		for _, ef := range encs {
			if ef.Kind != "call" {
				continue
			}
			ec := and(c, ap(ef.Cond))
			if ec == T.False || sameUnder(ec, T.True, T.False) == nil {
				continue
			}
			n++
			if sameUnder(c, ap(ef.Cond), T.True) != nil || ef.Res == nil || sameUnder(c, ap(ef.Args[1]), intConst(int64(want))) != nil {
				return false
			}
			if sliceData(ef.Args[0]) != sliceData(o) || sameUnder(c, sliceOff(ef.Args[0]), lenOf(o)) != nil {
				return false
			}
			if sameUnder(c, t.args[2], add(lenOf(o), ef.Res)) != nil {
				return false
			}
		}
		return n == 1
	}
	return false
}

func hasSuffixAny(s string, ps ...string) bool {
	for _, p := range ps {
		if len(s) >= len(p) && s[len(s)-len(p):] == p {
			return true
		}
	}
	return false
}

// foldRunes evaluates functions of package utf16 for known runes.
func foldRunes(n *Node) *Node {
	for {
		var t *Term
		var v *Node
		walkTerms(n, func(x *Term) bool {
			if t != nil {
				return false
			}
			if x.op != "call" {
				return true
			}
			var as []int64
			for _, a := range x.args {
				k, ok := constInt64(a)
				if !ok {
					return true
				}
				as = append(as, k)
			}
			switch {
			case hasSuffixAny(x.aux, "utf16.IsSurrogate") && len(as) == 1:
				t, v = x, boolNode(utf16.IsSurrogate(rune(as[0])))
			case hasSuffixAny(x.aux, "utf16.DecodeRune") && len(as) == 2:
				t, v = x, intConst(int64(utf16.DecodeRune(rune(as[0]), rune(as[1]))))
			}
			return t == nil
		})
		if t == nil {
			return n
		}
		n = subst(n, t, v)
	}
}

func (r *Report) lexer() *lexer {
	p := r.L.pkg("codec/hyperjson")
	r.must(p != nil, "package hyperjson")
	x := &nx{r: r}
	if err := x.roles(p); err != nil {
		r.must(false, "%v", err)
	}
	return &lexer{r: r, nx: x}
}

// tell reports the problems of one operation.
func (q *lexRun) tell(rule, what string) {
	at := q.x.r.L.fnPos(q.fn)
	if len(q.probs) == 0 {
		q.x.r.ob(rule, what, true, at, "")
	}
	for _, p := range q.probs {
		q.x.r.ob(rule, what, false, at, "%s", p)
	}
	q.probs = nil
}

func init() {
	register("C08", "Each loop of the tokenizer over characters is compared with the automaton it has to implement, for every value of the next byte and every reachable state of the loop.", func(r *Report) {
		x := r.lexer()
		get := func(name string) *lexRun { return x.run(r.entry("codec/hyperjson", "Parser."+name)) }
		r.section(func() {
			q := get("NextType")
			q.nextType()
			q.tell("tokens", "the kind of a value is the one of its first character")
		})
		for _, s := range []struct {
			name string
			sym  int64
		}{{"ConsumeObjectBegin", '{'}, {"ConsumeObjectEnd", '}'}, {"ConsumeArrayBegin", '['}, {"ConsumeArrayEnd", ']'}} {
			s := s
			r.section(func() {
				q := get(s.name)
				q.symbol(s.sym)
				q.tell("tokens", fmt.Sprintf("%s takes exactly %q", s.name, rune(s.sym)))
			})
		}
		scalarsOf := func(q *lexRun, name string, kinds string, token bool) {
			r.section(func() {
				q.whitespace()
				q.others(func(b int64) bool {
					switch kindOf(b) {
					case "TypeNull":
						return kinds != "0" && contains1(kinds, 'n')
					case "TypeBoolean":
						return contains1(kinds, 'b')
					case "TypeString":
						return contains1(kinds, 's')
					case "TypeNumber":
						return contains1(kinds, '0')
					}
					return contains1(kinds, 'c') && (b == '{' || b == '[')
				}, "a value")
				q.tell("tokens", name+" refuses other characters")
				if contains1(kinds, 'n') {
					q.literal("null", "TypeNull", token)
				}
				if contains1(kinds, 'b') {
					q.literal("true", "TypeBoolean", token)
					q.literal("false", "TypeBoolean", token)
				}
				q.tell("tokens", name+" takes complete literals only")
				if contains1(kinds, '0') {
					for _, b := range "0123456789-" {
						if len(q.probs) == 0 {
							q.number(int64(b), token)
						}
					}
					q.tell("tokens", name+" takes all characters of a number")
				}
				if contains1(kinds, 's') {
					q.str('"', token)
					q.tell("tokens", name+" takes a string up to its closing quote and replaces escape sequences")
				}
			})
		}
		scalars := func(name string, kinds string, token bool) {
			r.section(func() { scalarsOf(get(name), name, kinds, token) })
		}
		skipScalars := func(q *lexRun) { scalarsOf(q, "an inner value: Skip", "nb0sc", false) }
		scalars("ReadNull", "n", true)
		scalars("ReadBoolean", "b", true)
		scalars("ReadNumber", "0", true)
		scalars("ReadString", "s", true)
		scalars("ReadLiteral", "nb0s", true)
		scalars("Skip", "nb0sc", false)
		r.section(func() {
			q := get("Skip")
			q.containers('[')
			q.tell("skip", "Skip takes an array up to its end")
			q.containers('{')
			q.tell("skip", "Skip takes an object up to its end")
			inner := map[*ssa.Function]bool{}
			for _, ef := range q.res.Effects {
				if ef.Kind == "call" && ef.Callee != nil && ef.Callee != q.fn && ef.Callee.Pkg == q.fn.Pkg && len(q.x.numbers(ef.Callee)) > 0 {
					inner[ef.Callee] = true
				}
			}
			if len(inner) == 0 {
				return
			}
			q = x.runAt(q.fn, inner)
			skipScalars(q)
			q.containers('[')
			q.tell("skip", "an inner value: Skip takes an array up to its end")
			q.containers('{')
			q.tell("skip", "an inner value: Skip takes an object up to its end")
		})
		r.count("skip", 2)
		for _, name := range []string{"NextType", "ReadNull", "ReadBoolean", "ReadNumber", "ReadString"} {
			name := name
			r.section(func() {
				q, n := x.refills(name)
				r.must(n > 0 || len(q.probs) > 0, "%s receives more bytes", name)
				q.tell("pieces", fmt.Sprintf("%s takes a token that arrives in pieces", name))
			})
		}
		r.count("pieces", 5)
		r.count("tokens", 15)
	})
}

func contains1(s string, c byte) bool {
	for i := 0; i < len(s); i++ {
		if s[i] == c {
			return true
		}
	}
	return false
}
