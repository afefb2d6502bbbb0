package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// EvalResult is the value flow summary of an entry point.
type EvalResult struct {
	E       *Engine
	Fn      *ssa.Function
	Params  []*Node
	Results []*Node // joined results
	Rets    []retState
	Out     *State
	Effects []*Effect
	Loops   []*Loop
	Facts   []*Node
}

// Eval evaluates a function with symbolic parameters.
func (e *Engine) Eval(fn *ssa.Function, params []*Node, bind []*Node, mem *Mem) *EvalResult {
	e.Effects = nil
	e.loopsRec = nil
	if mem == nil {
		mem = newMem()
		if e.initMem != nil {
			mem = e.initMem.clone()
		}
	}
	ctx := e.mkctx(nil, nil, fn, bind)
	if params == nil {
		for _, p := range fn.Params {
			params = append(params, symNode(mk("sym", "$"+p.Name(), nil, p.Type())))
		}
	}
	rets, st := e.run(ctx, fn, params, bind, &State{cond: T.True, mem: mem}, T.True, nil, nil)
	r := &EvalResult{E: e, Fn: fn, Params: params, Rets: rets, Out: st, Effects: e.Effects, Loops: e.loopsRec, Facts: e.facts}
	if st != nil {
		r.Results = joinRets(e, rets)
	}
	return r
}

func joinRets(e *Engine, rets []retState) []*Node {
	if len(rets) == 0 {
		return nil
	}
	var sts []*State
	for _, r := range rets {
		sts = append(sts, r.st)
	}
	_, sels := e.merge(sts)
	n := len(rets[0].vals)
	out := make([]*Node, n)
	for i := 0; i < n; i++ {
		vals := make([]*Node, len(rets))
		for j, r := range rets {
			vals[j] = r.vals[i]
		}
		out[i] = muxSel(sels, vals)
	}
	return out
}

// run evaluates a function body; the returned state's condition is relative
// to the state at the call.
func (e *Engine) run(ctx *Ctx, fn *ssa.Function, args, bind []*Node, st *State, base *Node, loops []*Loop, iters []*Node) ([]retState, *State) {
	e.entered[fn] = true
	fr := &frame{e: e, ctx: ctx, fn: fn, env: map[ssa.Value]*Node{}, base: base, info: e.info(fn)}
	fr.loops = append(fr.loops, loops...)
	fr.iters = append(fr.iters, iters...)
	for i, p := range fn.Params {
		if i < len(args) && args[i] != nil {
			fr.env[p] = args[i]
		} else {
			fr.env[p] = symNode(mk("sym", fmt.Sprintf("$%s#%d", p.Name(), ctx.id), nil, p.Type()))
		}
	}
	for i, v := range fn.FreeVars {
		if i < len(bind) {
			fr.env[v] = bind[i]
		} else {
			fr.env[v] = leafNode(mk("sym", fmt.Sprintf("$free_%s#%d", v.Name(), ctx.id), nil, v.Type()))
		}
	}
	entry := fr.info.rpo[0]
	local := &State{cond: T.True, mem: st.mem.clone()}
	nfacts := len(e.facts)
	_ = nfacts
	exits := fr.region(nil, entry, []edgeState{{to: entry, st: local}})
	_ = exits
	if len(fr.rets) == 0 {
		return nil, nil
	}
	var sts []*State
	for _, r := range fr.rets {
		sts = append(sts, r.st)
	}
	out, _ := e.merge(sts)
	return fr.rets, out
}

// region evaluates the blocks of a loop body (or of the whole function when
// nl is nil) and returns the states on edges leaving the region; edges to the
// header are returned as well.
func (fr *frame) region(nl *natLoop, entry *ssa.BasicBlock, in []edgeState) []edgeState {
	e := fr.e
	incoming := map[*ssa.BasicBlock][]edgeState{entry: in}
	var out []edgeState
	started := false
	push := func(es edgeState) {
		if es.st.cond == T.False {
			return
		}
		if nl != nil && (es.to == nl.header || !nl.blocks[es.to]) {
			out = append(out, es)
			return
		}
		incoming[es.to] = append(incoming[es.to], es)
	}
	for _, b := range fr.info.rpo {
		if nl != nil && !nl.blocks[b] {
			continue
		}
		// innermost loop of the block must be this region or an outer header
		il := fr.info.loopOf[b]
		if il != nl {
			// block belongs to a nested loop: only handle its header if it is directly nested
			l := il
			for l != nil && l.parent != nl {
				l = l.parent
			}
			if l == nil || l.header != b {
				continue
			}
			ins := incoming[b]
			if len(ins) == 0 {
				continue
			}
			for _, es := range fr.loop(l, ins) {
				push(es)
			}
			continue
		}
		ins := incoming[b]
		if len(ins) == 0 {
			continue
		}
		if b == entry && !started && nl != nil {
			started = true
			// header of the loop: state and phis were set by the caller
			fr.block(b, ins[0].st, push)
			continue
		}
		st, sels := e.mergeEdges(ins)
		if st.cond == T.False {
			continue
		}
		fr.phis(b, ins, sels)
		fr.block(b, &State{cond: st.cond, mem: st.mem.clone()}, push)
	}
	return out
}

func (e *Engine) mergeEdges(ins []edgeState) (*State, []*Node) {
	sts := make([]*State, len(ins))
	for i, x := range ins {
		sts[i] = x.st
	}
	return e.merge(sts)
}

func (fr *frame) phis(b *ssa.BasicBlock, ins []edgeState, sels []*Node) {
	var phis []*ssa.Phi
	var vals []*Node
	for _, ins2 := range b.Instrs {
		phi, ok := ins2.(*ssa.Phi)
		if !ok {
			break
		}
		vs := make([]*Node, len(ins))
		for i, es := range ins {
			if v, ok := es.pin[phi]; ok {
				vs[i] = v
				continue
			}
			vs[i] = fr.val(phi.Edges[predIndex(b, es)])
		}
		phis = append(phis, phi)
		vals = append(vals, muxSel(sels, vs))
	}
	for i, p := range phis {
		fr.env[p] = vals[i]
	}
}

func predIndex(b *ssa.BasicBlock, es edgeState) int {
	if es.pidx >= 0 && es.pset {
		return es.pidx
	}
	for i, p := range b.Preds {
		if p == es.from {
			return i
		}
	}
	return 0
}

func (fr *frame) kargs() []*Node {
	return fr.iters
}

func loopKey(ctx *Ctx, b *ssa.BasicBlock) string { return fmt.Sprintf("%d/%d", ctx.id, b.Index) }

// loop evaluates a natural loop and returns the states on its exit edges.
func (fr *frame) loop(nl *natLoop, ins []edgeState) []edgeState {
	e := fr.e
	h := nl.header
	st0, sels := e.mergeEdges(ins)
	if st0.cond == T.False {
		return nil
	}
	// initial phi values
	var phis []*ssa.Phi
	inits := map[*ssa.Phi]*Node{}
	for _, i := range h.Instrs {
		phi, ok := i.(*ssa.Phi)
		if !ok {
			break
		}
		vs := make([]*Node, len(ins))
		for j, es := range ins {
			if v, ok := es.pin[phi]; ok {
				vs[j] = v
				continue
			}
			vs[j] = fr.val(phi.Edges[predIndex(h, es)])
		}
		phis = append(phis, phi)
		inits[phi] = muxSel(sels, vs)
	}
	if r, ok := fr.unroll(nl, st0, phis, inits); ok {
		return r
	}

	key := loopKey(fr.ctx, h)
	for _, it := range fr.iters {
		key += fmt.Sprintf(",%d", it.id)
	}
	L := e.loops[key]
	if L == nil {
		L = &Loop{id: len(e.loops), ctx: fr.ctx, header: h, blocks: nl.blocks}
		e.loops[key] = L
		L.K = mk("K", fmt.Sprintf("K%d", L.id), L, types.Typ[types.Int], fr.iters...)
		L.KX = mk("Kx", fmt.Sprintf("K%d$", L.id), L, types.Typ[types.Int], fr.iters...)
	}
	if len(fr.loops) > 0 {
		L.parent = fr.loops[len(fr.loops)-1]
	}
	L.Entry = and(fr.base, st0.cond)
	kn := leafNode(L.K)
	iters := append(append([]*Node{}, fr.iters...), kn)

	// assumptions on what the loop modifies
	type phiAs struct{ kind, step int } // 0 unchanged, 1 induction, 2 mu
	pas := map[*ssa.Phi]int{}
	pstep := map[*ssa.Phi]*Node{}
	cells := map[*Term]bool{}
	havoc := map[string]map[string]bool{} // region -> cell kinds
	cellInit := map[*Term]*Node{}

	firstR := rnodeCount
	savedEff := e.Effects
	savedLoops := e.loopsRec
	savedBase, savedLoopsL, savedIters := fr.base, fr.loops, fr.iters
	savedFacts := e.facts
	savedDefers := fr.defers
	savedRets := fr.rets

	var out []edgeState
	for pass := 0; ; pass++ {
		if pass > 14 {
			panic(tooComplex{fmt.Sprintf("loop in %s does not stabilise", fr.fn)})
		}
		e.steps += 50
		// set up the state at the header
		m := st0.mem.clone()
		for _, k := range keysOf(havoc) {
			kinds := havoc[k]
			mk := kinds
			if kinds["*"] {
				mk = nil
			}
			e.havocRegion(m, k, fmt.Sprintf("L%d", L.id), iters, mk)
		}
		L.Cells = map[*Term]*LoopPhi{}
		var cellList []*Term
		for a := range cells {
			cellList = append(cellList, a)
		}
		sort.Slice(cellList, func(i, j int) bool { return cellList[i].id < cellList[j].id })
		for _, a := range cellList {
			if hk := havoc[regionKey(a)]; hk != nil && (hk["*"] || hitKind(hk, a)) {
				continue
			}
			typ := a.cellTyp()
			mu := mk("mu", fmt.Sprintf("L%d:%s", L.id, leafNode(a)), nil, typ, append([]*Node{leafNode(a)}, iters...)...)
			lp := &LoopPhi{Name: leafNode(a).String(), Addr: a, Mu: mu, Init: cellInit[a], typ: typ}
			lp.Val = symNode(mu)
			L.Cells[a] = lp
			e.storeAt(m, leafNode(a), lp.Val, typ, T.True)
		}
		L.Phis = nil
		for _, p := range phis {
			lp := &LoopPhi{Name: p.Comment, Phi: p, Init: inits[p], typ: p.Type()}
			switch pas[p] {
			case 0:
				lp.Val = inits[p]
			case 1:
				step := pstep[p]
				c, _ := constInt64(step)
				lp.Val = add(inits[p], scale(kn, c))
			case 3: // a slice or string that loses elements at its front
				lp.Val = dropFront(inits[p], scale(kn, 1), pstep[p], p.Type())
			case 2:
				lp.Mu = mk("mu", fmt.Sprintf("L%d:%s/%s", L.id, p.Name(), p.Comment), nil, p.Type(), iters...)
				lp.Val = symNode(lp.Mu)
			}
			L.Phis = append(L.Phis, lp)
			fr.env[p] = lp.Val
		}
		headMem := m
		fr.base = L.Entry
		fr.loops = append(append([]*Loop{}, savedLoopsL...), L)
		fr.iters = iters
		fr.defers = savedDefers
		fr.rets = append([]retState{}, savedRets...)
		e.Effects = append([]*Effect{}, savedEff...)
		e.loopsRec = append([]*Loop{}, savedLoops...)
		e.facts = savedFacts
		out = fr.region(nl, h, []edgeState{{from: nil, to: h, st: &State{cond: T.True, mem: m.clone()}}})
		fr.base, fr.loops, fr.iters = savedBase, savedLoopsL, savedIters

		// states on the back edge
		var latch []edgeState
		for _, es := range out {
			if es.to == h {
				latch = append(latch, es)
			}
		}
		changed := false
		L.Stay = T.False
		if len(latch) > 0 {
			lst, lsels := e.mergeEdges(latch)
			L.Stay = lst.cond
			for i, p := range phis {
				vs := make([]*Node, len(latch))
				for j, es := range latch {
					vs[j] = fr.val(p.Edges[predIndex(h, es)])
				}
				v := muxSel(lsels, vs)
				v = restrict(v, lst.cond)
				lp := L.Phis[i]
				lp.Step = v
				switch pas[p] {
				case 0:
					if v != lp.Val && v != restrict(lp.Val, lst.cond) {
						pas[p] = 2
						changed = true
					}
				case 2:
					if isInteger(p.Type()) && v.leaf != nil {
						d := sub(v, lp.Val)
						if c, ok := constInt64(d); ok && pstep[p] == nil {
							_ = c
							pas[p] = 1
							pstep[p] = d
							changed = true
						}
					} else if pstep[p] == nil && v.leaf != nil && lp.Val.leaf != nil {
						var d *Node
						if _, ok := p.Type().Underlying().(*types.Slice); ok && v.leaf.op == "slice" {
							d = sub(sliceOff(v), sliceOff(lp.Val))
						} else if isString(p.Type()) && v.leaf.op == "substr" && v.leaf.args[0] == lp.Val {
							d = v.leaf.args[1]
						}
						if d != nil {
							if c, ok := constInt64(d); ok && c > 0 && v == dropFront(lp.Val, intConst(1), d, p.Type()) {
								pas[p] = 3
								pstep[p] = d
								changed = true
							}
						}
					}
				case 3:
					if v != dropFront(inits[p], add(kn, intConst(1)), pstep[p], p.Type()) {
						pas[p] = 2
						changed = true
					}
				case 1:
					if w := add(lp.Val, pstep[p]); v != w && v != restrict(w, lst.cond) {
						pas[p] = 2 // keep pstep set: do not try again
						changed = true
					}
				}
			}
			// memory
			for _, k := range keysOf(lst.mem.regs) {
				r := lst.mem.regs[k]
				hr := headMem.regs[k]
				if r == hr {
					continue
				}
				if root := rootOfKeyFast(k); root != nil && containsFast(leafNode(root), L.K) {
					continue // object allocated in this iteration
				}
				addrs := map[*Term]bool{}
				hv := false
				kinds := map[string]bool{}
				collectWrites2(r, hr, addrs, &hv, kinds, map[*RNode]bool{})
				if hv {
					if len(kinds) == 0 {
						kinds["*"] = true
					}
				}
				for _, a := range termsOf(addrs) {
					if loopVarying(a, L) {
						kinds[cellKind(a)] = true
					}
				}
				for kk := range kinds {
					if havoc[k] == nil {
						havoc[k] = map[string]bool{}
					}
					if !havoc[k][kk] {
						havoc[k][kk] = true
						changed = true
					}
				}
				for a := range addrs {
					if loopVarying(a, L) || havoc[k]["*"] || hitKind(havoc[k], a) {
						continue
					}
					if !cells[a] {
						cells[a] = true
						cellInit[a] = rread(st0.mem.region(k, addrRoot(a)), a, a.cellTyp())
						changed = true
					}
				}
			}
			for _, a := range termsOf(L.Cells) {
				lp := L.Cells[a]
				lp.Step = restrict(rread(lst.mem.region(regionKey(a), addrRoot(a)), a, lp.typ), lst.cond)
				if lp.Step == lp.Val && false {
					_ = a
				}
			}
		}
		if !changed {
			break
		}
	}
	L.Havoc = havoc
	if e.trace {
		fmt.Fprintf(os.Stderr, "loop L%d in %s: phis %d cells %d havoc %v\n", L.id, fr.fn, len(phis), len(L.Cells), havoc)
	}
	e.loopsRec = append(e.loopsRec, L)

	// exits
	var exits []edgeState
	total := T.False
	for _, es := range out {
		if es.to != h {
			exits = append(exits, es)
			total = or(total, es.st.cond)
		}
	}
	L.Exits = nil
	for _, es := range exits {
		L.Exits = append(L.Exits, LoopExit{es.from, es.to, es.st.cond})
	}
	// values at the end of the loop: rename the iteration number
	kx := leafNode(L.KX)
	for _, b := range blocksOf(nl.blocks) {
		for _, i := range b.Instrs {
			if v, ok := i.(ssa.Value); ok {
				if n, ok := fr.env[v]; ok {
					fr.env[v] = subst(n, L.K, kx)
				}
			}
		}
	}
	memo := map[*RNode]*RNode{}
	var res []edgeState
	for _, es := range exits {
		c := subst(es.st.cond, L.K, kx)
		if !isBool(total) || total == T.True {
		}
		ns := &State{cond: and(st0.cond, c), mem: e.substMem(es.st.mem, L.K, kx, firstR, memo)}
		res = append(res, edgeState{from: es.from, to: es.to, st: ns, pidx: es.pidx, pset: es.pset})
	}
	for i := len(savedRets); i < len(fr.rets); i++ {
		// returns cannot be inside a natural loop
		e.warn("return inside loop of %s", fr.fn)
	}
	if total != T.False {
		tx := subst(total, L.K, kx)
		if !isBool(tx) {
			e.facts = append(append([]*Node{}, e.facts...), tx)
		}
	} else {
		L.Infin = true
	}
	// single exit: reached whenever the loop is entered
	if len(res) == 1 {
		res[0].st.cond = st0.cond
	}
	return res
}

func collectWrites2(from, to *RNode, addrs map[*Term]bool, havoc *bool, kinds map[string]bool, seen map[*RNode]bool) {
	for from != nil && from != to && !seen[from] {
		seen[from] = true
		switch from.kind {
		case rWrite:
			addrs[from.addr] = true
			from = from.prev
		case rHavoc:
			if from.match == nil {
				*havoc = true
				kinds["*"] = true
			}
			for k := range from.match {
				kinds[k] = true
			}
			from = from.prev
		case rMerge:
			collectWrites2(from.a, to, addrs, havoc, kinds, seen)
			from = from.b
		default:
			return
		}
	}
}

// cellTyp is the type of the value stored in the cell.
func (t *Term) cellTyp() types.Type {
	if t.op == "maphas" {
		return types.Typ[types.Bool]
	}
	if t.op == "maplen" {
		return types.Typ[types.Int]
	}
	if t.op == "mapcell" {
		return t.typ
	}
	if p, ok := t.typ.(*types.Pointer); ok {
		return p.Elem()
	}
	if t.typ != nil {
		if p, ok := t.typ.Underlying().(*types.Pointer); ok {
			return p.Elem()
		}
	}
	return types.Typ[types.UntypedNil]
}

// loopVarying: does the address differ between iterations?
func loopVarying(a *Term, L *Loop) bool { return containsFast(leafNode(a), L.K) }

var rootsByID = map[int]*Term{}

func rootOfKeyFast(key string) *Term {
	i := strings.Index(key, "A:")
	if i != 0 && !(i == 1 && key[0] == 'h') {
		return nil
	}
	var id int
	fmt.Sscanf(key[i+2:], "%d", &id)
	return rootsByID[id]
}

func (e *Engine) substMem(m *Mem, from *Term, to *Node, first int, memo map[*RNode]*RNode) *Mem {
	r := newMem()
	var sub func(x *RNode) *RNode
	sub = func(x *RNode) *RNode {
		if x == nil || x.id <= first && x.kind != rBase {
			return x
		}
		if y, ok := memo[x]; ok {
			return y
		}
		y := *x
		y.memo = nil
		rnodeCount++
		y.id = rnodeCount
		same := true
		ch := func(n *Node) *Node {
			if n == nil {
				return nil
			}
			s := subst(n, from, to)
			if s != n {
				same = false
			}
			return s
		}
		p := func(x *RNode) *RNode {
			s := sub(x)
			if s != x {
				same = false
			}
			return s
		}
		switch x.kind {
		case rBase:
			return x
		case rWrite:
			y.prev = p(x.prev)
			y.guard = ch(x.guard)
			an := ch(leafNode(x.addr))
			if an.leaf != nil {
				y.addr = an.leaf
			}
			y.val = ch(x.val)
		case rHavoc:
			y.prev = p(x.prev)
			y.args = nil
			for _, a := range x.args {
				y.args = append(y.args, ch(a))
			}
		case rMerge:
			y.a, y.b = p(x.a), p(x.b)
			y.cond = ch(x.cond)
		}
		if same {
			memo[x] = x
			return x
		}
		memo[x] = &y
		return &y
	}
	for _, k := range keysOf(m.regs) {
		x := m.regs[k]
		nk := k
		if root := rootOfKeyFast(k); root != nil && containsFast(leafNode(root), from) {
			n := subst(leafNode(root), from, to)
			if n.leaf != nil {
				rootsByID[n.leaf.id] = n.leaf
				nk = strings.Replace(k, fmt.Sprintf("A:%d", root.id), fmt.Sprintf("A:%d", n.leaf.id), 1)
			}
		}
		r.regs[nk] = sub(x)
	}
	return r
}

// dropFront: what is left of a slice or string after k rounds that each take
// step elements from its front.
func dropFront(s, k, step *Node, typ types.Type) *Node {
	c, _ := constInt64(step)
	n := scale(k, c)
	return apply1(s, func(t *Term) *Node {
		x := leafNode(t)
		if isString(typ) {
			if t.op == "substr" {
				return mkN("substr", "", nil, types.Typ[types.String], t.args[0], add(t.args[1], n), t.args[2])
			}
			return mkN("substr", "", nil, types.Typ[types.String], x, n, lenOf(x))
		}
		if t.op == "nil" {
			return x
		}
		return mkSlice(sliceData(x), add(sliceOff(x), n), sub(lenOf(x), n), sub(capOf(x), n), typ)
	})
}

// unroll peels loops whose trip count is a small constant.
func (fr *frame) unroll(nl *natLoop, st0 *State, phis []*ssa.Phi, inits map[*ssa.Phi]*Node) ([]edgeState, bool) {
	e := fr.e
	if e.UnrollTo <= 0 {
		return nil, false
	}
	// the header must decide on constants: simulate the induction variable
	h := nl.header
	iff, ok := h.Instrs[len(h.Instrs)-1].(*ssa.If)
	if !ok {
		return nil, false
	}
	trip, ok := fr.constTrip(nl, iff, phis, inits)
	if !ok || trip > e.UnrollTo {
		return nil, false
	}
	var res []edgeState
	cur := &State{cond: T.True, mem: st0.mem}
	vals := inits
	savedBase, savedIters := fr.base, fr.iters
	for it := 0; it <= trip; it++ {
		for _, p := range phis {
			fr.env[p] = vals[p]
		}
		fr.base = and(savedBase, and(st0.cond, cur.cond))
		fr.iters = append(append([]*Node{}, savedIters...), intConst(int64(it)))
		out := fr.region(nl, h, []edgeState{{from: nil, to: h, st: &State{cond: T.True, mem: cur.mem.clone()}}})
		fr.base, fr.iters = savedBase, savedIters
		var latch []edgeState
		for _, es := range out {
			if es.to == h {
				latch = append(latch, es)
				continue
			}
			// pin the values of phis in the exit block at this edge
			pin := map[*ssa.Phi]*Node{}
			for _, i := range es.to.Instrs {
				if p, ok := i.(*ssa.Phi); ok {
					pin[p] = fr.val(p.Edges[predIndex(es.to, es)])
				}
			}
			envs := map[ssa.Value]*Node{}
			for b := range nl.blocks {
				for _, i := range b.Instrs {
					if v, ok := i.(ssa.Value); ok {
						if n, ok := fr.env[v]; ok {
							envs[v] = n
						}
					}
				}
			}
			c := and(st0.cond, and(cur.cond, es.st.cond))
			res = append(res, edgeState{from: es.from, to: es.to, st: &State{cond: c, mem: es.st.mem}, pin: pin, envs: envs})
		}
		if len(latch) == 0 {
			break
		}
		lst, lsels := e.mergeEdges(latch)
		nv := map[*ssa.Phi]*Node{}
		for _, p := range phis {
			vs := make([]*Node, len(latch))
			for j, es := range latch {
				vs[j] = fr.val(p.Edges[predIndex(h, es)])
			}
			nv[p] = muxSel(lsels, vs)
		}
		vals = nv
		cur = &State{cond: and(cur.cond, lst.cond), mem: lst.mem}
	}
	// join edges with the same destination so that phis can be resolved
	res = fr.joinPinned(res)
	return res, true
}

// joinPinned merges exit edges of an unrolled loop that go the same way; the
// values defined in the loop are joined accordingly.
func (fr *frame) joinPinned(in []edgeState) []edgeState {
	e := fr.e
	type k struct{ f, t *ssa.BasicBlock }
	var order []k
	groups := map[k][]edgeState{}
	for _, es := range in {
		kk := k{es.from, es.to}
		if _, ok := groups[kk]; !ok {
			order = append(order, kk)
		}
		groups[kk] = append(groups[kk], es)
	}
	var res []edgeState
	// values of the loop body seen after the exits that they dominate
	type join struct {
		es   []edgeState
		sels []*Node
	}
	joins := map[string]*join{}
	vals := map[ssa.Value]bool{}
	for _, es := range in {
		for v := range es.envs {
			vals[v] = true
		}
	}
	for _, v := range valuesOf(vals) {
		ins, ok := v.(ssa.Instruction)
		if !ok {
			continue
		}
		key := ""
		var es []edgeState
		for i, kk := range order {
			if !ins.Block().Dominates(kk.f) {
				continue
			}
			all := true
			for _, x := range groups[kk] {
				if _, has := x.envs[v]; !has {
					all = false
				}
			}
			if all {
				key += fmt.Sprintf("%d,", i)
				es = append(es, groups[kk]...)
			}
		}
		if len(es) == 0 {
			continue
		}
		if joins[key] == nil {
			_, sels := e.mergeEdges(es)
			joins[key] = &join{es, sels}
		}
		jn := joins[key]
		var vs []*Node
		for _, x := range jn.es {
			vs = append(vs, x.envs[v])
		}
		fr.env[v] = muxSel(jn.sels, vs)
	}
	for _, kk := range order {
		g := groups[kk]
		st, sels := e.mergeEdges(g)
		es := edgeState{from: kk.f, to: kk.t, st: st}
		if len(g) >= 1 {
			pins := map[*ssa.Phi]*Node{}
			for _, p := range valuesOf(g[0].pin) {
				var vs []*Node
				for _, x := range g {
					vs = append(vs, x.pin[p])
				}
				pins[p] = muxSel(sels, vs)
			}
			es.pin = pins
		}
		res = append(res, es)
	}
	return res
}

// constTrip determines a constant trip count of counting loops.
func (fr *frame) constTrip(nl *natLoop, iff *ssa.If, phis []*ssa.Phi, inits map[*ssa.Phi]*Node) (int, bool) {
	h := nl.header
	cmp, ok := iff.Cond.(*ssa.BinOp)
	if !ok || cmp.Block() != h {
		return 0, false
	}
	// operands: phi or phi+c on one side, loop invariant constant on the other
	cur := map[*ssa.Phi]int64{}
	for _, p := range phis {
		if c, ok := constInt64(inits[p]); ok && isInteger(p.Type()) {
			cur[p] = c
		}
	}
	steps := map[*ssa.Phi]int64{}
	for _, p := range phis {
		if _, ok := cur[p]; !ok {
			continue
		}
		var step *int64
		bad := false
		for i, pred := range h.Preds {
			if !nl.blocks[pred] {
				continue
			}
			b, ok := p.Edges[i].(*ssa.BinOp)
			if !ok || b.Op != token.ADD && b.Op != token.SUB || b.X != ssa.Value(p) {
				bad = true
				break
			}
			c, ok := b.Y.(*ssa.Const)
			if !ok {
				bad = true
				break
			}
			v := c.Int64()
			if b.Op == token.SUB {
				v = -v
			}
			if step != nil && *step != v {
				bad = true
			}
			step = &v
		}
		if !bad && step != nil {
			steps[p] = *step
		}
	}
	val := func(v ssa.Value, it int64) (int64, bool) {
		add := int64(0)
		if b, ok := v.(*ssa.BinOp); ok && b.Op == token.ADD && b.Block() == h {
			if c, ok := b.Y.(*ssa.Const); ok {
				add = c.Int64()
				v = b.X
			}
		}
		if p, ok := v.(*ssa.Phi); ok && p.Block() == h {
			s, ok := steps[p]
			if !ok {
				return 0, false
			}
			return cur[p] + s*it + add, true
		}
		var n *Node
		switch x := v.(type) {
		case *ssa.Const:
			n = fr.val(x)
		case *ssa.Call:
			// len of something defined outside of the loop
			if bi, ok := x.Call.Value.(*ssa.Builtin); ok && bi.Name() == "len" {
				if dv, ok := x.Call.Args[0].(ssa.Instruction); ok && nl.blocks[dv.Block()] {
					return 0, false
				}
				n = lenOf(fr.val(x.Call.Args[0]))
			} else {
				return 0, false
			}
		default:
			if in, ok := v.(ssa.Instruction); ok && nl.blocks[in.Block()] {
				return 0, false
			}
			n = fr.val(v)
		}
		c, ok := constInt64(n)
		return c + add, ok
	}
	inLoopOnTrue := nl.blocks[h.Succs[0]]
	for it := int64(0); it <= int64(fr.e.UnrollTo)+1; it++ {
		x, ok1 := val(cmp.X, it)
		y, ok2 := val(cmp.Y, it)
		if !ok1 || !ok2 {
			return 0, false
		}
		var t bool
		switch cmp.Op {
		case token.LSS:
			t = x < y
		case token.LEQ:
			t = x <= y
		case token.GTR:
			t = x > y
		case token.GEQ:
			t = x >= y
		case token.NEQ:
			t = x != y
		case token.EQL:
			t = x == y
		default:
			return 0, false
		}
		if t != inLoopOnTrue {
			return int(it), true
		}
	}
	return 0, false
}

// ---------------------------------------------------------------- blocks

func (fr *frame) block(b *ssa.BasicBlock, st *State, push func(edgeState)) {
	e := fr.e
	for _, ins := range b.Instrs {
		e.steps++
		if e.steps > e.maxSteps {
			panic(tooComplex{"analysis budget exceeded in " + fr.fn.String()})
		}
		switch x := ins.(type) {
		case *ssa.Phi:
			continue
		case *ssa.If:
			c := toBool(fr.val(x.Cond))
			ct, cf := and(st.cond, c), and(st.cond, not(c))
			push(edgeState{from: b, to: b.Succs[0], st: &State{cond: ct, mem: st.mem}, pidx: edgePred(b, 0), pset: true})
			push(edgeState{from: b, to: b.Succs[1], st: &State{cond: cf, mem: st.mem}, pidx: edgePred(b, 1), pset: true})
			return
		case *ssa.Jump:
			push(edgeState{from: b, to: b.Succs[0], st: st})
			return
		case *ssa.Return:
			var vals []*Node
			for _, r := range x.Results {
				vals = append(vals, fr.val(r))
			}
			fr.effect(&Effect{Kind: "return", Args: vals, Instr: ins}, st)
			fr.rets = append(fr.rets, retState{st, vals})
			return
		case *ssa.Panic:
			fr.effect(&Effect{Kind: "panic", Args: []*Node{fr.val(x.X)}, Instr: ins}, st)
			return
		default:
			fr.instr(ins, st)
			if st.cond == T.False {
				return
			}
		}
	}
}

// edgePred is the index of the edge b->succ in the predecessors of succ
func edgePred(b *ssa.BasicBlock, i int) int {
	s := b.Succs[i]
	// both edges to the same block: first and second occurrence
	nth := 0
	for j := 0; j < i; j++ {
		if b.Succs[j] == s {
			nth++
		}
	}
	for k, p := range s.Preds {
		if p == b {
			if nth == 0 {
				return k
			}
			nth--
		}
	}
	return 0
}

func (fr *frame) effect(ef *Effect, st *State) *Effect {
	e := fr.e
	e.seq++
	ef.Seq = e.seq
	ef.Fn = fr.fn
	ef.Cond = e.restrictFacts(and(fr.base, st.cond))
	ef.Loops = fr.loops
	if st.mem != nil {
		ef.Mem = st.mem.clone()
	}
	ef.Ctx = fr.ctx
	ef.Gor = e.gor
	ef.Defer = fr.isDef
	e.Effects = append(e.Effects, ef)
	return ef
}

func (fr *frame) sym(ins ssa.Instruction, tag string, typ types.Type) *Term {
	return mk("sym", fmt.Sprintf("%s@%d.%d", tag, fr.ctx.id, fr.info.instr[ins]), ins, typ, fr.iters...)
}

func (fr *frame) alloc(ins ssa.Instruction, tag string, typ types.Type) *Term {
	t := mk("alloc", fmt.Sprintf("new:%s@%d.%d", tag, fr.ctx.id, fr.info.instr[ins]), ins, typ, fr.iters...)
	rootsByID[t.id] = t
	return t
}

func globalTerm(g *ssa.Global) *Term {
	t := mk("global", g.String(), g, g.Type())
	rootsByID[t.id] = t
	return t
}

func (fr *frame) val(v ssa.Value) *Node {
	if n, ok := fr.env[v]; ok {
		return n
	}
	switch x := v.(type) {
	case *ssa.Const:
		return constNode(x.Value, x.Type())
	case *ssa.Global:
		return leafNode(globalTerm(x))
	case *ssa.Function:
		return mkN("func", x.String(), x, x.Type())
	case *ssa.Builtin:
		return mkN("builtin", x.Name(), x, x.Type())
	}
	fr.e.warn("no value for %s in %s", v.Name(), fr.fn)
	n := symNode(mk("sym", fmt.Sprintf("?%s@%d", v.Name(), fr.ctx.id), nil, v.Type()))
	fr.env[v] = n
	return n
}
