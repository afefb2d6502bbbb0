package main

// How a slice is filled: by storing element k in iteration k of a loop, or by
// appending one element per iteration of nested loops.

import "go/types"

type built struct {
	loops []*Loop
	elem  *Node
	init  *Node
	cond  *Node // of adding an element, in its iteration
	ef    *Effect
	mem   *Mem
	why   string
}

func loopPhis(L *Loop) []*LoopPhi {
	return append(append([]*LoopPhi{}, L.Phis...), cellList(L)...)
}

// exitOf finds the loop variable whose final value is v.
func exitOf(res *EvalResult, v *Node) (*Loop, *LoopPhi) {
	for _, L := range res.Loops {
		for _, p := range loopPhis(L) {
			if p.Mu == nil {
				continue
			}
			if restrictKX(leafNode(p.Mu), L) == v {
				return L, p
			}
		}
	}
	return nil, nil
}

// builtSlice explains how v, a slice with elements of type et, was filled.
func (r *Report) builtSlice(res *EvalResult, v *Node, et types.Type, cond *Node) *built {
	// (a) made with its length, element k stored in iteration k
	for _, ef := range effs(res, "store", func(ef *Effect) bool { return len(ef.Loops) > 0 }) {
		a := ef.Args[0].leaf
		if a == nil || a.op != "indexaddr" {
			continue
		}
		L := ef.Loops[len(ef.Loops)-1]
		if ef.Args[0] != indexAddrTerm(sliceData(v), add(sliceOff(v), leafNode(L.K)), et) {
			continue
		}
		b := &built{loops: ef.Loops, elem: ef.Args[1], cond: ef.Cond, ef: ef, mem: ef.Mem}
		n := lenOf(v)
		if len(ef.Loops) != 1 || !ranges(L, n) {
			b.why = "the loop does not visit every element of the result"
		}
		return b
	}
	// (b) appended
	b := &built{}
	cur := v
	var outer *LoopPhi
	for depth := 0; depth < 4; depth++ {
		L, p := exitOf(res, cur)
		if L == nil {
			b.why = "is " + short(cur)
			return b
		}
		if outer == nil {
			if lenOf(p.Init) != intConst(0) {
				b.why = "starts as " + short(p.Init)
			}
		} else if p.Init != leafNode(outer.Mu) {
			b.why = "does not keep the elements of earlier iterations"
		}
		b.loops = append(b.loops, L)
		in := and(L.Entry, L.Stay)
		mu := leafNode(p.Mu)
		want := mu
		for _, ef := range effs(res, "append", nil) {
			if len(ef.Loops) == 0 || ef.Loops[len(ef.Loops)-1] != L || ef.Args[0] != mu {
				continue
			}
			t := ef.Res.leaf
			if t == nil || t.op != "append" || len(t.args) != 2 {
				b.why = "is appended " + short(ef.Res)
				return b
			}
			if b.ef == nil {
				b.ef, b.mem, b.elem, b.cond = ef, ef.Mem, t.args[1], ef.Cond
			} else {
				// several places: at most one of them in an iteration
				if and(b.cond, ef.Cond) != T.False {
					b.why = "grows at several places"
					return b
				}
				if b.elem != t.args[1] {
					b.elem = mux(ef.Cond, t.args[1], b.elem)
				}
				b.cond = or(b.cond, ef.Cond)
			}
			want = mux(ef.Cond, ef.Res, want)
		}
		if b.ef != nil {
			if x := sameUnder(in, p.Step, want); x != nil {
				b.why = "an iteration makes " + short(restrict(p.Step, in)) + " of it"
			}
		}
		if b.ef != nil {
			if len(L.Exits) != 1 {
				b.why = "the loop has several exits"
			}
			return b
		}
		step := restrict(p.Step, in)
		if step.atom != nil {
			b.why = "grows to " + short(step)
			return b
		}
		outer, cur = p, step
	}
	b.why = "is built by too many loops"
	return b
}
