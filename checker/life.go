package main

// Lifetimes: a view of the parser's buffer is not used after the parser
// continued to read, and a pooled object is not used after it was given back.
// Both are questions about paths in the control flow graph: from the
// definition over the invalidating call to a use, without passing the
// definition again.

import (
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// refills: functions that can move or overwrite the buffer of a parser.
func (r *Report) refills(fns []*ssa.Function) map[*ssa.Function]bool {
	m := map[*ssa.Function]bool{}
	for ch := true; ch; {
		ch = false
		for _, fn := range fns {
			if m[fn] {
				continue
			}
			for _, b := range fn.Blocks {
				for _, ins := range b.Instrs {
					if c, ok := ins.(ssa.CallInstruction); ok && r.refillCall(c.Common(), m) {
						m[fn] = true
						ch = true
					}
				}
			}
		}
	}
	return m
}

func (r *Report) refillCall(c *ssa.CallCommon, m map[*ssa.Function]bool) bool {
	if c.IsInvoke() {
		return c.Method.Name() == "Read"
	}
	if fn := c.StaticCallee(); fn != nil {
		if _, ok := c.Value.(*ssa.MakeClosure); !ok {
			return m[fn]
		}
		return m[fn]
	}
	if _, ok := c.Value.(*ssa.Builtin); ok {
		return false
	}
	for _, a := range c.Args {
		if r.isParserPtr(a.Type()) {
			return true
		}
	}
	return false
}

// derived: values (in the function) that share memory with v.
func (an *aliasAn) derived(fn *ssa.Function, v ssa.Value) map[ssa.Value]bool {
	d := map[ssa.Value]bool{v: true}
	cells := map[ssa.Value]bool{} // local variables that hold such a value
	cell := func(a ssa.Value) ssa.Value {
		for {
			switch x := a.(type) {
			case *ssa.FieldAddr:
				a = x.X
			case *ssa.Convert:
				a = x.X
			case *ssa.ChangeType:
				a = x.X
			case *ssa.Alloc:
				return x
			default:
				return nil
			}
		}
	}
	for ch := true; ch; {
		ch = false
		add := func(x ssa.Value) {
			if !d[x] && (holds(x.Type()) && !isErrorType(x.Type())) {
				d[x] = true
				ch = true
			}
		}
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				switch x := ins.(type) {
				case *ssa.Store:
					if c := cell(x.Addr); c != nil && d[x.Val] && !cells[c] {
						cells[c] = true
						ch = true
					}
				case *ssa.UnOp:
					if c := cell(x.X); c != nil && cells[c] {
						add(x)
					}
				case *ssa.Phi:
					for _, e := range x.Edges {
						if d[e] {
							add(x)
						}
					}
				case *ssa.Extract:
					if d[x.Tuple] {
						add(x)
					}
				case *ssa.Field:
					if d[x.X] {
						add(x)
					}
				case *ssa.Slice:
					if d[x.X] {
						add(x)
					}
				case *ssa.ChangeType:
					if d[x.X] {
						add(x)
					}
				case *ssa.TypeAssert:
					if d[x.X] {
						add(x)
					}
				case *ssa.MakeInterface:
					if d[x.X] {
						add(x)
					}
				case *ssa.FieldAddr:
					if d[x.X] {
						add(x)
					}
				case *ssa.IndexAddr:
					if d[x.X] {
						add(x)
					}
				case *ssa.Call:
					f := &afun{an: an, fn: fn}
					for _, callee := range f.callees(x.Common()) {
						s := an.summary(callee, constArgs(x.Call.Args))
						for i, a := range f.args(x.Common(), callee) {
							if !d[a] {
								continue
							}
							for k, set := range s.ret {
								for l := range set {
									if l.src == i && (len(s.ret) == 1 || k >= 0) {
										add(x)
									}
								}
							}
						}
					}
				}
			}
		}
	}
	return d
}

type instrPos struct {
	b *ssa.BasicBlock
	i int
}

// after: instructions that can be executed after the start without executing
// stop first.
func after(start, stop ssa.Instruction) map[ssa.Instruction]bool {
	seen := map[ssa.Instruction]bool{}
	var work []instrPos
	idx := func(ins ssa.Instruction) int {
		for i, x := range ins.Block().Instrs {
			if x == ins {
				return i
			}
		}
		return -1
	}
	work = append(work, instrPos{start.Block(), idx(start) + 1})
	for len(work) > 0 {
		p := work[len(work)-1]
		work = work[:len(work)-1]
		i := p.i
		for ; i < len(p.b.Instrs); i++ {
			ins := p.b.Instrs[i]
			if ins == stop || seen[ins] {
				break
			}
			seen[ins] = true
		}
		if i == len(p.b.Instrs) {
			for _, s := range p.b.Succs {
				work = append(work, instrPos{s, 0})
			}
		}
	}
	return seen
}

// usedAfter: a use of the values after an invalidating instruction.
func usedAfter(def ssa.Instruction, vals map[ssa.Value]bool, kill func(ins ssa.Instruction) bool) (k, use ssa.Instruction) {
	for ins := range after(def, def) {
		if !kill(ins) {
			continue
		}
		for u := range after(ins, def) {
			if !realUse(u, vals) {
				continue
			}
			if use == nil || u.Pos() < use.Pos() {
				k, use = ins, u
			}
		}
	}
	return
}

func realUse(u ssa.Instruction, vals map[ssa.Value]bool) bool {
	switch x := u.(type) {
	case *ssa.Phi, *ssa.DebugRef:
		return false
	case *ssa.Extract:
		return false
	case *ssa.RunDefers:
		return false
	case *ssa.Defer:
		return false
	case *ssa.Call:
		if b, ok := x.Call.Value.(*ssa.Builtin); ok && (b.Name() == "len" || b.Name() == "cap") {
			return false
		}
		if isPoolMethod(x.Common(), "Put") {
			return false
		}
	}
	for _, op := range u.Operands(nil) {
		if *op != nil && vals[*op] {
			return true
		}
	}
	return false
}

func (r *Report) lifetimes(an *aliasAn) {
	fns := r.repoFns("codec", "codec/hyperjson")
	refill := r.refills(fns)
	tok := r.L.typ("codec/hyperjson", "Token")
	kill := func(ins ssa.Instruction) bool {
		c, ok := ins.(ssa.CallInstruction)
		if !ok {
			return false
		}
		if _, ok := ins.(*ssa.Defer); ok {
			return false
		}
		return r.refillCall(c.Common(), refill)
	}
	for _, fn := range fns {
		var bad []string
		n := 0
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				v, ok := ins.(ssa.Value)
				if !ok || !r.isView(v, tok) {
					continue
				}
				n++
				if k, use := usedAfter(ins, an.derived(fn, v), kill); use != nil {
					bad = append(bad, "the text that is read at "+r.L.pos(ins)+" is used at "+r.L.pos(use)+" after the parser continued at "+r.L.pos(k))
				}
			}
		}
		if n > 0 {
			sort.Strings(bad)
			r.ob("lifetime", fnLabel(fn)+" uses text before the parser continues", len(bad) == 0, r.L.fnPos(fn), "%s", strings.Join(bad, "; "))
		}
	}
	// pooled objects
	for _, fn := range r.repoFns("codec", "codec/hyperjson", "cache", "proxy", "") {
		var bad []string
		n := 0
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				c, ok := ins.(*ssa.Call)
				if !ok || !isPoolMethod(c.Common(), "Get") {
					continue
				}
				n++
				vals := an.derived(fn, c)
				put := func(x ssa.Instruction) bool {
					p, ok := x.(*ssa.Call)
					return ok && isPoolMethod(p.Common(), "Put") && vals[p.Call.Args[1]]
				}
				if k, use := usedAfter(c, vals, put); use != nil {
					bad = append(bad, "the pooled object of "+r.L.pos(c)+" is used at "+r.L.pos(use)+" after it was given back at "+r.L.pos(k))
				}
				// given back at most once
				puts := 0
				for _, b2 := range fn.Blocks {
					for _, x := range b2.Instrs {
						if p, ok := x.(ssa.CallInstruction); ok && isPoolMethod(p.Common(), "Put") && vals[p.Common().Args[1]] {
							if puts++; puts > 1 {
								for _, b3 := range fn.Blocks {
									for _, y := range b3.Instrs {
										q, ok := y.(ssa.CallInstruction)
										if ok && y != x && isPoolMethod(q.Common(), "Put") && vals[q.Common().Args[1]] && (after(y, c)[x] || after(x, c)[y]) {
											bad = append(bad, "the pooled object of "+r.L.pos(c)+" is given back twice, at "+r.L.pos(x)+" and "+r.L.pos(y))
										}
									}
								}
							}
						}
					}
				}
			}
		}
		if n > 0 {
			sort.Strings(bad)
			r.ob("lifetime", fnLabel(fn)+" does not use pooled memory that was given back", len(bad) == 0, r.L.fnPos(fn), "%s", strings.Join(bad, "; "))
		}
	}
}

// isView: a token that a call returned, or the parser's buffer itself.
func (r *Report) isView(v ssa.Value, tok types.Type) bool {
	if c, ok := v.(*ssa.Call); ok {
		if tok != nil && types.Identical(c.Type(), tok) {
			return true
		}
		if t, ok := c.Type().(*types.Tuple); ok {
			for i := 0; i < t.Len(); i++ {
				if tok != nil && types.Identical(t.At(i).Type(), tok) {
					return true
				}
			}
		}
		return false
	}
	if u, ok := v.(*ssa.UnOp); ok {
		if fa, ok := u.X.(*ssa.FieldAddr); ok && r.isParserPtr(fa.X.Type()) {
			_, slice := u.Type().Underlying().(*types.Slice)
			return slice
		}
	}
	return false
}
