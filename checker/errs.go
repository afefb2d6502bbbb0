package main

// Error discipline: an error that a call returns makes the function return an
// error.

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// errOf: the error result of a call.
func errOf(ef *Effect) *Node {
	if ef.Res == nil || ef.Instr == nil {
		return nil
	}
	v, ok := ef.Instr.(interface{ Type() types.Type })
	if !ok {
		return nil
	}
	switch t := v.Type().(type) {
	case *types.Tuple:
		if t.Len() == 0 || !isErrorType(t.At(t.Len()-1).Type()) {
			return nil
		}
		return tupleElem(ef.Res, t.Len()-1)
	default:
		if isErrorType(t) {
			return ef.Res
		}
	}
	return nil
}

// leaves substitutes the last iteration for all loops of the effect.
func atExit(n *Node, loops []*Loop) *Node {
	for _, L := range loops {
		n = restrictKX(n, L)
	}
	return n
}

// errorsLead demands that errors of the calls that pass the filter end the
// loops they happen in and are returned as an error.
func errorsLead(r *Report, e *Engine, res *EvalResult, rule, label string, filter func(ef *Effect) bool) int {
	n := 0
	var rv *Node
	sig := res.Fn.Signature
	if k := sig.Results().Len(); k > 0 && isErrorType(sig.Results().At(k-1).Type()) && len(res.Results) == k {
		rv = res.Results[k-1]
	}
	for _, ef := range effs(res, "call", nil) {
		E := errOf(ef)
		if E == nil || ef.Gor != nil || filter != nil && !filter(ef) {
			continue
		}
		fail := and(ef.Cond, not(nilNode(E)))
		if strings.HasSuffix(ef.Name, ".Read") && len(ef.Res.leaf.args) == 2 {
			// the end of the input is no error if it comes with data
			eof := eq(E, r.ioEOF(e))
			fail = and(fail, or(not(eof), eq(tupleElem(ef.Res, 0), intConst(0))))
		}
		if fail == T.False {
			continue
		}
		n++
		what := label + ": error of " + shortName(ef.Name)
		if rv == nil {
			r.ob(rule, what, false, r.at(ef), "the function returns no error")
			continue
		}
		ok := true
		why := "ends the loops around it and is returned as an error"
		// from the innermost loop outwards: the iteration that fails is the
		// last one
		for i := len(ef.Loops) - 1; i >= 0; i-- {
			L := ef.Loops[i]
			if x := and(L.Stay, fail); x != T.False {
				ok, why = false, "the loop goes on after the error if "+short(x)
				break
			}
			fail = restrictKX(fail, L)
		}
		if ok {
			// in the iteration that leaves the loop
			if x := r.noCtorNil(res, ands(fail, res.RetCond(), nilNode(rv))); x != T.False {
				ok, why = false, "no error is returned although it failed, if "+short(x)
			}
		}
		r.ob(rule, what, ok, r.at(ef), "%s", why)
	}
	return n
}

// ioEOF is the value of io.EOF.
func (r *Report) ioEOF(e *Engine) *Node {
	for _, p := range r.L.Prog.AllPackages() {
		if p.Pkg.Path() == "io" {
			if g, ok := p.Members["EOF"].(*ssa.Global); ok {
				return e.loadAt(newMem(), leafNode(globalTerm(g)), derefType(g.Type()))
			}
		}
	}
	panic("anchor: io.EOF")
}

// noCtorNil uses that constructors of errors never return nil.
func (r *Report) noCtorNil(res *EvalResult, x *Node) *Node {
	for _, ef := range effs(res, "call", nil) {
		if x == T.False {
			break
		}
		if ef.Callee == nil || ef.Res == nil || ef.Res.leaf == nil || !r.neverNil(ef.Callee) {
			continue
		}
		t := mk("isnil", "", nil, types.Typ[types.Bool], ef.Res)
		x = assign(x, t, false)
		for _, L := range ef.Loops {
			x = assign(x, mk("isnil", "", nil, types.Typ[types.Bool], restrictKX(ef.Res, L)), false)
		}
	}
	return x
}

// neverNil: a function with one result, an error that is never nil.
func (r *Report) neverNil(fn *ssa.Function) bool {
	if v, ok := r.ctors[fn]; ok {
		return v
	}
	if r.ctors == nil {
		r.ctors = map[*ssa.Function]bool{}
	}
	r.ctors[fn] = false
	s := fn.Signature
	if fn.Blocks == nil || s.Results().Len() != 1 || !isErrorType(s.Results().At(0).Type()) {
		return false
	}
	e := r.engine(r.allRepo)
	res := e.Eval(fn, nil, nil, nil)
	r.ctors[fn] = len(res.Results) == 1 && and(res.RetCond(), nilNode(res.Results[0])) == T.False
	return r.ctors[fn]
}

// RetCond: the condition of returning from the entry function.
func (res *EvalResult) RetCond() *Node {
	c := T.False
	for _, ef := range res.Effects {
		if ef.Kind == "return" && ef.Ctx != nil && ef.Ctx.parent == nil {
			c = or(c, ef.Cond)
		}
	}
	return c
}
