package main

import (
	"go/types"

	"golang.org/x/tools/go/ssa"
)

type hook func(e *Engine, fr *frame, name string, args []*Node, st *State, ins ssa.Instruction) (*Node, bool)

func hooks(hs ...hook) hook {
	return func(e *Engine, fr *frame, name string, args []*Node, st *State, ins ssa.Instruction) (*Node, bool) {
		for _, h := range hs {
			if v, ok := h(e, fr, name, args, st, ins); ok {
				return v, true
			}
		}
		return nil, false
	}
}

// cacheModel: the exported functions of the string cache return a string
// equal to their argument. (Decided separately.)
func cacheModel(e *Engine, fr *frame, name string, args []*Node, st *State, ins ssa.Instruction) (*Node, bool) {
	p := e.L.pkg("cache")
	if p == nil || len(args) != 1 {
		return nil, false
	}
	for n, m := range p.Members {
		fn, ok := m.(*ssa.Function)
		if !ok || fn.String() != name || !fn.Object().Exported() || n == "NewLRUCache" {
			continue
		}
		sig := fn.Signature
		if sig.Params().Len() != 1 || sig.Results().Len() != 1 || !isString(sig.Results().At(0).Type()) {
			continue
		}
		var res *Node
		if isString(sig.Params().At(0).Type()) {
			res = args[0]
		} else if s, ok := sig.Params().At(0).Type().Underlying().(*types.Slice); ok {
			if b, ok := s.Elem().Underlying().(*types.Basic); ok && b.Kind() == types.Uint8 {
				res = e.bytesToString(args[0], st)
			}
		}
		if res == nil {
			continue
		}
		fr.effect(&Effect{Kind: "call", Name: name, Callee: fn, Args: args, Res: res, Instr: ins, Pure: true}, st)
		return res, true
	}
	return nil, false
}
