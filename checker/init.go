package main

// Values of package level variables: the package initialisers are evaluated,
// and everything that only they can write keeps its value.

import (
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func isInitFn(fn *ssa.Function) bool {
	for f := fn; f != nil; f = f.Parent() {
		if f.Parent() == nil {
			n := f.Name()
			return f.Signature.Recv() == nil && (n == "init" || strings.HasPrefix(n, "init#"))
		}
	}
	return false
}

// globalMutable: is the variable used outside of the initialisers other than
// by reading it?
func (l *Loaded) mutableGlobals() map[*ssa.Global]bool {
	mut := map[*ssa.Global]bool{}
	var readOnly func(v ssa.Value) bool
	readOnly = func(v ssa.Value) bool {
		refs := v.Referrers()
		if refs == nil {
			return false
		}
		for _, r := range *refs {
			switch x := r.(type) {
			case *ssa.UnOp:
			case *ssa.FieldAddr:
				if !readOnly(x) {
					return false
				}
			case *ssa.IndexAddr:
				if !readOnly(x) {
					return false
				}
			case *ssa.DebugRef:
			default:
				return false
			}
		}
		return true
	}
	for _, fn := range l.Fns {
		if isInitFn(fn) && fn.Parent() == nil {
			continue
		}
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				for _, op := range ins.Operands(nil) {
					g, ok := (*op).(*ssa.Global)
					if !ok {
						continue
					}
					switch x := ins.(type) {
					case *ssa.UnOp:
					case *ssa.FieldAddr:
						if !readOnly(x) {
							mut[g] = true
						}
					case *ssa.IndexAddr:
						if !readOnly(x) {
							mut[g] = true
						}
					case *ssa.DebugRef:
					default:
						mut[g] = true
					}
				}
			}
		}
	}
	return mut
}

func (e *Engine) evalInit() (err error) {
	l := e.L
	m := newMem()
	var order []*ssa.Package
	seen := map[*types.Package]bool{}
	var visit func(p *types.Package)
	visit = func(p *types.Package) {
		if seen[p] {
			return
		}
		seen[p] = true
		for _, q := range p.Imports() {
			if l.isRepo(q) {
				visit(q)
			}
		}
		if sp := l.byPkg[p.Path()]; sp != nil {
			order = append(order, sp)
		}
	}
	var paths []string
	for k := range l.byPkg {
		paths = append(paths, k)
	}
	sort.Strings(paths)
	for _, k := range paths {
		visit(l.byPkg[k].Pkg)
	}
	for _, sp := range order {
		var names []string
		for n := range sp.Members {
			names = append(names, n)
		}
		sort.Strings(names)
		for _, n := range names {
			if g, ok := sp.Members[n].(*ssa.Global); ok {
				b := newRNode(rBase)
				b.zero = true
				b.label = "0"
				m.regs[regionKey(globalTerm(g))] = b
			}
		}
	}
	saved := e.Opaque
	e.Opaque = nil
	for _, sp := range order {
		fn := sp.Func("init")
		if fn == nil {
			continue
		}
		r := e.Eval(fn, nil, nil, m)
		if r.Out == nil {
			e.warn("package initialiser of %s does not return", sp.Pkg.Path())
			continue
		}
		m = r.Out.mem
	}
	e.Opaque = saved
	e.Effects = nil
	e.loopsRec = nil
	// what other code can change is unknown
	mut := l.mutableGlobals()
	mods := map[string]bool{}
	for _, fn := range l.Fns {
		if isInitFn(fn) && fn.Parent() == nil {
			continue
		}
		for k := range e.modset(fn) {
			mods[k] = true
		}
	}
	kinds := map[string]bool{}
	for k := range mods {
		switch {
		case strings.HasPrefix(k, "F:"):
			kinds["fieldaddr|"+k[2:]] = true
		case strings.HasPrefix(k, "I:"):
			kinds["indexaddr|"+k[2:]] = true
		case strings.HasPrefix(k, "M:"):
			kinds["mapcell|"+k[2:]] = true
			kinds["maphas|"+k[2:]] = true
			kinds["maplen|"+k[2:]] = true
		}
	}
	out := newMem()
	for _, k := range keysOf(m.regs) {
		r := m.regs[k]
		root := rootOfKeyFast(k)
		if root == nil {
			continue
		}
		switch root.op {
		case "global":
			g, _ := root.obj.(*ssa.Global)
			if g == nil || mut[g] || !l.isRepo(g.Pkg.Pkg) {
				continue
			}
			out.regs[k] = r
		case "alloc":
			if mods["P:"+elemTypeString(root.typ)] {
				continue
			}
			out.regs[k] = r
			e.havocRegion(out, k, "init", nil, kinds)
		}
	}
	e.initMem = out
	return nil
}
