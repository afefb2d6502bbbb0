package main

import (
	"strings"

	"golang.org/x/tools/go/ssa"
)

// repoFns: the functions of the packages that have source, including
// anonymous ones.
func (r *Report) repoFns(rels ...string) []*ssa.Function {
	var l []*ssa.Function
	for _, fn := range r.L.Fns {
		if fn.Blocks == nil || fn.Synthetic != "" && fn.Parent() == nil {
			continue
		}
		root := fn
		for root.Parent() != nil {
			root = root.Parent()
		}
		for _, rel := range rels {
			if p := r.L.pkg(rel); p != nil && root.Pkg == p {
				l = append(l, fn)
			}
		}
	}
	return l
}

func (r *Report) allRepo(fn *ssa.Function) bool { return true }

func init() {
	register("C03", "Error-flow analysis of every function of the decoding packages: the condition under which a called operation fails must end all loops around the call and imply that an error is returned.", func(r *Report) {
		// helpers that keep an error for their callers are judged as a part
		// of each of these
		keeps := r.errorKeepers("codec", "codec/hyperjson", "proxy")
		opaque := func(fn *ssa.Function) bool { return !keeps[fn] }
		for _, fn := range r.repoFns("codec", "codec/hyperjson", "proxy") {
			if strings.HasPrefix(fn.Name(), "init") && fn.Parent() == nil || keeps[fn] {
				continue
			}
			e := r.engine(opaque)
			res := e.Eval(fn, nil, nil, nil)
			r.used(res)
			errorsLead(r, e, res, "errors", fnLabel(fn), nil)
		}
		r.count("errors", 100)
	})
}

// errorKeepers: functions that return no error although an operation in them
// can fail, store an error somewhere, and are only called, by name, from
// functions of the packages, without recursion.
func (r *Report) errorKeepers(rels ...string) map[*ssa.Function]bool {
	fns := r.repoFns(rels...)
	callers := map[*ssa.Function]map[*ssa.Function]bool{}
	escapes := map[*ssa.Function]bool{}
	for _, fn := range r.L.Fns {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				var static *ssa.Function
				if c, ok := in.(*ssa.Call); ok {
					static = c.Call.StaticCallee()
					if static != nil {
						if callers[static] == nil {
							callers[static] = map[*ssa.Function]bool{}
						}
						callers[static][fn] = true
					}
				}
				n := 0
				for _, op := range in.Operands(nil) {
					if f, ok := (*op).(*ssa.Function); ok {
						if f == static && n == 0 {
							n++
							continue
						}
						escapes[f] = true
					}
				}
			}
		}
	}
	in := map[*ssa.Function]bool{}
	for _, fn := range fns {
		in[fn] = true
	}
	keeps := map[*ssa.Function]bool{}
	for _, fn := range fns {
		sig := fn.Signature
		if k := sig.Results().Len(); k > 0 && isErrorType(sig.Results().At(k-1).Type()) {
			continue
		}
		if escapes[fn] || len(callers[fn]) == 0 || !storesError(fn) {
			continue
		}
		ok := true
		for c := range callers[fn] {
			ok = ok && in[c]
		}
		if ok {
			keeps[fn] = true
		}
	}
	// no recursion among them
	for fn := range keeps {
		seen := map[*ssa.Function]bool{}
		var walk func(f *ssa.Function) bool
		walk = func(f *ssa.Function) bool {
			for c := range callers[f] {
				if c == fn {
					return true
				}
				if keeps[c] && !seen[c] {
					seen[c] = true
					if walk(c) {
						return true
					}
				}
			}
			return false
		}
		if walk(fn) {
			delete(keeps, fn)
		}
	}
	return keeps
}

// storesError: the function stores an error in memory that outlives it.
func storesError(fn *ssa.Function) bool {
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if s, ok := in.(*ssa.Store); ok && isErrorType(s.Val.Type()) {
				switch a := s.Addr.(type) {
				case *ssa.Alloc:
				case *ssa.FieldAddr:
					if _, ok := a.X.(*ssa.Alloc); !ok {
						return true
					}
				default:
					return true
				}
			}
		}
	}
	return false
}
