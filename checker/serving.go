package main

// The HTTP side: routes, handlers and the gzip wrapper, found from the entry
// point MainWithRouting.

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type endpoint struct {
	method, path string
	handler      *Node
	ef           *Effect
	router       *Node
	kind         string
}

type serving struct {
	main      *EvalResult
	serve     *Effect
	setup     *EvalResult // evaluation of the routing callback
	router    *Node
	endpoints []*endpoint
	userCall  *Effect // call of the user's routing function
	handler   *Node   // what is served
	inputs    *Node
}

// exportedOf: exported functions and methods of the given packages, below the
// module root.
func exportedOf(l *Loaded, rels ...string) map[*ssa.Function]bool {
	m := map[*ssa.Function]bool{}
	for _, fn := range l.Fns {
		for _, rel := range rels {
			p := l.pkg(rel)
			if p != nil && fn.Pkg == p && fn.Parent() == nil && fn.Object() != nil && fn.Object().Exported() {
				m[fn] = true
			}
		}
	}
	return m
}

func (r *Report) mainOpaque() func(fn *ssa.Function) bool {
	ex := exportedOf(r.L, "codec", "balance", "datadog", "cache")
	if p := r.L.pkg(""); p != nil {
		for _, fn := range r.L.Fns {
			if fn.Pkg == p && fn.Parent() == nil && fn.Object() != nil && fn.Object().Exported() {
				switch fn.Name() {
				case "Main", "MainWithRouting", "NewSpansBuffer":
				default:
					ex[fn] = true
				}
			}
		}
	}
	return func(fn *ssa.Function) bool { return ex[fn] }
}

// closureEval evaluates a function value in the given memory.
func (e *Engine) closureEval(fv *Node, params []*Node, mem *Mem) (*EvalResult, error) {
	t := fv.leaf
	if t == nil {
		return nil, fmt.Errorf("the function value depends on a condition: %v", fv)
	}
	if t.op == "mkiface" {
		t = t.args[0].leaf
	}
	switch {
	case t != nil && (t.op == "closure" || t.op == "func"):
		fn := t.obj.(*ssa.Function)
		if fn.Blocks == nil {
			return nil, fmt.Errorf("no source of %s", fn)
		}
		var bind []*Node
		if t.op == "closure" {
			bind = t.args[:len(fn.FreeVars)]
		}
		if mem != nil {
			mem = mem.clone()
		}
		return e.Eval(fn, params, bind, mem), nil
	}
	// an object that is an http.Handler
	if fv.leaf.op == "mkiface" {
		if ty, ok := fv.leaf.obj.(types.Type); ok {
			if sel := e.L.Prog.MethodSets.MethodSet(ty).Lookup(nil, "ServeHTTP"); sel != nil {
				if fn := e.L.Prog.MethodValue(sel); fn != nil && fn.Blocks != nil {
					if mem != nil {
						mem = mem.clone()
					}
					for len(params) < len(fn.Params)-1 {
						i := len(params) + 1
						params = append(params, symNode(mk("sym", "$"+fn.Params[i].Name(), nil, fn.Params[i].Type())))
					}
					return e.Eval(fn, append([]*Node{fv.leaf.args[0]}, params...), nil, mem), nil
				}
			}
		}
	}
	return nil, fmt.Errorf("unresolved function value %v", fv)
}

func structField(n *Node, name string) *Node {
	t := n.leaf
	if t == nil || t.op != "struct" {
		return nil
	}
	st, ok := t.typ.Underlying().(*types.Struct)
	if !ok {
		return nil
	}
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() == name {
			return t.args[i]
		}
	}
	return nil
}

// stripIface removes a conversion to an interface.
func stripIface(n *Node) *Node {
	for n.leaf != nil && n.leaf.op == "mkiface" {
		n = n.leaf.args[0]
	}
	return n
}

func (r *Report) serving(opaque func(fn *ssa.Function) bool) *serving {
	s := &serving{}
	e := r.engine(opaque)
	s.main = e.Eval(r.entry("", "MainWithRouting"), nil, nil, nil)
	r.used(s.main)
	for _, ef := range s.main.Effects {
		if ef.Kind == "call" && strings.HasSuffix(ef.Name, "startup_http.HTTPOptions).Serve") {
			if s.serve != nil {
				r.ob("anchor", "one HTTP server is started", false, r.L.pos(ef.Instr), "second call of Serve")
			}
			s.serve = ef
		}
	}
	if s.serve == nil {
		panic("anchor: MainWithRouting does not call HTTPOptions.Serve")
	}
	where := r.L.pos(s.serve.Instr)
	cfg := structField(s.serve.Args[len(s.serve.Args)-1], "Routing")
	if cfg == nil {
		panic("anchor: the configuration of the HTTP server has no routing function")
	}
	s.router = leafNode(mk("sym", "$router", nil, nil))
	res, err := e.closureEval(cfg, []*Node{s.router}, s.serve.Mem)
	if err != nil {
		panic("anchor: routing function: " + err.Error())
	}
	r.used(res)
	s.setup = res
	_ = where
	for _, ef := range res.Effects {
		if ef.Kind != "call" {
			continue
		}
		const rt = "github.com/julienschmidt/httprouter.Router)."
		i := strings.Index(ef.Name, rt)
		if i < 0 {
			if ef.Name == "dynamic" {
				s.userCall = ef
			}
			continue
		}
		ep := &endpoint{ef: ef, kind: ef.Name[i+len(rt):], router: ef.Args[0]}
		a := ef.Args[1:]
		switch ep.kind {
		case "GET", "HEAD", "OPTIONS", "POST", "PUT", "PATCH", "DELETE":
			ep.method = ep.kind
		case "Handle", "Handler", "HandlerFunc":
			ep.method, _ = constString(a[0])
			a = a[1:]
		default:
			continue
		}
		ep.path, _ = constString(a[0])
		ep.handler = a[1]
		s.endpoints = append(s.endpoints, ep)
	}
	if len(res.Results) > 0 {
		s.handler = res.Results[0]
	}
	return s
}

func (s *serving) find(method, path string) []*endpoint {
	var l []*endpoint
	for _, ep := range s.endpoints {
		if ep.method == method && ep.path == path {
			l = append(l, ep)
		}
	}
	return l
}

func (r *Report) opaqueSet(m map[*ssa.Function]bool) func(fn *ssa.Function) bool {
	return func(fn *ssa.Function) bool { return m[fn] }
}
