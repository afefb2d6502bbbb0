package main

// The trace pipeline: ErrorCorrectSpans and what it calls, with the operations
// on one trace (make, add, roots, correct) kept as calls.

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type pipe struct {
	r       *Report
	e       *Engine
	res     *EvalResult
	in, out *Node
	L       *Loop
	recv    *Effect // of a span
	got     *Node   // a span was received
	span    *Node
	ticks   []*Effect
	tick    *Node

	traces, black   *Node
	tracesT, blackT types.Type

	tr *treeType
}

type treeType struct {
	t                                     types.Type // struct
	makeFn, add, roots, correct, debug    *ssa.Function
	spans, count, updated, started, trace string
	countT                                types.Type
	spanT                                 types.Type
	addRes                                *EvalResult
}

// treeInfo finds the fields of a trace by what AddSpan does with them.
func (r *Report) treeInfo() *treeType {
	t := &treeType{makeFn: r.entry("", "newTree"), add: r.entry("", "tree.AddSpan"), roots: r.L.fn("", "tree.Roots"),
		correct: r.entry("", "correctTreeTimings"), debug: r.L.fn("", "debugPrintTrace"), spanT: r.L.typ("proxy", "Span")}
	r.must(t.spanT != nil, "type proxy.Span")
	t.t = derefType(t.add.Signature.Recv().Type())
	st := t.t.Underlying().(*types.Struct)
	merge := r.entry("", "mergeSpansInPlace")
	e := r.engine(func(fn *ssa.Function) bool { return fn == merge || fn == t.debug })
	res := e.Eval(t.add, nil, nil, nil)
	r.used(res)
	t.addRes = res
	stored := map[string]bool{}
	for _, ef := range effs(res, "store", nil) {
		if a := ef.Args[0].leaf; a != nil && a.op == "fieldaddr" && a.args[0] == res.Params[0] {
			stored[a.obj.(*types.Var).Name()] = true
		}
	}
	var ids []string
	for i := 0; i < st.NumFields(); i++ {
		f := st.Field(i)
		switch u := f.Type().Underlying().(type) {
		case *types.Slice:
			if types.Identical(u.Elem(), t.spanT) {
				t.spans = f.Name()
			}
		case *types.Basic:
			if isTime := false; !isTime && u.Info()&types.IsInteger != 0 {
				if stored[f.Name()] {
					t.count, t.countT = f.Name(), f.Type()
				} else {
					ids = append(ids, f.Name())
				}
			}
		case *types.Struct:
			if typeKey(f.Type()) == "time.Time" {
				if stored[f.Name()] {
					t.updated = f.Name()
				} else {
					t.started = f.Name()
				}
			}
		}
	}
	if len(ids) == 1 {
		t.trace = ids[0]
	}
	return t
}

// fld reads a field of the trace t in the memory m.
func (t *treeType) fld(e *Engine, m *Mem, tree *Node, name string) *Node {
	return e.loadAt(m, fieldAddrOf(tree, t.t, name), fieldType(t.t, name))
}

// metricOf: the name of the metric that a method is called on.
func metricOf(ef *Effect) string {
	if len(ef.Args) == 0 {
		return ""
	}
	if t := ef.Args[0].leaf; t != nil && t.op == "metric" {
		s, _ := constString(t.args[0])
		return s
	}
	return ""
}

func marks(res *EvalResult, name string) []*Effect {
	return effs(res, "call", func(ef *Effect) bool {
		return strings.HasSuffix(ef.Name, ".Mark") && metricOf(ef) == name
	})
}

func (r *Report) pipe() *pipe {
	p := &pipe{r: r, tr: r.treeInfo()}
	t := p.tr
	op := map[*ssa.Function]bool{t.makeFn: true, t.add: true, t.correct: true, r.entry("", "mergeSpansInPlace"): true}
	for _, n := range []string{"debugPrintTrace", "tree.Roots", "tree.Root", "tree.ChildrenOf", "tree.GetSpan"} {
		if fn := r.L.fn("", n); fn != nil {
			op[fn] = true
		}
	}
	if t.roots != nil {
		x := r.engine(nil).Eval(t.roots, nil, nil, nil)
		if b := r.builtSlice(x, x.Results[0], types.NewPointer(t.spanT), T.True); b.why == "" && nilNode(b.elem) == T.False {
			T.elemsOf = t.roots.Name()
		}
	}
	p.e = r.engine(r.opaqueSet(op))
	fn := r.entry("", "ErrorCorrectSpans")
	r.must(len(fn.Params) == 2, "ErrorCorrectSpans has %d parameters", len(fn.Params))
	res := p.e.Eval(fn, nil, nil, nil)
	r.used(res)
	p.res, p.in, p.out = res, res.Params[0], res.Params[1]
	for _, ef := range effs(res, "recv", nil) {
		if ef.Args[0] == p.in {
			r.must(p.recv == nil, "spans are received at several places")
			p.recv = ef
		}
	}
	r.must(p.recv != nil && len(p.recv.Loops) == 1, "no loop receives from the input channel")
	p.L = p.recv.Loops[0]
	ok := p.recvOk(p.recv)
	p.got = and(p.recv.Cond, ok)
	p.span = p.recv.Res
	p.tick = T.False
	for _, ef := range effs(res, "recv", nil) {
		if ef.Instr == p.recv.Instr && ef != p.recv {
			p.ticks = append(p.ticks, ef)
			p.tick = or(p.tick, ef.Cond)
		}
	}
	for _, ef := range effs(res, "makemap", nil) {
		mt, _ := ef.Instr.(*ssa.MakeMap)
		if mt == nil || ef.Res == nil {
			continue
		}
		m := mt.Type().Underlying().(*types.Map)
		if types.Identical(derefType(m.Elem()), t.t) {
			r.must(p.traces == nil, "several maps of traces")
			p.traces, p.tracesT = ef.Res, mt.Type()
		} else {
			for _, up := range effs(res, "mapupdate", nil) {
				if up.Args[0] == ef.Res {
					r.must(p.black == nil || p.black == ef.Res, "several maps besides the one of the traces")
					p.black, p.blackT = ef.Res, mt.Type()
				}
			}
		}
	}
	r.must(p.traces != nil, "no map of traces")
	r.must(p.black != nil, "no map of blacklisted traces")
	return p
}

func (p *pipe) recvOk(ef *Effect) *Node {
	s, ok := ef.Instr.(*ssa.Select)
	p.r.must(ok, "the input is not received in a select")
	_ = s
	// the value is recvval<i>(select)
	v := ef.Res
	var base *Term
	walkTerms(v, func(t *Term) bool {
		if t.op == "recvval" {
			base = t
		}
		return true
	})
	p.r.must(base != nil, "received value %s", short(v))
	return leafBool(mk("recvok", base.aux, nil, boolType, base.args[0]))
}

func (p *pipe) sfield(name string) *Node {
	n := structField(p.span, name)
	p.r.must(n != nil, "field %s of a received span", name)
	return n
}

func (p *pipe) isBlack(m *Mem, id *Node) *Node {
	v, has := p.e.mapGet(m, p.black, p.blackT, id)
	if b, ok := p.blackT.Underlying().(*types.Map).Elem().Underlying().(*types.Basic); ok && b.Kind() == types.Bool {
		return toBool(v)
	}
	return has
}

// valid: a span with ids was received.
func (p *pipe) valid() *Node {
	return ands(p.got, not(eq(p.sfield("Trace"), intConst(0))), not(eq(p.sfield("Id"), intConst(0))))
}

// entryMem is the memory that the evaluation of an entry point starts with.
func (e *Engine) entryMem(res *EvalResult) *Mem {
	if e.initMem != nil {
		return e.initMem.clone()
	}
	return newMem()
}
