package main

// Wire format decoders: function values that decode one JSON value to memory.
// Each decoder is summarised on its own (calls of other decoders and of the
// parser are opaque), which gives a tree: JSON name -> place in memory.

import (
	"fmt"
	"go/types"
	"math/big"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// isDecoderFn: func(unsafe.Pointer, *hyperjson.Parser) error
func (r *Report) isDecoderFn(fn *ssa.Function) bool {
	s := fn.Signature
	if s.Recv() != nil || s.Params().Len() != 2 || s.Results().Len() != 1 || !isErrorType(s.Results().At(0).Type()) {
		return false
	}
	return isUnsafe(s.Params().At(0).Type()) && r.isParserPtr(s.Params().At(1).Type())
}

func (r *Report) isParserPtr(t types.Type) bool {
	pt := r.L.typ("codec/hyperjson", "Parser")
	p, ok := t.Underlying().(*types.Pointer)
	return ok && pt != nil && types.Identical(p.Elem(), pt)
}

func (r *Report) isParserMethod(fn *ssa.Function) bool {
	return fn.Signature.Recv() != nil && r.isParserPtr(fn.Signature.Recv().Type())
}

func (r *Report) wireOpaque(fn *ssa.Function) bool {
	if r.isDecoderFn(fn) || r.isParserMethod(fn) {
		return true
	}
	return fn == r.L.fn("proxy", "ParseId")
}

type wireField struct {
	off int64
	dec *wireDec
}

type wireDec struct {
	kind     string // struct slice array map string any uint64 id
	fv       *Node
	res      *EvalResult
	fields   map[string]wireField
	elem     *wireDec
	typ      types.Type // slice or array type
	resets   []*Effect  // stores of a wrapper before decoding
	wrapper  *EvalResult
	target   *Node
	problems []string
}

type wireCtx struct {
	r    *Report
	e    *Engine
	memo map[*Node]*wireDec
}

func newWire(r *Report) *wireCtx {
	return &wireCtx{r: r, e: r.engine(r.wireOpaque), memo: map[*Node]*wireDec{}}
}

func (w *wireCtx) parserCalls(res *EvalResult, name string) []*Effect {
	return effs(res, "call", func(ef *Effect) bool {
		return ef.Callee != nil && w.r.isParserMethod(ef.Callee) && ef.Callee.Name() == name
	})
}

func (w *wireCtx) decoderCalls(res *EvalResult) []*Effect {
	return effs(res, "call", func(ef *Effect) bool {
		return ef.Name == "dynamic" || ef.Callee != nil && w.r.isDecoderFn(ef.Callee)
	})
}

// stripKeys: JSON names that the conditions of a decoder compare the key with.
func keyAtoms(tokVal *Node, n *Node, add func(atom *Term, name string)) {
	for _, a := range atomsOf(n) {
		if a.op != "eqc" {
			continue
		}
		x := a.args[0].leaf
		if x == nil || (x.op != "strview" && x.op != "str") || x.args[0] != tokVal {
			continue
		}
		if c, ok := a.obj.(*Term); ok {
			if name, ok := c.obj.(string); ok {
				add(a, name)
			}
		}
	}
}

func (w *wireCtx) bad(d *wireDec, where, format string, args ...interface{}) {
	d.problems = append(d.problems, where+": "+fmt.Sprintf(format, args...))
}

// decode summarises a decoder.
func (w *wireCtx) decode(fv *Node) *wireDec {
	if d, ok := w.memo[fv]; ok {
		return d
	}
	d := &wireDec{fv: fv}
	w.memo[fv] = d
	target := leafNode(mk("sym", "$target", nil, types.Typ[types.UnsafePointer]))
	p := leafNode(mk("sym", "$p", nil, types.NewPointer(w.r.L.typ("codec/hyperjson", "Parser"))))
	res, err := w.e.closureEval(fv, []*Node{target, p}, nil)
	if err != nil {
		w.bad(d, "", "%v", err)
		return d
	}
	w.r.used(res)
	d.res = res
	d.target = target
	where := w.r.L.fnPos(res.Fn)
	errorsLead(w.r, w.e, res, "errors", fnLabel(res.Fn), nil)
	calls := w.decoderCalls(res)
	nparser := 0
	for _, ef := range effs(res, "call", nil) {
		if ef.Callee != nil && w.r.isParserMethod(ef.Callee) {
			nparser++
			if ef.Args[0] != p {
				w.bad(d, w.r.at(ef), "reads from another parser")
			}
		}
	}
	for _, ef := range calls {
		if ef.Name == "dynamic" {
			w.bad(d, w.r.at(ef), "unresolved decoder %s", short(ef.Args[0]))
			return d
		}
		if ef.Args[1] != p {
			w.bad(d, w.r.at(ef), "decodes from another parser")
		}
	}
	switch {
	case nparser == 0 && len(calls) == 1:
		// a wrapper: prepares the target
		c := calls[0]
		if c.Cond != T.True || len(c.Loops) != 0 || c.Args[0] != target {
			w.bad(d, w.r.at(c), "the wrapped decoder is not always applied to the target")
		}
		if len(res.Results) != 1 || res.Results[0] != c.Res {
			w.bad(d, w.r.at(c), "the result of the wrapped decoder is not returned")
		}
		in := *w.decode(c.FV)
		in.wrapper = res
		in.resets = effs(res, "store", func(ef *Effect) bool { return ef.Seq < c.Seq })
		*d = in
		d.target = target
	case len(w.parserCalls(res, "ConsumeObjectBegin")) > 0:
		if len(effs(res, "mapupdate", nil)) > 0 {
			w.mapDecoder(d, res, where)
		} else {
			w.structDecoder(d, res, where)
		}
	case len(w.parserCalls(res, "ConsumeArrayBegin")) > 0:
		w.seqDecoder(d, res, where)
	default:
		w.leafDecoder(d, res, where)
	}
	return d
}

func fnLabel(fn *ssa.Function) string {
	n := fn.String()
	if i := strings.LastIndex(n, "/"); i >= 0 {
		n = n[i+1:]
	}
	return strings.TrimSuffix(n, ")")
}

func (w *wireCtx) one(d *wireDec, res *EvalResult, name, where string) *Effect {
	l := w.parserCalls(res, name)
	if len(l) != 1 {
		w.bad(d, where, "%d calls of %s", len(l), name)
		return nil
	}
	return l[0]
}

// value of hyperjson's token type constants
func (r *Report) tokType(name string) *Node {
	p := r.L.pkg("codec/hyperjson")
	r.must(p != nil, "package hyperjson")
	c := p.Const(name)
	r.must(c != nil, "constant hyperjson.%s", name)
	return constNode(c.Value.Value, c.Type())
}

func (w *wireCtx) structDecoder(d *wireDec, res *EvalResult, where string) {
	d.kind = "struct"
	d.fields = map[string]wireField{}
	begin := w.one(d, res, "ConsumeObjectBegin", where)
	end := w.one(d, res, "ConsumeObjectEnd", where)
	next := w.one(d, res, "NextType", where)
	key := w.one(d, res, "ReadString", where)
	skip := w.one(d, res, "Skip", where)
	if begin == nil || end == nil || next == nil || key == nil || skip == nil {
		return
	}
	if begin.Cond != T.True || len(begin.Loops) != 0 {
		w.bad(d, w.r.at(begin), "an object is not always expected")
	}
	if len(next.Loops) != 1 || len(key.Loops) != 1 || len(skip.Loops) != 1 || key.Loops[0] != next.Loops[0] || skip.Loops[0] != next.Loops[0] {
		w.bad(d, where, "members are not read by one loop")
		return
	}
	L := next.Loops[0]
	nt, nerr := tupleElem(next.Res, 0), tupleElem(next.Res, 1)
	isEnd := eq(nt, w.r.tokType("TypeObjectEnd"))
	started := nilNode(begin.Res)
	if next.Cond != started {
		w.bad(d, w.r.at(next), "the next token is not looked at in every iteration: %s", short(next.Cond))
	}
	if key.Cond != ands(started, nilNode(nerr), not(isEnd)) {
		w.bad(d, w.r.at(key), "a key is read if %s", short(key.Cond))
	}
	tok, kerr := tupleElem(key.Res, 0), tupleElem(key.Res, 1)
	kv := structField(tok, "Value")
	base := and(key.Cond, nilNode(kerr))
	// everything that looks at the key
	atoms := map[*Term]string{}
	names := map[string]bool{}
	add := func(a *Term, n string) { atoms[a] = n; names[n] = true }
	calls := w.decoderCalls(res)
	var all []*Node
	for _, c := range calls {
		all = append(all, c.Cond, c.Args[0])
	}
	all = append(all, skip.Cond)
	for _, n := range all {
		keyAtoms(kv, n, add)
	}
	at := func(n *Node, name string) *Node {
		for a, v := range atoms {
			n = assign(n, a, v == name)
		}
		return n
	}
	nilKey := nilNode(kv)
	var list []string
	for n := range names {
		list = append(list, n)
	}
	sort.Strings(list)
	okAll := T.False // no error
	_ = okAll
	for _, name := range append(list, "\x00other") {
		b := and(base, not(nilKey))
		if name == "\x00other" {
			b = base
		}
		n := 0
		for _, c := range calls {
			if len(c.Loops) != 1 || c.Loops[0] != L {
				w.bad(d, w.r.at(c), "members are not decoded by the loop over the members")
			}
			cond := at(c.Cond, name)
			if cond == T.False {
				continue
			}
			n++
			if name == "\x00other" {
				w.bad(d, w.r.at(c), "unknown members are decoded if %s", short(cond))
				continue
			}
			if and(cond, b) != b {
				w.bad(d, w.r.at(c), "member %q is decoded only if %s", name, short(cond))
			}
			tgt := restrict(at(c.Args[0], name), cond)
			off, ok := offsetFrom(tgt, d.target)
			if !ok {
				w.bad(d, w.r.at(c), "member %q is decoded to %s", name, short(tgt))
				continue
			}
			d.fields[name] = wireField{off, w.decode(c.FV)}
		}
		sk := at(skip.Cond, name)
		if name == "\x00other" {
			if sk != b {
				w.bad(d, w.r.at(skip), "unknown members are skipped if %s", short(sk))
			}
		} else if n != 1 || and(sk, b) != T.False {
			w.bad(d, where, "member %q: decoded by %d decoders, skipped if %s", name, n, short(and(sk, b)))
		}
	}
	if len(list) == 0 {
		w.bad(d, where, "no member is decoded")
	}
	w.goesOn(d, res, L, ands(started, nilNode(nerr), not(isEnd)), where)
	if x := restrictLoop(end.Cond, L); x != restrictLoop(ands(started, nilNode(nerr), isEnd), L) {
		w.bad(d, w.r.at(end), "the end is consumed if %s", short(end.Cond))
	}
}

// goesOn: after a member or an element that could be read, the next one is.
func (w *wireCtx) goesOn(d *wireDec, res *EvalResult, L *Loop, more *Node, where string) {
	fine := more
	for _, ef := range res.Effects {
		if len(ef.Loops) == 0 || ef.Loops[len(ef.Loops)-1] != L || ef.Res == nil || ef.Callee != nil && !w.r.isParserMethod(ef.Callee) && ef.FV == nil {
			continue
		}
		if e := errOf(ef); e != nil {
			fine = and(fine, or(not(ef.Cond), nilNode(e)))
		}
	}
	if x := sameUnder(fine, L.Stay, T.True); x != nil {
		w.bad(d, where, "members or elements that follow are not decoded if %s", short(x))
	}
}

// restrictLoop renames the iteration that leaves the loop.
func restrictLoop(n *Node, L *Loop) *Node {
	return subst(n, L.KX, leafNode(L.K))
}

func offsetFrom(n, base *Node) (int64, bool) {
	if n == base {
		return 0, true
	}
	t := n.leaf
	if t == nil {
		return 0, false
	}
	switch t.op {
	case "ptradd":
		if t.args[0] == base {
			return constInt64OK(t.args[1])
		}
	case "cast":
		return offsetFrom(t.args[0], base)
	}
	return 0, false
}

func constInt64OK(n *Node) (int64, bool) { return constInt64(n) }

func (w *wireCtx) mapDecoder(d *wireDec, res *EvalResult, where string) {
	d.kind = "map"
	begin := w.one(d, res, "ConsumeObjectBegin", where)
	end := w.one(d, res, "ConsumeObjectEnd", where)
	next := w.one(d, res, "NextType", where)
	if begin == nil || end == nil || next == nil {
		return
	}
	calls := w.decoderCalls(res)
	ups := effs(res, "mapupdate", nil)
	if len(calls) != 2 || len(ups) != 1 || len(next.Loops) != 1 {
		w.bad(d, where, "%d decoders, %d updates of the map", len(calls), len(ups))
		return
	}
	L := next.Loops[0]
	k, v, up := calls[0], calls[1], ups[0]
	if k.Seq > v.Seq {
		k, v = v, k
	}
	nt, nerr := tupleElem(next.Res, 0), tupleElem(next.Res, 1)
	isEnd := eq(nt, w.r.tokType("TypeObjectEnd"))
	started := nilNode(begin.Res)
	more := ands(started, nilNode(nerr), not(isEnd))
	if next.Cond != started || k.Cond != more || v.Cond != and(more, nilNode(k.Res)) || up.Cond != ands(more, nilNode(k.Res), nilNode(v.Res)) {
		w.bad(d, where, "a key and a value are not decoded for every member of the object")
	}
	w.goesOn(d, res, L, more, where)
	for _, c := range []*Effect{k, v} {
		cd := w.decode(c.FV)
		if cd.kind != "string" {
			w.bad(d, w.r.at(c), "keys and values are strings, got %s", cd.kind)
		}
		d.problems = append(d.problems, cd.problems...)
	}
	kv := w.e.loadAt(up.Mem, k.Args[0], stringType)
	vv := w.e.loadAt(up.Mem, v.Args[0], stringType)
	if k.Args[0] == v.Args[0] || up.Args[1] != kv || up.Args[2] != vv {
		w.bad(d, w.r.at(up), "the member is not stored under its key")
	}
	// the result is the map that all members were stored in
	st := effs(res, "store", func(ef *Effect) bool {
		off, ok := offsetFrom(ef.Args[0], d.target)
		return ok && off == 0
	})
	if len(st) != 1 {
		w.bad(d, where, "%d assignments of the result", len(st))
		return
	}
	var phi *LoopPhi
	for _, p := range append(append([]*LoopPhi{}, L.Phis...), cellList(L)...) {
		if p.Val != nil && st[0].Args[1] == restrictKX(p.Val, L) || p.Mu != nil && st[0].Args[1] == restrictKX(leafNode(p.Mu), L) {
			phi = p
		}
	}
	if up.Args[0].leaf != nil && up.Args[0].leaf == st[0].Args[1].leaf {
		return // one map for everything
	}
	if phi == nil {
		w.bad(d, w.r.at(st[0]), "the result is %s", short(st[0].Args[1]))
		return
	}
	if phi.Init != T.Nil && !freshMap(phi.Init) {
		w.bad(d, w.r.at(st[0]), "the map starts as %s", short(phi.Init))
	}
	// the step of the map is what the update wrote to: the old map if there is one
	old := leafNode(phi.Mu)
	was := restrict(up.Args[0], and(up.Cond, not(nilNode(old))))
	if was != old {
		w.bad(d, w.r.at(up), "an existing map is replaced by %s", short(was))
	}
	stp := restrict(phi.Step, and(L.Stay, up.Cond))
	if stp != restrict(up.Args[0], and(L.Stay, up.Cond)) {
		w.bad(d, w.r.at(up), "the updated map is not kept: %s", short(stp))
	}
}

func freshMap(n *Node) bool { return n.leaf != nil && n.leaf.op == "alloc" }

func cellList(L *Loop) []*LoopPhi {
	var l []*LoopPhi
	for _, p := range L.Cells {
		l = append(l, p)
	}
	sort.Slice(l, func(i, j int) bool { return l[i].Name < l[j].Name })
	return l
}

func restrictKX(n *Node, L *Loop) *Node { return subst(n, L.K, leafNode(L.KX)) }

func (w *wireCtx) seqDecoder(d *wireDec, res *EvalResult, where string) {
	begin := w.one(d, res, "ConsumeArrayBegin", where)
	end := w.one(d, res, "ConsumeArrayEnd", where)
	next := w.one(d, res, "NextType", where)
	calls := w.decoderCalls(res)
	if begin == nil || end == nil || next == nil || len(calls) != 1 || len(next.Loops) != 1 {
		w.bad(d, where, "%d element decoders", len(calls))
		return
	}
	L := next.Loops[0]
	c := calls[0]
	nt, nerr := tupleElem(next.Res, 0), tupleElem(next.Res, 1)
	started := nilNode(begin.Res)
	more := ands(started, nilNode(nerr), not(eq(nt, w.r.tokType("TypeArrayEnd"))))
	if begin.Cond != T.True || next.Cond != started {
		w.bad(d, where, "the next token is not looked at in every iteration")
	}
	if len(c.Loops) != 1 || c.Loops[0] != L {
		w.bad(d, w.r.at(c), "elements are not decoded by the loop over the elements")
		return
	}
	w.goesOn(d, res, L, more, where)
	// the element
	el := c.Args[0].leaf
	if el == nil || el.op != "call" || len(el.args) != 3 || !strings.HasSuffix(el.aux, "Type).UnsafeGetIndex") {
		w.bad(d, w.r.at(c), "element %s", short(c.Args[0]))
		return
	}
	idx := leafNode(L.K)
	if t := d.typOf(el.args[0]); t != nil {
		if at, ok := t.Underlying().(*types.Array); ok && el.args[2] != idx {
			// the index may stay where it is when the array is full
			for _, p := range loopPhis(L) {
				if p.Mu == nil || el.args[2] != leafNode(p.Mu) || p.Init != intConst(0) {
					continue
				}
				mu := leafNode(p.Mu)
				bounds := []*Node{intConst(at.Len())}
				for _, ef := range effs(res, "call", named("ArrayType).Len")) {
					bounds = append(bounds, ef.Res)
				}
				for _, ef := range []*Node{pureCall("(github.com/modern-go/reflect2.ArrayType).Len", intType, []*Node{el.args[0]})} {
					bounds = append(bounds, ef)
				}
				for _, n := range bounds {
					in := and(L.Stay, lessThan(mu, n))
					out := and(L.Stay, not(lessThan(mu, n)))
					if sameUnder(in, p.Step, add(mu, intConst(1))) == nil && sameUnder(out, p.Step, mu) == nil {
						idx = mu
					}
				}
			}
		}
	}
	if el.args[1] != d.target || el.args[2] != idx {
		w.bad(d, w.r.at(c), "element number k of the array is decoded to element %s of %s", short(el.args[2]), short(el.args[1]))
	}
	d.typ = d.typOf(el.args[0])
	if d.typ == nil {
		w.bad(d, w.r.at(c), "type of the elements: %s", short(el.args[0]))
		return
	}
	d.elem = w.decode(c.FV)
	switch d.typ.Underlying().(type) {
	case *types.Slice:
		d.kind = "slice"
		if c.Cond != more {
			w.bad(d, w.r.at(c), "elements are decoded if %s", short(c.Cond))
		}
		grown := false
		for _, g := range effs(res, "call", named("SliceType).UnsafeGrow")) {
			if g.Seq < c.Seq && g.Cond == more && g.Args[0] == el.args[0] && g.Args[1] == d.target && g.Args[2] == add(leafNode(L.K), intConst(1)) {
				grown = true
			} else {
				w.bad(d, w.r.at(g), "the slice grows to %s if %s", short(g.Args[2]), short(g.Cond))
			}
		}
		if !grown {
			w.bad(d, w.r.at(c), "the slice does not grow by one element for every element")
		}
	case *types.Array:
		d.kind = "array"
		n := pureCall("(github.com/modern-go/reflect2.ArrayType).Len", intType, []*Node{el.args[0]})
		at := d.typ.Underlying().(*types.Array)
		var in *Node
		for _, x := range []*Node{n, intConst(at.Len())} {
			if c.Cond == and(more, lessThan(idx, x)) {
				in = lessThan(idx, x)
			}
		}
		// the length may be an opaque result of the reflected type
		for _, ef := range effs(res, "call", named("ArrayType).Len")) {
			if ef.Args[0] == el.args[0] && c.Cond == and(more, lessThan(idx, ef.Res)) {
				in = lessThan(idx, ef.Res)
			}
		}
		if in == nil {
			w.bad(d, w.r.at(c), "elements are decoded if %s", short(c.Cond))
			return
		}
		skip := w.one(d, res, "Skip", where)
		if skip == nil || skip.Cond != and(more, not(in)) {
			w.bad(d, where, "elements after the end of the array are not skipped")
		}
	default:
		w.bad(d, where, "elements of %s", d.typ)
	}
}

// typOf: the type that a reflected type stands for.
func (d *wireDec) typOf(n *Node) types.Type {
	rt := n.leaf
	if rt != nil && rt.op == "assert" {
		rt = rt.args[0].leaf
	}
	if rt == nil || rt.op != "call" || len(rt.args) == 0 || rt.args[0].leaf == nil || rt.args[0].leaf.op != "mkiface" {
		return nil
	}
	t, _ := rt.args[0].leaf.obj.(types.Type)
	return t
}

func (w *wireCtx) leafDecoder(d *wireDec, res *EvalResult, where string) {
	stores := effs(res, "store", func(ef *Effect) bool { _, ok := offsetFrom(ef.Args[0], d.target); return ok })
	for _, ef := range stores {
		if off, _ := offsetFrom(ef.Args[0], d.target); off != 0 {
			w.bad(d, w.r.at(ef), "stores beside the target")
		}
	}
	var read *Effect
	for _, n := range []string{"ReadString", "ReadLiteral", "ReadNumber"} {
		l := w.parserCalls(res, n)
		if len(l) > 1 || len(l) == 1 && read != nil {
			w.bad(d, where, "reads several tokens")
			return
		}
		if len(l) == 1 {
			read = l[0]
			d.kind = n
		}
	}
	if read == nil {
		w.bad(d, where, "reads no token")
		return
	}
	tok, rerr := tupleElem(read.Res, 0), tupleElem(read.Res, 1)
	val := structField(tok, "Value")
	good := and(read.Cond, nilNode(rerr))
	pid := w.r.L.fn("proxy", "ParseId")
	ids := effs(res, "call", func(ef *Effect) bool { return pid != nil && ef.Callee == pid })
	switch {
	case d.kind == "ReadString" && len(ids) == 1:
		d.kind = "id"
		id := ids[0]
		iv, ierr := tupleElem(id.Res, 0), tupleElem(id.Res, 1)
		if id.Args[0] != val || id.Cond != good {
			w.bad(d, w.r.at(id), "parses %s if %s", short(id.Args[0]), short(id.Cond))
		}
		next := w.one(d, res, "NextType", where)
		over := "Skip"
		if len(w.parserCalls(res, over)) == 0 && len(w.parserCalls(res, "ReadNull")) > 0 {
			over = "ReadNull"
		}
		skip := w.one(d, res, over, where)
		if next == nil || skip == nil {
			return
		}
		isNull := and(nilNode(tupleElem(next.Res, 1)), eq(tupleElem(next.Res, 0), w.r.tokType("TypeNull")))
		if read.Cond != and(nilNode(tupleElem(next.Res, 1)), not(isNull)) || skip.Cond != isNull {
			w.bad(d, where, "null is not the only literal that is skipped")
		}
		z, s := T.False, T.False
		for _, st := range stores {
			if v, ok := constInt64(st.Args[1]); ok && v == 0 {
				z = or(z, st.Cond)
				if st.Cond != isNull {
					w.bad(d, w.r.at(st), "zero is stored if %s", short(st.Cond))
				}
			} else {
				s = or(s, st.Cond)
				// what is stored next to an error does not matter, the
				// error leads to the caller
				if got := and(st.Cond, or(not(id.Cond), nilNode(ierr))); restrict(st.Args[1], got) != iv || and(got, not(good)) != T.False {
					w.bad(d, w.r.at(st), "stores %s if %s", short(st.Args[1]), short(st.Cond))
				}
			}
		}
		if z != isNull || and(s, and(good, nilNode(ierr))) != and(good, nilNode(ierr)) {
			w.bad(d, where, "the id is not always stored")
		}
	case d.kind == "ReadString" || d.kind == "ReadLiteral":
		k := d.kind
		d.kind = map[string]string{"ReadString": "string", "ReadLiteral": "any"}[k]
		if read.Cond != T.True {
			w.bad(d, w.r.at(read), "reads a token only if %s", short(read.Cond))
		}
		if len(stores) != 1 || stores[0].Cond != good {
			w.bad(d, where, "%d assignments of the result", len(stores))
			return
		}
		if !isCopyOf(stores[0].Args[1], val) {
			w.bad(d, w.r.at(stores[0]), "stores %s", short(stores[0].Args[1]))
		}
	case d.kind == "ReadNumber":
		d.kind = "uint64"
		if read.Cond != T.True {
			w.bad(d, w.r.at(read), "reads a token only if %s", short(read.Cond))
		}
		w.numberDecoder(d, res, stores, val, good, where)
	}
}

// isCopyOf: the string has the bytes of the slice.
func isCopyOf(s, val *Node) bool {
	t := s.leaf
	return t != nil && (t.op == "str" || t.op == "strview") && t.args[0] == val
}

// numberDecoder: decimal digits, nothing else, without overflow.
func (w *wireCtx) numberDecoder(d *wireDec, res *EvalResult, stores []*Effect, val, good *Node, where string) {
	if len(stores) != 1 {
		w.bad(d, where, "%d assignments of the result", len(stores))
		return
	}
	st := stores[0]
	var L *Loop
	for _, l := range res.Loops {
		if len(l.Exits) > 0 && l.Entry == good {
			L = l
		}
	}
	if L == nil {
		w.bad(d, where, "no loop over the digits")
		return
	}
	K := leafNode(L.K)
	n := lenOf(val)
	ch := w.e.elemOf(st.Mem, val, K, byteType)
	var phi *LoopPhi
	for _, p := range append(append([]*LoopPhi{}, L.Phis...), cellList(L)...) {
		if p.Mu == nil {
			continue
		}
		if mu := restrictKX(leafNode(p.Mu), L); st.Args[1] == mu || restrict(st.Args[1], st.Cond) == mu {
			phi = p
		}
	}
	if phi == nil {
		w.bad(d, w.r.at(st), "stores %s", short(st.Args[1]))
		return
	}
	if v, ok := constInt64(phi.Init); !ok || v != 0 {
		w.bad(d, w.r.at(st), "starts at %s", short(phi.Init))
	}
	mu := leafNode(phi.Mu)
	if ch.leaf == nil {
		w.bad(d, where, "the digit is %s", short(ch))
		return
	}
	// case distinction over the 256 values of the next byte
	max := new(big.Int).Sub(new(big.Int).Lsh(big.NewInt(1), 64), big.NewInt(1))
	nbad := 0
	for b := int64(0); b < 256 && nbad < 3; b++ {
		stay := subst(L.Stay, ch.leaf, intConst(b))
		step := subst(phi.Step, ch.leaf, intConst(b))
		if b < '0' || b > '9' {
			if stay != T.False {
				nbad++
				w.bad(d, where, "goes on after the byte %q if %s", rune(b), short(stay))
			}
			continue
		}
		lim := new(big.Int).Sub(max, big.NewInt(b-'0'))
		lim.Div(lim, big.NewInt(10))
		if x := ands(good, lessThan(K, n), lessEq(mu, bigConst(lim))); and(stay, L.Entry) != x && stay != and(lessThan(K, n), lessEq(mu, bigConst(lim))) {
			nbad++
			w.bad(d, where, "goes on after the digit %q if %s", rune(b), short(stay))
		}
		if x := sameUnder(stay, step, add(scale(mu, 10), intConst(b-'0'))); x != nil {
			nbad++
			w.bad(d, where, "the digit %q makes %s of %s", rune(b), short(restrict(step, stay)), short(mu))
		}
	}
	if x := restrictLoop(st.Cond, L); x != and(good, restrictLoop(not(lessThan(K, n)), L)) {
		w.bad(d, w.r.at(st), "the number is stored if %s", short(x))
	}
}
