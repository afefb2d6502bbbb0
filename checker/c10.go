package main

import (
	"fmt"
	"go/types"
	"reflect"
	"sort"
	"strings"
)

// jval is a decoded JSON value: where it is in memory.
type jval struct {
	val  *Node
	typ  types.Type
	dec  *wireDec // custom decoder
	r    *Report
	path string
}

// kindFits: can a decoder of the kind store a value of the type.
func kindFits(kind string, t types.Type) bool {
	u := t.Underlying()
	switch kind {
	case "string", "any":
		return isString(t)
	case "uint64":
		b, ok := u.(*types.Basic)
		return ok && b.Kind() == types.Uint64
	case "id":
		n, ok := types.Unalias(t).(*types.Named)
		b, ok2 := u.(*types.Basic)
		return ok && ok2 && (b.Kind() == types.Uint64 || b.Kind() == types.Int64) && n.Obj().Name() == "Id"
	case "slice":
		_, ok := u.(*types.Slice)
		return ok
	case "array":
		_, ok := u.(*types.Array)
		return ok
	case "map":
		m, ok := u.(*types.Map)
		return ok && isString(m.Key()) && isString(m.Elem())
	case "struct":
		_, ok := u.(*types.Struct)
		return ok
	}
	return false
}

// at is the member of a decoded object with the given name.
func (j *jval) at(name string) *jval {
	out := &jval{r: j.r, path: j.path + "." + name}
	if j.val == nil {
		return out
	}
	st, ok := j.typ.Underlying().(*types.Struct)
	if !ok {
		return out
	}
	if j.dec == nil {
		// encoding/json: the field with the tag
		for i := 0; i < st.NumFields(); i++ {
			tag := strings.Split(reflect.StructTag(st.Tag(i)).Get("json"), ",")
			n := st.Field(i).Name()
			if tag[0] != "" {
				n = tag[0]
			}
			if n == name && st.Field(i).Exported() {
				out.val, out.typ = getField(j.val, st, i), st.Field(i).Type()
			}
		}
		return out
	}
	f, ok := j.dec.fields[name]
	if !ok {
		return out
	}
	out.dec = f.dec
	out.val, out.typ = j.r.byOffset(j.val, j.typ, f.off, f.dec.kind)
	return out
}

// byOffset descends to the part of a struct that a decoder writes.
func (r *Report) byOffset(v *Node, t types.Type, off int64, kind string) (*Node, types.Type) {
	for d := 0; d < 6; d++ {
		st, ok := t.Underlying().(*types.Struct)
		if !ok {
			break
		}
		if off == 0 && kind == "struct" && d > 0 {
			return v, t
		}
		var fs []*types.Var
		for i := 0; i < st.NumFields(); i++ {
			fs = append(fs, st.Field(i))
		}
		offs := r.L.Sizes.Offsetsof(fs)
		k := -1
		for i := range fs {
			if offs[i] <= off && off < offs[i]+r.L.Sizes.Sizeof(fs[i].Type()) {
				k = i
			}
		}
		if k < 0 {
			return nil, nil
		}
		v, t, off = getField(v, st, k), fs[k].Type(), off-offs[k]
	}
	if off != 0 || !kindFits(kind, t) {
		return nil, nil
	}
	return v, t
}

// must: the member exists and has a decoder of the kind.
func (j *jval) must(kind string) *Node {
	ok := j.val != nil
	why := "is stored in memory of type " + fmt.Sprint(j.typ)
	if ok && j.dec != nil {
		ok = j.dec.kind == kind
		why += ", decoded as " + j.dec.kind
	}
	if ok && j.dec == nil {
		k := kind
		if k == "any" {
			k = "string"
		}
		ok = kindFits(k, j.typ)
		if kind == "id" {
			ms := types.NewMethodSet(types.NewPointer(j.typ))
			ok = ok && ms.Lookup(nil, "UnmarshalJSON") != nil
		}
	}
	if !ok {
		why = "no " + kind + " is decoded for it"
	}
	w := ""
	if j.dec != nil && j.dec.res != nil {
		w = j.r.L.fnPos(j.dec.res.Fn)
	}
	j.r.ob("wire", j.path+" is read as "+kind, ok, w, "%s", why)
	if !ok {
		panic(skipRest{})
	}
	return j.val
}

type skipRest struct{}

// section runs a part of a check; what can not be decided after a violation
// was reported is left out.
func (r *Report) section(f func()) {
	n := 0
	for _, o := range r.Obs {
		if !o.OK {
			n++
		}
	}
	defer func() {
		if x := recover(); x != nil {
			if _, ok := x.(skipRest); !ok {
				panic(x)
			}
		}
	}()
	f()
}

func (d *wireDec) report(r *Report, rule, label string, seen map[*wireDec]bool) {
	if seen[d] {
		return
	}
	seen[d] = true
	where := ""
	if d.res != nil {
		where = r.L.fnPos(d.res.Fn)
	}
	r.ob(rule, label+" "+d.kind, len(d.problems) == 0, where, "%s", strings.Join(d.problems, "; "))
	var ns []string
	for n := range d.fields {
		ns = append(ns, n)
	}
	sort.Strings(ns)
	for _, n := range ns {
		d.fields[n].dec.report(r, rule, label+"."+n, seen)
	}
	if d.elem != nil {
		d.elem.report(r, rule, label+"[]", seen)
	}
}

type tagUpdate struct {
	name     string
	loop     *Loop // innermost loop, or nil
	cond     *Node
	key, val *Node
}

// tagMap checks what is written to the tags of a span.
func (r *Report) tagMap(res *EvalResult, label string, final, cond *Node, loops []*Loop, want []tagUpdate, input *Node) {
	var chain func(v *Node, c *Node, depth int) bool
	chain = func(v, c *Node, depth int) bool {
		if c == T.False {
			return true
		}
		if depth > 6 {
			return false
		}
		ok := true
		for _, g := range guardedLeaves(restrict(v, c)) {
			gc := and(c, g.Cond)
			if gc == T.False || g.T.op == "alloc" && containsFast(leafNode(g.T), innermostK(loops)) {
				continue
			}
			n := leafNode(g.T)
			if input != nil && n == input || n == T.Nil {
				continue
			}
			L, p := exitOf(res, n)
			if L == nil {
				ok = false
				continue
			}
			mu := leafNode(p.Mu)
			in := and(L.Entry, L.Stay)
			if !chain(p.Init, L.Entry, depth+1) || sameUnder(and(in, not(nilNode(mu))), p.Step, mu) != nil {
				ok = false
			}
			for _, h := range guardedLeaves(restrict(p.Step, and(in, nilNode(mu)))) {
				if t := leafNode(h.T); t != mu && t != T.Nil && h.T.op != "alloc" {
					ok = false
				}
			}
		}
		return ok
	}
	r.ob("tags", label+": one map of tags per span", chain(final, cond, 0), "", "the map is made for the span or comes from its decoder, and is kept when tags are added: %s", short(final))
	used := make([]int, len(want))
	place := make([]string, len(want))
	got := make([]*Node, len(want))
	for i := range got {
		got[i] = T.False
	}
	last := 0
	for _, ef := range effs(res, "mapupdate", nil) {
		if !sameMapType(ef, final) {
			continue
		}
		hit := -1
		for i, w := range want {
			var L *Loop
			if len(ef.Loops) > 0 {
				L = ef.Loops[len(ef.Loops)-1]
			}
			if L == w.loop && sameUnder(ef.Cond, ef.Args[1], w.key) == nil {
				hit = i
			}
		}
		if hit < 0 {
			r.ob("tags", label+": no other tags", false, r.at(ef), "adds the tag %s", short(ef.Args[1]))
			continue
		}
		w := want[hit]
		used[hit]++
		if and(got[hit], ef.Cond) != T.False {
			r.ob("tags", label+": "+w.name+" is added once", false, r.at(ef), "is added again")
		}
		got[hit] = or(got[hit], ef.Cond)
		place[hit] = r.at(ef)
		r.sameIf("tags", label+": "+w.name+" key", r.at(ef), ef.Cond, ef.Args[1], w.key)
		r.sameIf("tags", label+": "+w.name+" value", r.at(ef), ef.Cond, ef.Args[2], w.val)
		// it is the map of the span
		m := ef.Args[0]
		good := sameUnder(ef.Cond, m, final) == nil
		if w.loop != nil && !good {
			for _, p := range loopPhis(w.loop) {
				if p.Mu == nil {
					continue
				}
				mu := leafNode(p.Mu)
				if sameUnder(and(ef.Cond, not(nilNode(mu))), m, mu) == nil && sameUnder(and(w.loop.Stay, ef.Cond), p.Step, m) == nil && containsNode(final, restrictKX(mu, w.loop)) {
					good = true
				}
			}
		}
		r.ob("tags", label+": "+w.name+" is added to the tags of the span", good, r.at(ef), "adds it to %s", short(m))
		if hit == len(want)-1 {
			r.ob("tags", label+": "+w.name+" is not replaced by tags of the request", ef.Seq > last, r.at(ef), "is added last")
		} else if ef.Seq > last {
			last = ef.Seq
		}
	}
	for i, n := range used {
		r.ob("tags", label+": "+want[i].name, n >= 1, "", "%d places add it", n)
		if n > 0 {
			r.iff("tags", label+": "+want[i].name+" is added", place[i], got[i], want[i].cond)
		}
	}
}

func sameMapType(ef *Effect, m *Node) bool {
	return true
}

func innermostK(loops []*Loop) *Term {
	return loops[len(loops)-1].K
}

// spanFields compares the fields of a constructed span.
func (r *Report) spanFields(label string, b *built, want map[string]*Node) {
	st := r.L.typ("proxy", "Span")
	r.must(st != nil, "type proxy.Span")
	r.structFields(label, "", b.elem, st.Underlying().(*types.Struct), want, b)
}

func (r *Report) structFields(label, prefix string, v *Node, st *types.Struct, want map[string]*Node, b *built) {
	for i := 0; i < st.NumFields(); i++ {
		f := st.Field(i)
		n := prefix + f.Name()
		fv := getField(v, st, i)
		if sub, ok := f.Type().Underlying().(*types.Struct); ok {
			r.structFields(label, n+".", fv, sub, want, b)
			continue
		}
		wv, ok := want[n]
		if !ok {
			r.note("%s: field %s of the spans is not specified", label, n)
			continue
		}
		if wv == nil {
			continue
		}
		r.sameIf("field", label+": "+n, r.at(b.ef), b.cond, fv, wv)
	}
}

func (r *Report) field(b *built, name string) *Node {
	st := r.L.typ("proxy", "Span").Underlying().(*types.Struct)
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() == name {
			return getField(b.elem, st, i)
		}
	}
	panic("anchor: proxy.Span has no field " + name)
}

func gt0(n *Node) *Node { return lessThan(intConst(0), n) }

func equalFold(a *Node, s string) *Node {
	return symNodeApply("equalfold", a, strConst(s))
}

func (r *Report) us(n *Node) *Node {
	// unsigned microseconds to signed nanoseconds
	e := r.eng
	return scale(e.convert(n, types.Typ[types.Uint64], types.Typ[types.Int64]), 1000)
}

func eqStr(n *Node, s string) *Node { return eq(n, strConst(s)) }

func (r *Report) parseSpans(name string, w *wireCtx) (*EvalResult, *built) {
	fn := r.entry("codec", name)
	res := w.e.Eval(fn, nil, nil, nil)
	r.used(res)
	r.eng = w.e
	et := r.L.typ("proxy", "Span")
	good := and(res.RetCond(), nilNode(res.Results[1]))
	out := restrict(res.Results[0], good)
	b := r.builtSlice(res, out, et, good)
	okb := b.ef != nil && b.why == ""
	at := r.L.fnPos(fn)
	if b.ef != nil {
		at = r.at(b.ef)
	}
	r.ob("conversion", name+" makes one span of every decoded span, in order", okb, at, "%s", b.why)
	if b.ef == nil {
		panic(skipRest{})
	}
	errorsLead(r, w.e, res, "errors", name, nil)
	return res, b
}

// input: the decoder of the whole body, and the slice it fills.
func (r *Report) wireInput(name string, res *EvalResult, w *wireCtx, b *built) *jval {
	calls := w.decoderCalls(res)
	r.ob("conversion", name+" decodes once", len(calls) == 1 && calls[0].Cond == T.True && len(calls[0].Loops) == 0, "", "%d calls of decoders", len(calls))
	if len(calls) != 1 {
		panic(skipRest{})
	}
	c := calls[0]
	d := w.decode(c.FV)
	d.report(r, "decoder", name, map[*wireDec]bool{})
	if d.kind != "slice" {
		r.ob("conversion", name+" decodes an array of spans", false, r.at(c), "decodes a %s", d.kind)
		panic(skipRest{})
	}
	tgt := c.Args[0]
	S := w.e.loadAt(b.mem, tgt, d.typ)
	if len(b.loops) != 1 || !ranges(b.loops[0], lenOf(S)) {
		r.ob("conversion", name+" converts all decoded spans", false, r.at(b.ef), "the loop does not run over %s", short(S))
		panic(skipRest{})
	}
	r.iff("conversion", name+" converts every decoded span", r.at(b.ef), b.cond, and(nilNode(c.Res), inLoop(b.loops[0], lenOf(S))))
	et := d.typ.Underlying().(*types.Slice).Elem()
	el := w.e.elemOf(b.mem, S, leafNode(b.loops[0].K), et)
	return &jval{val: el, typ: et, dec: d.elem, r: r, path: strings.TrimPrefix(name, "Parse")}
}

func init() {
	register("C10", "Gated value-flow of the decoder tables and conversions of the three input formats: every member name, every field of the resulting span and every tag is compared with the documented mapping.", func(r *Report) {
		r.section(func() { r.jsonV1() })
		r.section(func() { r.jsonV2() })
		r.section(func() { r.jaeger() })
		r.count("wire", 40)
		r.count("field", 36)
		r.count("tags", 30)
		r.count("decoder", 18)
	})
}

func (r *Report) jsonV1() {
	w := newWire(r)
	e := w.e
	res, b := r.parseSpans("ParseJsonV1", w)
	in := r.wireInput("ParseJsonV1", res, w, b)
	L := b.loops[0]
	want := map[string]*Node{
		"Id": in.at("id").must("id"), "Trace": in.at("traceId").must("id"), "Parent": in.at("parentId").must("id"),
		"Name": in.at("name").must("string"), "Tags": nil,
	}
	// core annotations
	ans := in.at("annotations")
	av := ans.must("array")
	at := ans.typ.Underlying().(*types.Array)
	r.ob("wire", "JsonV1: the four core annotations fit", at.Len() >= 4, "", "%d annotations", at.Len())
	tm := map[string]*Node{"cs": intConst(0), "cr": intConst(0), "sr": intConst(0), "ss": intConst(0)}
	service := strConst("")
	for i := int64(0); i < at.Len(); i++ {
		a := &jval{val: getIndex(av, intConst(i), at.Elem()), typ: at.Elem(), dec: ans.dec.elem, r: r, path: fmt.Sprintf("JsonV1.annotations[%d]", i)}
		ts, val, svc := a.at("timestamp").must("uint64"), a.at("value").must("string"), a.at("endpoint").at("serviceName").must("string")
		has := not(eq(ts, intConst(0)))
		for k, old := range tm {
			tm[k] = mux(and(has, eqStr(val, k)), r.us(ts), old)
		}
		service = mux(and(has, eqStr(service, "")), svc, service)
	}
	want["Timings.CS"], want["Timings.CR"], want["Timings.SR"], want["Timings.SS"] = tm["cs"], tm["cr"], tm["sr"], tm["ss"]
	// times
	ts, du := in.at("timestamp").must("uint64"), in.at("duration").must("uint64")
	srv := and(gt0(tm["sr"]), gt0(tm["ss"]))
	cli := and(gt0(tm["cs"]), gt0(tm["cr"]))
	want["Timestamp"] = mux(cli, tm["cs"], mux(srv, tm["sr"], r.us(ts)))
	d := mux(cli, sub(tm["cr"], tm["cs"]), mux(srv, sub(tm["ss"], tm["sr"]), r.us(du)))
	want["Duration"] = mux(eq(d, intConst(0)), intConst(1000000), d)
	// binary annotations
	ba := in.at("binaryAnnotations")
	bv := ba.must("slice")
	bt := ba.typ.Underlying().(*types.Slice).Elem()
	var BL *Loop
	for _, l := range res.Loops {
		if l.parent == L && ranges(l, lenOf(bv)) {
			BL = l
		}
	}
	r.ob("conversion", "JsonV1: all binary annotations are converted", BL != nil, r.at(b.ef), "one loop runs over %s", short(bv))
	if BL == nil {
		return
	}
	be := &jval{val: e.elemOf(b.mem, bv, leafNode(BL.K), bt), typ: bt, dec: ba.dec.elem, r: r, path: "JsonV1.binaryAnnotations[]"}
	key, val, bsvc := be.at("key").must("string"), be.at("value").must("any"), be.at("endpoint").at("serviceName").must("string")
	// service: of the first annotation that has one, then of the first binary annotation
	sv := r.field(b, "Service")
	ok, why := false, "it is "+short(sv)
	if l, p := exitOf(res, sv); l == BL {
		mu := leafNode(p.Mu)
		x := sameUnder(l.Entry, p.Init, service)
		y := sameUnder(and(l.Entry, l.Stay), p.Step, mux(eqStr(mu, ""), bsvc, mu))
		ok = x == nil && y == nil
		if x != nil {
			why = "before the binary annotations it is " + short(p.Init)
		} else if y != nil {
			why = "a binary annotation makes " + short(p.Step) + " of " + short(mu)
		}
	}
	r.ob("field", "ParseJsonV1: Service", ok, r.at(b.ef), "the first service name of the annotations, then of the binary annotations: %s", why)
	want["Service"] = nil
	r.spanFields("ParseJsonV1", b, want)
	r.tagMap(res, "ParseJsonV1", r.field(b, "Tags"), b.cond, b.loops, []tagUpdate{
		{"every binary annotation", BL, and(b.cond, inLoop(BL, lenOf(bv))), key, val},
		{"the protocol version", L, b.cond, strConst("protocolVersion"), strConst("json v1")},
	}, nil)
}

func (r *Report) kindTimings(want map[string]*Node, kind, ts, du *Node) {
	d := mux(eq(r.us(du), intConst(0)), intConst(1000000), r.us(du))
	t := r.us(ts)
	want["Timestamp"], want["Duration"] = t, d
	c, s := equalFold(kind, "client"), equalFold(kind, "server")
	z := intConst(0)
	want["Timings.CS"], want["Timings.CR"] = mux(c, t, z), mux(c, add(t, d), z)
	want["Timings.SR"], want["Timings.SS"] = mux(s, t, z), mux(s, add(t, d), z)
}

func (r *Report) jsonV2() {
	w := newWire(r)
	res, b := r.parseSpans("ParseJsonV2", w)
	in := r.wireInput("ParseJsonV2", res, w, b)
	want := map[string]*Node{
		"Id": in.at("id").must("id"), "Trace": in.at("traceId").must("id"), "Parent": in.at("parentId").must("id"),
		"Name": in.at("name").must("string"), "Tags": nil,
		"Service": in.at("localEndpoint").at("serviceName").must("string"),
	}
	r.kindTimings(want, in.at("kind").must("string"), in.at("timestamp").must("uint64"), in.at("duration").must("uint64"))
	r.spanFields("ParseJsonV2", b, want)
	tags := in.at("tags").must("map")
	final := r.field(b, "Tags")
	r.ob("field", "ParseJsonV2: Tags", sameUnder(and(b.cond, not(nilNode(tags))), final, tags) == nil, r.at(b.ef), "are the decoded tags")
	r.tagMap(res, "ParseJsonV2", final, b.cond, b.loops, []tagUpdate{
		{"the protocol version", b.loops[0], b.cond, strConst("protocolVersion"), strConst("json v2")},
	}, tags)
}

func (r *Report) jaeger() {
	w := newWire(r)
	e := w.e
	res, b := r.parseSpans("ParseJaeger", w)
	dec := effs(res, "call", named("json.Decoder).Decode"))
	r.ob("conversion", "ParseJaeger decodes once", len(dec) == 1 && dec[0].Cond == T.True, "", "%d calls of Decode", len(dec))
	if len(dec) != 1 || len(b.loops) != 2 {
		r.ob("conversion", "ParseJaeger converts the spans of every data object", false, r.at(b.ef), "%d loops", len(b.loops))
		return
	}
	tgt := stripIface(dec[0].Args[1])
	pt, ok := dec[0].Args[1].leaf.obj.(types.Type).Underlying().(*types.Pointer)
	r.must(ok, "argument of Decode")
	top := &jval{val: e.loadAt(b.mem, tgt, pt.Elem()), typ: pt.Elem(), r: r, path: "Jaeger"}
	data := top.at("data")
	D, S := b.loops[0], b.loops[1]
	elem := func(j *jval, L *Loop) *jval {
		v := j.must("slice")
		r.ob("conversion", j.path+": all elements are converted", ranges(L, lenOf(v)), r.at(b.ef), "in order")
		et := j.typ.Underlying().(*types.Slice).Elem()
		return &jval{val: e.elemOf(b.mem, v, leafNode(L.K), et), typ: et, r: r, path: j.path + "[]"}
	}
	obj := elem(data, D)
	spans := obj.at("spans")
	in := elem(spans, S)
	live := ands(nilNode(dec[0].Res), inLoop(D, lenOf(data.val)), inLoop(S, lenOf(spans.val)))
	r.iff("conversion", "ParseJaeger converts every decoded span", r.at(b.ef), b.cond, live)
	find := func(j *jval) *Loop {
		v := j.must("slice")
		for _, l := range res.Loops {
			if l.parent == S && ranges(l, lenOf(v)) {
				return l
			}
		}
		r.ob("conversion", j.path+": all elements are looked at", false, r.at(b.ef), "no loop runs over them")
		panic(skipRest{})
	}
	id := in.at("spanID").must("id")
	want := map[string]*Node{"Id": id, "Trace": in.at("traceID").must("id"), "Name": in.at("operationName").must("string"), "Tags": nil, "Parent": nil}
	// parent
	refs := in.at("references")
	pv := r.field(b, "Parent")
	if r.lastMatch(e, res, b, S, refs, pv, live, id) {
		r.ob("field", "ParseJaeger: Parent without references", true, r.at(b.ef), "is the id of the span if none matches")
		r.ob("field", "ParseJaeger: Parent", true, r.at(b.ef), "is the last one that matches, looked for from the end")
	} else if RL := find(refs); RL == nil {
	} else if l, p := exitOf(res, pv); l == RL {
		ref := elem(refs, RL)
		mu := leafNode(p.Mu)
		r.sameIf("field", "ParseJaeger: Parent without references", r.at(b.ef), l.Entry, p.Init, id)
		r.sameIf("field", "ParseJaeger: Parent", r.at(b.ef), and(l.Entry, l.Stay), p.Step, mux(eqStr(ref.at("refType").must("string"), "CHILD_OF"), ref.at("spanID").must("id"), mu))
	} else {
		r.ob("field", "ParseJaeger: Parent", false, r.at(b.ef), "is %s", short(pv))
	}
	// service
	procs := obj.at("processes")
	mt, ok := procs.typ.Underlying().(*types.Map)
	r.must(ok, "jaeger processes are a map")
	pr, has := e.mapGet(b.mem, procs.val, procs.typ, in.at("processID").must("string"))
	_ = has
	ps := &jval{val: mux(has, pr, zeroOf(mt.Elem())), typ: mt.Elem(), r: r, path: "Jaeger.processes[processID]"}
	want["Service"] = ps.at("serviceName").must("string")
	// tags
	tags := in.at("tags")
	TL := find(tags)
	tag := elem(tags, TL)
	tkey := tag.at("key").must("string")
	tval := tag.at("value")
	r.must(tval.val != nil, "values of tags are decoded")
	isStr, str := r.assertString(res, tval.val, TL)
	r.ob("tags", "ParseJaeger: string tags are recognised by their type", isStr != nil, r.at(b.ef), "type assertion of %s", short(tval.val))
	if isStr == nil {
		return
	}
	isKind, isFmt := eqStr(tkey, "span.kind"), eqStr(tkey, "internal.span.format")
	var kind *Node
	for _, p := range TL.Phis {
		if p.Mu == nil || p.typ == nil || !isString(p.typ) {
			continue
		}
		mu := leafNode(p.Mu)
		if sameUnder(TL.Entry, p.Init, strConst("")) == nil && sameUnder(and(TL.Entry, TL.Stay), p.Step, mux(and(isStr, isKind), str, mu)) == nil {
			kind = restrictKX(mu, TL)
		}
	}
	r.ob("field", "ParseJaeger: the kind is the value of the tag span.kind", kind != nil, r.L.fnPos(res.Fn), "")
	if kind != nil {
		r.kindTimings(want, kind, in.at("startTime").must("uint64"), in.at("duration").must("uint64"))
	}
	r.spanFields("ParseJaeger", b, want)
	r.tagMap(res, "ParseJaeger", r.field(b, "Tags"), b.cond, b.loops, []tagUpdate{
		{"every other string tag", TL, ands(live, inLoop(TL, lenOf(tags.val)), isStr, not(isKind), not(isFmt)), mux(eqStr(tkey, "component"), strConst("lc"), tkey), str},
		{"the protocol version", S, b.cond, strConst("protocolVersion"), strConst("jaeger")},
	}, nil)
}

// lastMatch: the references are searched from the last to the first one, and
// the first that names the parent decides.
func (r *Report) lastMatch(e *Engine, res *EvalResult, b *built, S *Loop, refs *jval, pv, live, id *Node) bool {
	v := refs.must("slice")
	et := refs.typ.Underlying().(*types.Slice).Elem()
	at := func(idx *Node) *jval {
		return &jval{val: e.elemOf(b.mem, v, idx, et), typ: et, r: r, path: refs.path + "[]"}
	}
	for _, L := range res.Loops {
		if L.parent != S || L.Entry == nil || L.Stay == nil {
			continue
		}
		k := leafNode(L.K)
		idx := sub(sub(lenOf(v), intConst(1)), k)
		more := lessEq(intConst(0), idx)
		el := at(idx)
		match := eqStr(el.at("refType").must("string"), "CHILD_OF")
		if !equiv(and(live, L.Stay), ands(live, more, not(match))) {
			continue
		}
		sid := restrictKX(el.at("spanID").must("id"), L)
		kx := restrictKX(more, L)
		if sameUnder(ands(live, b.cond, kx), pv, sid) == nil && sameUnder(ands(live, b.cond, not(kx)), pv, id) == nil {
			return true
		}
	}
	return false
}

// assertString: condition and value of the dynamic type of v being string.
func (r *Report) assertString(res *EvalResult, v *Node, L *Loop) (cond, val *Node) {
	t := v.leaf
	if t == nil {
		return nil, nil
	}
	n := typeKey(stringType)
	val = symNode(mk("assert", n, stringType, stringType, leafNode(t)))
	cond = leafBool(mk("istype", n, stringType, boolType, leafNode(t)))
	return cond, val
}
