package main

import (
	"go/types"
	"strings"
)

// The state of a decoder's target when decoding starts: the memory before the
// decoder's first access to the parser.

// firstDecode: the first operation of a decoder that reads the document.
func (d *wireDec) firstDecode(w *wireCtx) *Effect {
	res := d.res
	if d.wrapper != nil {
		res = d.wrapper
	}
	var first *Effect
	for _, ef := range effs(res, "call", nil) {
		if len(ef.Args) > 1 && ef.Name == "dynamic" || ef.Callee != nil && (w.r.isParserMethod(ef.Callee) || w.r.isDecoderFn(ef.Callee)) {
			if first == nil || ef.Seq < first.Seq {
				first = ef
			}
		}
	}
	return first
}

// castTarget finds the typed view of the decoder's target.
func castTarget(res *EvalResult, target *Node, typ types.Type) *Node {
	for _, ef := range res.Effects {
		for _, a := range ef.Args {
			var found *Node
			walkTerms(a, func(t *Term) bool {
				if t.op == "cast" && len(t.args) == 1 && t.args[0] == target {
					found = leafNode(t)
				}
				return found == nil
			})
			if found != nil {
				return found
			}
		}
	}
	return nil
}

// clean: what a decoder of an element leaves of an older value when it starts
// to read; "" if nothing.
func (w *wireCtx) clean(d *wireDec, typ types.Type) string {
	res := d.res
	if d.wrapper != nil {
		res = d.wrapper
	}
	c := d.firstDecode(w)
	if c == nil {
		return "the decoder does not read anything"
	}
	base := castTarget(res, d.target, typ)
	if base == nil {
		base = d.target
	}
	return w.zeroAt(d, res, c, base, typ, "")
}

func (w *wireCtx) zeroAt(d *wireDec, res *EvalResult, c *Effect, addr *Node, typ types.Type, path string) string {
	if st, ok := typ.Underlying().(*types.Struct); ok {
		for i := 0; i < st.NumFields(); i++ {
			f := st.Field(i)
			sub := d
			if d != nil {
				sub = nil
				for _, wf := range d.fields {
					if wf.off == w.r.offsetOf(typ, i) {
						sub = wf.dec
					}
				}
			}
			if s := w.zeroAt(sub, res, c, fieldAddrTerm(addr, typ, i), f.Type(), path+"."+f.Name()); s != "" {
				return s
			}
		}
		return ""
	}
	v := w.e.loadAt(c.Mem, addr, typ)
	if isZero(v, typ) || nilNode(v) == T.True {
		return ""
	}
	sl, ok := typ.Underlying().(*types.Slice)
	if !ok {
		return path + " still has its old value " + short(v)
	}
	if n, ok := constInt64(lenOf(v)); !ok || n != 0 {
		return path + " still has old elements"
	}
	if n, ok := constInt64(capOf(v)); ok && n == 0 {
		return ""
	}
	if d != nil && d.elem != nil && w.clean(d.elem, sl.Elem()) == "" {
		return ""
	}
	if w.cleared(res, c, v, sl.Elem()) {
		return ""
	}
	return path + ": elements after the end of the slice keep their old values"
}

// isZero: the value is the zero value of its type.
func isZero(v *Node, typ types.Type) bool {
	if v == zeroOf(typ) {
		return true
	}
	if v.leaf == nil || len(v.leaf.args) == 0 {
		return false
	}
	switch u := typ.Underlying().(type) {
	case *types.Array:
		if v.leaf.op != "array" {
			return false
		}
		for _, a := range v.leaf.args {
			if !isZero(a, u.Elem()) {
				return false
			}
		}
		return true
	case *types.Struct:
		if v.leaf.op != "struct" || len(v.leaf.args) != u.NumFields() {
			return false
		}
		for i, a := range v.leaf.args {
			if !isZero(a, u.Field(i).Type()) {
				return false
			}
		}
		return true
	}
	return false
}

func (r *Report) offsetOf(t types.Type, i int) int64 {
	st := t.Underlying().(*types.Struct)
	var fs []*types.Var
	for k := 0; k < st.NumFields(); k++ {
		fs = append(fs, st.Field(k))
	}
	return types.SizesFor("gc", "amd64").Offsetsof(fs)[i]
}

// cleared: the whole memory of an emptied slice was overwritten with zeros, or
// is new.
func (w *wireCtx) cleared(res *EvalResult, c *Effect, v *Node, et types.Type) bool {
	data := sliceData(v)
	if data.leaf != nil && data.leaf.op == "alloc" {
		return true
	}
	for _, ef := range effs(res, "store", func(ef *Effect) bool { return ef.Seq < c.Seq && len(ef.Loops) == 1 }) {
		L := ef.Loops[0]
		if ef.Args[0] != indexAddrTerm(data, add(sliceOff(v), leafNode(L.K)), et) || !isZero(ef.Args[1], et) {
			continue
		}
		if ranges(L, capOf(v)) && L.Entry == T.True && ef.Cond == inLoop(L, capOf(v)) {
			return true
		}
	}
	for _, ef := range effs(res, "clear", func(ef *Effect) bool { return ef.Seq < c.Seq && ef.Cond == T.True }) {
		s := ef.Args[0]
		if sliceData(s) == data && sliceOff(s) == sliceOff(v) && lenOf(s) == capOf(v) {
			return true
		}
	}
	return false
}

// freshTarget: the state of the memory that a body is decoded into.
func (r *Report) freshTarget(name string, w *wireCtx, c *Effect, tgt *Node, d *wireDec, typ types.Type) {
	v := w.e.loadAt(c.Mem, tgt, typ)
	where := r.at(c)
	if sl, ok := typ.Underlying().(*types.Slice); ok {
		n, okn := constInt64(lenOf(v))
		r.ob("start", name+" starts without spans", okn && n == 0, where, "starts with %s", short(v))
		if cp, ok := constInt64(capOf(v)); ok && cp == 0 {
			r.ob("stale", name+" decodes into new memory", true, where, "")
			return
		}
		data := sliceData(v)
		if data.leaf != nil && data.leaf.op == "alloc" {
			r.ob("stale", name+" decodes into new memory", true, where, "")
			return
		}
		why := "the elements are not known"
		if d != nil && d.elem != nil {
			why = w.clean(d.elem, sl.Elem())
		}
		r.ob("stale", name+" clears recycled spans before decoding", why == "", where, "%s", why)
		return
	}
	why := w.zeroAt(nil, nil, c, tgt, typ, "")
	r.ob("stale", name+" decodes into new memory", why == "", where, "%s", why)
}

func init() {
	register("C07", "Decoder targets: the memory in front of the first read of every decoder that works on recycled memory is compared with the zero value, leaf by leaf including the spare capacity of slices.", func(r *Report) {
		for _, name := range []string{"ParseJsonV1", "ParseJsonV2"} {
			r.section(func() {
				w := newWire(r)
				fn := r.entry("codec", name)
				res := w.e.Eval(fn, nil, nil, nil)
				r.used(res)
				calls := w.decoderCalls(res)
				r.must(len(calls) == 1, "decoder call of %s", name)
				c := calls[0]
				d := w.decode(c.FV)
				r.must(d.typ != nil, "%s does not decode a list", name)
				r.freshTarget(name, w, c, c.Args[0], d, d.typ)
			})
		}
		r.section(func() {
			w := newWire(r)
			res := w.e.Eval(r.entry("codec", "ParseJaeger"), nil, nil, nil)
			r.used(res)
			for _, ef := range effs(res, "call", func(ef *Effect) bool {
				return strings.HasPrefix(ef.Name, "encoding/json") || strings.Contains(ef.Name, "json.")
			}) {
				for _, a := range ef.Args[1:] {
					if a.leaf == nil || a.leaf.op != "mkiface" {
						continue
					}
					if pt, ok := a.leaf.obj.(types.Type).Underlying().(*types.Pointer); ok {
						r.freshTarget("ParseJaeger", w, ef, stripIface(a), nil, pt.Elem())
					}
				}
			}
		})
		r.count("start", 1)
		r.count("stale", 3)
	})
}
