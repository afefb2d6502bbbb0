package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func (fr *frame) instr(ins ssa.Instruction, st *State) {
	e := fr.e
	switch x := ins.(type) {
	case *ssa.DebugRef:
	case *ssa.Alloc:
		et := derefType(x.Type())
		if _, isArr := et.Underlying().(*types.Array); isArr || true {
			name := x.Comment
			fr.env[x] = leafNode(fr.alloc(ins, name, x.Type()))
		}
		// re-executed allocation: start from zero
		a := fr.env[x].leaf
		key := regionKey(a)
		if _, ok := st.mem.regs[key]; ok {
			st.mem.regs[key] = baseZero(key)
			delete(st.mem.regs, "h"+key)
		}
	case *ssa.UnOp:
		fr.env[x] = fr.unop(x, st)
	case *ssa.BinOp:
		a, b := fr.val(x.X), fr.val(x.Y)
		switch x.Op {
		case token.EQL, token.NEQ, token.LSS, token.LEQ, token.GTR, token.GEQ:
			t := x.X.Type()
			if isBoolType(t) {
				a, b = toBool(a), toBool(b)
				r := or(and(a, b), and(not(a), not(b)))
				if x.Op == token.NEQ {
					r = not(r)
				}
				fr.env[x] = r
				return
			}
			fr.env[x] = e.compare(x.Op, a, b, t)
		default:
			v := arith(x.Op, a, b, x.Type())
			if w, _ := bitsOf(x.Type()); w > 0 && w <= 16 && (x.Op == token.ADD || x.Op == token.SUB || x.Op == token.MUL) {
				// narrow numbers wrap around
				t := x.Type()
				v = apply1(v, func(l *Term) *Node { return convInt(l, t) })
			}
			fr.env[x] = v
		}
	case *ssa.ChangeType:
		fr.env[x] = fr.val(x.X)
	case *ssa.ChangeInterface:
		fr.env[x] = fr.val(x.X)
	case *ssa.Convert:
		v := fr.val(x.X)
		r := e.convert(v, x.X.Type(), x.Type())
		if r == nil { // []byte -> string
			r = e.bytesToString(v, st)
		}
		if r == v && isUnsafe(x.X.Type()) {
			// keep the pointee type of opaque pointers
			r = retype(v, x.Type())
		}
		fr.env[x] = r
	case *ssa.MultiConvert:
		fr.env[x] = fr.val(x.X)
	case *ssa.SliceToArrayPointer:
		fr.env[x] = sliceData(fr.val(x.X))
	case *ssa.MakeInterface:
		v := fr.val(x.X)
		t := x.X.Type()
		if v.atom != nil && isBoolType(t) {
			fr.env[x] = mkN("mkiface", typeKey(t), t, x.Type(), v)
			return
		}
		fr.env[x] = apply1(v, func(y *Term) *Node {
			return mkN("mkiface", typeKey(t), t, x.Type(), leafNode(y))
		})
	case *ssa.MakeClosure:
		fn := x.Fn.(*ssa.Function)
		var bs []*Node
		for _, b := range x.Bindings {
			bs = append(bs, fr.val(b))
		}
		fr.env[x] = mkN("closure", fmt.Sprintf("%s@%d.%d", fn.String(), fr.ctx.id, fr.info.instr[ins]), fn, x.Type(), append(bs, fr.iters...)...)
	case *ssa.MakeMap:
		fr.env[x] = leafNode(fr.alloc(ins, "map", x.Type()))
		a := fr.env[x].leaf
		key := regionKey(a)
		if _, ok := st.mem.regs[key]; ok {
			st.mem.regs[key] = baseZero(key)
			delete(st.mem.regs, "h"+key)
		}
		var size []*Node
		if x.Reserve != nil {
			size = []*Node{fr.val(x.Reserve)}
		}
		fr.effect(&Effect{Kind: "makemap", Args: size, Res: fr.env[x], Instr: ins, Pure: true}, st)
	case *ssa.MakeChan:
		fr.env[x] = leafNode(fr.alloc(ins, "chan", x.Type()))
		fr.effect(&Effect{Kind: "makechan", Args: []*Node{fr.val(x.Size)}, Res: fr.env[x], Instr: ins}, st)
	case *ssa.MakeSlice:
		a := leafNode(fr.alloc(ins, "make", x.Type()))
		ln, cp := fr.val(x.Len), fr.val(x.Cap)
		fr.effect(&Effect{Kind: "makeslice", Args: []*Node{ln, cp}, Res: a, Instr: ins}, st)
		if _, ok := st.mem.regs[regionKey(a.leaf)]; ok {
			st.mem.regs[regionKey(a.leaf)] = baseZero(regionKey(a.leaf))
		}
		fr.env[x] = mkSlice(a, intConst(0), ln, cp, x.Type())
	case *ssa.Slice:
		fr.env[x] = fr.slice(x, st)
	case *ssa.FieldAddr:
		fr.env[x] = fieldAddrTerm(fr.val(x.X), derefType(x.X.Type()), x.Field)
	case *ssa.Field:
		fr.env[x] = getField(fr.val(x.X), x.X.Type().Underlying().(*types.Struct), x.Field)
	case *ssa.IndexAddr:
		v := fr.val(x.X)
		idx := fr.val(x.Index)
		et := derefType(x.Type())
		var ln *Node
		if _, ok := x.X.Type().Underlying().(*types.Slice); ok {
			ln = lenOf(v)
			fr.env[x] = apply1(v, func(t *Term) *Node {
				s := leafNode(t)
				return indexAddrTerm(sliceData(s), add(sliceOff(s), idx), et)
			})
		} else {
			at := derefType(x.X.Type()).Underlying().(*types.Array)
			ln = intConst(at.Len())
			fr.env[x] = indexAddrTerm(v, idx, et)
		}
		fr.effect(&Effect{Kind: "index", Args: []*Node{idx, ln, v}, Instr: ins, Pure: true}, st)
	case *ssa.Index:
		v := fr.val(x.X)
		idx := fr.val(x.Index)
		fr.effect(&Effect{Kind: "index", Args: []*Node{idx, lenOf(v), v}, Instr: ins, Pure: true}, st)
		if isString(x.X.Type()) {
			fr.env[x] = strIndex(v, idx)
			return
		}
		fr.env[x] = getIndex(v, idx, x.Type())
	case *ssa.Lookup:
		fr.env[x] = fr.lookup(x, st)
	case *ssa.Extract:
		t := fr.val(x.Tuple)
		i := x.Index
		fr.env[x] = apply1v(t, func(y *Term) *Node {
			if y.op == "tuple" && i < len(y.args) {
				return y.args[i]
			}
			return symNode(mk("ext", fmt.Sprint(i), nil, x.Type(), leafNode(y)))
		})
	case *ssa.Range:
		fr.env[x] = mkN("range", "", ins, nil, fr.val(x.X))
		fr.env[x].leaf.typ = x.X.Type()
	case *ssa.Next:
		fr.env[x] = fr.next(x, st)
	case *ssa.TypeAssert:
		fr.env[x] = fr.typeAssert(x, st)
	case *ssa.Store:
		v := fr.val(x.Val)
		a := fr.val(x.Addr)
		fr.effect(&Effect{Kind: "store", Args: []*Node{a, v}, Instr: ins}, st)
		typ := derefType(x.Addr.Type())
		e.storeAt(st.mem, a, v, typ, T.True)
	case *ssa.MapUpdate:
		m := fr.val(x.Map)
		k, v := fr.val(x.Key), fr.val(x.Value)
		fr.effect(&Effect{Kind: "mapupdate", Args: []*Node{m, k, v}, Instr: ins}, st)
		e.mapStore(st.mem, m, x.Map.Type(), k, v, T.True, fr, ins)
	case *ssa.Send:
		fr.effect(&Effect{Kind: "send", Args: []*Node{fr.val(x.Chan), fr.val(x.X)}, Instr: ins}, st)
	case *ssa.Select:
		fr.env[x] = fr.selectStmt(x, st)
	case *ssa.Go:
		fr.goStmt(x, st)
	case *ssa.Defer:
		fv, args := fr.callee(&x.Call)
		fr.defers = append(fr.defers, &deferred{instr: x, fnv: fv, args: args, cond: st.cond})
		fr.effect(&Effect{Kind: "defer", Args: append([]*Node{fv}, args...), Instr: ins, Pure: true}, st)
	case *ssa.RunDefers:
		fr.isDef = true
		for i := len(fr.defers) - 1; i >= 0; i-- {
			d := fr.defers[i]
			c := restrict(d.cond, st.cond)
			if and(d.cond, st.cond) == T.False {
				continue
			}
			if c == T.True || implies(st.cond, d.cond) {
				fr.call(d.instr, &d.instr.Call, d.fnv, d.args, st)
			} else {
				s2 := &State{cond: and(st.cond, d.cond), mem: st.mem.clone()}
				fr.call(d.instr, &d.instr.Call, d.fnv, d.args, s2)
				st.mem = e.mergeMem(d.cond, s2.mem, st.mem)
			}
		}
		fr.isDef = false
	case *ssa.Call:
		fv, args := fr.callee(&x.Call)
		fr.env[x] = fr.call(x, &x.Call, fv, args, st)
	default:
		e.warn("unhandled instruction %T in %s", ins, fr.fn)
		if v, ok := ins.(ssa.Value); ok {
			fr.env[v] = symNode(fr.sym(ins, "?", v.Type()))
		}
	}
}

func baseZero(key string) *RNode {
	if b, ok := baseNodes[key]; ok && b.zero {
		return b
	}
	b := newRNode(rBase)
	b.zero = true
	b.label = "0"
	return b
}

func isUnsafe(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Kind() == types.UnsafePointer
}

// retype gives symbolic pointers obtained from unsafe.Pointer their type.
func retype(n *Node, typ types.Type) *Node {
	return apply1(n, func(t *Term) *Node {
		switch t.op {
		case "sym", "ext", "load", "ptradd", "call":
			if t.typ == nil || isUnsafe(t.typ) || t.op == "ptradd" {
				if _, ok := typ.Underlying().(*types.Pointer); ok {
					return mkN("cast", typeKey(typ), nil, typ, leafNode(t))
				}
			}
		case "cast":
			if types.Identical(t.typ, typ) {
				return leafNode(t)
			}
			if isUnsafe(typ) {
				return t.args[0]
			}
		}
		return leafNode(t)
	})
}

func strIndex(s, i *Node) *Node {
	return apply1(s, func(t *Term) *Node {
		if c, ok := constString(leafNode(t)); ok {
			if k, ok := constInt64(i); ok && k >= 0 && int(k) < len(c) {
				return intConst(int64(c[k]))
			}
		}
		return mkN("strindex", "", nil, types.Typ[types.Uint8], leafNode(t), i)
	})
}

func (e *Engine) bytesToString(v *Node, st *State) *Node {
	return apply1(v, func(t *Term) *Node {
		switch t.op {
		case "bytes":
			return t.args[0]
		case "nil":
			return strConst("")
		case "slice":
			// a length that is one of some constants
			lens := leafTerms(t.args[2])
			fixed := t.args[0].leaf != nil && len(lens) <= 4
			for _, l := range lens {
				if n, ok := constInt64(leafNode(l)); !ok || n > maxArray {
					fixed = false
				}
			}
			if fixed {
				return apply1(t.args[2], func(l *Term) *Node {
					n, _ := constInt64(leafNode(l))
					var el []*Node
					for i := int64(0); i < n; i++ {
						a := indexAddrTerm(t.args[0], add(t.args[1], intConst(i)), types.Typ[types.Uint8])
						el = append(el, e.loadAt(st.mem, a, types.Typ[types.Uint8]))
					}
					return mkN("strof", "", nil, types.Typ[types.String], el...)
				})
			}
		}
		return mkN("str", "", nil, types.Typ[types.String], leafNode(t))
	})
}

func (fr *frame) unop(x *ssa.UnOp, st *State) *Node {
	e := fr.e
	v := fr.val(x.X)
	switch x.Op {
	case token.MUL:
		r := e.loadAt(st.mem, v, x.Type())
		fr.effect(&Effect{Kind: "load", Args: []*Node{v}, Res: r, Instr: x, Pure: true}, st)
		return r
	case token.NOT:
		return not(toBool(v))
	case token.SUB:
		if isInteger(x.Type()) {
			return sub(intConst(0), v)
		}
		return mkN("neg", "", nil, x.Type(), v)
	case token.XOR:
		return sub(intConst(-1), v) // ^x == -1-x
	case token.ARROW:
		t := x.Type()
		if x.CommaOk {
			tt := t.(*types.Tuple)
			s := fr.sym(x, "recv", nil)
			s.typ = nil
			val := symNode(mk("recvval", "", nil, tt.At(0).Type(), leafNode(s)))
			ok := symNode(mk("recvok", "", nil, types.Typ[types.Bool], leafNode(s)))
			fr.effect(&Effect{Kind: "recv", Args: []*Node{v}, Res: val, Instr: x}, st)
			return mkN("tuple", "", nil, nil, val, ok)
		}
		s := fr.sym(x, "recv", nil)
		val := symNode(mk("recvval", "", nil, t, leafNode(s)))
		fr.effect(&Effect{Kind: "recv", Args: []*Node{v}, Res: val, Instr: x}, st)
		return val
	}
	return symNode(fr.sym(x, "unop", x.Type()))
}

func (fr *frame) slice(x *ssa.Slice, st *State) *Node {
	v := fr.val(x.X)
	var lo, hi, max *Node
	if x.Low != nil {
		lo = fr.val(x.Low)
	} else {
		lo = intConst(0)
	}
	if x.High != nil {
		hi = fr.val(x.High)
	}
	if x.Max != nil {
		max = fr.val(x.Max)
	}
	var full *Node // upper bound
	if isString(x.X.Type()) {
		full = lenOf(v)
		if hi == nil {
			hi = full
		}
		fr.effect(&Effect{Kind: "bound", Args: []*Node{lo, hi, full, v}, Instr: x, Pure: true}, st)
		if lo == intConst(0) && hi == full {
			return v
		}
		return apply1(v, func(t *Term) *Node {
			if c, ok := constString(leafNode(t)); ok {
				l, ok1 := constInt64(lo)
				h, ok2 := constInt64(hi)
				if ok1 && ok2 && 0 <= l && l <= h && int(h) <= len(c) {
					return strConst(c[l:h])
				}
			}
			if t.op == "substr" {
				return mkN("substr", "", nil, types.Typ[types.String], t.args[0], add(t.args[1], lo), add(t.args[1], hi))
			}
			return mkN("substr", "", nil, types.Typ[types.String], leafNode(t), lo, hi)
		})
	}
	if _, ok := x.X.Type().Underlying().(*types.Slice); ok {
		vh, vm := hi, max
		if vh == nil {
			vh = lenOf(v)
		}
		if vm == nil {
			vm = capOf(v)
		}
		fr.effect(&Effect{Kind: "bound", Args: []*Node{lo, vh, capOf(v), v, vm}, Instr: x, Pure: true}, st)
		return apply1(v, func(t *Term) *Node {
			s := leafNode(t)
			h, m := hi, max
			if h == nil {
				h = lenOf(s)
			}
			if m == nil {
				m = capOf(s)
			}
			if t.op == "nil" {
				return T.Nil
			}
			return mkSlice(sliceData(s), add(sliceOff(s), lo), sub(h, lo), sub(m, lo), x.Type())
		})
	}
	// pointer to array
	at := derefType(x.X.Type()).Underlying().(*types.Array)
	n := intConst(at.Len())
	if hi == nil {
		hi = n
	}
	if max == nil {
		max = n
	}
	fr.effect(&Effect{Kind: "bound", Args: []*Node{lo, hi, n, v, max}, Instr: x, Pure: true}, st)
	return apply1(v, func(t *Term) *Node {
		return mkSlice(leafNode(t), lo, sub(hi, lo), sub(max, lo), x.Type())
	})
}

// ---------------------------------------------------------------- maps

func mapTypeAux(t types.Type) string {
	return typeKey(t.Underlying())
}

func mapCell(op string, m *Term, mt types.Type, key *Node) *Term {
	t := mt.Underlying().(*types.Map)
	if op == "maplen" {
		return mk("maplen", mapTypeAux(mt), nil, types.Typ[types.Int], leafNode(m))
	}
	return mk(op, mapTypeAux(mt), nil, t.Elem(), leafNode(m), key)
}

func (e *Engine) mapGet(m *Mem, mv *Node, mt types.Type, key *Node) (val, has *Node) {
	t := mt.Underlying().(*types.Map)
	rd := func(y *Term) (*Node, *Node) {
		if y.op == "nil" {
			return zeroOf(t.Elem()), T.False
		}
		h := mapCell("maphas", y, mt, key)
		hv := rread(m.region(regionKey(h), addrRoot(h)), h, types.Typ[types.Bool])
		c := mapCell("mapcell", y, mt, key)
		v := e.readMapCell(m, c, t.Elem())
		v = muxVal(hv, v, zeroOf(t.Elem()))
		return v, hv
	}
	has = toBool(apply1(mv, func(y *Term) *Node { _, h := rd(y); return h }))
	val = apply1v(mv, func(y *Term) *Node { v, _ := rd(y); return v })
	return
}

// struct valued maps keep whole values in their cells
func (e *Engine) readMapCell(m *Mem, c *Term, et types.Type) *Node {
	return rread(m.region(regionKey(c), addrRoot(c)), c, et)
}

func (e *Engine) mapStore(m *Mem, mv *Node, mt types.Type, key, val, guard *Node, fr *frame, ins ssa.Instruction) {
	for _, g := range guardedLeaves(mv) {
		if g.T.op == "nil" {
			continue
		}
		gd := and(guard, g.Cond)
		write := func(a *Term, v *Node) {
			k := regionKey(a)
			n := newRNode(rWrite)
			n.prev, n.guard, n.addr, n.val = m.region(k, addrRoot(a)), gd, a, v
			m.regs[k] = n
		}
		has := mapCell("maphas", g.T, mt, key)
		old := rread(m.region(regionKey(has), addrRoot(has)), has, types.Typ[types.Bool])
		ln := mapCell("maplen", g.T, mt, nil)
		oldLen := rread(m.region(regionKey(ln), addrRoot(ln)), ln, types.Typ[types.Int])
		if val == nil {
			write(has, T.False)
			write(ln, muxVal(old, sub(oldLen, intConst(1)), oldLen))
			continue
		}
		write(mapCell("mapcell", g.T, mt, key), val)
		write(has, T.True)
		write(ln, muxVal(old, oldLen, add(oldLen, intConst(1))))
	}
}

func (fr *frame) lookup(x *ssa.Lookup, st *State) *Node {
	v := fr.val(x.X)
	k := fr.val(x.Index)
	if isString(x.X.Type()) {
		fr.effect(&Effect{Kind: "index", Args: []*Node{k, lenOf(v), v}, Instr: x, Pure: true}, st)
		return strIndex(v, k)
	}
	val, has := fr.e.mapGet(st.mem, v, x.X.Type(), k)
	fr.effect(&Effect{Kind: "lookup", Args: []*Node{v, k}, Res: val, Instr: x, Pure: true}, st)
	if x.CommaOk {
		return mkN("tuple", "", nil, nil, val, has)
	}
	return val
}

func (fr *frame) next(x *ssa.Next, st *State) *Node {
	it := fr.val(x.Iter)
	s := fr.sym(x, "iter", nil)
	tt := x.Type().(*types.Tuple)
	ok := leafBool(mk("iterok", "", nil, types.Typ[types.Bool], leafNode(s)))
	if it.leaf == nil || it.leaf.op != "range" || x.IsString {
		return mkN("tuple", "", nil, nil, ok, symNode(mk("iterkey", "", nil, tt.At(1).Type(), leafNode(s))),
			symNode(mk("iterval", "", nil, tt.At(2).Type(), leafNode(s))))
	}
	m := it.leaf.args[0]
	mt := it.leaf.typ
	if len(fr.loops) > 0 {
		fr.loops[len(fr.loops)-1].Over = m
	}
	t := mt.Underlying().(*types.Map)
	key := symNode(mk("iterkey", "", nil, t.Key(), leafNode(s)))
	// the value is the one stored under the key
	val := apply1v(m, func(y *Term) *Node {
		if y.op == "nil" {
			return zeroOf(t.Elem())
		}
		c := mapCell("mapcell", y, mt, key)
		return fr.e.readMapCell(st.mem, c, t.Elem())
	})
	// the key is present
	for _, g := range guardedLeaves(m) {
		if g.T.op != "nil" {
			h := mapCell("maphas", g.T, mt, key)
			k := regionKey(h)
			n := newRNode(rWrite)
			n.prev, n.guard, n.addr, n.val = st.mem.region(k, addrRoot(h)), and(g.Cond, ok), h, T.True
			st.mem.regs[k] = n
		}
	}
	fr.effect(&Effect{Kind: "next", Args: []*Node{m, key, val}, Res: ok, Instr: x, Pure: true}, st)
	return mkN("tuple", "", nil, nil, ok, key, val)
}

func (fr *frame) typeAssert(x *ssa.TypeAssert, st *State) *Node {
	v := fr.val(x.X)
	to := x.AssertedType
	_, toIface := to.Underlying().(*types.Interface)
	r := apply1v(v, func(t *Term) *Node {
		var val, ok *Node
		switch t.op {
		case "mkiface":
			dyn := t.obj.(types.Type)
			if toIface {
				if types.Implements(dyn, to.Underlying().(*types.Interface)) {
					val, ok = leafNode(t), T.True
				} else {
					val, ok = T.Nil, T.False
				}
			} else if types.Identical(dyn, to) {
				val, ok = t.args[0], T.True
			} else {
				val, ok = zeroOf(to), T.False
			}
		case "nil":
			val, ok = zeroOf(to), T.False
		default:
			if toIface {
				val = leafNode(t)
				ok = leafBool(mk("implements", typeKey(to), nil, types.Typ[types.Bool], leafNode(t)))
			} else {
				val = symNode(mk("assert", typeKey(to), to, to, leafNode(t)))
				ok = leafBool(mk("istype", typeKey(to), to, types.Typ[types.Bool], leafNode(t)))
			}
		}
		if x.CommaOk {
			if !toIface {
				val = muxVal(ok, val, zeroOf(to))
			}
			return mkN("tuple", "", nil, nil, val, ok)
		}
		return val
	})
	if !x.CommaOk {
		fr.effect(&Effect{Kind: "assert", Args: []*Node{v}, Res: r, Instr: x, Pure: true}, st)
	}
	return r
}

// ---------------------------------------------------------------- channels, goroutines

func (fr *frame) selectStmt(x *ssa.Select, st *State) *Node {
	s := fr.sym(x, "select", nil)
	n := len(x.States)
	idx := intConst(int64(n - 1))
	if !x.Blocking {
		idx = intConst(-1)
	}
	for i := n - 1; i >= 0; i-- {
		if i < n-1 || !x.Blocking {
			idx = mux(leafBool(mk("selcase", fmt.Sprint(i), x, types.Typ[types.Bool], leafNode(s))), intConst(int64(i)), idx)
		}
	}
	res := []*Node{idx, T.False}
	var oks []*Node
	for i, c := range x.States {
		ch := fr.val(c.Chan)
		cond := eq(idx, intConst(int64(i)))
		if c.Dir == types.SendOnly {
			s2 := &State{cond: and(st.cond, cond), mem: st.mem}
			fr.effect(&Effect{Kind: "send", Name: selName(x), Args: []*Node{ch, fr.val(c.Send)}, Instr: x}, s2)
		} else {
			et := c.Chan.Type().Underlying().(*types.Chan).Elem()
			v := symNode(mk("recvval", fmt.Sprint(i), nil, et, leafNode(s)))
			ok := leafBool(mk("recvok", fmt.Sprint(i), nil, types.Typ[types.Bool], leafNode(s)))
			s2 := &State{cond: and(st.cond, cond), mem: st.mem}
			fr.effect(&Effect{Kind: "recv", Name: selName(x), Args: []*Node{ch}, Res: v, Instr: x}, s2)
			res = append(res, v)
			oks = append(oks, and(cond, ok))
			_ = oks
			res[1] = muxVal(cond, ok, res[1])
		}
	}
	fr.effect(&Effect{Kind: "select", Name: selName(x), Args: []*Node{idx}, Instr: x}, st)
	return mkN("tuple", "", nil, nil, res...)
}

func selName(x *ssa.Select) string {
	if x.Blocking {
		return "select"
	}
	return "select-default"
}

func (fr *frame) goStmt(x *ssa.Go, st *State) {
	e := fr.e
	fv, args := fr.callee(&x.Call)
	ef := fr.effect(&Effect{Kind: "go", Name: calleeName(fv, &x.Call), Args: append([]*Node{fv}, args...), Instr: x}, st)
	saved := e.gor
	e.gor = ef
	s2 := &State{cond: st.cond, mem: st.mem.clone()}
	ef.Res = fr.call(x, &x.Call, fv, args, s2)
	e.gor = saved
}

func calleeName(fv *Node, c *ssa.CallCommon) string {
	if c.IsInvoke() {
		return fmt.Sprintf("(%s).%s", typeKey(c.Value.Type()), c.Method.Name())
	}
	if f := c.StaticCallee(); f != nil {
		return f.String()
	}
	if fv != nil && fv.leaf != nil {
		switch fv.leaf.op {
		case "func", "closure":
			return fv.leaf.obj.(*ssa.Function).String()
		}
	}
	return "dynamic"
}

// ---------------------------------------------------------------- calls

func (fr *frame) callee(c *ssa.CallCommon) (*Node, []*Node) {
	var args []*Node
	for _, a := range c.Args {
		args = append(args, fr.val(a))
	}
	return fr.val(c.Value), args
}

func (fr *frame) call(ins ssa.Instruction, c *ssa.CallCommon, fv *Node, args []*Node, st *State) *Node {
	e := fr.e
	if bi, ok := c.Value.(*ssa.Builtin); ok {
		return fr.builtin(ins, bi, c, args, st)
	}
	rt := callResult(c)
	// several possible targets: evaluate each under its condition
	gl := guardedLeaves(fv)
	type outc struct {
		st *State
		v  *Node
	}
	var outs []outc
	if len(gl) == 1 {
		return fr.callLeaf(ins, c, gl[0].T, args, st, rt, 0)
	}
	for i, g := range gl {
		cnd := and(st.cond, g.Cond)
		if cnd == T.False {
			continue
		}
		s2 := &State{cond: cnd, mem: st.mem.clone()}
		v := fr.callLeaf(ins, c, g.T, args, s2, rt, i+1)
		if s2.cond == T.False || v == nil {
			continue
		}
		outs = append(outs, outc{s2, v})
	}
	if len(outs) == 0 {
		st.cond = T.False
		return symNode(fr.sym(ins, "never", rt))
	}
	var sts []*State
	var vals []*Node
	for _, o := range outs {
		sts = append(sts, o.st)
		vals = append(vals, o.v)
	}
	m, sels := e.merge(sts)
	st.cond, st.mem = m.cond, m.mem.clone()
	return muxSel(sels, vals)
}

func callResult(c *ssa.CallCommon) types.Type {
	s := c.Signature()
	switch s.Results().Len() {
	case 0:
		return nil
	case 1:
		return s.Results().At(0).Type()
	}
	return s.Results()
}

func (fr *frame) callLeaf(ins ssa.Instruction, c *ssa.CallCommon, t *Term, args []*Node, st *State, rt types.Type, nth int) *Node {
	e := fr.e
	var fn *ssa.Function
	var bind []*Node
	name := ""
	if c.IsInvoke() {
		switch t.op {
		case "mkiface":
			dyn := t.obj.(types.Type)
			if m := e.L.lookupMethod(dyn, c.Method); m != nil {
				fn = m
				args = append([]*Node{t.args[0]}, args...)
			}
		case "nil":
			st.cond = T.False
			return nil
		}
		if fn == nil {
			name = fmt.Sprintf("(%s).%s", typeKey(c.Value.Type()), c.Method.Name())
			args = append([]*Node{leafNode(t)}, args...)
		}
	} else {
		switch t.op {
		case "func":
			fn = t.obj.(*ssa.Function)
		case "closure":
			fn = t.obj.(*ssa.Function)
			bind = t.args[:len(fn.FreeVars)]
		case "nil":
			return symNode2Safe(fr.sym(ins, "nilcall", rt))
		default:
			name = "dynamic"
			args = append([]*Node{leafNode(t)}, args...)
		}
	}
	if fn != nil {
		name = fn.String()
		if e.ExternHk != nil {
			if v, ok := e.ExternHk(e, fr, name, args, st, ins); ok {
				return v
			}
		}
		if fn.Blocks != nil && e.inRepo(fn) && !e.isOpaque(fn) && !e.onStack(fr.ctx, fn, bind) && fr.ctx.depth < 60 {
			if e.steps > e.maxSteps {
				panic(tooComplex{"analysis budget exceeded"})
			}
			var site ssa.Instruction = ins
			ctx := e.mkctx(fr.ctx, site, fn, bind)
			base := and(fr.base, st.cond)
			rets, out := e.run(ctx, fn, args, bind, st, base, fr.loops, fr.iters)
			if out == nil {
				st.cond = T.False
				return nil
			}
			vals := joinRets(e, rets)
			st.mem = out.mem
			oc := e.restrictFacts(out.cond)
			st.cond = and(st.cond, oc)
			switch len(vals) {
			case 0:
				return T.Nil
			case 1:
				return vals[0]
			}
			return mkN("tuple", "", nil, nil, vals...)
		}
		if fn.Blocks != nil && e.inRepo(fn) {
			// recursion or opaque
			return fr.opaqueCall(ins, fn, bind, leafNode(t), args, st, rt)
		}
	}
	return fr.extern(ins, name, fn, args, st, rt)
}

func symNode2Safe(t *Term) *Node { return symNode(t) }

func (e *Engine) inRepo(fn *ssa.Function) bool {
	if fn.Pkg != nil {
		return e.L.isRepo(fn.Pkg.Pkg)
	}
	if fn.Object() != nil && fn.Object().Pkg() != nil {
		if e.L.isRepo(fn.Object().Pkg()) {
			return true
		}
		return fn.Synthetic != ""
	}
	if p := fn.Parent(); p != nil {
		return e.inRepo(p)
	}
	return fn.Synthetic != ""
}

func (e *Engine) isOpaque(fn *ssa.Function) bool { return e.Opaque != nil && e.Opaque(fn) }

// onStack: the function is being evaluated; values of one constructor that
// capture different data may nest.
func (e *Engine) onStack(c *Ctx, fn *ssa.Function, bind []*Node) bool {
	n := 0
	bk := bindKey(bind)
	for ; c != nil; c = c.parent {
		if c.fn == fn {
			n++
			if len(bind) == 0 || n > 2 || c.bind == bk {
				return true
			}
		}
	}
	return false
}

// results builds the symbolic result of a call.
func (fr *frame) results(ins ssa.Instruction, tag string, rt types.Type) *Node {
	if rt == nil {
		return T.Nil
	}
	if tt, ok := rt.(*types.Tuple); ok {
		base := fr.sym(ins, tag, nil)
		var vs []*Node
		for i := 0; i < tt.Len(); i++ {
			vs = append(vs, symNode(mk("ext", fmt.Sprint(i), nil, tt.At(i).Type(), leafNode(base))))
		}
		return mkN("tuple", "", nil, nil, vs...)
	}
	return symNode(fr.sym(ins, tag, rt))
}

func (fr *frame) opaqueCall(ins ssa.Instruction, fn *ssa.Function, bind []*Node, fv *Node, args []*Node, st *State, rt types.Type) *Node {
	e := fr.e
	res := fr.results(ins, "call:"+fn.Name()+bindKey(bind), rt)
	fr.effect(&Effect{Kind: "call", Name: fn.String(), Callee: fn, FV: fv, Args: args, Res: res, Instr: ins}, st)
	// memory the function may modify
	lab := fmt.Sprintf("c%d.%d", fr.ctx.id, fr.info.instr[ins])
	mods := e.modset(fn)
	for _, k := range keysOf(mods) {
		e.havocRegion(st.mem, k, lab, fr.iters, nil)
	}
	for _, a := range args {
		e.havocReach(st.mem, a, lab, fr.iters, 0)
	}
	return res
}

// havocReach forgets what is known about objects reachable from a pointer.
func (e *Engine) havocReach(m *Mem, a *Node, lab string, iters []*Node, depth int) {
	if depth > 3 {
		return
	}
	for _, t := range leafTerms(a) {
		switch t.op {
		case "alloc", "global", "fieldaddr", "indexaddr":
			root := addrRoot(t)
			if root.op == "alloc" || root.op == "global" {
				k := regionKey(root)
				if _, ok := m.regs[k]; ok || root.op == "alloc" {
					// things stored in the object are reachable as well
					if r := m.regs[k]; r != nil {
						addrs := map[*Term]bool{}
						hv := false
						collectWrites(r, nil, addrs, &hv, map[*RNode]bool{})
						for _, ad := range termsOf(addrs) {
							e.havocReach(m, rread(r, ad, ad.cellTyp()), lab, iters, depth+1)
						}
					}
					if _, ok := m.regs[k]; !ok {
						m.regs[k] = m.region(k, root)
					}
					e.havocRegion(m, k, lab, iters, nil)
					e.havocRegion(m, "h"+k, lab, iters, nil)
				}
			} else if t.op != "alloc" && t.op != "global" {
				e.havocRegion(m, regionKey(t), lab, iters, nil)
			}
		case "slice":
			e.havocReach(m, t.args[0], lab, iters, depth)
			if d := t.args[0].leaf; d != nil && d.op == "sdata" {
				e.havocElems(m, t.typ, lab, iters)
			}
		case "mkiface":
			e.havocReach(m, t.args[0], lab, iters, depth)
		case "closure":
			fn, _ := t.obj.(*ssa.Function)
			for i, b := range t.args {
				if fn != nil && i < len(fn.FreeVars) && onlyRead(fn.FreeVars[i], 0) && b.leaf != nil && b.leaf.op == "alloc" {
					// the variable keeps its value, what it refers to may change
					if pt, ok := fn.FreeVars[i].Type().(*types.Pointer); ok {
						e.havocReach(m, e.loadAt(m, b, pt.Elem()), lab, iters, depth+1)
						continue
					}
				}
				e.havocReach(m, b, lab, iters, depth+1)
			}
		case "struct":
			for _, b := range t.args {
				e.havocReach(m, b, lab, iters, depth+1)
			}
		case "nil", "const", "func", "lin":
		default:
			if t.typ == nil {
				continue
			}
			switch u := t.typ.Underlying().(type) {
			case *types.Pointer:
				e.havocType(m, u.Elem(), lab, iters, 0)
			case *types.Slice:
				e.havocElems(m, t.typ, lab, iters)
			case *types.Map:
				e.havocRegion(m, "M:"+mapTypeAux(t.typ), lab, iters, nil)
				e.havocRegion(m, "hM:"+mapTypeAux(t.typ), lab, iters, nil)
			}
		}
	}
}

// onlyRead: the captured variable is not changed by the closure and its
// address goes nowhere.
func onlyRead(fv ssa.Value, depth int) bool {
	if _, ok := fv.Type().(*types.Pointer); !ok || depth > 4 || fv.Referrers() == nil {
		return false
	}
	for _, u := range *fv.Referrers() {
		switch u := u.(type) {
		case *ssa.DebugRef:
		case *ssa.UnOp:
			if u.Op != token.MUL {
				return false
			}
		case *ssa.MakeClosure:
			for i, b := range u.Bindings {
				if b == fv && !onlyRead(u.Fn.(*ssa.Function).FreeVars[i], depth+1) {
					return false
				}
			}
		default:
			return false
		}
	}
	return true
}

func (e *Engine) havocElems(m *Mem, t types.Type, lab string, iters []*Node) {
	if t == nil {
		return
	}
	s, ok := t.Underlying().(*types.Slice)
	if !ok {
		return
	}
	e.havocRegion(m, "I:"+elemTypeString(s.Elem()), lab, iters, nil)
	e.havocType(m, s.Elem(), lab, iters, 1)
}

func (e *Engine) havocType(m *Mem, t types.Type, lab string, iters []*Node, depth int) {
	if depth > 3 {
		return
	}
	if st, ok := expandable(t); ok {
		for i := 0; i < st.NumFields(); i++ {
			f := st.Field(i)
			e.havocRegion(m, "F:"+shortType(t)+"."+f.Name(), lab, iters, nil)
			if _, ok := f.Type().Underlying().(*types.Struct); ok {
				e.havocType(m, f.Type(), lab, iters, depth+1)
			}
		}
		return
	}
	e.havocRegion(m, "P:"+elemTypeString(types.NewPointer(t)), lab, iters, nil)
}

// modset is the set of field/element regions a function (transitively) writes.
func (e *Engine) modset(fn *ssa.Function) map[string]bool {
	if s, ok := e.modsets[fn]; ok {
		return s
	}
	s := map[string]bool{}
	seen := map[*ssa.Function]bool{}
	var visit func(f *ssa.Function)
	visit = func(f *ssa.Function) {
		if seen[f] || f == nil {
			return
		}
		seen[f] = true
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				switch x := ins.(type) {
				case *ssa.Store:
					if !freshBase(x.Addr, 0) {
						addRegionsFor(s, x.Addr, derefType(x.Addr.Type()))
					}
				case *ssa.MapUpdate:
					if freshBase(x.Map, 0) {
						continue
					}
					s["M:"+mapTypeAux(x.Map.Type())] = true
					s["hM:"+mapTypeAux(x.Map.Type())] = true
				case *ssa.MakeClosure:
					visit(x.Fn.(*ssa.Function))
				}
				if c, ok := ins.(ssa.CallInstruction); ok {
					if cal := c.Common().StaticCallee(); cal != nil && e.inRepo(cal) {
						visit(cal)
					}
					if bi, ok := c.Common().Value.(*ssa.Builtin); ok && len(c.Common().Args) > 0 {
						switch bi.Name() {
						case "delete":
							s["M:"+mapTypeAux(c.Common().Args[0].Type())] = true
							s["hM:"+mapTypeAux(c.Common().Args[0].Type())] = true
						case "copy", "append":
							if sl, ok := c.Common().Args[0].Type().Underlying().(*types.Slice); ok {
								addElemRegions(s, sl.Elem())
							}
						}
					}
				}
			}
		}
		for _, a := range f.AnonFuncs {
			visit(a)
		}
	}
	visit(fn)
	e.modsets[fn] = s
	return s
}

func addElemRegions(s map[string]bool, et types.Type) {
	s["I:"+elemTypeString(et)] = true
	if st, ok := expandable(et); ok {
		for i := 0; i < st.NumFields(); i++ {
			addFieldRegion(s, et, i)
		}
	}
}

func addFieldRegion(s map[string]bool, t types.Type, i int) {
	st := t.Underlying().(*types.Struct)
	f := st.Field(i)
	s["F:"+shortType(t)+"."+f.Name()] = true
	if _, ok := expandable(f.Type()); ok {
		st2 := f.Type().Underlying().(*types.Struct)
		for j := 0; j < st2.NumFields(); j++ {
			addFieldRegion(s, f.Type(), j)
		}
	}
}

func addRegionsFor(s map[string]bool, addr ssa.Value, typ types.Type) {
	switch a := addr.(type) {
	case *ssa.FieldAddr:
		addFieldRegion(s, derefType(a.X.Type()), a.Field)
	case *ssa.IndexAddr:
		addElemRegions(s, typ)
	case *ssa.Global:
		s[regionKey(globalTerm(a))] = true
	case *ssa.Alloc:
	default:
		s["P:"+elemTypeString(addr.Type())] = true
		if st, ok := expandable(typ); ok {
			for i := 0; i < st.NumFields(); i++ {
				addFieldRegion(s, typ, i)
			}
		}
	}
}

// ---------------------------------------------------------------- builtins

func (fr *frame) builtin(ins ssa.Instruction, bi *ssa.Builtin, c *ssa.CallCommon, args []*Node, st *State) *Node {
	e := fr.e
	switch bi.Name() {
	case "len":
		if _, ok := c.Args[0].Type().Underlying().(*types.Map); ok {
			mt := c.Args[0].Type()
			return apply1(args[0], func(t *Term) *Node {
				if t.op == "nil" {
					return intConst(0)
				}
				a := mapCell("maplen", t, mt, nil)
				return rread(st.mem.region(regionKey(a), addrRoot(a)), a, types.Typ[types.Int])
			})
		}
		if _, ok := c.Args[0].Type().Underlying().(*types.Chan); ok {
			return symNode(fr.sym(ins, "chanlen", types.Typ[types.Int]))
		}
		return lenOf(args[0])
	case "cap":
		return capOf(args[0])
	case "append":
		return fr.appendCall(ins, c, args, st)
	case "copy":
		n := leafNode(mk("min", "", nil, types.Typ[types.Int], lenOf(args[0]), lenOf(args[1])))
		if lenOf(args[0]) == lenOf(args[1]) {
			n = lenOf(args[0])
		}
		fr.effect(&Effect{Kind: "copy", Args: []*Node{args[0], args[1]}, Res: n, Instr: ins}, st)
		fr.copyMem(ins, args[0], args[1], st)
		return n
	case "delete":
		fr.effect(&Effect{Kind: "mapdelete", Args: args, Instr: ins}, st)
		e.mapStore(st.mem, args[0], c.Args[0].Type(), args[1], nil, T.True, fr, ins)
		return T.Nil
	case "close":
		fr.effect(&Effect{Kind: "close", Args: args, Instr: ins}, st)
		return T.Nil
	case "panic":
		fr.effect(&Effect{Kind: "panic", Args: args, Instr: ins}, st)
		st.cond = T.False
		return T.Nil
	case "min", "max":
		r := args[0]
		for _, a := range args[1:] {
			lt := lessThan(a, r)
			if bi.Name() == "max" {
				lt = lessThan(r, a)
			}
			r = muxVal(lt, a, r)
		}
		return r
	case "clear":
		fr.effect(&Effect{Kind: "clear", Args: args, Instr: ins}, st)
		e.havocReach(st.mem, args[0], fmt.Sprintf("clr%d.%d", fr.ctx.id, fr.info.instr[ins]), fr.iters, 0)
		return T.Nil
	case "recover", "print", "println":
		return T.Nil
	case "String": // unsafe.String
		return mkN("strview", "", nil, types.Typ[types.String], mkN("uslice", "", nil, nil, args...))
	case "StringData", "SliceData":
		return sliceData(args[0])
	case "Slice":
		return mkSlice(args[0], intConst(0), args[1], args[1], callResult(c))
	case "Add":
		return ptrAdd(args[0], args[1])
	case "ssa:wrapnilchk":
		return args[0]
	}
	e.warn("builtin %s", bi.Name())
	if v, ok := ins.(ssa.Value); ok {
		return symNode(fr.sym(ins, "builtin", v.Type()))
	}
	return T.Nil
}

func ptrAdd(p, off *Node) *Node {
	return apply2(p, off, func(x, y *Term) *Node {
		if x.op == "cast" {
			x = x.args[0].leaf
		}
		if c, ok := constInt64(leafNode(y)); ok && c == 0 {
			return leafNode(x)
		}
		if x.op == "ptradd" {
			o := add(x.args[1], leafNode(y))
			return mkN("ptradd", "", nil, types.Typ[types.UnsafePointer], x.args[0], o)
		}
		return mkN("ptradd", "", nil, types.Typ[types.UnsafePointer], leafNode(x), leafNode(y))
	})
}

func (fr *frame) appendCall(ins ssa.Instruction, c *ssa.CallCommon, args []*Node, st *State) *Node {
	e := fr.e
	typ := c.Args[0].Type()
	et := typ.Underlying().(*types.Slice).Elem()
	ef := fr.effect(&Effect{Kind: "append", Args: args, Instr: ins, Pure: true}, st)
	r := apply2(args[0], args[1], func(s, t *Term) *Node {
		// elements of a literal argument list
		if t.op == "nil" {
			return leafNode(s)
		}
		if t.op == "slice" && t.args[0].leaf != nil && t.args[0].leaf.op == "alloc" {
			if n, ok := constInt64(t.args[2]); ok && n <= maxArray {
				var el []*Node
				for i := int64(0); i < n; i++ {
					a := indexAddrTerm(t.args[0], add(t.args[1], intConst(i)), et)
					el = append(el, e.loadAt(st.mem, a, et))
				}
				if s.op == "append" && s.args[0].leaf != nil {
					return mkN("append", "", nil, typ, append(append([]*Node{}, s.args...), el...)...)
				}
				return mkAppend(leafNode(s), el, typ)
			}
		}
		return mkN("appends", "", nil, typ, leafNode(s), leafNode(t))
	})
	ef.Res = r
	return r
}

func (fr *frame) copyMem(ins ssa.Instruction, dst, src *Node, st *State) {
	e := fr.e
	d, s := dst.leaf, src.leaf
	if d != nil && d.op == "slice" && s != nil {
		dn, ok1 := constInt64(lenOf(dst))
		sn, ok2 := constInt64(lenOf(src))
		if ok1 && ok2 {
			n := dn
			if sn < n {
				n = sn
			}
			if n <= maxArray && d.typ != nil {
				et := types.Type(types.Typ[types.Uint8])
				if sl, ok := d.typ.Underlying().(*types.Slice); ok {
					et = sl.Elem()
				}
				var vals []*Node
				for i := int64(0); i < n; i++ {
					if cs, ok := constString(src); ok {
						vals = append(vals, intConst(int64(cs[i])))
						continue
					}
					vals = append(vals, e.loadAt(st.mem, indexAddrTerm(sliceData(src), add(sliceOff(src), intConst(i)), et), et))
				}
				for i := int64(0); i < n; i++ {
					e.storeAt(st.mem, indexAddrTerm(sliceData(dst), add(sliceOff(dst), intConst(i)), et), vals[i], et, T.True)
				}
				return
			}
		}
	}
	e.havocReach(st.mem, dst, fmt.Sprintf("cp%d.%d", fr.ctx.id, fr.info.instr[ins]), fr.iters, 0)
}

func isErrorType(t types.Type) bool {
	return t != nil && typeKey(t) == "error"
}

func hasPrefixAny(s string, ps ...string) bool {
	for _, p := range ps {
		if strings.HasPrefix(s, p) {
			return true
		}
	}
	return false
}

// freshBase: the address or map belongs to an object that the function itself
// has made.
func freshBase(v ssa.Value, depth int) bool {
	if depth > 8 {
		return false
	}
	switch x := v.(type) {
	case *ssa.Alloc, *ssa.MakeMap, *ssa.MakeSlice:
		return true
	case *ssa.FieldAddr:
		return freshBase(x.X, depth+1)
	case *ssa.IndexAddr:
		return freshBase(x.X, depth+1)
	case *ssa.Slice:
		return freshBase(x.X, depth+1)
	case *ssa.UnOp:
		al, ok := x.X.(*ssa.Alloc)
		if !ok || al.Referrers() == nil {
			return false
		}
		n := 0
		for _, r := range *al.Referrers() {
			switch y := r.(type) {
			case *ssa.Store:
				if y.Addr != al || !freshBase(y.Val, depth+1) {
					return false
				}
				n++
			case *ssa.UnOp, *ssa.DebugRef:
			case *ssa.MakeClosure:
				if !readsOnly(y, al) {
					return false
				}
			default:
				return false
			}
		}
		return n > 0
	}
	return false
}

// readsOnly: the closure only reads the captured variable.
func readsOnly(mc *ssa.MakeClosure, al *ssa.Alloc) bool {
	fn := mc.Fn.(*ssa.Function)
	for i, b := range mc.Bindings {
		if b != al {
			continue
		}
		refs := fn.FreeVars[i].Referrers()
		if refs == nil {
			return false
		}
		for _, r := range *refs {
			switch r.(type) {
			case *ssa.UnOp, *ssa.DebugRef:
			default:
				return false
			}
		}
	}
	return true
}
