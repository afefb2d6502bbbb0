package main

// C14, C15, C16: spans on their way through Kafka.

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C14", "Value-flow of the construction of Kafka messages: the bytes of key and value are followed through the encoder to the span, and the memory of a message is shown to be disjoint from the memory of all others.", func(r *Report) {
		r.section(func() { r.message() })
		r.section(func() { r.partitioner() })
	})
}

// implOf: the method of a concrete type of the repository.
func (r *Report) implOf(t types.Type, name string) *ssa.Function {
	ms := types.NewMethodSet(t)
	for i := 0; i < ms.Len(); i++ {
		if s := ms.At(i); s.Obj().Name() == name {
			return r.L.Prog.MethodValue(s)
		}
	}
	return nil
}

// encoded: the bytes that a message part yields when the producer asks for
// them, and the length that it claims.
func (r *Report) encoded(e *Engine, part *Node, mem *Mem, what, at string) (*Node, bool) {
	bytesOf := func(n *Node) (out *Node, length *Node, err *Node) {
		t := n.leaf
		r.must(t != nil && t.op == "mkiface", "%s of a message is %s", what, short(n))
		typ := t.obj.(types.Type)
		if nt, ok := types.Unalias(typ).(*types.Named); ok && nt.Obj().Pkg() != nil && strings.HasSuffix(nt.Obj().Pkg().Path(), "Shopify/sarama") {
			return t.args[0], lenOf(t.args[0]), T.Nil
		}
		enc, ln := r.implOf(typ, "Encode"), r.implOf(typ, "Length")
		r.must(enc != nil && ln != nil && r.L.isRepoFn(enc), "%s of a message is a %s", what, typ)
		a := e.Eval(enc, []*Node{t.args[0]}, nil, mem)
		b := e.Eval(ln, []*Node{t.args[0]}, nil, mem)
		r.used(a)
		r.used(b)
		return a.Results[0], b.Results[0], a.Results[1]
	}
	var out, length, err *Node
	ls := guardedLeaves(part)
	for i, l := range ls {
		b, n, x := bytesOf(leafNode(l.T))
		if i == 0 {
			out, length, err = b, n, x
			continue
		}
		out, length, err = mux(l.Cond, b, out), mux(l.Cond, n, length), mux(l.Cond, x, err)
	}
	ok := r.same("bytes", "the "+what+" is handed out without an error", at, err, T.Nil)
	ok = r.same("bytes", "the length of the "+what+" is that of its bytes", at, length, lenOf(out)) && ok
	return out, ok
}

func (r *Report) message() {
	fn := r.entry("balance", "makeProducerMessage")
	enc := r.entry("codec", "BinaryEncode")
	e := r.engine(func(f *ssa.Function) bool { return f == enc })
	res := e.Eval(fn, nil, nil, nil)
	r.used(res)
	wh := r.L.fnPos(fn)
	var span, topic *Node
	var spanT types.Type
	for i, p := range fn.Params {
		if isString(p.Type()) {
			topic = res.Params[i]
		} else {
			span, spanT = res.Params[i], p.Type()
		}
	}
	r.must(span != nil && topic != nil && len(res.Results) == 1, "makeProducerMessage has other parameters")
	// the message
	msg := res.Results[0]
	mt := fn.Signature.Results().At(0).Type()
	fresh := msg.leaf != nil && msg.leaf.op == "alloc"
	r.ob("message", "every message is an object of its own", fresh, wh, "%s", short(msg))
	if !fresh {
		return
	}
	field := func(n string) *Node {
		return e.loadAt(res.Out.mem, fieldAddrOf(msg, mt, n), fieldType(mt, n))
	}
	r.same("message", "the message goes to the given topic", wh, field("Topic"), topic)

	// the binary form
	var bin *Effect
	for _, ef := range effs(res, "call", func(ef *Effect) bool { return ef.Callee == enc }) {
		r.ob("message", "the span is encoded once", bin == nil && ef.Cond == T.True && len(ef.Loops) == 0 && ef.Gor == nil, r.at(ef), "if %s", short(ef.Cond))
		bin = ef
	}
	if bin == nil {
		r.ob("message", "the span is encoded once", false, wh, "it is not encoded")
		return
	}
	st := spanT.Underlying().(*types.Struct)
	for i := 0; i < st.NumFields(); i++ {
		r.same("message", "the encoded span has the "+st.Field(i).Name()+" of the span", r.at(bin), getField(bin.Args[0], st, i), getField(span, st, i))
	}
	ev := r.engine(nil).Eval(enc, nil, nil, nil)
	r.same("message", "encoding never fails", r.L.fnPos(enc), ev.Results[0], T.Nil)
	always := false
	for _, ef := range ev.Effects {
		if ef.Kind == "call" && strings.HasPrefix(ef.Name, "(*bytes.Buffer).Write") && len(ef.Loops) == 0 && ef.Cond == T.True {
			always = true
		}
	}
	// every value is written by some way
	some := T.False
	for _, ef := range effs(ev, "call", func(ef *Effect) bool { return strings.HasPrefix(ef.Name, "(*bytes.Buffer).Write") }) {
		c := ef.Cond
		for i := len(ef.Loops) - 1; i >= 0; i-- {
			L := ef.Loops[i]
			for _, p := range loopPhis(L) {
				if p.Mu != nil && p.Init != nil {
					c = subst(c, p.Mu, p.Init)
				}
			}
		}
		some = or(some, c)
	}
	always = always || some == T.True
	r.ob("message", "the binary form is never empty", always, r.L.fnPos(enc), "")

	// the buffer
	buf := bin.Args[1]
	var region *Node // memory that was given to the buffer
	bt := buf.leaf
	r.must(bt != nil, "the span is encoded into %s", short(buf))
	for _, ef := range effs(res, "call", named("bytes.NewBuffer", "bytes.NewBufferString")) {
		if ef.Res == buf && strings.HasSuffix(ef.Name, "NewBuffer") {
			region = ef.Args[0]
		}
	}
	r.ob("memory", "the span is encoded into a new buffer", region != nil || bt.op == "alloc", r.at(bin), "%s", short(buf))
	if region == nil && bt.op != "alloc" {
		return
	}
	if region != nil {
		r.same("message", "the buffer is empty at first", r.at(bin), lenOf(region), intConst(0))
	}
	// Bytes and Len show the same state
	var first *Effect
	for _, ef := range effs(res, "call", func(ef *Effect) bool { return len(ef.Args) > 0 && ef.Args[0] == buf && ef != bin }) {
		m := ef.Name[strings.LastIndex(ef.Name, ".")+1:]
		ok := m == "Bytes" || m == "Len" || m == "Cap" || m == "Grow" && ef.Seq < bin.Seq
		r.ob("message", "nothing else happens to the buffer", ok, r.at(ef), "calls %s", ef.Name)
		if m == "Bytes" && ef.Seq > bin.Seq && first == nil {
			first = ef
		}
	}
	if first == nil {
		r.ob("message", "the bytes of the buffer are used", false, r.at(bin), "")
		return
	}
	fix := func(n *Node) *Node {
		for _, ef := range effs(res, "call", func(ef *Effect) bool { return len(ef.Args) > 0 && ef.Args[0] == buf && ef.Seq > bin.Seq }) {
			if ef.Res == nil || ef.Res.leaf == nil {
				continue
			}
			if strings.HasSuffix(ef.Name, ".Bytes") && ef != first {
				n = subst(n, ef.Res.leaf, first.Res)
			} else if strings.HasSuffix(ef.Name, ".Len") {
				n = subst(n, ef.Res.leaf, lenOf(first.Res))
			} else if strings.HasSuffix(ef.Name, ".Cap") {
				n = subst(n, ef.Res.leaf, capOf(first.Res))
			}
		}
		return n
	}

	// value and key
	val, _ := r.encoded(e, field("Value"), res.Out.mem, "value", wh)
	val = fix(val)
	r.same("message", "the value is the binary form", wh, sliceData(val), sliceData(first.Res))
	r.same("message", "the value starts with the first byte of the binary form", wh, sliceOff(val), sliceOff(first.Res))
	r.same("message", "the value ends with the last byte of the binary form", wh, lenOf(val), lenOf(first.Res))
	key, _ := r.encoded(e, field("Key"), res.Out.mem, "key", wh)
	r.same("key", "the key has 8 bytes", wh, lenOf(key), intConst(8))
	trace := fieldOf(span, spanT, "Trace")
	var put *Effect
	for _, ef := range effs(res, "call", named("Endian).PutUint64")) {
		r.ob("key", "the key is written once", put == nil, r.at(ef), "")
		put = ef
	}
	if put == nil {
		r.ob("key", "the key is written", false, wh, "no number is written")
		return
	}
	dst := put.Args[len(put.Args)-2]
	r.iff("key", "the key is written for every span", r.at(put), put.Cond, T.True)
	r.same("key", "the key is written to its place", r.at(put), sliceData(dst), sliceData(key))
	r.same("key", "the key is written from its first byte on", r.at(put), sliceOff(dst), sliceOff(key))
	x := freshBits("t")
	env := bitEnv{}
	if trace.leaf != nil {
		env[trace.leaf] = x
	}
	d := sameBits(bitVec(put.Args[len(put.Args)-1], env), x)
	r.ob("key", "the key is the whole trace id and nothing else", d == "", r.at(put), "%s", d)

	// memory
	owner := r.owner(e, res)
	if owner != nil {
		if full := owner.full(); full != nil {
			old := fix
			fix = func(n *Node) *Node { return full(old(n)) }
		}
	}
	kd, k0 := sliceData(key), sliceOff(key)
	k1 := add(k0, intConst(8))
	vd, v0, v1 := T.Nil, intConst(0), intConst(0)
	moved := T.False
	used := intConst(0)
	if region != nil {
		vd, v0 = sliceData(region), sliceOff(region)
		v1 = add(v0, capOf(region))
		used = add(v0, lenOf(first.Res))
		moved = not(eq(indexAddrTerm(sliceData(first.Res), sliceOff(first.Res), byteType), indexAddrTerm(vd, v0, byteType)))
	}
	overlap := func(d1, a0, a1, d2, b0, b1 *Node) *Node {
		if d1 == T.Nil || d2 == T.Nil {
			return T.False
		}
		same := T.False
		for _, x := range guardedLeaves(d1) {
			for _, y := range guardedLeaves(d2) {
				// memory made for this message is none that was kept before
				if x.T.op == "alloc" && owner.keeps(y.T) || y.T.op == "alloc" && owner.keeps(x.T) {
					continue
				}
				same = or(same, ands(x.Cond, y.Cond, eq(leafNode(x.T), leafNode(y.T))))
			}
		}
		return fix(ands(same, lessThan(a0, b1), lessThan(b0, a1)))
	}
	bad := overlap(kd, k0, k1, vd, v0, v1)
	r.ob("memory", "key and value of a message do not overlap", bad == T.False, wh, "if %s", short(bad))
	ownedBy := func(what string, d *Node, et types.Type) {
		for _, l := range guardedLeaves(d) {
			ok := l.T.op == "alloc"
			ok = ok || owner.keeps(l.T)
			r.ob("memory", "the "+what+" has memory of its own", ok, wh, "%s if %s", short(leafNode(l.T)), short(l.Cond))
		}
	}
	ownedBy("key", kd, byteType)
	if region != nil {
		ownedBy("value", vd, byteType)
	}
	// the places of the parts
	type slot struct {
		what string
		d, i *Node
	}
	var slots []slot
	for _, w := range []string{"Key", "Value"} {
		for _, l := range guardedLeaves(field(w)) {
			if l.T.op != "mkiface" || l.T.args[0].leaf == nil {
				continue
			}
			p := l.T.args[0].leaf
			switch {
			case p.op == "indexaddr":
				slots = append(slots, slot{w, p.args[0], p.args[1]})
				ownedBy("place of the "+strings.ToLower(w), p.args[0], nil)
			case p.op == "alloc" || isSliceTyp(l.T.obj.(types.Type)):
			default:
				r.ob("memory", "the place of the "+strings.ToLower(w)+" is known", false, wh, "%s", short(leafNode(p)))
			}
		}
	}
	if owner != nil {
		for i := 0; i < owner.st.NumFields(); i++ {
			f := owner.st.Field(i)
			sl, ok := f.Type().Underlying().(*types.Slice)
			if !ok {
				continue
			}
			after := fix(owner.after[i])
			what := "the memory kept in " + f.Name() + " "
			ad, a0 := sliceData(after), sliceOff(after)
			a1 := add(a0, lenOf(after))
			if types.Identical(sl.Elem().Underlying(), byteType) {
				bad := overlap(ad, a0, a1, kd, k0, k1)
				r.ob("memory", what+"does not overlap the key", bad == T.False, wh, "if %s", short(bad))
				if region != nil {
					bad := and(overlap(ad, a0, a1, vd, v0, used), fix(not(moved)))
					r.ob("memory", what+"does not overlap the value", bad == T.False, wh, "if %s", short(bad))
					bad = T.False
					for _, l := range guardedLeaves(ad) {
						if l.T.op == "sdata" && l.T.args[0].leaf != nil && l.T.args[0].leaf == first.Res.leaf {
							bad = or(bad, and(l.Cond, moved))
						}
					}
					r.ob("memory", what+"is not that of the value", bad == T.False, wh, "if %s", short(bad))
				}
				continue
			}
			for _, s := range slots {
				bad := overlap(ad, a0, a1, s.d, s.i, add(s.i, intConst(1)))
				r.ob("memory", what+"does not hold the "+strings.ToLower(s.what)+" of the message", bad == T.False, wh, "if %s", short(bad))
			}
			r.must(isByteSlice(sl.Elem()), "unknown memory %s", f.Name())
		}
		r.ob("memory", "the owner of the memory is not part of the message", !r.holdsOwner(field("Key"), owner.t) && !r.holdsOwner(field("Value"), owner.t) && !r.holdsOwner(field("Metadata"), owner.t), wh, "")
		// one user at a time
		n := 0
		var last *Effect
		for _, ef := range effs(res, "call", named("(*sync.Pool).Put")) {
			if stripIface(ef.Args[1]).leaf == owner.t || stripIface(ef.Args[1]) == leafNode(owner.t) {
				n++
				last = ef
			}
		}
		r.ob("memory", "the memory is given back at most once", n <= 1, wh, "%d times", n)
		if last != nil {
			for _, ef := range res.Effects {
				if ef.Seq <= last.Seq || ef.Pure || ef.Kind == "return" {
					continue
				}
				touch := ef.Kind == "store" || ef.Kind == "copy" || ef.Kind == "append" || ef.Kind == "clear" || ef.Kind == "call" && !neverBlocks(ef.Name)
				r.ob("memory", "the memory is not used after it was given back", !touch, r.at(ef), "%s %s", ef.Kind, ef.Name)
			}
		}
		for _, ef := range effs(res, "store", nil) {
			r.ob("memory", "the memory is used by one message at a time: "+short(ef.Args[0]), ef.Gor == nil && !r.leaks(ef, owner.t), r.at(ef), "stores it elsewhere")
		}
		r.ob("memory", "what is given back was taken from the pool", r.poolKept(owner.pool), wh, "")
	}
	if len(slots) == 2 || len(slots) > 2 {
		for i, a := range slots {
			for _, b := range slots[:i] {
				if a.what != b.what {
					bad := ands(eq(a.d, b.d), eq(a.i, b.i))
					r.ob("memory", "key and value have different places", bad == T.False, wh, "if %s", short(bad))
				}
			}
		}
	}
	// the bytes fit if they did not move
	fits := T.True
	if region != nil {
		fits = or(moved, lessEq(lenOf(first.Res), capOf(region)))
	}
	r.encodeMemory(e, res, first.Res, fix, fits)
	r.count("memory", 6)
	r.count("key", 4)
	r.count("message", 8)
}

func isSliceTyp(t types.Type) bool {
	_, ok := t.Underlying().(*types.Slice)
	return ok
}

func isByteSlice(t types.Type) bool {
	s, ok := t.Underlying().(*types.Slice)
	return ok && types.Identical(s.Elem().Underlying(), byteType)
}

type ownerInfo struct {
	t             *Term
	pool          *ssa.Global
	st            *types.Struct
	before, after []*Node
	emptyNew      bool // new objects own no memory
}

// owner: the object with the memory of messages, which is taken from a pool.
func (r *Report) owner(e *Engine, res *EvalResult) *ownerInfo {
	var o *ownerInfo
	for _, ef := range effs(res, "assert", nil) {
		t := ef.Res.leaf
		if t == nil || t.op != "assert" || t.args[0].leaf == nil {
			continue
		}
		g := r.poolOf(e, t.args[0].leaf)
		if g == nil {
			continue
		}
		r.must(o == nil || o.t == t, "several objects are taken from pools")
		o = &ownerInfo{t: t, pool: g}
		p, ok := t.obj.(types.Type).Underlying().(*types.Pointer)
		r.must(ok, "the pool has %s", t.obj.(types.Type))
		o.st, ok = p.Elem().Underlying().(*types.Struct)
		r.must(ok, "the pool has %s", t.obj.(types.Type))
		pt := t.obj.(types.Type)
		for i := 0; i < o.st.NumFields(); i++ {
			a := fieldAddrTerm(leafNode(t), derefType(pt), i)
			o.before = append(o.before, e.loadAt(ef.Mem, a, o.st.Field(i).Type()))
			o.after = append(o.after, e.loadAt(res.Out.mem, a, o.st.Field(i).Type()))
		}
		// what the pool makes owns nothing yet
		if mk := r.poolMaker(g); r.must2(mk != nil, "memory", "the pool makes its objects", "") {
			e2 := r.engine(nil)
			m := e2.Eval(mk, nil, nil, nil)
			obj := stripIface(m.Results[0])
			ok := obj.leaf != nil && obj.leaf.op == "alloc"
			r.ob("memory", "the pool makes new objects", ok, r.L.fnPos(mk), "%s", short(obj))
			o.emptyNew = ok
			if ok {
				for i := 0; i < o.st.NumFields(); i++ {
					if !isSliceTyp(o.st.Field(i).Type()) {
						continue
					}
					v := e2.loadAt(m.Out.mem, fieldAddrTerm(obj, derefType(pt), i), o.st.Field(i).Type())
					d := sliceData(v)
					o.emptyNew = o.emptyNew && lenOf(v) == capOf(v)
					r.ob("memory", "new objects own what is in "+o.st.Field(i).Name(), lenOf(v) == intConst(0) || d.leaf != nil && d.leaf.op == "alloc", r.L.fnPos(mk), "%s", short(v))
				}
			}
		}
	}
	return o
}

// keeps: the memory was kept in the object before.
func (o *ownerInfo) keeps(t *Term) bool {
	if o == nil || t.op != "sdata" {
		return false
	}
	for _, b := range o.before {
		if b != nil && b == t.args[0] {
			return true
		}
	}
	return false
}

// full: the slices of the object reach to the end of their memory, if every
// message leaves them in this state; the function replaces their capacities.
func (o *ownerInfo) full() func(n *Node) *Node {
	if !o.emptyNew {
		return nil
	}
	m := map[*Term]*Node{}
	for i := range o.before {
		if isSliceTyp(o.st.Field(i).Type()) {
			c := capOf(o.before[i])
			if c.leaf == nil {
				return nil
			}
			m[c.leaf] = lenOf(o.before[i])
		}
	}
	f := func(n *Node) *Node {
		for t, v := range m {
			n = subst(n, t, v)
		}
		return n
	}
	for i := range o.before {
		if isSliceTyp(o.st.Field(i).Type()) && sameUnder(T.True, f(lenOf(o.after[i])), f(capOf(o.after[i]))) != nil {
			return nil
		}
	}
	return f
}

func (r *Report) must2(ok bool, rule, what, at string) bool { return r.ob(rule, what, ok, at, "") }

func (r *Report) holdsOwner(n *Node, t *Term) bool {
	if n == nil {
		return false
	}
	for _, l := range guardedLeaves(n) {
		x := l.T
		for x != nil && x.op == "mkiface" {
			x = x.args[0].leaf
		}
		if x == t {
			return true
		}
	}
	return false
}

// leaks: the store puts the object itself into memory.
func (r *Report) leaks(ef *Effect, t *Term) bool {
	a := ef.Args[0].leaf
	if a != nil && a.op == "alloc" {
		return false // variable of the function
	}
	return len(ef.Args) > 1 && r.holdsOwner(ef.Args[1], t)
}

// encodeMemory: no access out of bounds while a message is made.
func (r *Report) encodeMemory(e *Engine, res *EvalResult, out *Node, fix func(n *Node) *Node, fits *Node) {
	fails := func(c *Node, conds ...*Node) *Node {
		for _, x := range conds {
			if y := and(c, not(x)); y != T.False && sameUnder(y, intConst(0), intConst(1)) != nil {
				return y
			}
		}
		return T.False
	}
	if out.leaf == nil {
		return
	}
	one := lessThan(intConst(0), lenOf(out))
	for _, ef := range res.Effects {
		c := ands(fix(ef.Cond), one, fix(fits))
		for _, a := range ef.Args {
			if a == nil {
				continue
			}
			walkTerms(fix(a), func(t *Term) bool {
				if t.op == "cap" && len(t.args) == 1 {
					c = and(c, lessEq(lenOf(t.args[0]), leafNode(t)))
				}
				return true
			})
		}
		switch ef.Kind {
		case "bound":
			lo, hi, full := fix(ef.Args[0]), fix(ef.Args[1]), fix(ef.Args[2])
			conds := []*Node{lessEq(intConst(0), lo), lessEq(lo, hi), lessEq(hi, full)}
			if len(ef.Args) > 4 {
				m := fix(ef.Args[4])
				conds = append(conds, lessEq(hi, m), lessEq(m, full))
			}
			bad := fails(c, conds...)
			r.ob("bounds", "slice "+short(ef.Args[0])+" to "+short(ef.Args[1]), bad == T.False, r.at(ef), "out of bounds if %s", short(bad))
		case "index":
			i, n := fix(ef.Args[0]), fix(ef.Args[1])
			bad := fails(c, lessEq(intConst(0), i), lessThan(i, n))
			r.ob("bounds", "element "+short(ef.Args[0]), bad == T.False, r.at(ef), "out of bounds if %s", short(bad))
		case "panic":
			r.ob("bounds", "panics", ef.Cond == T.False, r.at(ef), "if %s", short(ef.Cond))
		case "assert":
			ok := false
			if t := ef.Res.leaf; t != nil && t.op == "assert" && t.args[0].leaf != nil && r.poolOf(e, t.args[0].leaf) != nil {
				_, v := r.poolNew(e, r.poolOf(e, t.args[0].leaf))
				ok = v != nil && types.Identical(v, t.obj.(types.Type))
			}
			r.ob("bounds", "type assertion", ok, r.at(ef), "on what the pool makes")
		}
	}
}

// partitioner: messages are distributed by their keys.
func (r *Report) partitioner() {
	n := 0
	for _, fn := range r.L.Fns {
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				fa, ok := ins.(*ssa.FieldAddr)
				if !ok {
					continue
				}
				n++
				st, ok := derefType(fa.X.Type()).Underlying().(*types.Struct)
				if !ok || st.Field(fa.Field).Name() != "Partitioner" || !strings.HasSuffix(st.Field(fa.Field).Type().String(), "sarama.PartitionerConstructor") {
					continue
				}
				for _, ref := range *fa.Referrers() {
					s, ok := ref.(*ssa.Store)
					if !ok || s.Addr != ssa.Value(fa) {
						continue
					}
					v := s.Val
					if c, ok := v.(*ssa.ChangeType); ok {
						v = c.X
					}
					f, _ := v.(*ssa.Function)
					good := f != nil && (f.Name() == "NewHashPartitioner" || f.Name() == "NewReferenceHashPartitioner") && f.Pkg != nil && strings.HasSuffix(f.Pkg.Pkg.Path(), "Shopify/sarama")
					r.ob("key", "messages are distributed by the hash of their keys", good, r.L.pos(ins), "%s", v)
				}
			}
		}
	}
	r.ob("key", "the partitioner is that of the library", true, "", "%d accesses to fields looked at", n)
}

func init() {
	register("C15", "Value-flow of the Kafka sender: one message per received span, sent to the producer in order and blocking; the errors of the producer are consumed until it ends.", func(r *Report) {
		r.section(func() { r.sender() })
		r.section(func() { r.notifications() })
	})
	register("C16", "Value-flow of the Kafka consumer: sessions follow each other until the context ends, each message is decoded as a whole, handed over and marked, in this order.", func(r *Report) {
		r.section(func() { r.consumer() })
	})
}

func recvOk(ef *Effect) *Node {
	if t := ef.Res.leaf; t != nil && t.op == "recvval" {
		return symNode(mk("recvok", t.aux, nil, types.Typ[types.Bool], t.args...))
	}
	// a struct is received
	var out *Node = T.True
	walkTerms(ef.Res, func(t *Term) bool {
		if t.op == "recvval" && out == T.True {
			out = symNode(mk("recvok", t.aux, nil, types.Typ[types.Bool], t.args...))
		}
		return true
	})
	return out
}

// quiet: nothing but the listed effects blocks, panics or ends the goroutine.
func (r *Report) quiet(res *EvalResult, rule, what string, in func(ef *Effect) bool, allowed ...*Effect) {
	for _, ef := range res.Effects {
		if in != nil && !in(ef) {
			continue
		}
		skip := false
		for _, a := range allowed {
			skip = skip || a == ef || a != nil && ef.Kind == "select" && ef.Instr == a.Instr
		}
		if skip {
			continue
		}
		switch ef.Kind {
		case "send", "recv", "select":
			ok := ef.Name == "select-default"
			r.ob(rule, "nothing else holds up "+what, ok, r.at(ef), "%s", ef.Kind)
		case "call":
			ok := neverBlocks(ef.Name) || ef.Callee != nil && r.L.isRepoFn(ef.Callee)
			if i := strings.LastIndexByte(ef.Name, '.'); strings.Contains(ef.Name, "Shopify/sarama.") || strings.HasPrefix(ef.Name, "(context.Context)") {
				switch ef.Name[i+1:] {
				case "Messages", "MarkMessage", "Input", "Errors", "Successes", "Error", "Done", "Err", "Context", "Claims", "GenerationID", "MemberID", "Topic", "Partition", "InitialOffset", "HighWaterMarkOffset":
					ok = true
				}
			}
			if ef.Name == "context.Background" || ef.Name == "context.WithCancel" {
				ok = true
			}
			r.ob(rule, "nothing else holds up "+what, ok, r.at(ef), "calls %s", ef.Name)
		case "panic":
			r.ob(rule, what+" does not panic", ef.Cond == T.False, r.at(ef), "if %s", short(ef.Cond))
		case "assert":
			r.ob(rule, what+" does not panic", ef.Name == "ok" || len(ef.Args) > 1, r.at(ef), "type assertion")
		}
	}
}

func (r *Report) sender() {
	fn := r.entry("balance", "NewSender")
	e := r.engine(nil)
	res := e.Eval(fn, nil, nil, nil)
	r.used(res)
	var mk *Effect
	for _, ef := range effs(res, "call", func(ef *Effect) bool { return strings.Contains(ef.Name, "sarama.NewAsyncProducer") }) {
		r.ob("producer", "one producer is made", mk == nil, r.at(ef), "")
		mk = ef
	}
	r.must(mk != nil, "NewSender makes no producer")
	wh := r.at(mk)
	r.same("producer", "the producer belongs to the given client", wh, mk.Args[0], res.Params[0])
	producer, perr := tupleElem(mk.Res, 0), tupleElem(mk.Res, 1)
	r.must(producer != nil && len(res.Results) == 2, "NewSender is different")
	okc := nilNode(perr)
	r.iff("producer", "the sender is made if the producer is there", wh, nilNode(res.Results[1]), okc)
	s := restrict(res.Results[0], okc)
	r.must(s.leaf != nil && s.leaf.op == "alloc", "NewSender returns %s", short(s))
	rt := fn.Signature.Results().At(0).Type()
	st := derefType(rt).Underlying().(*types.Struct)
	// errors
	drain := false
	for _, R := range effs(res, "recv", func(ef *Effect) bool { return ef.Gor != nil && len(ef.Loops) == 1 }) {
		ch := R.Args[len(R.Args)-1]
		from := false
		for _, c := range effs(res, "call", named("AsyncProducer).Errors")) {
			from = from || c.Res == ch && sameUnder(okc, c.Args[0], producer) == nil
		}
		L := R.Loops[0]
		exits := T.False
		for _, x := range L.Exits {
			exits = or(exits, x.Cond)
		}
		got := and(R.Cond, recvOk(R))
		if !from {
			continue
		}
		drain = true
		at := r.at(R)
		r.iff("errors", "the errors are taken if there is a producer", at, restrict(L.Entry, okc), T.True)
		r.ob("errors", "errors are taken until the producer ends", and(exits, got) == T.False && ands(okc, L.Stay, not(R.Cond)) == T.False, at, "stops if %s", short(exits))
		r.quiet(res, "errors", "the taking of errors", func(ef *Effect) bool { return ef.Gor != nil && len(ef.Loops) > 0 && ef.Loops[0] == L }, R)
	}
	r.ob("errors", "someone takes the errors of the producer", drain, wh, "the producer stops when they pile up")

	// the sender
	field := func(pred func(n *Node) bool) int {
		for i := 0; i < st.NumFields(); i++ {
			v := e.loadAt(res.Out.mem, fieldAddrTerm(s, derefType(rt), i), st.Field(i).Type())
			if pred(restrict(v, okc)) {
				return i
			}
		}
		return -1
	}
	fp := field(func(n *Node) bool { return n == producer })
	var topicParam *Node
	for i, p := range fn.Params {
		if isString(p.Type()) {
			topicParam = res.Params[i]
		}
	}
	ft := field(func(n *Node) bool { return n == topicParam })
	r.ob("producer", "the sender keeps the producer and the topic", fp >= 0 && ft >= 0, wh, "")
	if fp < 0 || ft < 0 {
		return
	}
	r.constantFields("producer", rt, fn, fp, ft)

	// sending
	send := r.entry("balance", "Sender.Send")
	mkmsg := r.entry("balance", "makeProducerMessage")
	e2 := r.engine(func(f *ssa.Function) bool { return f == mkmsg })
	sr := e2.Eval(send, nil, nil, nil)
	r.used(sr)
	self := sr.Params[0]
	var R, S, M *Effect
	for _, ef := range sr.Effects {
		switch {
		case ef.Kind == "recv":
			r.ob("send", "spans are received at one place", R == nil && ef.Gor == nil && len(ef.Loops) == 1, r.at(ef), "")
			R = ef
		case ef.Kind == "send":
			r.ob("send", "messages are sent at one place", S == nil && ef.Gor == nil && len(ef.Loops) == 1, r.at(ef), "")
			S = ef
		case ef.Kind == "call" && ef.Callee == mkmsg:
			r.ob("send", "messages are made at one place", M == nil, r.at(ef), "")
			M = ef
		}
	}
	if R == nil || S == nil || M == nil {
		r.ob("send", "spans are received, made messages and sent", false, r.L.fnPos(send), "")
		return
	}
	if len(R.Loops) != 1 || len(S.Loops) != 1 || S.Loops[0] != R.Loops[0] {
		return
	}
	L := R.Loops[0]
	at := r.at(S)
	r.same("send", "spans come from the given channel", r.at(R), R.Args[len(R.Args)-1], sr.Params[1])
	got := and(R.Cond, recvOk(R))
	exits := T.False
	for _, x := range L.Exits {
		exits = or(exits, x.Cond)
	}
	r.iff("send", "the sender ends with the channel only", r.at(R), exits, and(R.Cond, not(recvOk(R))))
	r.ob("send", "the sender starts at once", restrict(L.Entry, T.True) == T.True, r.at(R), "if %s", short(L.Entry))
	r.iff("send", "every received span is sent", at, S.Cond, got)
	r.ob("send", "the sender waits until the producer takes the message", S.Name != "select-default" && S.Name != "select", at, "%s", S.Name)
	in := false
	prod := e2.loadAt(S.Mem, fieldAddrTerm(self, derefType(rt), fp), st.Field(fp).Type())
	for _, c := range effs(sr, "call", named("AsyncProducer).Input")) {
		in = in || c.Res == S.Args[0] && sameUnder(T.True, c.Args[0], prod) == nil
	}
	r.ob("send", "messages go to the producer", in, at, "%s", short(S.Args[0]))
	r.same("send", "the message of the span is sent", at, S.Args[1], M.Res)
	for i, p := range mkmsg.Params {
		if isString(p.Type()) {
			r.same("send", "the message has the topic of the sender", r.at(M), M.Args[i], e2.loadAt(M.Mem, fieldAddrTerm(self, derefType(rt), ft), st.Field(ft).Type()))
		} else {
			r.same("send", "the message is that of the received span", r.at(M), M.Args[i], R.Res)
		}
	}
	r.quiet(sr, "send", "the sender", nil, R, S, M)
	for _, ef := range effs(sr, "go", nil) {
		r.ob("send", "spans are sent in their order", false, r.at(ef), "by goroutines")
	}
	r.count("send", 8)
	r.count("producer", 3)
	r.count("errors", 3)
}

// constantFields: the fields are only set where the object is made.
func (r *Report) constantFields(rule string, t types.Type, maker *ssa.Function, fields ...int) {
	st := derefType(t)
	for _, fn := range r.L.Fns {
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				fa, ok := ins.(*ssa.FieldAddr)
				if !ok || !types.Identical(derefType(fa.X.Type()), st) {
					continue
				}
				is := false
				for _, f := range fields {
					is = is || f == fa.Field
				}
				if !is {
					continue
				}
				_, local := fa.X.(*ssa.Alloc)
				for _, ref := range *fa.Referrers() {
					switch x := ref.(type) {
					case *ssa.UnOp, *ssa.DebugRef:
					case *ssa.Store:
						r.ob(rule, "the field is only set when the object is made: "+fn.Name(), x.Addr == ssa.Value(fa) && local, r.L.pos(x), "")
					default:
						r.ob(rule, "the address of the field is not given away: "+fn.Name(), false, r.L.pos(ins), "")
					}
				}
			}
		}
	}
}

// notifications: what the library delivers through channels is taken, or not
// asked for.
func (r *Report) notifications() {
	n := 0
	for _, fn := range r.L.Fns {
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				fa, ok := ins.(*ssa.FieldAddr)
				if !ok {
					continue
				}
				st, ok := derefType(fa.X.Type()).Underlying().(*types.Struct)
				if !ok {
					continue
				}
				f := st.Field(fa.Field)
				if f.Pkg() == nil || !strings.HasSuffix(f.Pkg().Path(), "Shopify/sarama") {
					continue
				}
				n++
				in, ok := fa.X.(*ssa.FieldAddr)
				if !ok || fieldName(in) != "Return" || f.Name() != "Successes" && f.Name() != "Errors" {
					continue
				}
				outer, ok := in.X.(*ssa.FieldAddr)
				producer := ok && fieldName(outer) == "Producer"
				for _, ref := range *fa.Referrers() {
					s, ok := ref.(*ssa.Store)
					if !ok || s.Addr != ssa.Value(fa) {
						continue
					}
					c, isc := s.Val.(*ssa.Const)
					off := isc && c.Value != nil && c.Value.String() == "false"
					r.ob("errors", "no notifications are asked for that nobody takes", off || producer && f.Name() == "Errors", r.L.pos(s), "%s", f.Name())
				}
			}
		}
	}
	r.ob("errors", "the configuration of the library was looked at", true, "", "%d accesses", n)
}

func fieldName(fa *ssa.FieldAddr) string {
	st, ok := derefType(fa.X.Type()).Underlying().(*types.Struct)
	if !ok {
		return ""
	}
	return st.Field(fa.Field).Name()
}

func (r *Report) consumer() {
	fn := r.entry("balance", "Consume")
	dec := r.entry("codec", "BinaryDecode")
	op := func(f *ssa.Function) bool { return f == dec }
	e := r.engine(op)
	res := e.Eval(fn, nil, nil, nil)
	r.used(res)
	var group, topic, callback *Node
	for i, p := range fn.Params {
		switch {
		case isString(p.Type()):
			topic = res.Params[i]
		case strings.HasSuffix(p.Type().String(), "sarama.ConsumerGroup"):
			group = res.Params[i]
		default:
			callback = res.Params[i]
		}
	}
	r.must(group != nil && topic != nil && callback != nil && len(res.Results) == 1, "Consume has other parameters")
	// sessions
	var C *Effect
	for _, ef := range effs(res, "call", named("sarama.ConsumerGroup).Consume")) {
		r.ob("session", "sessions are started at one place", C == nil, r.at(ef), "")
		C = ef
	}
	r.must(C != nil, "no sessions are started")
	wh := r.at(C)
	r.ob("session", "sessions run in the background, one after the other", C.Gor != nil && len(C.Loops) == 1, wh, "%d loops", len(C.Loops))
	if C.Gor == nil || len(C.Loops) != 1 {
		return
	}
	L := C.Loops[0]
	r.ob("session", "the first session starts at once", L.Entry == T.True, wh, "if %s", short(L.Entry))
	r.same("session", "sessions are those of the given group", wh, C.Args[0], group)
	ctx := C.Args[1]
	var W *Effect
	for _, ef := range effs(res, "call", named("context.WithCancel")) {
		if tupleElem(ef.Res, 0) == ctx && len(ef.Loops) == 0 {
			W = ef
		}
	}
	r.ob("session", "sessions can be ended", W != nil, wh, "the context is %s", short(ctx))
	if W == nil {
		return
	}
	bg := false
	for _, ef := range effs(res, "call", named("context.Background", "context.TODO")) {
		bg = bg || ef.Res == W.Args[0]
	}
	r.ob("session", "sessions are only ended on request", bg, r.at(W), "%s", short(W.Args[0]))
	ts := C.Args[2]
	r.same("session", "a session is about one topic", wh, lenOf(ts), intConst(1))
	elem := e.elemOf(C.Mem, ts, intConst(0), stringType)
	if d := sliceData(ts).leaf; d != nil && d.op == "alloc" && elem != topic {
		// a list made once; the library does not change it
		var val *Node
		for _, ef := range effs(res, "store", nil) {
			if a := ef.Args[0].leaf; a != nil && a.op == "indexaddr" && a.args[0].leaf == d {
				if val != nil || len(ef.Loops) > 0 || ef.Cond != T.True {
					val = T.Nil
				} else {
					val = ef.Args[1]
				}
			}
		}
		if val != nil {
			elem = val
		}
	}
	r.same("session", "a session is about the given topic", wh, elem, topic)
	// the loop ends with the context only
	done := T.False
	for _, ef := range effs(res, "recv", nil) {
		for _, d := range effs(res, "call", named("context.Context).Done")) {
			if d.Args[0] == ctx && ef.Args[len(ef.Args)-1] == d.Res {
				done = or(done, ef.Cond)
			}
		}
	}
	for _, d := range effs(res, "call", named("context.Context).Err")) {
		if d.Args[0] == ctx {
			done = or(done, and(d.Cond, not(nilNode(d.Res))))
		}
	}
	for _, x := range L.Exits {
		bad := and(x.Cond, not(done))
		r.ob("session", "sessions are repeated until they are ended", bad == T.False, wh, "stops if %s", short(bad))
	}
	bad := ands(L.Stay, not(C.Cond))
	r.ob("session", "every iteration runs a session", bad == T.False, wh, "not if %s", short(bad))
	ended := false
	for _, d := range effs(res, "call", named("context.Context).Err", "context.Context).Done")) {
		ended = ended || d.Args[0] == ctx && d.Gor != nil && len(d.Loops) == 1
	}
	r.ob("session", "the end of the sessions is noticed", ended && len(L.Exits) > 0, wh, "")
	r.quiet(res, "session", "the sessions", func(ef *Effect) bool {
		return len(ef.Loops) > 0 && ef.Loops[0] == L && ef.Kind != "recv" || ef.Kind == "recv" && done == T.False
	}, C)
	for _, ef := range effs(res, "call", func(ef *Effect) bool { return terminates(ef.Name) }) {
		r.ob("session", "errors of sessions do not end the process", false, r.at(ef), "%s", ef.Name)
	}

	// stopping
	stop := res.Results[0]
	sr, err := e.closureEval(stop, nil, res.Out.mem)
	r.ob("stop", "the consumer can be stopped", err == nil, wh, "%v", err)
	if err == nil {
		r.used(sr)
		var cancel, wait *Effect
		for _, ef := range sr.Effects {
			switch {
			case ef.Kind == "call" && ef.FV != nil && ef.FV == tupleElem(W.Res, 1), ef.Kind == "call" && ef.Name == "dynamic" && len(ef.Args) > 0 && ef.Args[0] == tupleElem(W.Res, 1):
				cancel = ef
			case ef.Kind == "recv":
				wait = ef
			case ef.Kind == "call" && strings.HasSuffix(ef.Name, "(*sync.WaitGroup).Wait"):
				wait = ef
			}
		}
		r.ob("stop", "stopping ends the sessions", cancel != nil && cancel.Cond == T.True && len(cancel.Loops) == 0, wh, "")
		r.ob("stop", "stopping waits", wait != nil && wait.Cond == T.True && (cancel == nil || wait.Seq > cancel.Seq), wh, "")
		if wait != nil {
			done := false
			for _, ef := range res.Effects {
				if ef.Gor == nil || len(ef.Loops) > 0 {
					continue
				}
				fin := ef.Seq > C.Seq || ef.Defer
				switch {
				case (ef.Kind == "close" || ef.Kind == "send") && wait.Kind == "recv" && ef.Args[0] == wait.Args[len(wait.Args)-1]:
					r.ob("stop", "the end is reported when no session runs any more", fin && ef.Cond == T.True, r.at(ef), "if %s", short(ef.Cond))
					done = true
				case ef.Kind == "call" && strings.HasSuffix(ef.Name, "(*sync.WaitGroup).Done") && wait.Kind == "call" && ef.Args[0] == wait.Args[0]:
					r.ob("stop", "the end is reported when no session runs any more", fin && ef.Cond == T.True, r.at(ef), "if %s", short(ef.Cond))
					done = true
					n := 0
					for _, a := range effs(res, "call", named("(*sync.WaitGroup).Add")) {
						if a.Args[0] == wait.Args[0] && a.Gor == nil && a.Args[1] == intConst(1) && a.Cond == T.True && len(a.Loops) == 0 {
							n++
						}
					}
					r.ob("stop", "the end is waited for once", n == 1, r.at(ef), "")
				}
			}
			r.ob("stop", "the end of the sessions is reported", done, wh, "")
		}
	}

	// the handler
	h := C.Args[3]
	hl := h.leaf
	r.must(hl != nil && hl.op == "mkiface", "the handler is %s", short(h))
	ht := hl.obj.(types.Type)
	claim, setup, cleanup := r.implOf(ht, "ConsumeClaim"), r.implOf(ht, "Setup"), r.implOf(ht, "Cleanup")
	r.must(claim != nil && setup != nil && cleanup != nil && r.L.isRepoFn(claim), "the handler is a %s", ht)
	for _, f := range []*ssa.Function{setup, cleanup} {
		e2 := r.engine(op)
		x := e2.Eval(f, nil, nil, nil)
		r.used(x)
		r.same("session", f.Name()+" lets the session run", r.L.fnPos(f), x.Results[0], T.Nil)
		r.quiet(x, "session", f.Name(), nil)
	}
	// nothing but the construction of the handler sets its fields
	m := res.Out.mem
	if self := hl.args[0]; self.leaf != nil && self.leaf.op == "alloc" {
		m = m.clone()
		for _, ef := range effs(res, "store", func(ef *Effect) bool { return ef.Seq < C.Seq }) {
			if a := ef.Args[0].leaf; a != nil && a.op == "fieldaddr" && addrRoot(a) == self.leaf && r.onlyConstructed(a.obj) {
				e.storeAt(m, ef.Args[0], ef.Args[1], derefType(ef.Instr.(*ssa.Store).Addr.Type()), T.True)
			}
		}
	}
	r.claim(e, hl.args[0], claim, callback, dec, m)
	r.count("session", 12)
	r.count("stop", 4)
	r.count("claim", 10)
}

func (r *Report) claim(e *Engine, self *Node, fn *ssa.Function, callback *Node, dec *ssa.Function, mem *Mem) {
	params := []*Node{self}
	for _, p := range fn.Params[1:] {
		params = append(params, symNode(mk("sym", "$"+p.Name(), nil, p.Type())))
	}
	res := e.Eval(fn, params, nil, mem)
	r.used(res)
	var session, claim *Node
	for i, p := range fn.Params[1:] {
		switch {
		case strings.HasSuffix(p.Type().String(), "ConsumerGroupSession"):
			session = params[i+1]
		case strings.HasSuffix(p.Type().String(), "ConsumerGroupClaim"):
			claim = params[i+1]
		}
	}
	var R, D, B, M *Effect
	var ends []*Effect
	for _, ef := range res.Effects {
		switch {
		case ef.Kind == "recv":
			ch := ef.Args[len(ef.Args)-1]
			isDone := false
			for _, d := range effs(res, "call", named("context.Context).Done")) {
				isDone = isDone || d.Res == ch
			}
			if isDone {
				ends = append(ends, ef)
				continue
			}
			r.ob("claim", "messages are received at one place", R == nil && len(ef.Loops) == 1 && ef.Gor == nil, r.at(ef), "")
			R = ef
		case ef.Kind == "call" && ef.Callee == dec:
			r.ob("claim", "messages are decoded at one place", D == nil, r.at(ef), "")
			D = ef
		case ef.Kind == "call" && (ef.FV == callback || ef.Name == "dynamic" && len(ef.Args) > 0 && ef.Args[0] == callback):
			r.ob("claim", "spans are handed over at one place", B == nil && ef.Gor == nil && !ef.Defer, r.at(ef), "")
			B = ef
		case ef.Kind == "call" && strings.HasSuffix(ef.Name, "ConsumerGroupSession).MarkMessage"):
			M = ef
		}
	}
	wh := r.L.fnPos(fn)
	r.ob("claim", "messages are received, decoded, handed over and marked", R != nil && D != nil && B != nil && M != nil, wh, "%v %v %v %v", R != nil, D != nil, B != nil, M != nil)
	if R == nil || D == nil || B == nil || M == nil {
		return
	}
	r.must(len(R.Loops) == 1, "messages are received in no loop")
	L := R.Loops[0]
	msgs := false
	for _, c := range effs(res, "call", named("ConsumerGroupClaim).Messages")) {
		msgs = msgs || c.Res == R.Args[len(R.Args)-1] && c.Args[0] == claim
	}
	r.ob("claim", "the messages are those of the claim", msgs, r.at(R), "")
	got := and(R.Cond, recvOk(R))
	fin := and(R.Cond, not(recvOk(R)))
	for _, x := range ends {
		fin = or(fin, x.Cond)
	}
	for _, x := range L.Exits {
		bad := and(x.Cond, not(fin))
		r.ob("claim", "the claim is consumed until it ends", bad == T.False, r.at(R), "stops if %s", short(bad))
	}
	r.ob("claim", "the claim is consumed from its start", L.Entry == T.True && and(L.Stay, not(or(R.Cond, fin))) == T.False, r.at(R), "")
	// decoding
	r.iff("claim", "every message is decoded", r.at(D), D.Cond, got)
	var rd *Effect
	for _, c := range effs(res, "call", named("bytes.NewReader")) {
		if c.Res == D.Args[0] {
			rd = c
		}
	}
	if r.ob("claim", "a message is decoded from its first byte on", rd != nil && rd.Seq < D.Seq, r.at(D), "%s", short(D.Args[0])) {
		msgT := R.Res.leaf
		r.must(msgT != nil && msgT.typ != nil, "unknown messages")
		val := e.loadAt(rd.Mem, fieldAddrOf(R.Res, msgT.typ, "Value"), fieldType(msgT.typ, "Value"))
		r.same("claim", "the value of the message is decoded", r.at(rd), rd.Args[0], val)
		for _, ef := range effs(res, "call", func(ef *Effect) bool { return ef != D && len(ef.Args) > 0 && ef.Args[0] == D.Args[0] }) {
			r.ob("claim", "nothing is read before the message is decoded", ef.Seq > D.Seq || strings.HasSuffix(ef.Name, ".Len") || strings.HasSuffix(ef.Name, ".Size"), r.at(ef), "%s", ef.Name)
		}
	}
	span, derr := tupleElem(D.Res, 0), tupleElem(D.Res, 1)
	r.must(span != nil && derr != nil, "the decoder has other results")
	good := and(got, nilNode(derr))
	r.iff("claim", "every decoded span is handed over, damaged ones are not", r.at(B), B.Cond, good)
	r.ob("claim", "a span is handed over once", len(B.Loops) == 1 && B.Loops[0] == L, r.at(B), "")
	arg := B.Args[len(B.Args)-1]
	st := dec.Signature.Results().At(0).Type().Underlying().(*types.Struct)
	for i := 0; i < st.NumFields(); i++ {
		r.sameIf("claim", "the "+st.Field(i).Name()+" is handed over", r.at(B), good, getField(arg, st, i), getField(span, st, i))
	}
	// marking
	marked := T.False
	for _, m := range effs(res, "call", named("ConsumerGroupSession).MarkMessage")) {
		r.ob("claim", "marks belong to the session", m.Args[0] == session, r.at(m), "")
		r.same("claim", "the message itself is marked", r.at(m), m.Args[1], R.Res)
		early := ands(m.Cond, B.Cond) != T.False && m.Seq < B.Seq
		r.ob("claim", "a message is marked after its span was handed over", !early && !m.Defer && m.Gor == nil && len(m.Loops) == 1, r.at(m), "")
		marked = or(marked, m.Cond)
	}
	bad := and(good, not(marked))
	r.ob("claim", "every message that was handed over is marked", bad == T.False, r.at(M), "not if %s", short(bad))
	// claims run side by side
	for _, ef := range res.Effects {
		switch ef.Kind {
		case "store":
			root := ef.Args[0].leaf
			for root != nil && (root.op == "fieldaddr" || root.op == "indexaddr") {
				root = root.args[0].leaf
			}
			r.ob("claim", "claims share no variables", root != nil && root.op == "alloc", r.at(ef), "stores to %s", short(ef.Args[0]))
		case "mapupdate", "mapdelete", "append", "clear", "copy":
			root := ef.Args[0].leaf
			r.ob("claim", "claims share no variables", root != nil && (root.op == "alloc" || root.op == "slice" || root == T.Nil.leaf), r.at(ef), "%s of %s", ef.Kind, short(ef.Args[0]))
		case "go":
			r.ob("claim", "messages are handled in their order", false, r.at(ef), "by goroutines")
		}
	}
	allowed := append([]*Effect{R, D, B, M}, ends...)
	r.quiet(res, "claim", "the claim", nil, allowed...)
}

// onlyConstructed: the field is only set in objects that the setting function
// made itself.
func (r *Report) onlyConstructed(field interface{}) bool {
	v, ok := field.(*types.Var)
	if !ok {
		return false
	}
	for _, fn := range r.L.Fns {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				fa, ok := in.(*ssa.FieldAddr)
				if !ok || derefType(fa.X.Type()).Underlying().(*types.Struct).Field(fa.Field) != v {
					continue
				}
				if _, ok := fa.X.(*ssa.Alloc); ok {
					continue
				}
				for _, u := range *fa.Referrers() {
					if ld, ok := u.(*ssa.UnOp); !ok || ld.X != fa {
						return false
					}
				}
			}
		}
	}
	return true
}
