package main

// C12, C13: the binary form of spans.

import (
	"fmt"
	"go/token"
	"go/types"
	"math/big"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C12", "Value-flow of the binary encoder and decoder: the sequence of values that one writes is the sequence that the other reads, field by field; the integer coding is decided with bit provenance.", func(r *Report) {
		r.section(func() { r.roundTrip() })
	})
}

func init() {
	register("C13", "Value-flow of the binary decoder: every error of a read is returned, every iteration reads or leaves, lengths of memory are bounded by the rest of the input, slices and indexes stay in their bounds, and nothing panics.", func(r *Report) {
		r.section(func() { r.corrupt() })
	})
}

// reaches: functions of the repository that fn calls, itself included.
func (r *Report) reaches(fn *ssa.Function) []*ssa.Function {
	seen := map[*ssa.Function]bool{}
	var out []*ssa.Function
	var visit func(f *ssa.Function)
	visit = func(f *ssa.Function) {
		if f == nil || seen[f] || f.Blocks == nil || !r.L.isRepoFn(f) {
			return
		}
		seen[f] = true
		out = append(out, f)
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				for _, op := range ins.Operands(nil) {
					if op == nil || *op == nil {
						continue
					}
					switch v := (*op).(type) {
					case *ssa.Function:
						visit(v)
					}
				}
			}
		}
	}
	visit(fn)
	return out
}

// calling: functions below fn that call the named function directly in a loop.
func (r *Report) calling(fn *ssa.Function, name string) []*ssa.Function {
	var out []*ssa.Function
	for _, f := range r.reaches(fn) {
		hit := false
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				if c, ok := ins.(ssa.CallInstruction); ok {
					if s := c.Common().StaticCallee(); s != nil && s.String() == name && inCycle(b) {
						hit = true
					}
				}
			}
		}
		if hit {
			out = append(out, f)
		}
	}
	return out
}

func inCycle(b *ssa.BasicBlock) bool {
	seen := map[*ssa.BasicBlock]bool{}
	var visit func(x *ssa.BasicBlock) bool
	visit = func(x *ssa.BasicBlock) bool {
		for _, s := range x.Succs {
			if s == b {
				return true
			}
			if !seen[s] {
				seen[s] = true
				if visit(s) {
					return true
				}
			}
		}
		return false
	}
	return visit(b)
}

type varints struct {
	r    *Report
	W, R *ssa.Function
	wp   int   // parameter of W with the value
	wb   int   // parameter of W with the buffer
	val  *Term // the parameter
	G    *Node // the encoded value, of val
	H    *Node // result of R, of acc
	acc  *Term
}

// coded: the bits that R returns for a value of the given bits.
func (v *varints) coded(b [64]bit) [64]bit {
	g := bitVec(v.G, bitEnv{v.val: b})
	return bitVec(v.H, bitEnv{v.acc: g})
}

func isNamedPtr(t types.Type, name string) bool {
	p, ok := t.Underlying().(*types.Pointer)
	if !ok {
		return false
	}
	n, ok := types.Unalias(p.Elem()).(*types.Named)
	return ok && n.Obj().Pkg() != nil && n.Obj().Pkg().Path()+"."+n.Obj().Name() == name
}

func (r *Report) varints() *varints {
	v := &varints{r: r}
	ws := r.calling(r.entry("codec", "BinaryEncode"), "(*bytes.Buffer).WriteByte")
	rs := r.calling(r.entry("codec", "BinaryDecode"), "(*bytes.Reader).ReadByte")
	r.must(len(ws) == 1 && len(rs) == 1, "%d functions write integers byte by byte, %d read them", len(ws), len(rs))
	v.W, v.R = ws[0], r.outermost(r.entry("codec", "BinaryDecode"), rs[0])
	v.wp, v.wb = -1, -1
	for i, p := range v.W.Params {
		switch {
		case isInteger(p.Type()):
			r.must(v.wp < 0, "%s has several integers", v.W)
			v.wp = i
			w, _ := bitsOf(p.Type())
			r.must(w == 64, "%s writes a %s", v.W, p.Type())
		case isNamedPtr(p.Type(), "bytes.Buffer"):
			v.wb = i
		}
	}
	r.must(v.wp >= 0 && v.wb >= 0, "%s has not the parameters of a writer of integers", v.W)
	v.writer()
	v.reader()
	return v
}

// outermost climbs from fn to the function around it that has the same purpose:
// its only caller, which also returns an integer and an error.
func (r *Report) outermost(root, fn *ssa.Function) *ssa.Function {
	for d := 0; d < 5; d++ {
		var callers []*ssa.Function
		for _, f := range r.reaches(root) {
			for _, b := range f.Blocks {
				for _, ins := range b.Instrs {
					for _, op := range ins.Operands(nil) {
						if *op == ssa.Value(fn) {
							callers = append(callers, f)
						}
					}
				}
			}
		}
		if len(callers) != 1 {
			break
		}
		c := callers[0]
		s := c.Signature
		if s.Params().Len() != 1 || s.Results().Len() != 2 || !isInteger(s.Results().At(0).Type()) || !isNamedPtr(s.Params().At(0).Type(), "bytes.Reader") {
			break
		}
		fn = c
	}
	return fn
}

// flagged: a loop of the form "for flag := true; flag; { flag = ... }". The
// first result is the condition under which iterations happen, the second one
// is the condition of another iteration.
func flagged(L *Loop) (fact, stay *Node, ok bool) {
	for _, p := range loopPhis(L) {
		if isBoolType(p.typ) && p.Init == T.True && p.Mu != nil && p.Val != nil {
			if and(L.Stay, not(p.Val)) == T.False {
				return p.Val, and(restrict(L.Stay, p.Val), p.Step), true
			}
		}
	}
	return T.True, L.Stay, false
}

// classes of an unsigned value: the conditions a program may test for it.
func classOf(x *Node, cls string) *Node {
	z := eq(x, intConst(0))
	u := types.Typ[types.Uint64]
	small := ands(lessEq(x, intConst(127)), eq(arith(token.SHR, x, intConst(7), u), intConst(0)))
	large := ands(not(lessEq(x, intConst(127))), not(eq(arith(token.SHR, x, intConst(7), u), intConst(0))))
	switch cls {
	case "0":
		return and(z, small)
	case "small":
		return and(not(z), small)
	}
	return and(not(z), large)
}

func (v *varints) writer() {
	r := v.r
	e := r.engine(nil)
	res := e.Eval(v.W, nil, nil, nil)
	r.used(res)
	name := v.W.Name()
	v.val = res.Params[v.wp].leaf
	buf := res.Params[v.wb]
	var wr []*Effect
	var L *Loop
	for _, ef := range effs(res, "call", nil) {
		if len(ef.Args) == 0 || ef.Args[0] != buf || strings.HasSuffix(ef.Name, ".Grow") || strings.HasSuffix(ef.Name, ".Len") {
			continue
		}
		r.ob("varint", name+" writes single bytes", strings.HasSuffix(ef.Name, ".WriteByte") && len(ef.Loops) <= 1, r.at(ef), "calls %s", ef.Name)
		wr = append(wr, ef)
		for _, l := range ef.Loops {
			r.must(L == nil || L == l, "%s writes in several loops", name)
			L = l
		}
	}
	r.must(L != nil, "%s does not write in a loop", name)
	var st *LoopPhi
	for _, p := range loopPhis(L) {
		if isInteger(p.typ) && p.Val.leaf != nil && p.Val.leaf == p.Mu {
			r.must(st == nil, "the loop of %s has several integer variables", name)
			st = p
		}
	}
	r.must(st != nil, "the loop of %s has no variable", name)
	wh := r.at(wr[0])
	v.G = st.Init
	x := freshBits("e")
	bits := func(cls string) bitEnv {
		y := x
		for i := range y {
			if cls == "0" || cls == "small" && i >= 7 {
				y[i] = bit{}
			}
		}
		return bitEnv{st.Mu: y}
	}
	want := func(cont bool) (o [64]bit) {
		copy(o[:7], x[:7])
		o[7].one = cont
		return
	}
	// behaviour of one iteration that starts with a value of the class
	flag, stay, _ := flagged(L)
	behave := func(val *Node, cls string, fact *Node) (written [][64]bit, stays, known bool) {
		f := ands(fact, flag, classOf(val, cls))
		c := func(n *Node) (bool, bool) {
			m := restrict(n, f)
			return m == T.True, isBool(m)
		}
		known = true
		s, ok := c(stay)
		for _, w := range wr {
			if len(w.Args) != 2 {
				continue
			}
			env := bits(cls)
			on, ok := c(w.Cond)
			val := restrict(w.Args[1], f)
			if len(w.Loops) == 0 {
				// behind the loop
				if s {
					continue
				}
				fx := restrictKX(f, L)
				m := restrict(w.Cond, and(fx, f))
				on, ok = m == T.True, isBool(m)
				val = restrict(w.Args[1], fx)
				env[restrictKX(leafNode(st.Mu), L).leaf] = env[st.Mu]
			}
			known = known && ok
			if on {
				written = append(written, bitVec(val, env))
			}
		}
		return written, s, known && ok
	}
	mu := leafNode(st.Mu)
	e0nz := and(L.Entry, not(eq(st.Init, intConst(0))))
	step := sameBits(bitVec(restrict(st.Step, classOf(mu, "big")), bitEnv{st.Mu: x}), shiftBits(x, -7, bit{}))
	r.ob("varint", name+" goes on with the remaining bits", step == "", wh, "%s", step)
	entered := restrict(L.Entry, not(eq(st.Init, intConst(0))))
	r.ob("varint", name+" writes all values other than zero with the loop", entered == T.True, wh, "enters it if %s", short(L.Entry))
	w, stays, known := behave(mu, "big", e0nz)
	bad := ""
	if len(w) == 1 {
		bad = sameBits(w[0], want(true))
	}
	r.ob("varint", name+" writes 7 bits and a continuation bit", known && stays && len(w) == 1 && bad == "", wh, "value over 127: %d bytes, goes on: %v; %s", len(w), stays, bad)
	w, stays, known = behave(mu, "small", e0nz)
	bad = ""
	lim := want(false)
	if len(w) == 1 {
		bad = sameBits(w[0], lim)
	}
	ok := known && len(w) == 1 && bad == ""
	r.ob("varint", name+" ends with the last 7 bits", ok, wh, "value up to 127: %d bytes; %s", len(w), bad)
	if stays {
		// the next iteration has nothing left
		bad := sameBits(bitVec(restrict(st.Step, classOf(mu, "small")), bits("small")), [64]bit{})
		w, s2, k2 := behave(mu, "0", e0nz)
		r.ob("varint", name+" writes nothing after the last byte", bad == "" && k2 && !s2 && len(w) == 0, wh, "%d bytes, goes on: %v; %s", len(w), s2, bad)
	}
	// zero
	f0 := eq(st.Init, intConst(0))
	var direct [][64]bit
	enters := restrict(L.Entry, f0)
	known = isBool(enters)
	for _, w := range wr {
		c := restrict(w.Cond, and(f0, not(L.Entry)))
		if enters != T.True && and(w.Cond, f0) != T.False {
			known = known && isBool(c)
			if c == T.True {
				direct = append(direct, bitVec(w.Args[1], nil))
			}
		}
	}
	if enters == T.True {
		var s2 bool
		direct, s2, known = behave(mu, "0", L.Entry)
		known = known && !s2
	}
	r.ob("varint", name+" writes zero as one byte", known && len(direct) == 1 && sameBits(direct[0], [64]bit{}) == "", wh, "%d bytes", len(direct))
	// the result
	if n := len(res.Results); n > 0 {
		okc := T.True
		for _, w := range wr {
			okc = and(okc, nilNode(w.Res))
		}
		bad := ands(res.RetCond(), okc, not(nilNode(res.Results[n-1])))
		r.ob("varint", name+" returns no error of its own", bad == T.False, wh, "returns one if %s", short(bad))
	}
	v.bufferUse(res, buf, name)
}

// bufferUse: nothing but appending is done with the buffer.
func (v *varints) bufferUse(res *EvalResult, buf *Node, name string) {
	for _, ef := range effs(res, "call", nil) {
		for i, a := range ef.Args {
			if stripIface(a) != buf {
				continue
			}
			n := ef.Name
			ok := ef.Callee == v.W || i == 0 && (strings.HasSuffix(n, "(*bytes.Buffer).WriteByte") || strings.HasSuffix(n, ".WriteString") || strings.HasSuffix(n, ".Write") || strings.HasSuffix(n, ".Grow") || strings.HasSuffix(n, ".Len") || strings.HasSuffix(n, ".Cap"))
			v.r.ob("buffer", fmt.Sprintf("%s only appends to the buffer: %s", name, shortName(n)), ok, v.r.at(ef), "")
		}
	}
}

func (v *varints) reader() {
	r := v.r
	e := r.engine(nil)
	res := e.Eval(v.R, nil, nil, nil)
	r.used(res)
	name := v.R.Name()
	r.must(len(res.Results) == 2 && isInteger(v.R.Signature.Results().At(0).Type()), "%s does not return an integer and an error", v.R)
	var rd *Effect
	for _, ef := range effs(res, "call", nil) {
		if strings.HasPrefix(ef.Name, "(*bytes.Reader).") && !strings.HasSuffix(ef.Name, ".Len") {
			r.must(rd == nil && strings.HasSuffix(ef.Name, ".ReadByte") && len(ef.Loops) == 1, "%s reads at several places", name)
			rd = ef
		}
	}
	r.must(rd != nil, "%s does not read bytes in a loop", name)
	L := rd.Loops[0]
	wh := r.at(rd)
	b, err := tupleElem(rd.Res, 0), tupleElem(rd.Res, 1)
	r.must(b != nil && b.leaf != nil && err != nil, "no result of ReadByte")
	flag, stay, isFlag := flagged(L)
	r.ob("varint", name+" reads one byte in each iteration", restrict(rd.Cond, flag) == T.True && L.Entry == T.True, wh, "reads if %s", short(rd.Cond))
	// no value has more than 10 bytes
	ten := lessEq(leafNode(L.K), intConst(9))
	okf := ands(nilNode(err), ten, flag)
	u8 := types.Typ[types.Uint8]
	more := ands(okf, not(eq(arith(token.AND, b, intConst(128), u8), intConst(0))), not(lessEq(b, intConst(127))))
	last := ands(okf, eq(arith(token.AND, b, intConst(128), u8), intConst(0)), lessEq(b, intConst(127)))
	more, last = and(more, T.True), and(last, T.True)
	r.ob("varint", name+" goes on exactly while the continuation bit is set", restrict(stay, more) == T.True && restrict(stay, last) == T.False, wh, "goes on if %s", short(stay))
	x := freshBits("b")
	env := func(cont bool) bitEnv {
		y := x
		for i := 7; i < 64; i++ {
			y[i] = bit{one: cont && i == 7}
		}
		return bitEnv{b.leaf: y, restrictKX(b, L).leaf: y}
	}
	var want [64]bit
	copy(want[:7], x[:7])
	seven := scale(leafNode(L.K), 7)
	// group: n is the phi with the 7 bits of b added at the position 7*K
	group := func(mu *Term, n *Node, k *Node, cont bool) bool {
		if n.leaf == nil {
			return false
		}
		var parts []*Node
		t := n.leaf
		switch {
		case t.op == "bin" && (t.aux == "|" || t.aux == "^"):
			parts = t.args
		case t.op == "lin" && len(t.lin.ts) == 2 && t.lin.k.Sign() == 0:
			for i, y := range t.lin.ts {
				if t.lin.cs[i].Cmp(big.NewInt(1)) != 0 {
					return false
				}
				parts = append(parts, leafNode(y))
			}
		default:
			return false
		}
		if len(parts) != 2 {
			return false
		}
		if parts[0].leaf != mu {
			parts[0], parts[1] = parts[1], parts[0]
		}
		if parts[0].leaf != mu || parts[1].leaf == nil {
			return false
		}
		s := parts[1].leaf
		if s.op != "bin" || s.aux != "<<" {
			return false
		}
		if w, _ := bitsOf(s.typ); w != 64 {
			return false
		}
		return s.args[1] == k && sameBits(bitVec(s.args[0], env(cont)), want) == ""
	}
	var acc *LoopPhi
	why := "no variable collects the groups of 7 bits"
	for _, p := range loopPhis(L) {
		if !isInteger(p.typ) || p.Val.leaf != p.Mu || p.Mu == nil {
			continue
		}
		w, _ := bitsOf(p.typ)
		if iv, ok := constInt64(p.Init); ok && iv == 0 && w == 64 && group(p.Mu, restrict(p.Step, more), seven, true) {
			acc = p
		} else {
			why = p.Name + " becomes " + short(restrict(p.Step, more))
		}
	}
	r.ob("varint", name+" collects 7 bits of every byte at its position", acc != nil, wh, "%s", why)
	if acc == nil {
		panic("the integer coding is not understood")
	}
	// the result, for the last byte
	fin := restrictKX(last, L)
	if isFlag {
		fin = restrictKX(not(flag), L)
	}
	H := deepRestrict(res.Results[0], fin)
	kx := restrictKX(seven, L)
	found := map[*Term]bool{}
	walkTerms(H, func(t *Term) bool {
		mx := restrictKX(leafNode(acc.Mu), L).leaf
		if !isFlag && group(mx, leafNode(t), kx, false) || isFlag && t == mx {
			found[t] = true
			return false
		}
		return true
	})
	r.ob("varint", name+" returns the collected bits", len(found) == 1, wh, "%s", short(H))
	if len(found) != 1 {
		panic("the integer coding is not understood")
	}
	for t := range found {
		v.acc = t
	}
	v.H = H
	r.ob("varint", name+" returns no error of its own", restrict(nilNode(res.Results[1]), fin) == T.True, wh, "")
	x = freshBits("x")
	bad := sameBits(v.coded(x), x)
	r.ob("varint", name+" undoes "+v.W.Name(), bad == "" || v.G.leaf == v.val, wh, "every 64 bit integer comes back; %s", bad)
}

// item of the binary form.
type item struct {
	kind string // int, string
	arg  *Node  // what is written
	res  *Node  // what is read
	loop []*Loop
	ef   *Effect
}

func (i item) String() string { return i.kind }

func (r *Report) roundTrip() {
	v := r.varints()
	// ---- strings
	dec := r.entry("codec", "BinaryDecode")
	rs := r.stringReaderFn(dec)
	v.stringReader(rs)

	// ---- what is written
	enc := r.entry("codec", "BinaryEncode")
	ee := r.engine(func(fn *ssa.Function) bool { return fn == v.W })
	eres := ee.Eval(enc, nil, nil, nil)
	r.used(eres)
	var span, buf *Node
	var st types.Type
	for i, p := range enc.Params {
		if isNamedPtr(p.Type(), "bytes.Buffer") {
			buf = eres.Params[i]
		} else {
			span, st = eres.Params[i], p.Type()
		}
	}
	r.must(span != nil && buf != nil, "BinaryEncode has other parameters")
	v.bufferUse(eres, buf, "BinaryEncode")
	eok := T.True
	for _, ef := range effs(eres, "call", nil) {
		if E := errOf(ef); E != nil {
			eok = and(eok, everyTime(nilNode(E), ef.Loops))
		}
	}
	eok = lastTimes(eok, eres)
	var written []*Effect
	for _, ef := range effs(eres, "call", nil) {
		if ef.Callee == v.W && ef.Args[v.wb] == buf || len(ef.Args) > 0 && ef.Args[0] == buf && (strings.HasSuffix(ef.Name, ".WriteString") || strings.HasSuffix(ef.Name, ".Write") || strings.HasSuffix(ef.Name, ".WriteByte")) {
			written = append(written, ef)
		}
	}
	sort.SliceStable(written, func(i, j int) bool { return written[i].Seq < written[j].Seq })
	// strings: the length, then the bytes
	fold := func(efs []*Effect) []item {
		var out []item
		for i := 0; i < len(efs); i++ {
			ef := efs[i]
			if ef.Callee == v.W {
				a := ef.Args[v.wp]
				if i+1 < len(efs) && efs[i+1].Callee != v.W && strings.HasSuffix(efs[i+1].Name, ".WriteString") {
					s := efs[i+1].Args[1]
					n := lenOf(s)
					bad := sameBits(v.coded(bitVec(a, nil)), bitVec(n, nil))
					same := len(ef.Loops) == len(efs[i+1].Loops)
					r.ob("string", "the length of "+short(s)+" is written before it", bad == "" && same, r.at(ef), "writes %s; %s", short(a), bad)
					out = append(out, item{"string", s, nil, ef.Loops, ef})
					i++
					continue
				}
				out = append(out, item{"int", a, nil, ef.Loops, ef})
				continue
			}
			r.ob("string", "strings are written after their length: "+short(ef.Args[len(ef.Args)-1]), false, r.at(ef), "calls %s", ef.Name)
			out = append(out, item{"bytes", ef.Args[len(ef.Args)-1], nil, ef.Loops, ef})
		}
		return out
	}
	// the sequence for spans with and without tags
	tags := fieldOf(span, st, "Tags")
	ml := T.Nil
	for _, ef := range written {
		if ef.Callee == v.W {
			walkTerms(ef.Args[v.wp], func(t *Term) bool {
				if t.op == "len" && len(t.args) == 1 && t.args[0] == tags || strings.HasPrefix(t.op, "len") && len(t.args) > 0 && t.args[0] == tags {
					ml = leafNode(t)
				}
				return true
			})
		}
	}
	r.must(ml != T.Nil, "the number of tags is not written")
	seq := func(empty bool) []*Effect {
		f := and(eok, eq(ml, intConst(0)))
		if !empty {
			f = and(eok, not(eq(ml, intConst(0))))
		}
		var out []*Effect
		for _, ef := range written {
			c := restrict(ef.Cond, f)
			for _, L := range ef.Loops {
				if L.Over == tags {
					c = restrict(c, okIter(L))
				}
			}
			if len(ef.Loops) > 0 && empty && and(f, ef.Cond) != T.False {
				continue // no iterations over an empty map
			}
			if c == T.False {
				continue
			}
			r.ob("sequence", "values are written unconditionally", c == T.True, r.at(ef), "if %s", short(c))
			out = append(out, ef)
		}
		return out
	}
	full, none := fold(seq(false)), fold(seq(true))
	end := eres.Results[len(eres.Results)-1]
	r.ob("sequence", "BinaryEncode succeeds if the buffer does", ands(eres.RetCond(), eok, not(nilNode(end))) == T.False, r.L.fnPos(enc), "")

	// ---- what is read
	de := r.engine(func(fn *ssa.Function) bool { return fn == v.R || fn == rs })
	dres := de.Eval(dec, nil, nil, nil)
	r.used(dres)
	rd := dres.Params[0]
	dok := T.True
	var read []*Effect
	for _, ef := range effs(dres, "call", nil) {
		uses := false
		for _, a := range ef.Args {
			uses = uses || stripIface(a) == rd
		}
		if !uses || strings.HasSuffix(ef.Name, ".Len") {
			continue
		}
		r.ob("sequence", "BinaryDecode reads integers and strings: "+shortName(ef.Name), ef.Callee == v.R || ef.Callee == rs, r.at(ef), "")
		if E := errOf(ef); E != nil {
			dok = and(dok, everyTime(nilNode(E), ef.Loops))
		}
		read = append(read, ef)
	}
	var items []item
	var loops []*Effect
	last := 0
	for _, ef := range read {
		k := "int"
		if ef.Callee == rs {
			k = "string"
		}
		if len(ef.Loops) > 0 {
			loops = append(loops, ef)
			continue
		}
		c := restrict(ef.Cond, dok)
		r.ob("sequence", "values are read unconditionally", c == T.True, r.at(ef), "if %s", short(c))
		r.ob("sequence", "the tags are read last", len(loops) == 0, r.at(ef), "")
		items = append(items, item{k, nil, tupleElem(ef.Res, 0), nil, ef})
		last = ef.Seq
	}
	_ = last
	// ---- the fields in front of the tags
	n := len(items)
	r.ob("sequence", "as many values are read as written", n < len(full) && n < len(none), r.L.fnPos(dec), "%d read in front of the tags, %d and %d written", n, len(full), len(none))
	env := bitEnv{}
	str := map[*Term]*Node{}
	for i, d := range items {
		if i >= len(full) || i >= len(none) {
			break
		}
		w := full[i]
		what := fmt.Sprintf("value %d of the binary form", i)
		r.ob("sequence", what+" is read as it is written", w.kind == d.kind && none[i].kind == d.kind && none[i].arg == w.arg && len(w.loop) == 0, r.at(d.ef), "written as %s at %s, read as %s", w.kind, r.at(w.ef), d.kind)
		if d.res == nil || d.res.leaf == nil {
			continue
		}
		if d.kind == "int" {
			env[d.res.leaf] = v.coded(bitVec(w.arg, nil))
		} else {
			str[d.res.leaf] = w.arg
		}
	}
	dok = lastTimes(dok, dres)
	fin := and(dres.RetCond(), nilNode(dres.Results[1]))
	got := deepRestrict(deepRestrict(dres.Results[0], fin), dok)
	nf := 0
	var fields func(path string, a, b *Node, t types.Type)
	fields = func(path string, a, b *Node, t types.Type) {
		if s, ok := t.Underlying().(*types.Struct); ok {
			for i := 0; i < s.NumFields(); i++ {
				fields(path+"."+s.Field(i).Name(), getField(a, s, i), getField(b, s, i), s.Field(i).Type())
			}
			return
		}
		if b == tags {
			return
		}
		nf++
		ok, why := false, ""
		a = restrict(restrict(a, fin), dok)
		switch {
		case isString(t):
			ok = a.leaf != nil && str[a.leaf] == b
			why = short(a)
		case isInteger(t):
			w, uns := bitsOf(t)
			why = sameBits(truncBits(bitVec(a, env), w, uns), bitVec(b, nil))
			ok = why == ""
			why = short(a) + " " + why
		}
		r.ob("field", "field "+path[1:]+" comes back", ok, r.L.fnPos(dec), "decoded as %s", why)
	}
	fields("", got, span, st)
	r.count("field", 10)

	// ---- the tags
	r.must(n < len(full) && n < len(none), "the tags are not written")
	ft, nt := full[n:], none[n:]
	zero := func(it item) bool {
		return it.kind == "int" && sameBits(bitVec(restrict(it.arg, and(eok, eq(ml, intConst(0)))), bitEnv{ml.leaf: [64]bit{}}), [64]bit{}) == ""
	}
	r.ob("tags", "an empty set of tags is one zero", len(nt) == 1 && zero(nt[0]), r.L.fnPos(enc), "%v", nt)
	shape := len(ft) == 4 && ft[0].kind == "int" && ft[1].kind == "string" && ft[2].kind == "string" && ft[3].kind == "int" &&
		len(ft[0].loop) == 0 && len(ft[1].loop) == 1 && len(ft[2].loop) == 1 && ft[1].loop[0] == ft[2].loop[0] && len(ft[3].loop) == 0
	r.ob("tags", "tags are written as their number, the pairs, and a zero", shape, r.L.fnPos(enc), "%v", ft)
	if shape {
		r.ob("tags", "the number of tags is written", sameBits(v.coded(bitVec(ft[0].arg, nil)), bitVec(ml, nil)) == "", r.at(ft[0].ef), "%s", short(ft[0].arg))
		z, ok := constInt64(ft[3].arg)
		r.ob("tags", "the tags end with a zero", ok && z == 0, r.at(ft[3].ef), "%s", short(ft[3].arg))
		L := ft[1].loop[0]
		r.ob("tags", "all tags are written", L.Over == tags && restrict(L.Stay, and(eok, okIter(L))) == T.True, r.at(ft[1].ef), "goes on if %s", short(L.Stay))
		for _, nx := range effs(eres, "next", func(ef *Effect) bool { return len(ef.Loops) == 1 && ef.Loops[0] == L }) {
			r.ob("tags", "the key is written, then the value", len(nx.Args) == 3 && ft[1].arg == nx.Args[1] && ft[2].arg == nx.Args[2], r.at(ft[1].ef), "%s, %s", short(ft[1].arg), short(ft[2].arg))
		}
	}
	v.tagReader(dres, rs, loops, got, dok)
	r.count("tags", 8)
}

// left: an iteration that is the last one takes one of the exits.
func left(L *Loop) *Node {
	c := T.False
	for _, x := range L.Exits {
		c = or(c, x.Cond)
	}
	return restrictKX(c, L)
}

// everyTime: the condition in the current and in the last iterations.
func everyTime(c *Node, loops []*Loop) *Node {
	out := c
	for i := len(loops) - 1; i >= 0; i-- {
		c = restrictKX(c, loops[i])
		out = and(out, c)
	}
	return out
}

// lastTimes adds to ok that the last iterations of all loops leave them.
func lastTimes(ok *Node, res *EvalResult) *Node {
	for _, L := range res.Loops {
		var up []*Loop
		for M := L.parent; M != nil; M = M.parent {
			up = append([]*Loop{M}, up...)
		}
		x := restrict(everyTime(left(L), up), ok)
		if x != T.False {
			ok = and(ok, x)
		}
	}
	return ok
}

// okIter: the iterator of a loop over a map has another entry.
func okIter(L *Loop) *Node {
	c := T.True
	for _, x := range L.Exits {
		walkTerms(x.Cond, func(t *Term) bool {
			if t.op == "iterok" {
				c = and(c, atomNode(t))
			}
			return true
		})
	}
	return c
}

// stringReaderFn: the function below dec that reads strings.
func (r *Report) stringReaderFn(dec *ssa.Function) *ssa.Function {
	var rs *ssa.Function
	for _, f := range r.reaches(dec) {
		s := f.Signature
		if s.Recv() == nil && s.Params().Len() == 1 && isNamedPtr(s.Params().At(0).Type(), "bytes.Reader") && s.Results().Len() == 2 && isString(s.Results().At(0).Type()) && isErrorType(s.Results().At(1).Type()) {
			r.must(rs == nil, "several functions read strings")
			rs = f
		}
	}
	r.must(rs != nil, "no function reads strings")
	return rs
}

// tagReader: the blocks of pairs.
func (v *varints) tagReader(res *EvalResult, rs *ssa.Function, read []*Effect, got, ok *Node) {
	r := v.r
	wh := r.L.fnPos(res.Fn)
	tags := fieldOf(got, res.Fn.Signature.Results().At(0).Type(), "Tags")
	var ups []*Effect
	for _, u := range effs(res, "mapupdate", nil) {
		ups = append(ups, u)
	}
	r.ob("tags", "tags are stored at one place", len(ups) == 1, wh, "%d", len(ups))
	if len(ups) != 1 {
		return
	}
	u := ups[0]
	made := false
	for _, m := range effs(res, "makemap", nil) {
		made = made || m.Res == tags && len(m.Loops) == 0
	}
	r.ob("tags", "the tags of the result are the ones that were read", u.Args[0] == tags && made && len(effs(res, "mapdelete", nil)) == 0, r.at(u), "%s", short(tags))
	r.must(len(u.Loops) == 2, "tags are stored in %d nested loops", len(u.Loops))
	LB, LP := u.Loops[0], u.Loops[1]
	if LB.parent == LP {
		LB, LP = LP, LB
	}
	var count, ks, vs *Effect
	var other []*Effect
	for _, ef := range read {
		switch {
		case len(ef.Loops) == 1 && ef.Loops[0] == LB && ef.Callee == v.R && count == nil:
			count = ef
		case len(ef.Loops) == 1:
			other = append(other, ef)
		case ef.Callee == rs && ks == nil:
			ks = ef
		case ef.Callee == rs && vs == nil:
			vs = ef
		default:
			r.ob("tags", "pairs are a key and a value", false, r.at(ef), "calls %s", shortName(ef.Name))
		}
	}
	r.must(count != nil && ks != nil && vs != nil, "the loops that read tags do not read a count and pairs")
	n := tupleElem(count.Res, 0)
	pos := lessThan(intConst(0), n)
	f := and(ok, pos)
	under := func(c *Node, f *Node) *Node { return restrict(c, f) }
	r.ob("tags", "every block starts with its count", under(count.Cond, ok) == T.True, r.at(count), "%s", short(count.Cond))
	for _, ef := range other {
		r.ob("tags", "nothing else is read for a positive count", and(ef.Cond, f) == T.False, r.at(ef), "%s", short(ef.Cond))
	}
	// the block loop ends with the count zero
	z := and(ok, eq(n, intConst(0)))
	r.ob("tags", "the tags end with the count zero", under(LB.Stay, z) == T.False, r.at(count), "goes on if %s", short(LB.Stay))
	stay := under(LB.Stay, f)
	r.ob("tags", "another block follows a positive count", stay == T.True, r.at(count), "goes on if %s", short(stay))
	// the pairs
	in := inLoop(LP, n)
	g := and(f, in)
	for _, ef := range []*Effect{ks, vs, u} {
		c := under(ef.Cond, g)
		r.ob("tags", "each pair of a block is read and stored: "+ef.Kind+" "+shortName(ef.Name), c == T.True, r.at(ef), "if %s", short(c))
	}
	r.ob("tags", "the pairs of a block are as many as its count", under(LP.Stay, g) == T.True && and(u.Cond, and(f, not(in))) == T.False && and(LP.Stay, and(f, not(in))) == T.False && and(ks.Cond, and(f, not(in))) == T.False, r.at(ks), "goes on if %s", short(under(LP.Stay, f)))
	r.ob("tags", "the key is read before the value", ks.Seq < vs.Seq, r.at(ks), "")
	r.ob("tags", "the value is stored with its key", len(u.Args) == 3 && under(u.Args[1], g) == tupleElem(ks.Res, 0) && under(u.Args[2], g) == tupleElem(vs.Res, 0), r.at(u), "%s: %s", short(u.Args[1]), short(u.Args[2]))
}

// stringReader: the function returns as many bytes of the input as the length
// in front of them says.
func (v *varints) stringReader(fn *ssa.Function) {
	r := v.r
	e := r.engine(func(f *ssa.Function) bool { return f == v.R })
	res := e.Eval(fn, nil, nil, nil)
	r.used(res)
	rd := res.Params[0]
	name := fn.Name()
	var ln *Effect
	var fulls []*Effect
	ok := T.True
	for _, ef := range effs(res, "call", nil) {
		uses := false
		for _, a := range ef.Args {
			uses = uses || stripIface(a) == rd
		}
		if !uses {
			continue
		}
		switch {
		case ef.Callee == v.R:
			r.must(ln == nil, "%s reads several integers", name)
			ln = ef
		case ef.Name == "io.ReadFull":
			fulls = append(fulls, ef)
			ok = and(ok, nilNode(tupleElem(ef.Res, 1)))
		case strings.HasSuffix(ef.Name, ".Len"):
		default:
			r.ob("string", name+" reads a length and its bytes", false, r.at(ef), "calls %s", shortName(ef.Name))
		}
	}
	r.must(ln != nil, "%s does not read a length", name)
	n := tupleElem(ln.Res, 0)
	wh := r.at(ln)
	r.ob("string", name+" reads the length first", ln.Cond == T.True, wh, "")
	for _, f := range fulls {
		r.ob("string", name+" reads the length first", ln.Seq < f.Seq && len(f.Loops) == 0, r.at(f), "")
	}
	ok = ands(ok, nilNode(tupleElem(ln.Res, 1)), lessEq(intConst(0), n), lessEq(n, intConst(1<<31-1)))
	for _, ef := range effs(res, "call", nil) {
		if strings.HasSuffix(ef.Name, "(*bytes.Reader).Len") {
			ok = and(ok, lessEq(n, ef.Res))
		}
	}
	errv := res.Results[1]
	bad := and(ok, not(nilNode(errv)))
	r.ob("string", name+" returns all strings of up to 2 GB", bad == T.False, wh, "fails if %s", short(bad))
	for _, g := range guardedLeaves(restrict(res.Results[0], ok)) {
		c := and(ok, g.Cond)
		if c == T.False {
			continue
		}
		leaf := leafNode(g.T)
		if s, isc := constString(leaf); isc {
			r.ob("string", name+" returns the empty string for the length zero", s == "" && and(c, not(eq(n, intConst(0)))) == T.False, wh, "%q if %s", s, short(c))
			continue
		}
		good, why := false, short(leaf)
		if g.T.op == "str" && len(g.T.args) > 0 {
			sl := g.T.args[0]
			for _, f := range fulls {
				if len(f.Args) == 2 && f.Args[1] == sl && and(c, not(f.Cond)) == T.False {
					good = true
				}
			}
			if lenOf(sl) != n && sameUnder(c, lenOf(sl), n) != nil {
				good, why = false, "has the length "+short(lenOf(sl))
			}
		}
		r.ob("string", name+" returns the bytes that it read", good, wh, "%s", why)
	}
	// one read at a time
	for i, a := range fulls {
		for _, b := range fulls[:i] {
			r.ob("string", name+" reads the bytes once", and(a.Cond, b.Cond) == T.False, r.at(a), "")
		}
	}
}

// fieldOf: the field of a struct value of type t.
func fieldOf(n *Node, t types.Type, name string) *Node {
	st := t.Underlying().(*types.Struct)
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() == name {
			return getField(n, st, i)
		}
	}
	panic("anchor: field " + name + " of " + t.String())
}

// corrupt: what the decoder does with messages that are no spans.
func (r *Report) corrupt() {
	dec := r.entry("codec", "BinaryDecode")
	rs := r.calling(dec, "(*bytes.Reader).ReadByte")
	r.must(len(rs) == 1, "%d functions read integers", len(rs))
	R := rs[0]
	S := r.stringReaderFn(dec)
	// no recursion
	for _, f := range r.reaches(dec) {
		r.ob("terminates", "the decoder does not call itself: "+f.Name(), !r.recursive(f), r.L.fnPos(f), "")
	}
	consumes := func(ef *Effect) bool {
		return ef.Callee == R || ef.Callee == S || strings.HasSuffix(ef.Name, "(*bytes.Reader).ReadByte")
	}
	nl := 0
	for _, fn := range []*ssa.Function{R, S, dec} {
		e := r.engine(func(f *ssa.Function) bool { return f != fn && (f == R || f == S) })
		res := e.Eval(fn, nil, nil, nil)
		r.used(res)
		name := fn.Name()
		errorsLead(r, e, res, "error", name, func(ef *Effect) bool { return consumes(ef) || strings.HasPrefix(ef.Name, "io.Read") })
		if fn == R || fn == S {
			// something is read before success is reported
			read := T.False
			for _, ef := range effs(res, "call", consumes) {
				c := and(ef.Cond, nilNode(errOf(ef)))
				read = or(read, and(everyTime(c, ef.Loops), everyTime(c, ef.Loops)))
				for i := len(ef.Loops) - 1; i >= 0; i-- {
					c = restrictKX(c, ef.Loops[i])
				}
				read = or(read, c)
			}
			bad := ands(res.RetCond(), nilNode(res.Results[1]), not(read))
			if bad != T.False && fn == R {
				// the loop of R runs at least once
				for _, ef := range effs(res, "call", consumes) {
					if len(ef.Loops) == 1 {
						fact, _, _ := flagged(ef.Loops[0])
						if restrict(ef.Cond, fact) == T.True && ef.Loops[0].Entry == T.True {
							bad = T.False
						}
					}
				}
			}
			r.ob("terminates", name+" succeeds only after it read something", bad == T.False, r.L.fnPos(fn), "succeeds without reading if %s", short(bad))
		}
		for _, L := range res.Loops {
			nl++
			got := T.False
			for _, ef := range effs(res, "call", consumes) {
				in := false
				for _, M := range ef.Loops {
					in = in || M == L
				}
				if !in || ef.Loops[len(ef.Loops)-1] != L {
					continue
				}
				got = or(got, and(ef.Cond, nilNode(errOf(ef))))
			}
			bad := ands(L.Entry, L.Stay, not(got))
			fin := bad == T.False || L.Over != nil || bounded(L)
			at := ""
			if L.header != nil && len(L.header.Instrs) > 0 {
				at = r.L.pos(L.header.Instrs[0])
			}
			r.ob("terminates", fmt.Sprintf("every iteration of loop %d of %s reads", L.id, name), fin, at, "goes on without reading if %s", short(bad))
		}
		r.decodeMemory(e, res, name)
	}
	r.count("error", 10)
	r.count("terminates", 5)
	r.ob("terminates", "the loops of the decoder are known", nl >= 2, "", "%d loops", nl)
	r.poolDiscipline()
	r.count("memory", 4)
}

// bounded: a loop over a constant number of elements, or of those of a slice
// that exists.
func bounded(L *Loop) bool {
	for _, x := range L.Exits {
		if x.Cond.atom != nil && x.Cond.atom.op == "le0" && x.Cond.hi == T.True && x.Cond.lo == T.False {
			// n - K <= 0 for a constant n, or the length of something
			l := linOf(x.Cond.atom.args[0].leaf)
			n := linNode(linAdd(l, linOf(L.K), 1))
			if n.leaf == nil {
				continue
			}
			if _, ok := isIntConst(n); ok {
				return true
			}
			if n.leaf.op == "len" {
				return true
			}
		}
	}
	return false
}

func (r *Report) recursive(fn *ssa.Function) bool {
	seen := map[*ssa.Function]bool{}
	var visit func(f *ssa.Function) bool
	visit = func(f *ssa.Function) bool {
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				c, ok := ins.(ssa.CallInstruction)
				if !ok {
					continue
				}
				g := c.Common().StaticCallee()
				if g == fn {
					return true
				}
				if g != nil && g.Blocks != nil && r.L.isRepoFn(g) && !seen[g] {
					seen[g] = true
					if visit(g) {
						return true
					}
				}
			}
		}
		return false
	}
	return visit(fn)
}

// decodeMemory: allocations are bounded by the input, accesses by the memory.
func (r *Report) decodeMemory(e *Engine, res *EvalResult, name string) {
	pc := func(n *Node) *Node { return r.poolCaps(e, n) }
	fails := func(c *Node, conds ...*Node) *Node {
		for _, x := range conds {
			if y := and(c, not(x)); y != T.False && !(sameUnder(y, intConst(0), intConst(1)) == nil) {
				return y
			}
		}
		return T.False
	}
	var room *Node = T.Nil
	for _, ef := range effs(res, "call", nil) {
		if strings.HasSuffix(ef.Name, "(*bytes.Reader).Len") {
			room = ef.Res
		}
	}
	for _, ef := range res.Effects {
		what := name + ": "
		switch ef.Kind {
		case "makeslice":
			n := ef.Args[0]
			c := ef.Args[len(ef.Args)-1]
			ok := false
			if v, isc := constInt64(c); isc && v >= 0 && v <= 1<<16 {
				ok = true
			} else if room != T.Nil {
				ok = fails(ef.Cond, lessEq(intConst(0), n), lessEq(n, c), lessEq(c, room)) == T.False
			}
			r.ob("memory", what+"memory of "+short(c)+" bytes", ok, r.at(ef), "not negative and not more than what is left to read")
		case "makemap":
			ok := true
			if len(ef.Args) > 0 {
				v, isc := constInt64(ef.Args[0])
				ok = isc && v >= 0 && v <= 1<<16
				if !isc && room != T.Nil {
					ok = fails(ef.Cond, lessEq(intConst(0), ef.Args[0]), lessEq(ef.Args[0], room)) == T.False
				}
			}
			r.ob("memory", what+"room of a map", ok, r.at(ef), "of a constant size, or bounded by what is left to read")
		case "bound":
			lo, hi, full := ef.Args[0], pc(ef.Args[1]), pc(ef.Args[2])
			conds := []*Node{lessEq(intConst(0), lo), lessEq(lo, hi), lessEq(hi, full)}
			if len(ef.Args) > 4 {
				m := pc(ef.Args[4])
				conds = append(conds, lessEq(hi, m), lessEq(m, full))
			}
			bad := fails(ef.Cond, conds...)
			r.ob("memory", what+"slice up to "+short(hi)+" of "+short(full), bad == T.False, r.at(ef), "out of bounds if %s", short(bad))
		case "index":
			i, n := ef.Args[0], pc(ef.Args[1])
			bad := fails(ef.Cond, lessEq(intConst(0), i), lessThan(i, n))
			r.ob("memory", what+"element "+short(i), bad == T.False, r.at(ef), "out of bounds if %s", short(bad))
		case "panic":
			r.ob("memory", what+"panics", ef.Cond == T.False, r.at(ef), "if %s", short(ef.Cond))
		case "assert":
			ok := false
			if t := ef.Res.leaf; t != nil && t.op == "assert" && t.args[0].leaf != nil && r.poolOf(e, t.args[0].leaf) != nil {
				_, v := r.poolNew(e, r.poolOf(e, t.args[0].leaf))
				ok = v != nil && types.Identical(v, t.obj.(types.Type))
			}
			r.ob("memory", what+"type assertion", ok, r.at(ef), "on what the pool makes")
		}
	}
}

// poolOf: the global pool that the value was taken from.
func (r *Report) poolOf(e *Engine, t *Term) *ssa.Global {
	if t.op != "sym" || !strings.HasPrefix(t.aux, "pool@") || len(t.args) == 0 || t.args[0].leaf == nil {
		return nil
	}
	for _, g := range r.L.globals() {
		if globalTerm(g) == t.args[0].leaf {
			return g
		}
	}
	return nil
}

// poolNew: the slice capacity (or -1) and the type of what the pool makes.
func (r *Report) poolNew(e *Engine, g *ssa.Global) (int64, types.Type) {
	fn := r.poolMaker(g)
	if fn == nil {
		return -1, nil
	}
	e2 := r.engine(nil)
	res := e2.Eval(fn, nil, nil, nil)
	if len(res.Results) != 1 || res.Results[0].leaf == nil || res.Results[0].leaf.op != "mkiface" {
		return -1, nil
	}
	m := res.Results[0].leaf
	c := int64(-1)
	if _, ok := m.obj.(types.Type).Underlying().(*types.Slice); ok {
		if v, ok := constInt64(capOf(m.args[0])); ok {
			c = v
		}
	}
	return c, m.obj.(types.Type)
}

// poolCaps replaces the capacities of slices from pools.
func (r *Report) poolCaps(e *Engine, n *Node) *Node {
	m := map[*Term]*Node{}
	walkTerms(n, func(t *Term) bool {
		if t.op == "cap" && len(t.args) == 1 && t.args[0].leaf != nil && t.args[0].leaf.op == "assert" {
			if x := t.args[0].leaf.args[0].leaf; x != nil {
				if g := r.poolOf(e, x); g != nil && r.poolKept(g) {
					if c, _ := r.poolNew(e, g); c >= 0 {
						m[t] = intConst(c)
					}
				}
			}
		}
		return true
	})
	for t, v := range m {
		n = subst(n, t, v)
	}
	return n
}

// poolKept: only what was taken from the pool is given back to it.
func (r *Report) poolKept(g *ssa.Global) bool { return r.poolPuts(g, nil) }

func (r *Report) poolPuts(g *ssa.Global, f func(ins ssa.Instruction, ok bool)) bool {
	all := true
	for _, fn := range r.L.Fns {
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				c, ok := ins.(ssa.CallInstruction)
				if !ok || !isPoolMethod(c.Common(), "Put") || len(c.Common().Args) != 2 || c.Common().Args[0] != ssa.Value(g) {
					continue
				}
				ok = r.fromPool(c.Common().Args[1], g, map[ssa.Value]bool{})
				all = all && ok
				if f != nil {
					f(ins, ok)
				}
			}
		}
	}
	return all
}

// fromPool: the value was taken from the pool, possibly shortened.
func (r *Report) fromPool(v ssa.Value, g *ssa.Global, seen map[ssa.Value]bool) bool {
	if seen[v] {
		return true
	}
	seen[v] = true
	rec := func(x ssa.Value) bool { return r.fromPool(x, g, seen) }
	switch x := v.(type) {
	case *ssa.Call:
		return isPoolMethod(x.Common(), "Get") && x.Common().Args[0] == ssa.Value(g)
	case *ssa.MakeInterface:
		return rec(x.X)
	case *ssa.ChangeInterface:
		return rec(x.X)
	case *ssa.ChangeType:
		return rec(x.X)
	case *ssa.TypeAssert:
		return rec(x.X)
	case *ssa.Extract:
		ta, ok := x.Tuple.(*ssa.TypeAssert)
		return ok && x.Index == 0 && rec(ta.X)
	case *ssa.Slice:
		if x.Low != nil {
			if c, ok := x.Low.(*ssa.Const); !ok || c.Int64() != 0 {
				return false
			}
		}
		return x.Max == nil && rec(x.X)
	case *ssa.Phi:
		for _, y := range x.Edges {
			if !rec(y) {
				return false
			}
		}
		return true
	case *ssa.UnOp:
		a, ok := x.X.(*ssa.Alloc)
		if !ok {
			return false
		}
		n := 0
		for _, ref := range *a.Referrers() {
			if st, ok := ref.(*ssa.Store); ok && st.Addr == ssa.Value(a) {
				n++
				if !rec(st.Val) {
					return false
				}
			}
		}
		return n > 0
	case *ssa.Parameter:
		fn := x.Parent()
		n := 0
		for _, f := range r.L.Fns {
			for _, b := range f.Blocks {
				for _, ins := range b.Instrs {
					c, ok := ins.(ssa.CallInstruction)
					if !ok || c.Common().StaticCallee() != fn {
						continue
					}
					for i, p := range fn.Params {
						if p == x {
							n++
							if !rec(c.Common().Args[i]) {
								return false
							}
						}
					}
				}
			}
		}
		return n > 0
	}
	return false
}

func (r *Report) poolDiscipline() {
	for _, g := range r.L.globals() {
		if n, ok := types.Unalias(derefType(g.Type())).(*types.Named); !ok || n.Obj().Name() != "Pool" || g.Pkg == nil || !strings.HasSuffix(g.Pkg.Pkg.Path(), "/codec") {
			continue
		}
		r.poolPuts(g, func(ins ssa.Instruction, ok bool) {
			r.ob("memory", "what is given back to "+g.Name()+" was taken from it: "+ins.Parent().Name(), ok, r.L.pos(ins), "")
		})
	}
}

// globals of the repository.
func (l *Loaded) globals() []*ssa.Global {
	var out []*ssa.Global
	for _, p := range l.SSA {
		if p == nil || !l.isRepo(p.Pkg) {
			continue
		}
		var names []string
		for n := range p.Members {
			names = append(names, n)
		}
		sort.Strings(names)
		for _, n := range names {
			if g, ok := p.Members[n].(*ssa.Global); ok {
				out = append(out, g)
			}
		}
	}
	return out
}

// poolMaker: the function New of a pool, which is only set by its initialiser.
func (r *Report) poolMaker(g *ssa.Global) *ssa.Function {
	var out *ssa.Function
	n := 0
	done := map[*ssa.Function]bool{}
	base := map[ssa.Value]bool{g: true}
	for _, fn := range append([]*ssa.Function{g.Pkg.Func("init")}, r.L.Fns...) {
		if fn == nil || fn.Pkg != g.Pkg || done[fn] {
			continue
		}
		done[fn] = true
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				if s, ok := ins.(*ssa.Store); ok && s.Addr == ssa.Value(g) {
					if u, ok := s.Val.(*ssa.UnOp); ok && fn.Name() == "init" {
						base[u.X] = true
					} else {
						n++
					}
				}
			}
		}
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				fa, ok := ins.(*ssa.FieldAddr)
				if !ok || !base[fa.X] {
					continue
				}
				st := derefType(fa.X.Type()).Underlying().(*types.Struct)
				if st.Field(fa.Field).Name() != "New" {
					continue
				}
				for _, ref := range *fa.Referrers() {
					if s, ok := ref.(*ssa.Store); ok && s.Addr == ssa.Value(fa) {
						n++
						if f, ok := s.Val.(*ssa.Function); ok && fn.Name() == "init" {
							out = f
						}
					}
				}
			}
		}
	}
	if n != 1 {
		return nil
	}
	return out
}
