package main

// C09: ids keep their 64 bits in text. The parser of ids is decided with a
// case distinction over the 256 values of the next byte and bit provenance of
// the accumulated value; the writers with the provenance of each byte.

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C09", "Bit provenance of the text forms of ids: for each byte value one step of the parser, for each digit of the output its four bits; method sets for JSON; exact inverses for times.", func(r *Report) {
		r.section(func() { r.idParser() })
		r.section(func() { r.idWriters() })
		r.section(func() { r.idReader() })
		r.section(func() { r.idAccess() })
		r.section(func() { r.timeText() })
	})
}

func hexDigit(b int64) (int64, bool) {
	switch {
	case b >= '0' && b <= '9':
		return b - '0', true
	case b >= 'a' && b <= 'f':
		return b - 'a' + 10, true
	case b >= 'A' && b <= 'F':
		return b - 'A' + 10, true
	}
	return 0, false
}

// idParser: up to sixteen hexadecimal digits, nothing else, most significant
// first.
func (r *Report) idParser() {
	fn := r.entry("proxy", "ParseId")
	e := r.engine(nil)
	res := e.Eval(fn, nil, nil, nil)
	r.used(res)
	at := r.L.fnPos(fn)
	text := res.Params[0]
	if isString(fn.Params[0].Type()) {
		r.must(false, "ids are parsed from bytes")
	}
	n := lenOf(text)
	val, err := res.Results[0], res.Results[1]
	good := nilNode(err)
	// the loop over the digits
	var L *Loop
	for _, l := range res.Loops {
		if len(l.Exits) > 0 {
			r.must(L == nil, "there is one loop over the digits")
			L = l
		}
	}
	r.must(L != nil, "there is a loop over the digits")
	K, KX := leafNode(L.K), leafNode(L.KX)
	ends := T.False
	for _, x := range L.Exits {
		ends = or(ends, subst(x.Cond, L.K, KX))
	}
	good = and(good, or(not(L.Entry), ends))
	short16 := lessEq(n, intConst(16))
	all := lessEq(n, KX)
	x := sameUnder(good, all, T.True)
	r.ob("parse", "success only if every byte was taken", x == nil, at, "success if %s", short(x))
	x = sameUnder(good, short16, T.True)
	r.ob("parse", "more than sixteen digits are refused", x == nil, at, "success if %s", short(x))
	x = sameUnder(ands(short16, all, L.Entry, lessEq(intConst(0), n)), good, T.True)
	r.ob("parse", "up to sixteen digits are accepted", x == nil, at, "refused if %s", short(x))
	x = sameUnder(short16, L.Entry, T.True)
	if x != nil { // nothing to do for an empty text
		x = sameUnder(and(short16, not(L.Entry)), n, intConst(0))
	}
	r.ob("parse", "the digits of every short text are looked at", x == nil, at, "not if %s", short(x))
	// the value
	ch := e.elemOf(res.Out.mem, text, K, byteType)
	r.must(ch.leaf != nil, "the next byte of the text is known: %s", short(ch))
	var phi *LoopPhi
	for _, p := range append(append([]*LoopPhi{}, L.Phis...), cellList(L)...) {
		if p.Mu != nil && sameUnder(ands(good, L.Entry), val, restrictKX(leafNode(p.Mu), L)) == nil {
			phi = p
		}
	}
	if phi == nil {
		// a conversion of the accumulated value
		for _, p := range append(append([]*LoopPhi{}, L.Phis...), cellList(L)...) {
			if p.Mu == nil || !isInteger(p.Mu.typ) {
				continue
			}
			m := restrictKX(leafNode(p.Mu), L)
			if m.leaf == nil {
				continue
			}
			env := bitEnv{m.leaf: freshBits("acc")}
			ok := true
			for _, l := range guardedLeaves(deepRestrict(val, and(good, L.Entry))) {
				if and(l.Cond, and(good, L.Entry)) != T.False && sameBits(bitTerm(l.T, env), freshBits("acc")) != "" {
					ok = false
				}
			}
			if ok {
				phi = p
			}
		}
	}
	if !r.ob("parse", "the value is the one that was accumulated", phi != nil, at, "%s", short(val)) {
		return
	}
	for _, l := range guardedLeaves(val) {
		if and(l.Cond, ands(good, not(L.Entry))) != T.False {
			v, ok := constInt64(leafNode(l.T))
			r.ob("parse", "an empty text is zero", ok && v == 0, at, "%s", short(leafNode(l.T)))
		}
	}
	v, ok := constInt64(phi.Init)
	r.ob("parse", "the value starts at zero", ok && v == 0, at, "%s", short(phi.Init))
	acc := freshBits("acc")
	env := bitEnv{phi.Mu: acc}
	nbad, digits := 0, 0
	for b := int64(0); b < 256 && nbad < 4; b++ {
		stay := subst(L.Stay, ch.leaf, intConst(b))
		d, hex := hexDigit(b)
		if !hex {
			if x := and(stay, L.Entry); x != T.False {
				nbad++
				r.ob("parse", fmt.Sprintf("the byte %q is refused", rune(b)), false, at, "goes on if %s", short(x))
			}
			continue
		}
		digits++
		want := lessThan(K, n)
		if x := sameUnder(and(L.Entry, short16), stay, want); x != nil {
			nbad++
			r.ob("parse", fmt.Sprintf("the digit %q is accepted", rune(b)), false, at, "differs if %s", short(x))
			continue
		}
		step := deepRestrict(subst(phi.Step, ch.leaf, intConst(b)), and(stay, ands(L.Entry, lessEq(intConst(0), K))))
		exp := shiftBits(acc, 4, bit{})
		for i := 0; i < 4; i++ {
			exp[i] = bit{one: d>>uint(i)&1 == 1}
		}
		if msg := sameBits(bitVec(step, env), exp); msg != "" {
			nbad++
			r.ob("parse", fmt.Sprintf("the digit %q appends its four bits", rune(b)), false, at, "%s in %s", msg, short(step))
		}
	}
	r.ob("parse", "all other bytes are refused, and each digit appends its four bits", nbad == 0 && digits == 22, at, "")
	// no other way out of the loop with success, nothing is written
	r.quiet(res, "parse", "parsing an id", func(ef *Effect) bool {
		return !(ef.Kind == "call" && (strings.HasPrefix(ef.Name, "fmt.Errorf") || strings.Contains(ef.Name, "errors.")) || ef.Kind == "store" && localAddr(ef.Args[0]))
	})
	r.count("parse", 6)
}

// fixedText: the bytes of a text or of bytes of a known length.
func (r *Report) fixedText(e *Engine, m *Mem, n *Node) ([]*Node, string) {
	t := n.leaf
	if t == nil {
		return nil, "depends on conditions: " + short(n)
	}
	switch t.op {
	case "strof":
		return t.args, ""
	case "bytes", "conv", "strview", "str":
		return r.fixedText(e, m, t.args[0])
	case "const":
		if s, ok := t.obj.(string); ok {
			var out []*Node
			for i := 0; i < len(s); i++ {
				out = append(out, intConst(int64(s[i])))
			}
			return out, ""
		}
	case "concat":
		a, p := r.fixedText(e, m, t.args[0])
		if p != "" {
			return nil, p
		}
		b, p := r.fixedText(e, m, t.args[1])
		return append(append([]*Node{}, a...), b...), p
	case "append":
		out, p := r.fixedText(e, m, t.args[0])
		return append(append([]*Node{}, out...), t.args[1:]...), p
	case "appends":
		a, p := r.fixedText(e, m, t.args[0])
		if p != "" {
			return nil, p
		}
		b, p := r.fixedText(e, m, t.args[1])
		return append(append([]*Node{}, a...), b...), p
	case "slice":
		k, ok := constInt64(lenOf(n))
		if !ok || k < 0 || k > 64 {
			return nil, "unknown length " + short(lenOf(n))
		}
		var out []*Node
		for i := int64(0); i < k; i++ {
			out = append(out, e.elemOf(m, n, intConst(i), byteType))
		}
		return out, ""
	}
	if s, ok := constString(n); ok {
		var out []*Node
		for i := 0; i < len(s); i++ {
			out = append(out, intConst(int64(s[i])))
		}
		return out, ""
	}
	return nil, "unknown text " + short(n)
}

// sixteen: the bytes are the sixteen digits of the id.
func (r *Report) sixteen(construct, at string, got []*Node, id *Node) {
	bad := ""
	if len(got) != 16 {
		bad = fmt.Sprintf("%d digits", len(got))
	}
	src := freshBits("id")
	env := bitEnv{id.leaf: src}
	for i := 0; i < 16 && bad == ""; i++ {
		t := got[i].leaf
		hi := i%2 == 0
		if t == nil || !(t.op == "hexhi" && hi || t.op == "hexlo" && !hi || t.op == "hexhi" || t.op == "hexlo") {
			// a digit of a table of digits
			if msg := tableDigit(got[i], env, src, 60-4*i); msg != "" {
				bad = fmt.Sprintf("digit %d: %s", i, msg)
			}
			continue
		}
		v := bitVec(t.args[0], env)
		if t.op == "hexhi" {
			v = shiftBits(v, -4, bit{})
		}
		for j := 0; j < 4; j++ {
			if v[j] != src[60-4*i+j] {
				bad = fmt.Sprintf("bit %d of digit %d is %s", j, i, v[j].key0())
			}
		}
	}
	r.ob("write", construct, bad == "", at, "%s", bad)
}

// tableDigit: an element of the table of lower case digits.
func tableDigit(n *Node, env bitEnv, src [64]bit, pos int) string {
	t := n.leaf
	if t == nil || len(t.args) < 2 || t.op != "strindex" && t.op != "charat" && t.op != "stridx" {
		return "unknown digit " + short(n)
	}
	s, ok := constString(t.args[0])
	if !ok || s != "0123456789abcdef" {
		return "the digits are " + short(t.args[0])
	}
	v := bitVec(t.args[1], env)
	for j := 0; j < 4; j++ {
		if v[j] != src[pos+j] {
			return fmt.Sprintf("bit %d is %s", j, v[j].key0())
		}
	}
	for j := 4; j < 64; j++ {
		if !v[j].zero() {
			return "more than one digit"
		}
	}
	return ""
}

func (r *Report) valueMethod(t types.Type, name string) *ssa.Function {
	sel := types.NewMethodSet(t).Lookup(nil, name)
	if sel == nil {
		return nil
	}
	f, _ := sel.Obj().(*types.Func)
	if f == nil {
		return nil
	}
	return r.L.Prog.FuncValue(f)
}

// idWriters: the text and the JSON of an id are its sixteen digits.
func (r *Report) idWriters() {
	t := r.L.typ("proxy", "Id")
	r.must(t != nil, "the type of ids exists")
	b, ok := t.Underlying().(*types.Basic)
	r.ob("write", "ids hold 64 bits", ok && (b.Kind() == types.Int64 || b.Kind() == types.Uint64), "", "%s", t.Underlying())
	for _, name := range []string{"String", "MarshalJSON"} {
		fn := r.valueMethod(t, name)
		if !r.ob("write", name+" is available for values and for pointers", fn != nil && fn.Blocks != nil, "", "it is not in the method set of values") {
			continue
		}
		e := r.engine(nil)
		e.UnrollTo = 20
		res := e.Eval(fn, nil, nil, nil)
		r.used(res)
		at := r.L.fnPos(fn)
		id := res.Params[0]
		txt, bad := r.fixedText(e, res.Out.mem, res.Results[0])
		if !r.ob("write", name+" makes a text of fixed length", bad == "", at, "%s", bad) {
			continue
		}
		if name == "MarshalJSON" {
			r.ob("write", name+" never fails", nilNode(res.Results[1]) == T.True, at, "%s", short(res.Results[1]))
			q := func(n *Node) bool { v, ok := constInt64(n); return ok && v == '"' }
			if !r.ob("write", name+" makes a quoted text", len(txt) == 18 && q(txt[0]) && q(txt[len(txt)-1]), at, "%d bytes", len(txt)) {
				continue
			}
			txt = txt[1:17]
			if ok, own := freshSlice(res.Results[0]); !ok {
				r.ob("write", name+" returns memory of its own", false, at, "%s", own)
			}
		}
		r.sixteen(name+" shows the sixteen digits of the id, most significant first", at, txt, id)
		r.quiet(res, "write", name, func(ef *Effect) bool {
			return !(ef.Kind == "store" || ef.Kind == "call" && strings.HasPrefix(ef.Name, "encoding/hex."))
		})
		for _, ef := range effs(res, "store", nil) {
			if !localAddr(ef.Args[0]) {
				r.ob("write", name+" changes nothing", false, r.at(ef), "%s", short(ef.Args[0]))
			}
		}
	}
	r.count("write", 7)
}

// freshSlice: memory that was made by the function.
func freshSlice(n *Node) (bool, string) {
	for _, l := range guardedLeaves(n) {
		if l.T.op == "bytes" || l.T.op == "nil" {
			continue
		}
		if l.T.op == "append" || l.T.op == "appends" {
			if ok, own := freshSlice(l.T.args[0]); !ok {
				return false, own
			}
			continue
		}
		d := sliceData(leafNode(l.T))
		if d.leaf == nil || !localAddr(d) {
			return false, short(leafNode(l.T))
		}
	}
	return true, ""
}

// localAddr: an address inside of an object that the function made.
func localAddr(n *Node) bool {
	for _, l := range guardedLeaves(n) {
		t := l.T
		for t.op == "fieldaddr" || t.op == "indexaddr" || t.op == "slice" {
			if t.args[0].leaf == nil {
				return localAddr(t.args[0])
			}
			t = t.args[0].leaf
		}
		if t.op != "alloc" {
			return false
		}
	}
	return true
}

// idReader: the JSON of an id is read with the parser of ids.
func (r *Report) idReader() {
	t := r.L.typ("proxy", "Id")
	fn := r.valueMethod(types.NewPointer(t), "UnmarshalJSON")
	if !r.ob("read", "ids can be read from JSON", fn != nil && fn.Blocks != nil, "", "") {
		return
	}
	pid := r.entry("proxy", "ParseId")
	e := r.engine(func(f *ssa.Function) bool { return f == pid })
	res := e.Eval(fn, nil, nil, nil)
	r.used(res)
	at := r.L.fnPos(fn)
	doc := res.Params[1]
	n := lenOf(doc)
	calls := effs(res, "call", func(ef *Effect) bool { return ef.Callee == pid })
	if !r.ob("read", "the parser of ids is used", len(calls) == 1, at, "%d calls", len(calls)) {
		return
	}
	c := calls[0]
	first := e.elemOf(c.Mem, doc, intConst(0), byteType)
	last := e.elemOf(c.Mem, doc, sub(n, intConst(1)), byteType)
	quoted := ands(lessEq(intConst(2), n), eq(first, intConst('"')), eq(last, intConst('"')))
	pos := lessEq(intConst(0), n)
	x := sameUnder(pos, c.Cond, quoted)
	r.ob("read", "exactly quoted texts are parsed", x == nil, r.at(c), "differs if %s", short(x))
	in := c.Args[0]
	okIn := sameUnder(c.Cond, sliceData(in), sliceData(doc)) == nil && sameUnder(c.Cond, sub(sliceOff(in), sliceOff(doc)), intConst(1)) == nil && sameUnder(c.Cond, lenOf(in), sub(n, intConst(2))) == nil
	r.ob("read", "what is between the quotes is parsed", okIn, r.at(c), "%s", short(in))
	v, perr := tupleElem(c.Res, 0), tupleElem(c.Res, 1)
	good := and(c.Cond, nilNode(perr))
	x = sameUnder(pos, nilNode(res.Results[0]), good)
	r.ob("read", "it succeeds exactly if the parser does", x == nil, at, "differs if %s", short(x))
	got := e.loadAt(res.Out.mem, res.Params[0], t)
	r.sameIf("read", "the id is the one that was parsed", at, good, got, v)
	st := T.False
	for _, ef := range effs(res, "store", nil) {
		if ef.Args[0] == res.Params[0] {
			st = or(st, ef.Cond)
		}
	}
	x = sameUnder(not(good), st, T.False)
	r.ob("read", "the id stays as it was if it can not be read", x == nil || sameUnder(not(good), got, e.loadAt(newMem(), res.Params[0], t)) == nil, at, "stored if %s", short(x))
	r.count("read", 6)
}

// idAccess: the number of an id, zero for none.
func (r *Report) idAccess() {
	t := r.L.typ("proxy", "Id")
	ms := types.NewMethodSet(types.NewPointer(t))
	n := 0
	for i := 0; i < ms.Len(); i++ {
		f, _ := ms.At(i).Obj().(*types.Func)
		if f == nil {
			continue
		}
		fn := r.L.Prog.FuncValue(f)
		sig := f.Type().(*types.Signature)
		if fn == nil || fn.Blocks == nil || sig.Results().Len() != 1 || sig.Params().Len() > 1 {
			continue
		}
		rt := sig.Results().At(0).Type()
		_, ptr := sig.Recv().Type().(*types.Pointer)
		e := r.engine(nil)
		at := r.L.fnPos(fn)
		switch {
		case isInteger(rt) && ptr && sig.Params().Len() <= 1:
			if sig.Params().Len() == 1 && !types.Identical(sig.Params().At(0).Type(), t) {
				continue
			}
			n++
			res := e.Eval(fn, nil, nil, nil)
			r.used(res)
			none := nilNode(res.Params[0])
			src := freshBits("id")
			val := e.loadAt(newMem(), res.Params[0], t)
			bad := ""
			for _, l := range guardedLeaves(res.Results[0]) {
				if c := and(l.Cond, none); c != T.False {
					if len(res.Params) == 2 {
						if leafNode(l.T) != res.Params[1] {
							bad = "without id: " + short(leafNode(l.T))
						}
					} else if v, ok := constInt64(leafNode(l.T)); !ok || v != 0 {
						bad = "without id: " + short(leafNode(l.T))
					}
				}
				if c := and(l.Cond, not(none)); c != T.False {
					v := val
					if w := deepRestrict(val, not(none)); w.leaf != nil {
						v = w
					}
					if v.leaf == nil || sameBits(bitTerm(l.T, bitEnv{v.leaf: src}), src) != "" {
						bad = "with id: " + short(leafNode(l.T))
					}
				}
			}
			r.ob("access", f.Name()+" gives the number of the id", bad == "", at, "%s", bad)
		}
	}
	r.count("access", 2)
}

// timeText: times survive their JSON form.
func (r *Report) timeText() {
	t := r.L.typ("proxy", "Timestamp")
	r.must(t != nil, "the type of times exists")
	fn := r.valueMethod(t, "MarshalJSON")
	if r.ob("time", "times are written as JSON for values and pointers", fn != nil && fn.Blocks != nil, "", "") {
		e := r.engine(nil)
		res := e.Eval(fn, nil, nil, nil)
		r.used(res)
		want := mkN("tunix", "", nil, nil, intConst(0), res.Params[0])
		ok := false
		for i, n := range res.Results {
			l := n.leaf
			ok = l != nil && l.op == "ext" && l.aux == fmt.Sprint(i)
			if ok {
				c := l.args[0].leaf
				ok = c != nil && c.op == "call" && strings.Contains(c.aux, "(time.Time).MarshalJSON") && c.args[0].leaf != nil &&
					c.args[0].leaf.op == want.leaf.op && sameUnder(T.True, c.args[0].leaf.args[0], intConst(0)) == nil && sameUnder(T.True, c.args[0].leaf.args[1], res.Params[0]) == nil
			}
			if !ok {
				break
			}
		}
		r.ob("time", "the JSON of a time is that of its nanoseconds", ok, r.L.fnPos(fn), "%s", short(res.Results[0]))
	}
	fn = r.valueMethod(types.NewPointer(t), "UnmarshalJSON")
	if r.ob("time", "times are read from JSON", fn != nil && fn.Blocks != nil, "", "") {
		e := r.engine(nil)
		res := e.Eval(fn, nil, nil, nil)
		r.used(res)
		at := r.L.fnPos(fn)
		calls := effs(res, "call", named("(*time.Time).UnmarshalJSON"))
		if r.ob("time", "the library reads the time", len(calls) == 1 && calls[0].Cond == T.True && calls[0].Args[1] == res.Params[1], at, "%d calls", len(calls)) {
			good := nilNode(calls[0].Res)
			x := sameUnder(T.True, nilNode(res.Results[0]), good)
			r.ob("time", "a time that can not be read is an error", x == nil, at, "differs if %s", short(x))
			got := e.loadAt(res.Out.mem, res.Params[0], t)
			ok := true
			for _, l := range guardedLeaves(deepRestrict(got, good)) {
				if and(l.Cond, good) == T.False {
					continue
				}
				c := l.T
				for c.op == "conv" && c.args[0].leaf != nil {
					c = c.args[0].leaf
				}
				ok = ok && c.op == "call" && strings.Contains(c.aux, "(time.Time).UnixNano") && strings.Contains(short(c.args[0]), short(calls[0].Args[0]))
			}
			r.ob("time", "the time has the nanoseconds that were read", ok, at, "%s", short(got))
		}
	}
	r.count("time", 4)
}
