package main

// Numeric abstract interpretation of the parser: paths are kept apart, sizes
// and positions are linear expressions, loops are summarised by linear facts
// that are guessed from templates and verified (Houdini). The contents of the
// read buffer are described by a window: the bytes lo..hi of the buffer are
// the bytes lo+delta..hi+delta of the input.

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---------------------------------------------------------------- values

type ncond struct {
	e   lx // holds iff e <= 0, or e == 0 with eq
	eq  bool
	neg bool
	yes []lx // further facts if it holds
	no  []lx
}

type nv struct {
	k   byte // i number or bool, c condition, s slice or string, e reference or error, u struct, t tuple, a address of a cell, b address of an element, f function, p the parser, o unknown
	x   lx   // i; nil-ness of e: 0 is nil
	eof lx   // e: 1 is io.EOF
	c   *ncond
	reg int
	off lx
	ln  lx
	cp  lx
	nn  lx
	fs  []nv
	key string
	fn  *ssa.Function
	bd  []nv
	typ types.Type
}

func (v nv) id() string {
	switch v.k {
	case 'i':
		return "i" + v.x.key()
	case 'e':
		return "e" + v.x.key() + "/" + v.eof.key()
	case 's':
		return fmt.Sprintf("s%d:%s:%s:%s:%s", v.reg, v.off.key(), v.ln.key(), v.cp.key(), v.nn.key())
	case 'u', 't':
		var b strings.Builder
		b.WriteByte(v.k)
		for _, f := range v.fs {
			b.WriteString("{" + f.id() + "}")
		}
		return b.String()
	case 'c':
		return fmt.Sprintf("c%s:%v:%v", v.c.e.key(), v.c.eq, v.c.neg)
	case 'a':
		return "a" + v.key
	case 'b':
		return fmt.Sprintf("b%d:%s", v.reg, v.off.key())
	case 'f':
		s := "f" + v.fn.String()
		for _, b := range v.bd {
			s += "," + b.id()
		}
		return s
	}
	return string(v.k) + v.key
}

type nwin struct {
	delta, lo, hi lx
	ok            bool
}

func (w nwin) id() string {
	return fmt.Sprintf("%v:%s:%s:%s", w.ok, w.delta.key(), w.lo.key(), w.hi.key())
}

type nst struct {
	f     []lx
	env   map[ssa.Value]nv
	cells map[string]nv
	wins  map[int]nwin
	R     lx
	T0    lx // position of the input where the function started
	reads int
	cbs   int // callbacks of the user
	dead  bool
}

func (s *nst) clone() *nst {
	n := *s
	n.f = s.f[:len(s.f):len(s.f)]
	n.env = make(map[ssa.Value]nv, len(s.env)+4)
	for k, v := range s.env {
		n.env[k] = v
	}
	n.cells = make(map[string]nv, len(s.cells)+2)
	for k, v := range s.cells {
		n.cells[k] = v
	}
	n.wins = make(map[int]nwin, len(s.wins))
	for k, v := range s.wins {
		n.wins[k] = v
	}
	return &n
}

func (s *nst) fact(xs ...lx) {
	for _, x := range xs {
		x = x.norm()
		if c, ok := x.isConst(); ok {
			if c > 0 {
				s.dead = true
			}
			continue
		}
		dup := false
		for i, y := range s.f {
			if x.sameTerms(y, 1) {
				dup = true
				if x.c > y.c {
					s.f = append(append(append([]lx{}, s.f[:i]...), x), s.f[i+1:]...)
				}
				break
			}
		}
		if !dup {
			s.f = append(s.f[:len(s.f):len(s.f)], x)
		}
	}
}

var errType = types.Universe.Lookup("error").Type()

// last is the error of the last read.
func (s *nst) last() nv {
	if v, ok := s.cells["P.last"]; ok && v.k == 'e' {
		return v
	}
	return nv{k: 'e', typ: errType}
}

func (s *nst) setLast(v nv) { s.cells["P.last"] = v }

func (s *nst) eqFact(a, b lx) { s.fact(a.sub(b), b.sub(a)) }

func (s *nst) le(a, b lx) bool { return s.dead || entails(s.f, a.sub(b)) }
func (s *nst) eq(a, b lx) bool { return s.le(a, b) && s.le(b, a) }

// ---------------------------------------------------------------- analysis

type nsum struct {
	fn        *ssa.Function
	pre1      bool // there is an unread byte
	post1     bool // success consumes a byte
	post0     bool // success does not go back
	postAvail bool // success leaves an unread byte
	running   bool
	done      bool
}

type nob struct {
	rule, what, where, detail string
	ok                        bool
	n                         int
}

type nx struct {
	r                             *Report
	eng                           *Engine
	ptyp                          types.Type // the struct
	fBuf, fIn, fEof, fTail, fHead int
	nsyms                         int
	names                         map[int]string
	nreg                          int
	nalloc                        int
	sums                          map[*ssa.Function]*nsum
	scc                           map[*ssa.Function]int
	obs                           map[string]*nob
	order                         []string
	quiet                         int
	depth                         int
	work                          int
	loopsN                        int
	changed                       bool
	calls                         []ncall // calls inside of a recursion
	stack                         []*ssa.Function
	funcs                         map[*ssa.Function]bool
}

type ncall struct {
	from, to       *ssa.Function
	where          string
	ge, gt, bounds map[[2]int]bool // caller's parameter, callee's parameter
	bnd            map[int]int64
}

type tooMuch struct{ msg string }

func (x *nx) sym(name string) lx {
	x.nsyms++
	x.names[x.nsyms] = name
	return lv(x.nsyms)
}

func (x *nx) show(e lx) string {
	var b []string
	for _, t := range e.t {
		n := x.names[t.v]
		switch t.a {
		case 1:
			b = append(b, "+"+n)
		case -1:
			b = append(b, "-"+n)
		default:
			b = append(b, fmt.Sprintf("%+d*%s", t.a, n))
		}
	}
	if e.c != 0 || len(b) == 0 {
		b = append(b, fmt.Sprintf("%+d", e.c))
	}
	return strings.TrimPrefix(strings.Join(b, ""), "+")
}

func (x *nx) ob(rule, what, where string, ok bool, format string, args ...interface{}) {
	if x.quiet > 0 {
		return
	}
	k := rule + "|" + what + "|" + where
	o := x.obs[k]
	if o == nil {
		o = &nob{rule: rule, what: what, where: where, ok: true}
		x.obs[k] = o
		x.order = append(x.order, k)
	}
	o.n++
	if !ok && o.ok {
		o.ok = false
		o.detail = fmt.Sprintf(format, args...)
	}
}

// obIn is an obligation of the parser's own code.
func (x *nx) obIn(ins ssa.Instruction, rule, what, where string, ok bool, format string, args ...interface{}) {
	if x.ownPkg(ins.Parent()) {
		x.ob(rule, what, where, ok, format, args...)
	}
}

func isByteType(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Kind() == types.Uint8
}

func (x *nx) isParser(t types.Type) bool {
	p, ok := t.Underlying().(*types.Pointer)
	return ok && types.Identical(p.Elem(), x.ptyp)
}

// fresh is a value that nothing is known about.
func (x *nx) fresh(s *nst, t types.Type, name string) nv {
	if x.isParser(t) {
		return nv{k: 'p'}
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsString != 0:
			x.nreg++
			l := x.sym("len(" + name + ")")
			s.fact(l.scale(-1))
			return nv{k: 's', reg: x.nreg, off: lc(0), ln: l, cp: l, nn: lc(1), typ: t}
		case u.Info()&types.IsBoolean != 0:
			b := x.sym(name)
			s.fact(b.scale(-1), b.plus(-1))
			return nv{k: 'i', x: b}
		case u.Info()&types.IsInteger != 0:
			i := x.sym(name)
			switch u.Kind() {
			case types.Uint8:
				s.fact(i.scale(-1), i.plus(-255))
			case types.Uint16, types.Uint32, types.Uint, types.Uint64, types.Uintptr:
				s.fact(i.scale(-1))
			}
			return nv{k: 'i', x: i}
		}
		return nv{k: 'o'}
	case *types.Slice:
		x.nreg++
		l, c, nn := x.sym("len("+name+")"), x.sym("cap("+name+")"), x.sym("has("+name+")")
		s.fact(l.scale(-1), l.sub(c), nn.scale(-1), nn.plus(-1))
		return nv{k: 's', reg: x.nreg, off: lc(0), ln: l, cp: c, nn: nn, typ: t}
	case *types.Struct:
		v := nv{k: 'u', typ: t}
		for i := 0; i < u.NumFields(); i++ {
			v.fs = append(v.fs, x.fresh(s, u.Field(i).Type(), name+"."+u.Field(i).Name()))
		}
		return v
	case *types.Tuple:
		v := nv{k: 't'}
		for i := 0; i < u.Len(); i++ {
			v.fs = append(v.fs, x.fresh(s, u.At(i).Type(), fmt.Sprintf("%s.%d", name, i)))
		}
		return v
	case *types.Interface, *types.Pointer, *types.Map, *types.Chan, *types.Signature:
		n, e := x.sym(name), x.sym("eof("+name+")")
		s.fact(n.scale(-1), n.plus(-1), e.scale(-1), e.sub(n))
		return nv{k: 'e', x: n, eof: e, typ: t}
	}
	return nv{k: 'o'}
}

func (x *nx) zero(t types.Type) nv {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if u.Info()&types.IsString != 0 {
			x.nreg++
			return nv{k: 's', reg: x.nreg, nn: lc(1), typ: t}
		}
		return nv{k: 'i', x: lc(0)}
	case *types.Slice:
		x.nreg++
		return nv{k: 's', reg: x.nreg, typ: t}
	case *types.Struct:
		v := nv{k: 'u', typ: t}
		for i := 0; i < u.NumFields(); i++ {
			v.fs = append(v.fs, x.zero(u.Field(i).Type()))
		}
		return v
	case *types.Interface, *types.Pointer, *types.Map, *types.Chan, *types.Signature:
		return nv{k: 'e', x: lc(0), eof: lc(0), typ: t}
	}
	return nv{k: 'o'}
}

func pcell(i int) string { return fmt.Sprintf("P.%d", i) }

func (x *nx) tail(s *nst) lx { return s.cells[pcell(x.fTail)].x }
func (x *nx) head(s *nst) lx { return s.cells[pcell(x.fHead)].x }
func (x *nx) buf(s *nst) nv  { return s.cells[pcell(x.fBuf)] }

// pos is the place of the next unread byte in the input.
func (x *nx) pos(s *nst) lx { return s.R.sub(x.head(s)).add(x.tail(s)) }

// invariant assumes a parser in a consistent state.
func (x *nx) invariant(s *nst) {
	st := x.ptyp.Underlying().(*types.Struct)
	for i := 0; i < st.NumFields(); i++ {
		s.cells[pcell(i)] = x.fresh(s, st.Field(i).Type(), st.Field(i).Name())
	}
	t, h, b := x.tail(s), x.head(s), x.buf(s)
	s.fact(t.scale(-1), t.sub(h), h.sub(b.ln))
	if in := s.cells[pcell(x.fIn)]; in.k == 'e' { // there is a reader until the end
		s.fact(lc(1).sub(in.x).sub(s.cells[pcell(x.fEof)].x))
	}
	R := x.sym("received")
	s.fact(h.sub(R))
	s.R = R
	s.setLast(nv{k: 'e', typ: errType})
	s.wins[b.reg] = nwin{delta: R.sub(h), lo: t, hi: h, ok: true}
}

// bounds are the facts that hold even after an error.
func (x *nx) checkBounds(s *nst, where string) {
	if x.quiet > 0 {
		return
	}
	t, h, b := x.tail(s), x.head(s), x.buf(s)
	ok := s.le(lc(0), t) && s.le(t, h) && s.le(h, b.ln)
	if in, e := s.cells[pcell(x.fIn)], s.cells[pcell(x.fEof)]; in.k == 'e' && e.k == 'i' {
		x.ob("state", "there is a reader until the end of the input", where, s.le(lc(1), in.x.add(e.x)), "neither a reader nor the end")
	}
	x.ob("state", "positions stay in order and inside of the buffer", where, ok, "start %s, end %s, size %s", x.show(t), x.show(h), x.show(b.ln))
}

func (x *nx) checkInv(s *nst, where string) {
	if x.quiet > 0 {
		return
	}
	x.checkBounds(s, where)
	t, h, b := x.tail(s), x.head(s), x.buf(s)
	if s.le(h, t) {
		return // nothing is left
	}
	w := s.wins[b.reg]
	ok := w.ok && s.le(w.lo, b.off.add(t)) && s.le(b.off.add(h), w.hi) && s.eq(w.delta.add(b.off), s.R.sub(h))
	x.ob("content", "the unread bytes are the next bytes of the input", where, ok, "start %s, end %s, received %s; known are %s to %s, shifted by %s", x.show(t), x.show(h), x.show(s.R), x.show(w.lo), x.show(w.hi), x.show(w.delta))
}

// ---------------------------------------------------------------- functions

type nret struct {
	st *nst
	v  []nv
	at ssa.Instruction
}

type nframe struct {
	fn   *ssa.Function
	info *fnInfo
	rets []nret
}

type nexit struct {
	to *ssa.BasicBlock
	st *nst
}

func (x *nx) run(fn *ssa.Function, args, binds []nv, st *nst) []nret {
	x.depth++
	defer func() { x.depth-- }()
	if x.depth > 40 {
		panic(tooMuch{"calls are nested too deeply at " + fn.String()})
	}
	x.funcs[fn] = true
	fr := &nframe{fn: fn, info: x.eng.info(fn)}
	s := st.clone()
	saved := st.env
	s.env = map[ssa.Value]nv{}
	for i, p := range fn.Params {
		s.env[p] = args[i]
	}
	for i, v := range fn.FreeVars {
		if i < len(binds) {
			s.env[v] = binds[i]
		} else {
			s.env[v] = x.fresh(s, v.Type(), v.Name())
		}
	}
	x.flow(fr, nil, fn.Blocks[0], []*nst{s})
	for i := range fr.rets {
		fr.rets[i].st.env = saved
	}
	return fr.rets
}

// flow runs the blocks of a loop (or of the function) from start.
func (x *nx) flow(fr *nframe, scope *natLoop, start *ssa.BasicBlock, sts []*nst) (latch []*nst, exits []nexit) {
	pending := map[*ssa.BasicBlock][]*nst{start: sts}
	first := true
	for _, b := range fr.info.rpo {
		if scope != nil && !scope.blocks[b] {
			continue
		}
		in := pending[b]
		if len(in) == 0 {
			continue
		}
		pending[b] = nil
		var outs []nexit
		if lp := fr.info.loops[b]; lp != nil && lp != scope {
			outs = x.loop(fr, lp, in)
		} else {
			for _, s := range in {
				outs = append(outs, x.block(fr, b, s)...)
			}
		}
		for _, o := range outs {
			switch {
			case scope != nil && o.to == scope.header:
				latch = append(latch, o.st)
			case scope != nil && !scope.blocks[o.to]:
				exits = append(exits, o)
			default:
				if n := len(pending[o.to]); n > 300 {
					panic(tooMuch{fmt.Sprintf("too many paths in %s", fr.fn)})
				}
				pending[o.to] = append(pending[o.to], o.st)
			}
		}
		first = false
	}
	_ = first
	return
}

func (x *nx) feasible(s *nst) bool {
	if s.dead {
		return false
	}
	return !fmInfeasible(s.f)
}

// feasibleWith adds a fact and tells whether the state is still possible.
func (x *nx) with(s *nst, xs ...lx) *nst {
	n := s.clone()
	n.fact(xs...)
	if n.dead {
		return nil
	}
	for _, f := range xs {
		if fmInfeasible(connected(n.f, f)) {
			return nil
		}
	}
	return n
}

// split gives the states with and without a condition.
func (x *nx) split(s *nst, c *ncond) (yes, no []*nst) {
	add := func(l []*nst, n *nst) []*nst {
		if n != nil {
			return append(l, n)
		}
		return l
	}
	if c.eq {
		yes = add(yes, x.with(s, append([]lx{c.e, c.e.scale(-1)}, c.yes...)...))
		no = add(no, x.with(s, append([]lx{c.e.plus(1)}, c.no...)...))
		no = add(no, x.with(s, append([]lx{c.e.scale(-1).plus(1)}, c.no...)...))
	} else {
		yes = add(yes, x.with(s, append([]lx{c.e}, c.yes...)...))
		no = add(no, x.with(s, append([]lx{lc(1).sub(c.e)}, c.no...)...))
	}
	if c.neg {
		yes, no = no, yes
	}
	return
}

func (x *nx) condOf(v nv) *ncond {
	if v.k == 'c' {
		return v.c
	}
	if v.k == 'i' {
		return &ncond{e: lc(1).sub(v.x)} // true is one
	}
	return nil
}

func (x *nx) goTo(fr *nframe, from, to *ssa.BasicBlock, s *nst) []nexit {
	n := -1
	for i, p := range to.Preds {
		if p == from {
			n = i
		}
	}
	var phis []*ssa.Phi
	for _, ins := range to.Instrs {
		p, ok := ins.(*ssa.Phi)
		if !ok {
			break
		}
		phis = append(phis, p)
	}
	// conditions become numbers
	sts := []*nst{s}
	for _, p := range phis {
		var next []*nst
		for _, s := range sts {
			next = append(next, x.decide(s, p.Edges[n])...)
		}
		sts = next
	}
	var out []nexit
	for _, s := range sts {
		var vals []nv
		for _, p := range phis {
			vals = append(vals, x.val(s, p.Edges[n]))
		}
		for i, p := range phis {
			s.env[p] = vals[i]
		}
		out = append(out, nexit{to, s})
	}
	return out
}

// decide splits the states by a condition that is stored somewhere.
func (x *nx) decide(s *nst, v ssa.Value) []*nst {
	c := x.val(s, v)
	if c.k != 'c' {
		return []*nst{s}
	}
	yes, no := x.split(s, c.c)
	for _, y := range yes {
		y.env[v] = nv{k: 'i', x: lc(1)}
	}
	for _, y := range no {
		y.env[v] = nv{k: 'i', x: lc(0)}
	}
	return append(yes, no...)
}

func (x *nx) block(fr *nframe, b *ssa.BasicBlock, s0 *nst) []nexit {
	x.work++
	if x.work > 400000 {
		panic(tooMuch{"too many steps"})
	}
	cur := []*nst{s0.clone()}
	for _, ins := range b.Instrs {
		switch ins := ins.(type) {
		case *ssa.Phi:
			continue
		case *ssa.If:
			var out []nexit
			for _, s := range cur {
				c := x.condOf(x.val(s, ins.Cond))
				if c == nil {
					out = append(out, x.goTo(fr, b, b.Succs[0], s.clone())...)
					out = append(out, x.goTo(fr, b, b.Succs[1], s.clone())...)
					continue
				}
				yes, no := x.split(s, c)
				for _, y := range yes {
					out = append(out, x.goTo(fr, b, b.Succs[0], y)...)
				}
				for _, y := range no {
					out = append(out, x.goTo(fr, b, b.Succs[1], y)...)
				}
			}
			return out
		case *ssa.Jump:
			var out []nexit
			for _, s := range cur {
				out = append(out, x.goTo(fr, b, b.Succs[0], s)...)
			}
			return out
		case *ssa.Return:
			for _, s := range cur {
				var v []nv
				for _, r := range ins.Results {
					v = append(v, x.val(s, r))
				}
				fr.rets = append(fr.rets, nret{s, v, ins})
			}
			return nil
		case *ssa.Panic:
			for _, s := range cur {
				if x.feasible(s) {
					x.ob("panic", "no panic can be reached", x.r.L.pos(ins), false, "")
				}
			}
			return nil
		default:
			var next []*nst
			for _, s := range cur {
				next = append(next, x.step(fr, s, ins)...)
			}
			cur = next
		}
		if len(cur) == 0 {
			return nil
		}
	}
	return nil
}

func (x *nx) val(s *nst, v ssa.Value) nv {
	if r, ok := s.env[v]; ok {
		return r
	}
	switch v := v.(type) {
	case *ssa.Const:
		if v.Value == nil {
			return x.zero(v.Type())
		}
		switch v.Value.Kind() {
		case constant.Bool:
			if constant.BoolVal(v.Value) {
				return nv{k: 'i', x: lc(1)}
			}
			return nv{k: 'i', x: lc(0)}
		case constant.Int:
			if n, ok := constant.Int64Val(v.Value); ok && n < 1<<40 && n > -(1<<40) {
				return nv{k: 'i', x: lc(n)}
			}
		case constant.String:
			n := lc(int64(len(constant.StringVal(v.Value))))
			x.nreg++
			r := nv{k: 's', reg: x.nreg, ln: n, cp: n, nn: lc(1), typ: v.Type()}
			return r
		}
		r := x.fresh(s, v.Type(), "const")
		return r
	case *ssa.Function:
		return nv{k: 'f', fn: v}
	case *ssa.Global:
		return nv{k: 'g', key: v.String(), typ: v.Type()}
	case *ssa.Builtin:
		return nv{k: 'o'}
	}
	r := x.fresh(s, v.Type(), v.Name())
	s.env[v] = r
	return r
}

// ---------------------------------------------------------------- memory

func (x *nx) store(s *nst, key string, v nv) {
	if v.k == 'u' {
		for i, f := range v.fs {
			x.store(s, fmt.Sprintf("%s.%d", key, i), f)
		}
		return
	}
	s.cells[key] = v
}

func (x *nx) load(s *nst, key string, t types.Type) nv {
	if st, ok := t.Underlying().(*types.Struct); ok {
		v := nv{k: 'u', typ: t}
		for i := 0; i < st.NumFields(); i++ {
			v.fs = append(v.fs, x.load(s, fmt.Sprintf("%s.%d", key, i), st.Field(i).Type()))
		}
		return v
	}
	if v, ok := s.cells[key]; ok {
		return v
	}
	v := x.fresh(s, t, key)
	s.cells[key] = v
	return v
}

// written: bytes a..b of a region are overwritten.
func (x *nx) written(s *nst, reg int, a, b lx) []*nst {
	w, ok := s.wins[reg]
	if !ok || !w.ok {
		return []*nst{s}
	}
	if s.le(w.hi, a) || s.le(b, w.lo) || s.le(b, a) {
		return []*nst{s}
	}
	if s.le(w.lo, b) {
		w.lo = b
		s.wins[reg] = w
		return []*nst{s}
	}
	var out []*nst
	if n := x.with(s, w.lo.sub(b)); n != nil {
		v := w
		v.lo = b
		n.wins[reg] = v
		out = append(out, n)
	}
	if n := x.with(s, b.sub(w.lo).plus(1)); n != nil {
		out = append(out, n)
	}
	return out
}

func (x *nx) index(s *nst, ins ssa.Instruction, v nv, idx lx, write bool) {
	where := x.r.L.pos(ins)
	ok := x.quiet > 0 || s.le(lc(0), idx) && s.le(idx.plus(1), v.ln)
	x.obIn(ins, "index", "every index is inside of the slice", where, ok, "index %s, length %s", x.show(idx), x.show(v.ln))
	if w, has := s.wins[v.reg]; has && !write && x.quiet == 0 {
		i := v.off.add(idx)
		x.ob("received", "only received bytes are looked at", where, w.ok && s.le(w.lo, i) && s.le(i.plus(1), w.hi), "byte %s of the buffer; received are %s to %s", x.show(i), x.show(w.lo), x.show(w.hi))
	}
	s.fact(idx.scale(-1), idx.plus(1).sub(v.ln))
}

// ---------------------------------------------------------------- instructions

func exactInt(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && (b.Kind() == types.Int || b.Kind() == types.Int64 || b.Kind() == types.UntypedInt)
}

func (x *nx) step(fr *nframe, s *nst, ins ssa.Instruction) []*nst {
	one := []*nst{s}
	set := func(v ssa.Value, r nv) []*nst {
		s.env[v] = r
		return one
	}
	switch i := ins.(type) {
	case *ssa.DebugRef:
	case *ssa.Alloc:
		t := derefType(i.Type())
		if types.Identical(t, x.ptyp) {
			st := t.Underlying().(*types.Struct)
			for k := 0; k < st.NumFields(); k++ {
				s.cells[pcell(k)] = x.zero(st.Field(k).Type())
			}
			s.R = lc(0)
			return set(i, nv{k: 'p'})
		}
		x.nalloc++
		key := fmt.Sprintf("A%d", x.nalloc)
		switch t.Underlying().(type) {
		case *types.Array:
		default:
			x.store(s, key, x.zero(t))
		}
		return set(i, nv{k: 'a', key: key, typ: t})
	case *ssa.FieldAddr:
		b := x.val(s, i.X)
		switch b.k {
		case 'p':
			return set(i, nv{k: 'a', key: pcell(i.Field), typ: derefType(i.Type())})
		case 'a':
			return set(i, nv{k: 'a', key: fmt.Sprintf("%s.%d", b.key, i.Field), typ: derefType(i.Type())})
		}
		return set(i, nv{k: 'o'})
	case *ssa.Field:
		b := x.val(s, i.X)
		if b.k == 'u' && i.Field < len(b.fs) {
			return set(i, b.fs[i.Field])
		}
		return set(i, x.fresh(s, i.Type(), i.Name()))
	case *ssa.IndexAddr:
		b := x.val(s, i.X)
		idx := x.val(s, i.Index)
		if b.k == 's' && idx.k == 'i' {
			wr := true
			for _, u := range *i.Referrers() {
				if _, ok := u.(*ssa.Store); !ok {
					wr = false
				}
			}
			if _, ok := i.X.Type().Underlying().(*types.Slice); ok {
				x.index(s, i, b, idx.x, wr)
			}
			return set(i, nv{k: 'b', reg: b.reg, off: b.off.add(idx.x), typ: derefType(i.Type())})
		}
		if at, ok := derefType(i.X.Type()).Underlying().(*types.Array); ok {
			ok := idx.k == 'i' && s.le(lc(0), idx.x) && s.le(idx.x.plus(1), lc(at.Len()))
			x.obIn(i, "index", "every index is inside of the slice", x.r.L.pos(i), ok, "index %s of %d", x.show(idx.x), at.Len())
			if b.k == 'a' {
				if c, isC := idx.x.isConst(); isC {
					return set(i, nv{k: 'a', key: fmt.Sprintf("%s.%d", b.key, c), typ: derefType(i.Type())})
				}
			}
		}
		return set(i, nv{k: 'o'})
	case *ssa.Index:
		b := x.val(s, i.X)
		idx := x.val(s, i.Index)
		if b.k == 's' && idx.k == 'i' {
			x.index(s, i, b, idx.x, false)
		} else if at, ok := i.X.Type().Underlying().(*types.Array); ok {
			ok := idx.k == 'i' && s.le(lc(0), idx.x) && s.le(idx.x.plus(1), lc(at.Len()))
			x.obIn(i, "index", "every index is inside of the slice", x.r.L.pos(i), ok, "index %s of %d", x.show(idx.x), at.Len())
		}
		return set(i, x.fresh(s, i.Type(), i.Name()))
	case *ssa.Store:
		if x.val(s, i.Val).k == 'c' {
			var out []*nst
			for _, d := range x.decide(s, i.Val) {
				out = append(out, x.step(fr, d, ins)...)
			}
			return out
		}
		a, v := x.val(s, i.Addr), x.val(s, i.Val)
		switch a.k {
		case 'a':
			if a.key == pcell(x.fEof) {
				x.storeEof(s, i, v)
			}
			x.store(s, a.key, v)
		case 'b':
			return x.written(s, a.reg, a.off, a.off.plus(1))
		case 'p':
			x.ob("state", "the parser is not replaced", x.r.L.pos(i), false, "")
		}
	case *ssa.UnOp:
		b := x.val(s, i.X)
		switch i.Op {
		case token.MUL:
			switch {
			case b.k == 'a':
				return set(i, x.load(s, b.key, i.Type()))
			case b.k == 'g' && b.key == "io.EOF":
				return set(i, nv{k: 'e', x: lc(1), eof: lc(1)})
			}
			return set(i, x.fresh(s, i.Type(), i.Name()))
		case token.NOT:
			if c := x.condOf(b); c != nil {
				n := *c
				n.neg = !n.neg
				return set(i, nv{k: 'c', c: &n})
			}
		case token.SUB:
			if b.k == 'i' && exactInt(i.Type()) {
				return set(i, nv{k: 'i', x: b.x.scale(-1)})
			}
		}
		return set(i, x.fresh(s, i.Type(), i.Name()))
	case *ssa.BinOp:
		return set(i, x.binop(s, i))
	case *ssa.Convert:
		return set(i, x.convert(s, i))
	case *ssa.ChangeType:
		return set(i, x.val(s, i.X))
	case *ssa.ChangeInterface:
		return set(i, x.val(s, i.X))
	case *ssa.MakeInterface:
		return set(i, nv{k: 'e', x: lc(1), eof: lc(0), typ: i.Type()})
	case *ssa.MakeClosure:
		v := nv{k: 'f', fn: i.Fn.(*ssa.Function)}
		for _, b := range i.Bindings {
			v.bd = append(v.bd, x.val(s, b))
		}
		return set(i, v)
	case *ssa.Extract:
		t := x.val(s, i.Tuple)
		if t.k == 't' && i.Index < len(t.fs) {
			return set(i, t.fs[i.Index])
		}
		return set(i, x.fresh(s, i.Type(), i.Name()))
	case *ssa.MakeSlice:
		n, c := x.val(s, i.Len), x.val(s, i.Cap)
		if n.k != 'i' || c.k != 'i' {
			return set(i, x.fresh(s, i.Type(), i.Name()))
		}
		where := x.r.L.pos(i)
		x.obIn(i, "index", "sizes are not negative", where, s.le(lc(0), n.x) && s.le(n.x, c.x), "length %s, capacity %s", x.show(n.x), x.show(c.x))
		limit := x.head(s).sub(x.tail(s)).scale(8).plus(1 << 16)
		if x.fBuf >= 0 {
			x.ob("reserve", "what is reserved is bounded by the unread bytes", where, s.le(c.x, limit), "%s bytes, %s are unread", x.show(c.x), x.show(x.head(s).sub(x.tail(s))))
		}
		x.nreg++
		s.wins[x.nreg] = nwin{delta: s.R, lo: lc(0), hi: lc(0), ok: true}
		return set(i, nv{k: 's', reg: x.nreg, off: lc(0), ln: n.x, cp: c.x, nn: lc(1), typ: i.Type()})
	case *ssa.Slice:
		return x.slice(s, i)
	case *ssa.Call:
		return x.call(fr, s, i)
	case *ssa.MapUpdate, *ssa.Send, *ssa.RunDefers, *ssa.Defer, *ssa.Go:
	case ssa.Value:
		return set(i, x.fresh(s, i.Type(), i.Name()))
	}
	return one
}

func (x *nx) storeEof(s *nst, i ssa.Instruction, v nv) {
	if x.fEof < 0 {
		return
	}
	no := v.k == 'i' && s.le(v.x, lc(0))
	ok := no || s.le(lc(1), s.last().eof)
	if fn := i.Parent(); fn != nil && fn.Signature.Recv() == nil && !ok {
		ok = s.reads == 0 // a constructor
	}
	x.ob("end", "the end of the input is where the reader reports it", x.r.L.pos(i), ok, "it is assumed without")
}

func (x *nx) binop(s *nst, i *ssa.BinOp) nv {
	a, b := x.val(s, i.X), x.val(s, i.Y)
	num := a.k == 'i' && b.k == 'i'
	switch i.Op {
	case token.ADD:
		if num && exactInt(i.Type()) {
			return nv{k: 'i', x: a.x.add(b.x)}
		}
		if a.k == 's' && b.k == 's' {
			x.nreg++
			n := a.ln.add(b.ln)
			return nv{k: 's', reg: x.nreg, ln: n, cp: n, nn: lc(1), typ: i.Type()}
		}
	case token.SUB:
		if num && exactInt(i.Type()) {
			return nv{k: 'i', x: a.x.sub(b.x)}
		}
	case token.MUL:
		if num && exactInt(i.Type()) {
			if c, ok := a.x.isConst(); ok {
				return nv{k: 'i', x: b.x.scale(c)}
			}
			if c, ok := b.x.isConst(); ok {
				return nv{k: 'i', x: a.x.scale(c)}
			}
		}
	case token.SHL:
		if num && exactInt(i.Type()) {
			if c, ok := b.x.isConst(); ok && c >= 0 && c < 20 {
				return nv{k: 'i', x: a.x.scale(1 << uint(c))}
			}
		}
	case token.AND:
		if num {
			for _, v := range []nv{a, b} {
				if c, ok := v.x.isConst(); ok && c >= 0 {
					r := x.sym(i.Name())
					s.fact(r.scale(-1), r.plus(-c))
					return nv{k: 'i', x: r}
				}
			}
		}
	case token.QUO, token.SHR:
		if num && s.le(lc(0), a.x) {
			c, ok := b.x.isConst()
			if i.Op == token.SHR && ok && c >= 0 && c < 30 {
				c = 1 << uint(c)
			}
			if ok && c > 0 {
				r := x.sym(i.Name())
				// c*r <= a < c*r+c
				s.fact(r.scale(-1), r.scale(c).sub(a.x), a.x.sub(r.scale(c)).plus(1-c))
				return nv{k: 'i', x: r}
			}
		}
	case token.REM:
		if num && s.le(lc(0), a.x) {
			if c, ok := b.x.isConst(); ok && c > 0 {
				r := x.sym(i.Name())
				s.fact(r.scale(-1), r.plus(1-c))
				return nv{k: 'i', x: r}
			}
		}
	case token.LSS, token.LEQ, token.GTR, token.GEQ:
		if num {
			var e lx
			switch i.Op {
			case token.LSS:
				e = a.x.sub(b.x).plus(1)
			case token.LEQ:
				e = a.x.sub(b.x)
			case token.GTR:
				e = b.x.sub(a.x).plus(1)
			case token.GEQ:
				e = b.x.sub(a.x)
			}
			return nv{k: 'c', c: &ncond{e: e}}
		}
	case token.EQL, token.NEQ:
		neg := i.Op == token.NEQ
		switch {
		case num:
			return nv{k: 'c', c: &ncond{e: a.x.sub(b.x), eq: true, neg: neg}}
		case a.k == 'e' && b.k == 'e':
			if c, ok := a.x.isConst(); ok && c == 0 {
				a, b = b, a
			}
			if c, ok := b.x.isConst(); ok && c == 0 { // nil
				return nv{k: 'c', c: &ncond{e: a.x, yes: []lx{a.eof}, neg: neg}}
			}
			if c, ok := a.eof.isConst(); ok && c == 1 {
				a, b = b, a
			}
			if c, ok := b.eof.isConst(); ok && c == 1 { // io.EOF
				return nv{k: 'c', c: &ncond{e: lc(1).sub(a.eof), yes: []lx{lc(1).sub(a.x)}, no: []lx{a.eof}, neg: neg}}
			}
		case a.k == 's' && b.k == 's' && !isString(i.X.Type()): // slices are compared with nil only
			if c, ok := a.nn.isConst(); ok && c == 0 {
				a = b
			}
			return nv{k: 'c', c: &ncond{e: a.nn, yes: []lx{a.ln, a.cp}, neg: neg}}
		case a.k == 'f' || b.k == 'f' || a.k == 'p' || b.k == 'p':
			if a.k == 'e' || b.k == 'e' { // with nil
				r := lc(0)
				if neg {
					r = lc(1)
				}
				return nv{k: 'i', x: r}
			}
		case a.k == 's' && b.k == 's':
			// equal strings have the same length
			c := x.fresh(s, i.Type(), i.Name())
			e := lc(1).sub(c.x)
			return nv{k: 'c', c: &ncond{e: e, yes: []lx{a.ln.sub(b.ln), b.ln.sub(a.ln)}, neg: neg}}
		}
	}
	return x.fresh(s, i.Type(), i.Name())
}

func (x *nx) convert(s *nst, i *ssa.Convert) nv {
	v := x.val(s, i.X)
	ft, tt := i.X.Type(), i.Type()
	if v.k == 'p' || v.k == 'a' {
		return v
	}
	if x.isParser(tt) {
		return nv{k: 'p'}
	}
	if v.k == 'i' && isString(tt) { // a rune
		x.nreg++
		n := x.sym("runelen")
		s.fact(lc(1).sub(n), n.plus(-4))
		return nv{k: 's', reg: x.nreg, ln: n, cp: n, nn: lc(1), typ: tt}
	}
	if v.k == 's' && (isString(ft) && isByteSlice(tt) || isByteSlice(ft) && isString(tt)) {
		x.nreg++
		return nv{k: 's', reg: x.nreg, ln: v.ln, cp: v.ln, nn: lc(1), typ: tt}
	}
	if v.k == 'i' {
		fb, ok1 := ft.Underlying().(*types.Basic)
		tb, ok2 := tt.Underlying().(*types.Basic)
		if ok1 && ok2 && fb.Info()&types.IsInteger != 0 && tb.Info()&types.IsInteger != 0 {
			fs, ts := x.r.L.Sizes.Sizeof(fb), x.r.L.Sizes.Sizeof(tb)
			fu, tu := fb.Info()&types.IsUnsigned != 0, tb.Info()&types.IsUnsigned != 0
			if fu == tu && ts >= fs || fu && !tu && ts > fs || s.le(lc(0), v.x) && (ts >= fs || s.le(v.x, lc(127))) {
				return v
			}
		}
	}
	return x.fresh(s, tt, i.Name())
}

func (x *nx) slice(s *nst, i *ssa.Slice) []*nst {
	one := []*nst{s}
	v := x.val(s, i.X)
	where := x.r.L.pos(i)
	lo := lc(0)
	if i.Low != nil {
		l := x.val(s, i.Low)
		if l.k != 'i' {
			l = x.fresh(s, types.Typ[types.Int], "low")
		}
		lo = l.x
	}
	if _, ok := i.X.Type().Underlying().(*types.Pointer); ok { // array
		at := derefType(i.X.Type()).Underlying().(*types.Array)
		n := lc(at.Len())
		hi := n
		if i.High != nil {
			if h := x.val(s, i.High); h.k == 'i' {
				hi = h.x
			}
		}
		if i.Low != nil || i.High != nil {
			x.obIn(i, "index", "every bound is inside of the slice", where, s.le(lc(0), lo) && s.le(lo, hi) && s.le(hi, n), "%s to %s of %s", x.show(lo), x.show(hi), x.show(n))
		}
		x.nreg++
		if isByteSlice(i.Type()) {
			s.wins[x.nreg] = nwin{delta: s.R, ok: true}
			if al, ok := i.X.(*ssa.Alloc); ok && al.Comment == "makeslice" {
				x.ob("reserve", "what is reserved is bounded by the unread bytes", where, at.Len() <= 1<<20, "%d bytes", at.Len())
			}
		}
		s.env[i] = nv{k: 's', reg: x.nreg, ln: hi.sub(lo), cp: n.sub(lo), nn: lc(1), typ: i.Type()}
		return one
	}
	if v.k != 's' {
		s.env[i] = x.fresh(s, i.Type(), i.Name())
		return one
	}
	hi, max := v.ln, v.cp
	if i.High != nil {
		h := x.val(s, i.High)
		if h.k != 'i' {
			h = x.fresh(s, types.Typ[types.Int], "high")
		}
		hi = h.x
	}
	if i.Max != nil {
		m := x.val(s, i.Max)
		if m.k != 'i' {
			m = x.fresh(s, types.Typ[types.Int], "max")
		}
		max = m.x
	}
	ok := x.quiet > 0 || s.le(lc(0), lo) && s.le(lo, hi) && s.le(hi, max) && s.le(max, v.cp)
	x.obIn(i, "index", "every bound is inside of the slice", where, ok, "%s to %s, limit %s of %s", x.show(lo), x.show(hi), x.show(max), x.show(v.cp))
	s.fact(lo.scale(-1), lo.sub(hi), hi.sub(max))
	s.env[i] = nv{k: 's', reg: v.reg, off: v.off.add(lo), ln: hi.sub(lo), cp: max.sub(lo), nn: v.nn, typ: i.Type()}
	return one
}

// ---------------------------------------------------------------- calls

func (x *nx) isDecoderSig(sig *types.Signature) bool {
	if sig.Params().Len() != 2 || sig.Results().Len() != 1 || sig.Recv() != nil {
		return false
	}
	b, ok := sig.Params().At(0).Type().Underlying().(*types.Basic)
	return ok && b.Kind() == types.UnsafePointer && x.isParser(sig.Params().At(1).Type()) && isErrorType(sig.Results().At(0).Type())
}

// forget drops what is known about local variables that others can change.
func (s *nst) forget() {
	for k := range s.cells {
		if !strings.HasPrefix(k, "P.") {
			delete(s.cells, k)
		}
	}
}

// contractCall is a call of something that keeps the parser consistent.
func (x *nx) contractCall(s *nst, i *ssa.Call, name string, post1, post0, avail bool) []*nst {
	x.failedRead(s, x.r.L.pos(i))
	p0, r0 := x.pos(s), s.R
	old := x.buf(s).reg
	n := s.clone()
	n.wins[old] = nwin{}
	n.forget()
	x.invariant(n)
	n.fact(r0.sub(n.R))
	v := x.fresh(n, i.Type(), name)
	n.setLast(nv{k: 'e', typ: errType})
	n.env[i] = v
	var e *nv
	if v.k == 'e' {
		e = &v
	} else if v.k == 't' && len(v.fs) > 0 && v.fs[len(v.fs)-1].k == 'e' {
		e = &v.fs[len(v.fs)-1]
	}
	if post0 || post1 {
		n.fact(p0.sub(x.pos(n)))
	}
	good := func(m *nst) {
		if post1 {
			m.fact(p0.plus(1).sub(x.pos(m)))
		} else if post0 {
			m.fact(p0.sub(x.pos(m)))
		}
		if avail {
			m.fact(x.tail(m).plus(1).sub(x.head(m)))
		}
	}
	if e == nil || !isErrorType(e.typ) {
		good(n)
		return []*nst{n}
	}
	var out []*nst
	if m := x.with(n, e.x); m != nil {
		good(m)
		out = append(out, m)
	}
	if m := x.with(n, lc(1).sub(e.x)); m != nil {
		// after an error only the bounds are known
		b := x.buf(m)
		m.wins[b.reg] = nwin{delta: m.R.sub(x.head(m)), lo: x.tail(m), hi: x.head(m), ok: true}
		out = append(out, m)
	}
	return out
}

func (x *nx) call(fr *nframe, s *nst, i *ssa.Call) []*nst {
	c := i.Common()
	set := func(v nv) []*nst {
		s.env[i] = v
		return []*nst{s}
	}
	if b, ok := c.Value.(*ssa.Builtin); ok {
		return x.builtin(s, i, b)
	}
	var args []nv
	for _, a := range c.Args {
		args = append(args, x.val(s, a))
	}
	if c.IsInvoke() {
		if c.Method.Name() == "Read" && len(args) == 1 && args[0].k == 's' {
			return x.read(s, i, args[0])
		}
		return set(x.fresh(s, i.Type(), c.Method.Name()))
	}
	fn := c.StaticCallee()
	if fn == nil {
		v := x.val(s, c.Value)
		if v.k == 'f' {
			fn = v.fn
			if x.isDecoderSig(c.Signature()) {
				x.checkInv(s, x.r.L.pos(i))
				return x.contractCall(s, i, "decoder", true, true, false)
			}
			return x.inline(fr, s, i, fn, args, v.bd)
		}
		if x.isDecoderSig(c.Signature()) {
			x.checkInv(s, x.r.L.pos(i))
			return x.contractCall(s, i, "decoder", true, true, false)
		}
		if n := c.Signature().Results(); n.Len() == 1 && isErrorType(n.At(0).Type()) && x.ownPkg(fr.fn) {
			// a callback of the user: it may use the parser
			x.checkInv(s, x.r.L.pos(i))
			out := x.contractCall(s, i, "callback", false, true, false)
			for _, o := range out {
				o.cbs++
			}
			return out
		}
		return set(x.fresh(s, i.Type(), "call"))
	}
	name := fn.String()
	switch {
	case name == "unicode/utf8.EncodeRune":
		b := args[0]
		if b.k == 's' {
			x.obIn(i, "index", "a rune has room", x.r.L.pos(i), s.le(lc(4), b.ln), "%s bytes", x.show(b.ln))
			n := x.sym("runelen")
			s.fact(lc(1).sub(n), n.plus(-4), n.sub(b.ln))
			s.env[i] = nv{k: 'i', x: n}
			return x.written(s, b.reg, b.off, b.off.add(n))
		}
	case (strings.HasPrefix(name, "bytes.Index") || strings.HasPrefix(name, "bytes.LastIndex")) && args[0].k == 's':
		n := x.sym("found")
		s.fact(lc(-1).sub(n), n.plus(1).sub(args[0].ln))
		return set(nv{k: 'i', x: n})
	case name == "unicode/utf8.AppendRune" && args[0].k == 's':
		n := x.sym("runelen")
		s.fact(lc(1).sub(n), n.plus(-4))
		return x.appendTo(s, i, args[0], n)
	case name == "unicode/utf8.RuneLen":
		n := x.sym("runelen")
		s.fact(lc(-1).sub(n), n.plus(-4))
		return set(nv{k: 'i', x: n})
	case strings.HasPrefix(name, "github.com/pkg/errors.") || name == "errors.New" || name == "fmt.Errorf":
		if len(args) > 0 && args[0].k == 'e' && strings.Contains(name, "With") || strings.HasSuffix(name, ".Wrap") || strings.HasSuffix(name, ".Wrapf") {
			return set(nv{k: 'e', x: args[0].x, eof: lc(0), typ: i.Type()})
		}
		return set(nv{k: 'e', x: lc(1), eof: lc(0), typ: i.Type()})
	case strings.HasSuffix(name, "reflect2.NoEscape"):
		return set(args[0])
	case name == "io.ReadFull" || name == "io.ReadAtLeast":
		return set(x.fresh(s, i.Type(), fn.Name()))
	}
	if fn.Blocks == nil || !inRepo(fn) || fn.Package() == nil {
		return set(x.fresh(s, i.Type(), fn.Name()))
	}
	if x.isDecoderSig(fn.Signature) && !x.inScc(fn) {
		x.checkInv(s, x.r.L.pos(i))
		return x.contractCall(s, i, fn.Name(), true, true, false)
	}
	usesParser := false
	for _, a := range args {
		if a.k == 'p' || a.k == 'f' {
			usesParser = true
		}
	}
	if !x.ownPkg(fn) && !usesParser {
		return set(x.fresh(s, i.Type(), fn.Name()))
	}
	if sm := x.summaryOf(fn); sm != nil {
		if sm.pre1 {
			if !s.le(x.tail(s).plus(1), x.head(s)) {
				sm.pre1 = false
				x.changed = true
			}
		}
		x.checkInv(s, x.r.L.pos(i))
		if x.inScc(fn) {
			x.recursive(fr, s, i, fn, args)
		}
		return x.contractCall(s, i, fn.Name(), sm.post1, sm.post0, sm.postAvail)
	}
	return x.inline(fr, s, i, fn, args, nil)
}

func inRepo(fn *ssa.Function) bool {
	p := fn.Package()
	for p == nil && fn.Parent() != nil {
		fn = fn.Parent()
		p = fn.Package()
	}
	return p != nil && strings.HasPrefix(p.Pkg.Path(), repoPrefix)
}

func (x *nx) ownPkg(fn *ssa.Function) bool {
	n, ok := x.ptyp.(*types.Named)
	p := fn.Package()
	for p == nil && fn.Parent() != nil {
		fn = fn.Parent()
		p = fn.Package()
	}
	return ok && p != nil && p.Pkg == n.Obj().Pkg()
}

func (x *nx) inline(fr *nframe, s *nst, i *ssa.Call, fn *ssa.Function, args, binds []nv) []*nst {
	if fn.Blocks == nil {
		s.env[i] = x.fresh(s, i.Type(), fn.Name())
		return []*nst{s}
	}
	refill := x.isRefill(fn)
	p0 := x.pos(s)
	var out []*nst
	for _, rt := range x.run(fn, args, binds, s) {
		n := rt.st.clone()
		switch len(rt.v) {
		case 0:
			n.env[i] = nv{k: 't'}
		case 1:
			n.env[i] = rt.v[0]
		default:
			n.env[i] = nv{k: 't', fs: rt.v}
		}
		if refill && len(rt.v) > 0 {
			e := rt.v[len(rt.v)-1]
			if g := x.with(n, e.x); e.k == 'e' && g != nil {
				x.ob("refill", "reading more input moves nothing but the unread bytes", x.r.L.pos(rt.at), g.eq(x.pos(g), p0), "the next byte was at %s and is at %s", x.show(p0), x.show(x.pos(g)))
			}
		}
		out = append(out, n)
	}
	return out
}

// isRefill: the function reads from the input itself.
func (x *nx) isRefill(fn *ssa.Function) bool {
	if !x.ownPkg(fn) {
		return false
	}
	for _, b := range fn.Blocks {
		for _, ins := range b.Instrs {
			if c, ok := ins.(*ssa.Call); ok && c.Common().IsInvoke() && c.Common().Method.Name() == "Read" {
				return true
			}
		}
	}
	return false
}

func (x *nx) read(s *nst, i *ssa.Call, p nv) []*nst {
	where := x.r.L.pos(i)
	if in := x.val(s, i.Call.Value); in.k == 'e' && x.quiet == 0 {
		x.ob("refill", "there is a reader", where, s.le(lc(1), in.x), "it may be nil")
	}
	x.failedRead(s, where)
	x.ob("refill", "there is room for more input", where, s.le(lc(1), p.ln), "%s bytes", x.show(p.ln))
	n := x.sym("count")
	s.fact(n.scale(-1), n.sub(p.ln))
	e := x.fresh(s, types.Universe.Lookup("error").Type(), "readErr")
	a := p.off
	b := x.buf(s)
	if p.reg == b.reg {
		// unread bytes are kept
		ok := s.le(b.off.add(x.head(s)), a) || s.le(x.head(s), x.tail(s))
		x.ob("refill", "unread bytes are not overwritten", where, ok, "it is read to %s, unread are %s to %s", x.show(a), x.show(x.tail(s)), x.show(x.head(s)))
	} else {
		x.ob("refill", "it is read into the buffer", where, false, "")
	}
	w := s.wins[p.reg]
	switch {
	case w.ok && s.eq(w.hi, a) && s.eq(s.R, w.hi.add(w.delta)):
		w.hi = w.hi.add(n)
	default:
		w = nwin{ok: true, lo: a, hi: a.add(n), delta: s.R.sub(a)}
	}
	s.wins[p.reg] = w
	s.R = s.R.add(n)
	s.setLast(e)
	s.reads++
	s.env[i] = nv{k: 't', fs: []nv{{k: 'i', x: n}, e}}
	return []*nst{s}
}

func (x *nx) builtin(s *nst, i *ssa.Call, b *ssa.Builtin) []*nst {
	var args []nv
	for _, a := range i.Call.Args {
		args = append(args, x.val(s, a))
	}
	one := []*nst{s}
	switch b.Name() {
	case "len", "cap":
		v := args[0]
		if v.k == 's' {
			if b.Name() == "len" {
				s.env[i] = nv{k: 'i', x: v.ln}
			} else {
				s.env[i] = nv{k: 'i', x: v.cp}
			}
			return one
		}
		r := x.sym("len")
		s.fact(r.scale(-1))
		s.env[i] = nv{k: 'i', x: r}
		return one
	case "min", "max":
		if len(args) == 2 && args[0].k == 'i' && args[1].k == 'i' && exactInt(i.Type()) {
			p, q := args[0].x, args[1].x
			if b.Name() == "max" {
				p, q = q, p
			}
			var out []*nst
			if n := x.with(s, args[0].x.sub(args[1].x)); n != nil {
				n.env[i] = nv{k: 'i', x: p}
				out = append(out, n)
			}
			if n := x.with(s, args[1].x.sub(args[0].x).plus(1)); n != nil {
				n.env[i] = nv{k: 'i', x: q}
				out = append(out, n)
			}
			return out
		}
	case "copy":
		if args[0].k == 's' && args[1].k == 's' {
			return x.copyBytes(s, i, args[0], args[1])
		}
	case "append":
		if args[0].k == 's' && args[1].k == 's' {
			return x.appendTo(s, i, args[0], args[1].ln)
		}
	}
	s.env[i] = x.fresh(s, i.Type(), b.Name())
	return one
}

func (x *nx) appendTo(s *nst, i *ssa.Call, d nv, m lx) []*nst {
	n := d.ln.add(m)
	var out []*nst
	if a := x.with(s, n.sub(d.cp)); a != nil {
		v := d
		v.ln = n
		v.nn = lc(1)
		if c, ok := d.nn.isConst(); ok && c == 0 {
			v.nn = lc(0)
		}
		a.env[i] = v
		out = append(out, x.written(a, d.reg, d.off.add(d.ln), d.off.add(n))...)
	}
	if a := x.with(s, d.cp.sub(n).plus(1)); a != nil {
		x.nreg++
		cp := x.sym("cap")
		a.fact(n.sub(cp))
		a.env[i] = nv{k: 's', reg: x.nreg, ln: n, cp: cp, nn: lc(1), typ: i.Type()}
		w := a.wins[d.reg]
		if w.ok {
			// the copy has the bytes of the old one
			w.delta = w.delta.add(d.off)
			w.lo, w.hi = w.lo.sub(d.off), w.hi.sub(d.off)
			w.ok = a.le(w.hi, d.ln)
			a.wins[x.nreg] = w
		}
		out = append(out, a)
	}
	return out
}

func (x *nx) copyBytes(s *nst, i *ssa.Call, d, e nv) []*nst {
	// the number of bytes
	var sts []*nst
	var cnt []lx
	switch {
	case s.le(d.ln, e.ln):
		sts, cnt = append(sts, s), append(cnt, d.ln)
	case s.le(e.ln, d.ln):
		sts, cnt = append(sts, s), append(cnt, e.ln)
	default:
		if n := x.with(s, d.ln.sub(e.ln)); n != nil {
			sts, cnt = append(sts, n), append(cnt, d.ln)
		}
		if n := x.with(s, e.ln.sub(d.ln).plus(1)); n != nil {
			sts, cnt = append(sts, n), append(cnt, e.ln)
		}
	}
	var out []*nst
	for k, n := range sts {
		n.env[i] = nv{k: 'i', x: cnt[k]}
		w, ok := n.wins[e.reg]
		if !ok || !w.ok {
			if _, has := n.wins[d.reg]; has {
				out = append(out, x.written(n, d.reg, d.off, d.off.add(cnt[k]))...)
				continue
			}
			out = append(out, n)
			continue
		}
		sh := d.off.sub(e.off)
		nw := nwin{ok: true, delta: w.delta.sub(sh)}
		lo, hi := w.lo.add(sh), w.hi.add(sh)
		// max(lo, d.off), min(hi, d.off+cnt)
		los, his := []lx{lo}, []lx{hi}
		end := d.off.add(cnt[k])
		if !n.le(d.off, lo) {
			los = []lx{d.off}
			if !n.le(lo, d.off) {
				los = []lx{lo, d.off}
			}
		}
		if !n.le(hi, end) {
			his = []lx{end}
			if !n.le(end, hi) {
				his = []lx{hi, end}
			}
		}
		for a, l := range los {
			for b, h := range his {
				m := n
				if len(los) > 1 || len(his) > 1 {
					var fs []lx
					if len(los) > 1 {
						if a == 0 {
							fs = append(fs, d.off.sub(lo))
						} else {
							fs = append(fs, lo.sub(d.off).plus(1))
						}
					}
					if len(his) > 1 {
						if b == 0 {
							fs = append(fs, hi.sub(end))
						} else {
							fs = append(fs, end.sub(hi).plus(1))
						}
					}
					m = x.with(n, fs...)
					if m == nil {
						continue
					}
				}
				v := nw
				v.lo, v.hi = l, h
				m = m.clone()
				m.wins[d.reg] = v
				out = append(out, m)
			}
		}
	}
	return out
}

func sortedKeys(m map[string]bool) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}
