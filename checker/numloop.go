package main

// Loops, summaries and entry points of the numeric interpretation.

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

func (x lx) subst(m map[int]lx) lx {
	out := lc(x.c)
	for _, t := range x.t {
		if e, ok := m[t.v]; ok {
			out = out.addk(e, t.a)
		} else {
			out = out.addk(lv(t.v), t.a)
		}
	}
	return out
}

func (x lx) uses(syms map[int]bool) bool {
	for _, t := range x.t {
		if syms[t.v] {
			return true
		}
	}
	return false
}

func sortedCells(m map[string]bool) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

// nslot is a symbol of a loop head and what it stands for.
type nslot struct {
	sym int
	get func(*nst) (lx, bool)
}

type nlooper struct {
	x     *nx
	fr    *nframe
	lp    *natLoop
	entry *nst
	loose map[string]int  // 1: offset, 2: region, 3: all
	cells map[string]bool // modified cells
	modR  bool
	modW  bool // window of the buffer
	noW   bool // contents of the buffer are not known
	stale map[int]bool
	slots []nslot
	cands []lx
	phis  []*ssa.Phi
	base  int
	limit int // symbols up to this one are from before the loop
	extra map[string]lx
}

type nget func(*nst) (nv, bool)

func (l *nlooper) slot(name string, get func(*nst) (lx, bool)) lx {
	s := l.x.sym(name)
	l.slots = append(l.slots, nslot{s.t[0].v, get})
	return s
}

// head makes the value of a place that the loop changes.
func (l *nlooper) head(s *nst, name string, v nv, t types.Type, get nget) nv {
	x := l.x
	num := func(part string, f func(nv) lx) lx {
		return l.slot(name+part, func(s *nst) (lx, bool) {
			w, ok := get(s)
			if !ok || w.k != v.k {
				return lx{}, false
			}
			return f(w), true
		})
	}
	if l.loose[name] == 3 {
		return x.fresh(s, t, name)
	}
	switch v.k {
	case 'i':
		r := num("", func(v nv) lx { return v.x })
		if b, ok := t.Underlying().(*types.Basic); ok {
			switch {
			case b.Info()&types.IsBoolean != 0:
				s.fact(r.scale(-1), r.plus(-1))
			case b.Kind() == types.Uint8:
				s.fact(r.scale(-1), r.plus(-255))
			case b.Info()&types.IsUnsigned != 0:
				s.fact(r.scale(-1))
			}
		}
		return nv{k: 'i', x: r}
	case 'e':
		n := num("", func(v nv) lx { return v.x })
		e := num(".eof", func(v nv) lx { return v.eof })
		s.fact(n.scale(-1), n.plus(-1), e.scale(-1), e.sub(n))
		return nv{k: 'e', x: n, eof: e, typ: v.typ}
	case 's':
		r := v
		if l.loose[name] >= 2 {
			x.nreg++
			r.reg = x.nreg
			r.off = lc(0)
		} else if l.loose[name] == 1 {
			r.off = num(".off", func(v nv) lx { return v.off })
		}
		r.ln = num(".len", func(v nv) lx { return v.ln })
		r.cp = num(".cap", func(v nv) lx { return v.cp })
		r.nn = num(".has", func(v nv) lx { return v.nn })
		s.fact(r.ln.scale(-1), r.ln.sub(r.cp), r.nn.scale(-1), r.nn.plus(-1))
		return r
	case 'u':
		r := v
		r.fs = nil
		st, _ := t.Underlying().(*types.Struct)
		for k := range v.fs {
			k := k
			ft := types.Type(types.Typ[types.Int])
			if st != nil {
				ft = st.Field(k).Type()
			}
			r.fs = append(r.fs, l.head(s, fmt.Sprintf("%s.%d", name, k), v.fs[k], ft, func(s *nst) (nv, bool) {
				w, ok := get(s)
				if !ok || w.k != 'u' || k >= len(w.fs) {
					return nv{}, false
				}
				return w.fs[k], true
			}))
		}
		return r
	case 'p', 'f', 'a', 'g':
		return v
	}
	return x.fresh(s, t, name)
}

// fits checks the parts of a value that have no symbols; it loosens the head
// and reports false if they differ.
func (l *nlooper) fits(name string, h, v nv) bool {
	if l.loose[name] == 3 {
		return true
	}
	if h.k != v.k {
		l.loose[name] = 3
		return false
	}
	switch h.k {
	case 's':
		if l.loose[name] < 2 && h.reg != v.reg {
			l.loose[name] = 2
			return false
		}
		if l.loose[name] >= 2 && !(len(v.off.t) == 0 && v.off.c == 0) {
			// a new region with an offset: it is counted from there
			return true
		}
		if l.loose[name] < 1 && h.off.key() != v.off.key() {
			l.loose[name] = 1
			return false
		}
	case 'u':
		ok := true
		for i := range h.fs {
			if !l.fits(fmt.Sprintf("%s.%d", name, i), h.fs[i], v.fs[i]) {
				ok = false
			}
		}
		return ok
	case 'p', 'f', 'a', 'g':
		if h.id() != v.id() {
			l.loose[name] = 3
			return false
		}
	}
	return true
}

func (x *nx) cellType(key string, v nv) types.Type {
	if strings.HasPrefix(key, "P.") {
		var i int
		if n, _ := fmt.Sscanf(key, "P.%d", &i); n == 1 {
			if st := x.ptyp.Underlying().(*types.Struct); i < st.NumFields() {
				return st.Field(i).Type()
			}
		}
	}
	if v.typ != nil {
		return v.typ
	}
	return types.Typ[types.Int]
}

func (x *nx) loop(fr *nframe, lp *natLoop, in []*nst) []nexit {
	var out []nexit
	seen := map[string]bool{}
	for _, s := range in {
		if k := x.sid(fr, lp, s); seen[k] {
			continue
		} else {
			seen[k] = true
		}
		out = append(out, x.loop1(fr, lp, s)...)
	}
	return out
}

// sid identifies a state.
func (x *nx) sid(fr *nframe, lp *natLoop, s *nst) string {
	var b strings.Builder
	for _, f := range s.f {
		b.WriteString(f.key() + ";")
	}
	var ks []string
	for k, v := range s.cells {
		ks = append(ks, k+"="+v.id())
	}
	for v, e := range s.env {
		ks = append(ks, v.Name()+"~"+e.id())
	}
	sort.Strings(ks)
	b.WriteString(strings.Join(ks, "|"))
	b.WriteString(s.R.key())
	return b.String()
}

func (x *nx) loop1(fr *nframe, lp *natLoop, s0 *nst) []nexit {
	l := &nlooper{x: x, fr: fr, lp: lp, entry: s0, loose: map[string]int{}, cells: map[string]bool{}, stale: map[int]bool{}}
	for _, ins := range lp.header.Instrs {
		p, ok := ins.(*ssa.Phi)
		if !ok {
			break
		}
		l.phis = append(l.phis, p)
	}
	l.base = x.nsyms
	for round := 0; ; round++ {
		if round > 60 {
			panic(tooMuch{"no summary of the loop at " + x.r.L.pos(lp.header.Instrs[0])})
		}
		h := l.build()
		x.quiet++
		again := false
		var keep []lx
		for n := 0; ; n++ {
			s := h.clone()
			s.fact(l.cands...)
			latch, _ := x.flow(fr, lp, lp.header, []*nst{s})
			if l.changes(h, latch) {
				again = true
				break
			}
			keep = nil
			for _, c := range l.cands {
				if l.holds(c, latch) {
					keep = append(keep, c)
				}
			}
			if len(keep) == len(l.cands) {
				again = l.findBounds(latch)
				break
			}
			l.cands = keep
			if n > 40 {
				panic(tooMuch{"no facts of the loop at " + x.r.L.pos(lp.header.Instrs[0])})
			}
		}
		x.quiet--
		if again {
			continue
		}
		if os.Getenv("NUMDBG") != "" && x.quiet == 0 {
			fmt.Fprintf(os.Stderr, "loop %s in %s:\n", x.r.L.pos(lp.header.Instrs[0]), fr.fn)
			for _, c := range l.cands {
				fmt.Fprintf(os.Stderr, "   %s <= 0\n", x.show(c))
			}
		}
		s := h.clone()
		s.fact(l.cands...)
		n := len(fr.rets)
		_ = n
		latch, exits := x.flow(fr, lp, lp.header, []*nst{s})
		if x.quiet == 0 {
			x.loopsN++
		}
		for _, t := range latch {
			x.progress(fr, lp, l, s, t)
		}
		return exits
	}
}

// build makes the state at the loop head.
func (l *nlooper) build() *nst {
	x := l.x
	l.slots = nil
	e := l.entry
	l.limit = x.nsyms
	h := e.clone()
	for _, p := range l.phis {
		p := p
		get := func(s *nst) (nv, bool) { v, ok := s.env[p]; return v, ok }
		h.env[p] = l.head(h, p.Name(), e.env[p], p.Type(), get)
	}
	ks := sortedCells(l.cells)
	oldReg := x.buf(e).reg
	for _, k := range ks {
		k := k
		v, ok := e.cells[k]
		if !ok || l.loose[k] == 3 && !strings.HasPrefix(k, "P.") {
			delete(h.cells, k)
			continue
		}
		h.cells[k] = l.head(h, k, v, x.cellType(k, v), func(s *nst) (nv, bool) { v, ok := s.cells[k]; return v, ok })
	}
	if l.modR {
		h.R = l.slot("received", func(s *nst) (lx, bool) { return s.R, true })
	}
	b := x.buf(h)
	if b.reg != oldReg {
		h.wins[oldReg] = nwin{}
		l.modW = true
	}
	for r := range l.stale {
		h.wins[r] = nwin{}
	}
	if l.modW && b.k == 's' {
		if l.noW {
			h.wins[b.reg] = nwin{}
		} else {
			win := func(f func(nwin, lx) lx) func(*nst) (lx, bool) {
				return func(s *nst) (lx, bool) {
					c := x.buf(s)
					w := s.wins[c.reg]
					if !w.ok {
						return lx{}, false
					}
					o := lc(0)
					if c.reg != b.reg {
						o = c.off
					}
					return f(w, o), true
				}
			}
			h.wins[b.reg] = nwin{ok: true,
				delta: l.slot("delta", win(func(w nwin, o lx) lx { return w.delta.add(o) })),
				lo:    l.slot("lo", win(func(w nwin, o lx) lx { return w.lo.sub(o) })),
				hi:    l.slot("hi", win(func(w nwin, o lx) lx { return w.hi.sub(o) })),
			}
		}
	}
	l.candidates(h)
	return h
}

// changes looks for places that a round of the loop changes and that the head
// does not account for.
func (l *nlooper) changes(h *nst, latch []*nst) bool {
	x := l.x
	ch := false
	noW := false
	hb := x.buf(h)
	for _, s := range latch {
		for _, p := range l.phis {
			if !l.fits(p.Name(), h.env[p], s.env[p]) {
				ch = true
			}
		}
		for k, v := range h.cells {
			w, ok := s.cells[k]
			if !ok {
				if !l.cells[k] || l.loose[k] != 3 {
					l.cells[k] = true
					l.loose[k] = 3
					ch = true
				}
				continue
			}
			if l.cells[k] {
				if !l.fits(k, v, w) {
					ch = true
				}
			} else if v.id() != w.id() {
				l.cells[k] = true
				ch = true
			}
		}
		if !l.modR && s.R.key() != h.R.key() {
			l.modR, ch = true, true
		}
		sb := x.buf(s)
		hw, sw := h.wins[hb.reg], s.wins[sb.reg]
		if hw.ok && hw.id() != sw.id() {
			if !sw.ok {
				noW = true
			} else if !l.modW {
				l.modW, ch = true, true
			}
		}
		for r, w := range h.wins {
			if r != hb.reg && r != sb.reg && w.ok && s.wins[r].id() != w.id() {
				l.stale[r] = true
				ch = true
			}
		}
	}
	if noW && !ch && !l.noW {
		l.modW, l.noW, ch = true, true, true
	}
	return ch
}

func (l *nlooper) substOf(s *nst) (map[int]lx, map[int]bool) {
	m := map[int]lx{}
	bad := map[int]bool{}
	for _, sl := range l.slots {
		if v, ok := sl.get(s); ok {
			m[sl.sym] = v
		} else {
			bad[sl.sym] = true
		}
	}
	return m, bad
}

func (l *nlooper) holds(c lx, latch []*nst) bool {
	for _, s := range latch {
		m, bad := l.substOf(s)
		if c.uses(bad) || !s.le(c.subst(m), lc(0)) {
			return false
		}
	}
	return true
}

// candidates guesses the facts at the loop head; those that do not hold on
// entry are dropped right away.
func (l *nlooper) candidates(h *nst) {
	x := l.x
	own := map[int]bool{}
	for _, s := range l.slots {
		own[s.sym] = true
	}
	m, bad := l.substOf(l.entry)
	seen := map[string]bool{}
	l.cands = nil
	add := func(c lx) {
		if !c.uses(own) || c.uses(bad) {
			return
		}
		k := c.norm().key()
		if seen[k] {
			return
		}
		seen[k] = true
		if l.entry.le(c.subst(m), lc(0)) {
			l.cands = append(l.cands, c.norm())
		}
	}
	both := func(a, b lx) { add(a.sub(b)); add(b.sub(a)) }
	// bounds that the loop does not change
	var inv []lx
	invSeen := map[string]bool{}
	addInv := func(e lx) {
		if e.uses(own) || invSeen[e.key()] {
			return
		}
		invSeen[e.key()] = true
		inv = append(inv, e)
	}
	addInv(lc(0))
	for _, e := range l.bounds(h) {
		addInv(e)
	}
	var nums []lx // symbols that are numbers
	var errs []nv
	var lens []nv
	var walk func(v nv)
	walk = func(v nv) {
		switch v.k {
		case 'i':
			if v.x.uses(own) {
				nums = append(nums, v.x)
			}
		case 's':
			if v.ln.uses(own) {
				nums = append(nums, v.ln)
			}
			lens = append(lens, v)
			if v.off.uses(own) {
				nums = append(nums, v.off)
			}
		case 'e':
			if v.x.uses(own) && isErrorType(v.typ) {
				errs = append(errs, v)
			}
		case 'u':
			for _, f := range v.fs {
				walk(f)
			}
		}
	}
	for _, p := range l.phis {
		walk(h.env[p])
	}
	for _, k := range sortedCells(l.cells) {
		if v, ok := h.cells[k]; ok && !strings.HasPrefix(k, "P.") {
			walk(v)
		}
	}
	la := h.last()
	add(la.x)
	add(la.x.sub(la.eof))
	for _, e := range errs {
		add(la.x.sub(e.x))
		add(la.x.sub(la.eof).sub(e.x))
		if x.fBuf >= 0 {
			add(x.tail(h).plus(1).sub(x.head(h)).sub(e.x))
			add(h.T0.plus(1).sub(x.pos(h)).sub(e.x))
			add(x.tail(h).sub(x.head(h)).plus(1).sub(e.eof))
		}
	}
	if x.fBuf >= 0 {
		t, hd, b := x.tail(h), x.head(h), x.buf(h)
		p := x.pos(h)
		add(t.scale(-1))
		add(t.sub(hd))
		add(t.plus(1).sub(hd))
		add(hd.sub(b.ln))
		add(hd.sub(h.R))
		both(b.cp, m1(b.cp, m))
		add(h.T0.sub(p))
		add(h.T0.plus(1).sub(p))
		add(x.pos(l.entry).sub(p))
		add(p.sub(x.pos(l.entry)))
		add(b.ln.scale(-1))
		add(lc(1).sub(b.nn))
		if in, e := h.cells[pcell(x.fIn)], h.cells[pcell(x.fEof)]; in.k == 'e' && e.k == 'i' {
			add(lc(1).sub(in.x).sub(e.x))
		}
		w := h.wins[b.reg]
		if w.ok {
			add(w.lo.sub(b.off.add(t)))
			add(b.off.add(hd).sub(w.hi))
			add(w.hi.sub(b.off.add(hd)))
			add(w.hi.sub(b.off.add(b.ln)))
			both(w.delta.add(b.off), h.R.sub(hd))
			for _, v := range lens {
				if v.reg == b.reg {
					add(w.lo.sub(v.off.add(v.ln)))
					add(w.lo.sub(v.off))
					add(v.off.add(v.ln).sub(w.hi))
				}
			}
		}
		for _, v := range nums {
			add(t.add(v).sub(hd))
			add(t.add(v).plus(1).sub(hd))
			add(v.sub(hd))
			add(v.sub(b.ln))
			if w.ok {
				add(w.lo.sub(b.off.add(v)))
				add(b.off.add(v).sub(w.hi))
			}
		}
		if w.ok {
			for _, o := range l.slices(h) {
				if o.reg != b.reg {
					continue
				}
				add(w.lo.sub(o.off))
				for _, v := range nums {
					add(w.lo.sub(o.off.add(v)))
					add(o.off.add(v).sub(w.hi))
				}
			}
		}
		nums = append(nums, t, hd)
	}
	if x.fBuf >= 0 {
		grow := append([]lx{h.R}, nums...)
		if w := h.wins[x.buf(h).reg]; w.ok {
			grow = append(grow, w.hi)
		}
		for i, v := range grow {
			for j, w := range grow {
				if i != j {
					add(v.sub(v.subst(m)).sub(w).add(w.subst(m)))
				}
			}
		}
	}
	for _, s := range l.slots {
		e, v := m[s.sym], lv(s.sym)
		if !bad[s.sym] {
			both(v, e)
		}
	}
	for i, v := range nums {
		for _, e := range inv {
			add(v.sub(e))
			add(e.sub(v))
			add(v.plus(1).sub(e))
		}
		for j, w := range nums {
			if i != j {
				add(v.sub(w))
				add(v.plus(1).sub(w))
				add(v.sub(v.subst(m)).sub(w).add(w.subst(m)))
			}
		}
	}
}

func m1(e lx, m map[int]lx) lx { return e.subst(m) }

// findBounds looks for operands of comparisons that the loop does not change.
func (l *nlooper) findBounds(latch []*nst) bool {
	n := len(l.extra)
	for b := range l.lp.blocks {
		for _, ins := range b.Instrs {
			i, ok := ins.(*ssa.BinOp)
			if !ok {
				continue
			}
			switch i.Op {
			case token.LSS, token.LEQ, token.GTR, token.GEQ, token.NEQ, token.EQL:
			default:
				continue
			}
			for _, s := range latch {
				for _, v := range []ssa.Value{i.X, i.Y} {
					w, ok := s.env[v]
					if !ok || w.k != 'i' || len(w.x.t) == 0 {
						continue
					}
					old := true
					for _, t := range w.x.t {
						if t.v > l.limit {
							old = false
						}
					}
					if old {
						if l.extra == nil {
							l.extra = map[string]lx{}
						}
						k := w.x.key()
						if _, has := l.extra[k]; !has && l.baseSyms(w.x) {
							l.extra[k] = w.x
						}
					}
				}
			}
		}
	}
	return len(l.extra) > n
}

// baseSyms: the symbols are from before the first attempt at the loop.
func (l *nlooper) baseSyms(e lx) bool {
	for _, t := range e.t {
		if t.v > l.base {
			return false
		}
	}
	return true
}

// slices are those that the loop looks into.
func (l *nlooper) slices(h *nst) (out []nv) {
	seen := map[ssa.Value]bool{}
	for b := range l.lp.blocks {
		for _, ins := range b.Instrs {
			var v ssa.Value
			switch i := ins.(type) {
			case *ssa.IndexAddr:
				v = i.X
			case *ssa.Slice:
				v = i.X
			}
			if v == nil || seen[v] {
				continue
			}
			seen[v] = true
			if s, ok := h.env[v]; ok && s.k == 's' {
				out = append(out, s)
			}
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].id() < out[j].id() })
	return
}

// bounds are values from outside of the loop that it compares with.
func (l *nlooper) bounds(h *nst) []lx {
	var out []lx
	val := func(v ssa.Value) {
		if c, ok := v.(*ssa.Const); ok {
			if c.Value != nil && c.Value.Kind() == constant.Int {
				if n, ok := constant.Int64Val(c.Value); ok && n < 1<<30 && n > -(1<<30) {
					out = append(out, lc(n))
				}
			}
			return
		}
		if ins, ok := v.(ssa.Instruction); ok && l.lp.blocks[ins.Block()] {
			// it is computed inside: len of something
			if c, ok := v.(*ssa.Call); ok {
				if b, ok := c.Call.Value.(*ssa.Builtin); ok && (b.Name() == "len" || b.Name() == "cap") {
					if s, ok := h.env[c.Call.Args[0]]; ok && s.k == 's' {
						out = append(out, s.ln)
						if b.Name() == "cap" {
							out = append(out, s.cp)
						}
					}
				}
			}
			return
		}
		if w, ok := h.env[v]; ok {
			if w.k == 'i' {
				out = append(out, w.x)
			}
		}
	}
	for b := range l.lp.blocks {
		for _, ins := range b.Instrs {
			switch i := ins.(type) {
			case *ssa.BinOp:
				switch i.Op {
				case token.LSS, token.LEQ, token.GTR, token.GEQ, token.NEQ, token.EQL:
					val(i.X)
					val(i.Y)
				}
			case *ssa.IndexAddr:
				if s, ok := h.env[i.X]; ok && s.k == 's' {
					out = append(out, s.ln)
				}
			}
		}
	}
	for _, e := range l.extra {
		out = append(out, e)
	}
	sort.Slice(out, func(i, j int) bool { return out[i].key() < out[j].key() })
	return out
}

// progress: a round of the loop gets closer to its end.
func (x *nx) progress(fr *nframe, lp *natLoop, l *nlooper, h, s *nst) {
	if x.quiet > 0 {
		return
	}
	where := x.r.L.pos(lp.header.Instrs[0])
	for _, ins := range lp.header.Instrs {
		where = x.r.L.pos(ins)
		if where != "" && !strings.HasPrefix(where, "-") {
			break
		}
	}
	what := "every round of the loop in " + shortFn(fr.fn) + " gets closer to its end"
	ok := false
	switch {
	case s.dead || !x.feasible(s):
		ok = true
	case s.cbs > h.cbs, s.reads > h.reads:
		ok = true
	}
	for b := range lp.blocks {
		for _, ins := range b.Instrs {
			if _, is := ins.(*ssa.Next); is {
				ok = true
			}
		}
	}
	if !ok && x.fBuf >= 0 && s.le(x.pos(h).plus(1), x.pos(s)) {
		ok = true
	}
	if !ok && x.fBuf >= 0 {
		// nothing more was received: something moves to the end of what is there
		same := x.with(s, s.R.sub(h.R))
		if same == nil || same.le(x.pos(h).plus(1), x.pos(same)) {
			ok = true
		} else {
			for _, sl := range l.slots {
				v, has := sl.get(same)
				if !has {
					continue
				}
				m0 := x.head(h).sub(x.tail(h)).sub(lv(sl.sym))
				m1 := x.head(same).sub(x.tail(same)).sub(v)
				if same.le(m1.plus(1), m0) && same.le(lc(0), m1) {
					ok = true
				}
			}
		}
	}
	if !ok {
		own := map[int]bool{}
		for _, sl := range l.slots {
			own[sl.sym] = true
		}
		var inv []lx
		for _, e := range l.bounds(h) {
			if !e.uses(own) {
				inv = append(inv, e)
			}
		}
		inv = append(inv, lc(0))
		for _, sl := range l.slots {
			v, has := sl.get(s)
			if !has {
				continue
			}
			old := lv(sl.sym)
			if s.le(old.plus(1), v) {
				for _, e := range inv {
					if s.le(v, e) {
						ok = true
					}
				}
			}
			if s.le(v.plus(1), old) {
				for _, e := range inv {
					if s.le(e, v) {
						ok = true
					}
				}
			}
		}
	}
	x.ob("progress", what, where, ok, "a round neither consumes nor reads nor counts towards a bound")
}

func shortFn(fn *ssa.Function) string {
	n := fn.Name()
	if fn.Parent() != nil {
		n = fn.Parent().Name() + "'s function"
	}
	return n
}

// ---------------------------------------------------------------- summaries

func (x *nx) inScc(fn *ssa.Function) bool { return x.scc[fn] > 0 }

func (x *nx) summaryOf(fn *ssa.Function) *nsum { return x.sums[fn] }

// findScc marks the functions that can call themselves.
func (x *nx) findScc(fns []*ssa.Function) {
	x.scc = map[*ssa.Function]int{}
	reach := map[*ssa.Function]map[*ssa.Function]bool{}
	callees := func(fn *ssa.Function) (out []*ssa.Function) {
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				if c, ok := ins.(ssa.CallInstruction); ok {
					if f := c.Common().StaticCallee(); f != nil && x.ownPkg(f) {
						out = append(out, f)
					}
				}
				if m, ok := ins.(*ssa.MakeClosure); ok {
					out = append(out, m.Fn.(*ssa.Function))
				}
			}
		}
		return
	}
	for _, fn := range fns {
		seen := map[*ssa.Function]bool{}
		var dfs func(f *ssa.Function)
		dfs = func(f *ssa.Function) {
			for _, c := range callees(f) {
				if !seen[c] {
					seen[c] = true
					dfs(c)
				}
			}
		}
		dfs(fn)
		reach[fn] = seen
	}
	n := 0
	for _, fn := range fns {
		if !reach[fn][fn] || x.scc[fn] > 0 {
			continue
		}
		n++
		for _, g := range fns {
			if g == fn || reach[fn][g] && reach[g][fn] {
				x.scc[g] = n
			}
		}
	}
}

// recursive notes how a call inside of a recursion changes its parameters.
func (x *nx) recursive(fr *nframe, s *nst, i *ssa.Call, fn *ssa.Function, args []nv) {
	from := fr.fn
	if x.scc[from] != x.scc[fn] || x.quiet > 0 {
		return
	}
	c := ncall{from: from, to: fn, where: x.r.L.pos(i), ge: map[[2]int]bool{}, gt: map[[2]int]bool{}, bounds: map[[2]int]bool{}, bnd: map[int]int64{}}
	for b := range fn.Params {
		if args[b].k != 'i' || !exactInt(fn.Params[b].Type()) {
			continue
		}
		for a, p := range from.Params {
			v, ok := s.env[p]
			if !ok || v.k != 'i' || !exactInt(p.Type()) {
				continue
			}
			c.ge[[2]int{a, b}] = s.le(v.x, args[b].x)
			c.gt[[2]int{a, b}] = s.le(v.x.plus(1), args[b].x)
			// counting down to a constant
			c.ge[[2]int{-1 - a, -1 - b}] = s.le(args[b].x, v.x)
			c.gt[[2]int{-1 - a, -1 - b}] = s.le(args[b].x.plus(1), v.x)
		}
		if s.le(args[b].x, lc(100000)) {
			c.bnd[b] = 1
		}
		if s.le(lc(-100000), args[b].x) {
			c.bnd[-1-b] = 1
		}
	}
	x.calls = append(x.calls, c)
}

func (x *nx) checkRecursion() {
	groups := map[int][]*ssa.Function{}
	for f, n := range x.scc {
		groups[n] = append(groups[n], f)
	}
	for _, fs := range groups {
		sort.Slice(fs, func(i, j int) bool { return fs[i].String() < fs[j].String() })
		var calls []ncall
		in := map[*ssa.Function]bool{}
		for _, f := range fs {
			in[f] = true
		}
		for _, c := range x.calls {
			if in[c.from] {
				calls = append(calls, c)
			}
		}
		// choose a parameter of each function
		pick := map[*ssa.Function]int{}
		why := ""
		var try func(n int, down bool) bool
		test := func() bool {
			// every cycle has a call that counts and one that is bounded
			still := map[*ssa.Function][]*ssa.Function{}
			free := map[*ssa.Function][]*ssa.Function{}
			for _, c := range calls {
				k := [2]int{pick[c.from], pick[c.to]}
				if !c.ge[k] {
					why = "the depth is not kept at " + c.where
					return false
				}
				if !c.gt[k] {
					still[c.from] = append(still[c.from], c.to)
				}
				if c.bnd[pick[c.to]] == 0 {
					free[c.from] = append(free[c.from], c.to)
				}
			}
			for _, next := range []map[*ssa.Function][]*ssa.Function{still, free} {
				state := map[*ssa.Function]int{}
				var cyc func(f *ssa.Function) bool
				cyc = func(f *ssa.Function) bool {
					switch state[f] {
					case 1:
						return true
					case 2:
						return false
					}
					state[f] = 1
					for _, g := range next[f] {
						if cyc(g) {
							return true
						}
					}
					state[f] = 2
					return false
				}
				for _, f := range fs {
					if cyc(f) {
						why = "a cycle of calls does not count towards a constant bound"
						return false
					}
				}
			}
			return true
		}
		try = func(n int, down bool) bool {
			if n == len(fs) {
				return test()
			}
			any := false
			for i, p := range fs[n].Params {
				if exactInt(p.Type()) {
					any = true
					pick[fs[n]] = i
					if down {
						pick[fs[n]] = -1 - i
					}
					if try(n+1, down) {
						return true
					}
				}
			}
			if !any {
				why = fs[n].Name() + " has no parameter that counts"
			}
			return false
		}
		ok := try(0, false) || try(0, true)
		var ns []string
		for _, f := range fs {
			ns = append(ns, f.Name())
		}
		x.ob("recursion", "the depth of the recursion of "+strings.Join(ns, ", ")+" is bounded by a constant", x.r.L.fnPos(fs[0]), ok, "%s", why)
	}
}

// ---------------------------------------------------------------- entry points

func (x *nx) roles(p *ssa.Package) error {
	var tn *types.TypeName
	for _, n := range p.Pkg.Scope().Names() {
		t, ok := p.Pkg.Scope().Lookup(n).(*types.TypeName)
		if !ok {
			continue
		}
		st, ok := t.Type().Underlying().(*types.Struct)
		if !ok {
			continue
		}
		for i := 0; i < st.NumFields(); i++ {
			if st.Field(i).Type().String() == "io.Reader" {
				tn = t
			}
		}
	}
	if tn == nil {
		return fmt.Errorf("no parser with a reader")
	}
	x.ptyp = tn.Type()
	st := x.ptyp.Underlying().(*types.Struct)
	x.fBuf, x.fIn, x.fEof, x.fTail, x.fHead = -1, -1, -1, -1, -1
	var ints []int
	for i := 0; i < st.NumFields(); i++ {
		t := st.Field(i).Type()
		switch {
		case isByteSlice(t) && x.fBuf < 0:
			x.fBuf = i
		case t.String() == "io.Reader":
			x.fIn = i
		case types.Identical(t, types.Typ[types.Bool]):
			x.fEof = i
		case types.Identical(t, types.Typ[types.Int]):
			ints = append(ints, i)
		}
	}
	if x.fBuf < 0 || x.fEof < 0 || len(ints) < 2 {
		return fmt.Errorf("the parser has no buffer with two positions and an end mark")
	}
	// the end of the unread bytes is the length of the bytes it starts with
	for _, m := range p.Members {
		fn, ok := m.(*ssa.Function)
		if !ok {
			continue
		}
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				s, ok := ins.(*ssa.Store)
				if !ok {
					continue
				}
				fa, ok := s.Addr.(*ssa.FieldAddr)
				if !ok || !types.Identical(derefType(fa.X.Type()), x.ptyp) {
					continue
				}
				if c, ok := s.Val.(*ssa.Call); ok {
					if bi, ok := c.Call.Value.(*ssa.Builtin); ok && bi.Name() == "len" {
						x.fHead = fa.Field
					}
				}
			}
		}
	}
	if x.fHead < 0 {
		return fmt.Errorf("no constructor for bytes")
	}
	// the start is the position the other one is compared with
	for _, i := range ints {
		if i != x.fHead && x.fTail < 0 {
			x.fTail = i
		}
	}
	if x.fTail < 0 {
		return fmt.Errorf("no start of the unread bytes")
	}
	return nil
}

type nentry struct {
	fn   *ssa.Function
	kind byte // m method, d decoder, c constructor, r recursive
}

func (x *nx) entries(p *ssa.Package) (out []nentry) {
	var fns []*ssa.Function
	for _, fn := range x.r.L.Fns {
		if fn.Blocks == nil || fn.Synthetic != "" {
			continue
		}
		fns = append(fns, fn)
	}
	sort.Slice(fns, func(i, j int) bool {
		a, b := x.r.L.fnPos(fns[i]), x.r.L.fnPos(fns[j])
		if a != b {
			return a < b
		}
		return fns[i].String() < fns[j].String()
	})
	var own []*ssa.Function
	for _, fn := range fns {
		if x.ownPkg(fn) {
			own = append(own, fn)
		}
	}
	x.findScc(own)
	for _, fn := range fns {
		sig := fn.Signature
		switch {
		case x.ownPkg(fn) && sig.Recv() != nil && x.isParser(sig.Recv().Type()):
			if x.inScc(fn) {
				out = append(out, nentry{fn, 'r'})
			} else if token.IsExported(fn.Name()) && !x.isRefill(fn) {
				out = append(out, nentry{fn, 'm'})
			} else if x.helper(fn) {
				out = append(out, nentry{fn, 'h'})
			}
		case x.ownPkg(fn) && x.inScc(fn):
			out = append(out, nentry{fn, 'r'})
		case x.isDecoderSig(sig):
			out = append(out, nentry{fn, 'd'})
		case x.ownPkg(fn) && fn.Parent() == nil && sig.Recv() == nil && sig.Results().Len() > 0 && x.isParser(sig.Results().At(0).Type()):
			out = append(out, nentry{fn, 'c'})
		}
	}
	return
}

// helper: the function loops and its effects are those that summaries can
// tell.
func (x *nx) helper(fn *ssa.Function) bool {
	if x.isRefill(fn) || fn.Parent() != nil {
		return false
	}
	sig := fn.Signature
	for i := 0; i < sig.Params().Len(); i++ {
		if b, ok := sig.Params().At(i).Type().Underlying().(*types.Basic); ok && (b.Info()&types.IsString != 0 || b.Info()&types.IsInteger != 0 && b.Kind() != types.Uint8) || isSliceTyp(sig.Params().At(i).Type()) {
			return false
		}
	}
	n := sig.Results().Len()
	if n == 0 || !isErrorType(sig.Results().At(n-1).Type()) {
		return false
	}
	for i := 0; i < n-1; i++ {
		switch u := sig.Results().At(i).Type().Underlying().(type) {
		case *types.Struct:
		case *types.Basic:
			if u.Kind() != types.Uint8 {
				return false
			}
		default:
			return false
		}
	}
	seen := map[*ssa.Function]bool{}
	var loops func(f *ssa.Function) bool
	loops = func(f *ssa.Function) bool {
		if seen[f] || f.Blocks == nil {
			return false
		}
		seen[f] = true
		if len(x.eng.info(f).loops) > 0 {
			return true
		}
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				if c, ok := ins.(ssa.CallInstruction); ok {
					if g := c.Common().StaticCallee(); g != nil && x.ownPkg(g) && loops(g) {
						return true
					}
				}
			}
		}
		return false
	}
	return loops(fn)
}

// visit runs an entry point and checks what it leaves behind.
func (x *nx) visit(en nentry) {
	fn := en.fn
	if os.Getenv("NUMDBG") != "" {
		t0 := time.Now()
		defer func() {
			fmt.Fprintf(os.Stderr, "visit %s: %v, %d blocks\n", fn, time.Since(t0), x.work)
		}()
	}
	st := &nst{env: map[ssa.Value]nv{}, cells: map[string]nv{}, wins: map[int]nwin{}}
	if en.kind == 'c' {
		x.constructor(st, fn)
		return
	}
	x.invariant(st)
	st.T0 = x.pos(st)
	sm := x.sums[fn]
	if sm != nil && sm.pre1 {
		st.fact(x.tail(st).plus(1).sub(x.head(st)))
	}
	var args []nv
	for _, p := range fn.Params {
		args = append(args, x.fresh(st, p.Type(), p.Name()))
	}
	p0 := x.pos(st)
	for _, rt := range x.run(fn, args, nil, st) {
		if !x.feasible(rt.st) {
			continue
		}
		where := x.r.L.pos(rt.at)
		e := nv{}
		if n := len(rt.v); n > 0 && rt.v[n-1].k == 'e' && isErrorType(fn.Signature.Results().At(n-1).Type()) {
			e = rt.v[n-1]
		}
		good := rt.st
		if e.k == 'e' {
			if bad := x.with(rt.st, lc(1).sub(e.x)); bad != nil {
				back := bad.le(p0, x.pos(bad))
				if !back && sm != nil && sm.post0 {
					sm.post0, x.changed = false, true
				}
				x.ob("forward", shortFn(fn)+" does not go back", where, back, "from %s to %s", x.show(p0), x.show(x.pos(bad)))
				x.checkBounds(bad, where)
				x.lost(bad, where)
			}
			good = x.with(rt.st, e.x)
		}
		if good == nil {
			continue
		}
		x.checkInv(good, where)
		x.lost(good, where)
		x.failedRead(good, where)
		moved := good.le(p0.plus(1), x.pos(good))
		kept := good.le(p0, x.pos(good))
		avail := good.le(x.tail(good).plus(1), x.head(good))
		if sm != nil {
			set := func(b *bool, v bool) {
				if *b && !v {
					*b = false
					x.changed = true
				}
			}
			set(&sm.post1, moved)
			set(&sm.post0, kept)
			set(&sm.postAvail, avail)
		}
		x.ob("forward", shortFn(fn)+" does not go back", where, kept, "from %s to %s", x.show(p0), x.show(x.pos(good)))
		if en.kind == 'd' {
			x.ob("consume", shortFn(fn)+" consumes what it decodes", where, moved, "from %s to %s", x.show(p0), x.show(x.pos(good)))
		}
	}
}

// failedRead: it does not go on after the reader failed.
func (x *nx) failedRead(s *nst, where string) {
	if x.quiet > 0 {
		return
	}
	l := s.last()
	x.ob("failed read", "a failed read is reported", where, s.le(l.x, l.eof), "the parser goes on")
}

// lost: what was received is in the buffer or was consumed.
func (x *nx) lost(s *nst, where string) {
	if x.quiet > 0 {
		return
	}
	b := x.buf(s)
	w := s.wins[b.reg]
	ok := s.le(s.R, w.delta.add(b.off).add(x.head(s)))
	if !w.ok {
		ok = s.le(x.head(s), x.tail(s)) && false
	}
	if !ok { // a failed read
		l := s.last()
		ok = s.le(lc(1), l.x) && s.le(l.eof, lc(0))
	}
	x.ob("lost", "no received byte is dropped", where, ok, "received %s, in the buffer up to %s", x.show(s.R), x.show(w.delta.add(b.off).add(x.head(s))))
}

func (x *nx) constructor(st *nst, fn *ssa.Function) {
	stt := x.ptyp.Underlying().(*types.Struct)
	for i := 0; i < stt.NumFields(); i++ {
		st.cells[pcell(i)] = x.zero(stt.Field(i).Type())
	}
	var args []nv
	var buf, in *nv
	for _, p := range fn.Params {
		v := x.fresh(st, p.Type(), p.Name())
		if p.Type().String() == "io.Reader" {
			v.x, v.eof = lc(1), lc(0)
		}
		args = append(args, v)
		v2 := v
		switch {
		case isByteSlice(p.Type()):
			buf = &v2
		case p.Type().String() == "io.Reader":
			in = &v2
		}
	}
	for _, rt := range x.run(fn, args, nil, st) {
		s, where := rt.st, x.r.L.pos(rt.at)
		t, h, b := x.tail(s), x.head(s), x.buf(s)
		e := s.cells[pcell(x.fEof)]
		if in != nil {
			src := s.cells[pcell(x.fIn)]
			x.ob("start", "a parser of a reader starts empty and reads from it", where, s.eq(t, h) && s.le(lc(0), t) && s.le(h, b.ln) && e.k == 'i' && s.le(e.x, lc(0)) && src.id() == in.id(), "start %s, end %s", x.show(t), x.show(h))
		} else if buf != nil {
			x.ob("start", "a parser of bytes has all of them and is at the end of the input", where, s.eq(t, lc(0)) && s.eq(h, buf.ln) && b.reg == buf.reg && s.eq(b.off, lc(0)) && s.le(h, b.ln) && e.k == 'i' && s.le(lc(1), e.x), "start %s, end %s of %s", x.show(t), x.show(h), x.show(buf.ln))
		}
	}
}

// parserNumbers runs the analysis and returns its obligations.
func (r *Report) parserNumbers() (*nx, error) {
	p := r.L.pkg("codec/hyperjson")
	if p == nil {
		return nil, fmt.Errorf("no package of the parser")
	}
	x := &nx{r: r, eng: NewEngine(r.L), names: map[int]string{}, sums: map[*ssa.Function]*nsum{}, obs: map[string]*nob{}, funcs: map[*ssa.Function]bool{}}
	if err := x.roles(p); err != nil {
		return nil, err
	}
	ens := x.entries(p)
	for _, en := range ens {
		if en.kind == 'm' || en.kind == 'r' || en.kind == 'h' {
			x.sums[en.fn] = &nsum{fn: en.fn, pre1: en.kind != 'm', post1: true, post0: true, postAvail: true}
		}
	}
	x.quiet++
	for n := 0; ; n++ {
		x.changed = false
		for _, en := range ens {
			if x.sums[en.fn] != nil {
				x.work = 0
				x.visit(en)
			}
		}
		// callers decide what holds before a recursive function
		for _, en := range ens {
			if en.kind == 'd' {
				x.work = 0
				x.visit(en)
			}
		}
		if !x.changed {
			break
		}
		if n > 20 {
			return nil, fmt.Errorf("no summaries of the functions of the parser")
		}
	}
	x.quiet--
	for _, en := range ens {
		x.work = 0
		x.visit(en)
	}
	x.checkRecursion()
	return x, nil
}
