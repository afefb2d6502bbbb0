package main

// Equality of gated values: two diagrams are the same value if on every
// joint path of their gates the leaves are equal, or are equal under the
// equations the path has established.

import (
	"math/big"
	"os"
)

type eqPath struct {
	conds []*Node
	str   map[*Term]*Term // x == constant
	eqs   map[*Term]*Term // x == y
	lin   []*Lin          // == 0
	les   []*Lin          // <= 0
	nes   []*Lin          // != 0
	nils  map[*Term]bool
}

func (p *eqPath) clone() *eqPath {
	q := &eqPath{conds: append([]*Node{}, p.conds...), str: map[*Term]*Term{}, eqs: map[*Term]*Term{}, lin: append([]*Lin{}, p.lin...), les: append([]*Lin{}, p.les...), nes: append([]*Lin{}, p.nes...), nils: map[*Term]bool{}}
	for k, v := range p.str {
		q.str[k] = v
	}
	for k, v := range p.eqs {
		q.eqs[k] = v
	}
	for k := range p.nils {
		q.nils[k] = true
	}
	return q
}

func (p *eqPath) assume(a *Term, v bool) *eqPath {
	q := p.clone()
	n := atomNode(a)
	if !v {
		n = not(n)
	}
	q.conds = append(q.conds, n)
	if a.op == "le0" && a.args[0].leaf != nil {
		l := linOf(a.args[0].leaf)
		if !v {
			l = linAdd(&Lin{k: big.NewInt(1)}, l, -1)
		}
		for _, m := range q.les {
			// l <= 0 and -l <= 0
			if s := linAdd(l, m, 1); s.k.Sign() == 0 && linZero(s) {
				q.lin = append(q.lin, l)
				break
			}
		}
		q.les = append(q.les, l)
	}
	if a.op == "eqc" {
		// the length of a text
		if c, ok := a.obj.(*Term); ok && a.args[0].leaf != nil {
			if str, ok := c.obj.(string); ok && (v || str == "") {
				if n := lenOf(a.args[0]).leaf; n != nil {
					l := linOf(n)
					if v {
						q.lin = append(q.lin, linAdd(l, &Lin{k: big.NewInt(int64(len(str)))}, -1))
					} else {
						q.les = append(q.les, linAdd(&Lin{k: big.NewInt(1)}, l, -1))
					}
				}
			}
		}
	}
	if !v {
		if a.op == "eq0" && a.args[0].leaf != nil {
			q.nes = append(q.nes, linOf(a.args[0].leaf))
		}
		return q
	}
	switch a.op {
	case "eqc":
		if c, ok := a.obj.(*Term); ok && a.args[0].leaf != nil {
			q.str[a.args[0].leaf] = c
		}
	case "eq":
		if x, y := a.args[0].leaf, a.args[1].leaf; x != nil && y != nil {
			q.eqs[x] = y
		}
	case "eq0":
		if l := a.args[0].leaf; l != nil {
			q.lin = append(q.lin, linOf(l))
		}
	case "isnil":
		if l := a.args[0].leaf; l != nil {
			q.nils[l] = true
		}
	}
	return q
}

func (p *eqPath) canon(t *Term) *Term {
	for i := 0; i < 4; i++ {
		if c, ok := p.str[t]; ok {
			return c
		}
		if p.nils[t] {
			return T.Nil.leaf
		}
		y, ok := p.eqs[t]
		if !ok {
			return t
		}
		t = y
	}
	return t
}

func (p *eqPath) leafSame(x, y *Term) bool {
	if x == y {
		return true
	}
	x, y = p.canon(x), p.canon(y)
	if x == y {
		return true
	}
	if isIntTerm(x) && isIntTerm(y) && len(p.lin) > 0 {
		d := linAdd(linOf(x), linOf(y), -1)
		if s := substAll(d, p.lin); len(s.ts) == 0 && s.k.Sign() == 0 {
			return true
		}
		d = p.dropZero(d)
		for _, l := range p.lin {
			if multiple(d, l) {
				return true
			}
		}
	}
	if x.op == y.op && x.aux == y.aux && len(x.args) == len(y.args) && len(x.args) > 0 && (x.op == "struct" || x.op == "array" || x.op == "mkiface") {
		for i := range x.args {
			if sameIn(p, T.True, x.args[i], y.args[i]) != nil {
				return false
			}
		}
		return true
	}
	return false
}

// dropZero removes terms that the path says are zero.
func (p *eqPath) dropZero(d *Lin) *Lin {
	zero := func(t *Term) bool {
		for _, l := range p.lin {
			if len(l.ts) == 1 && l.k.Sign() == 0 {
				if l.ts[0] == t || t.op == "conv" && t.args[0].leaf == l.ts[0] {
					return true
				}
			}
		}
		return false
	}
	n := &Lin{k: d.k}
	for i, t := range d.ts {
		if d.cs[i].Sign() != 0 && !zero(t) {
			n.ts, n.cs = append(n.ts, t), append(n.cs, d.cs[i])
		}
	}
	return n
}

func linZero(l *Lin) bool {
	for _, c := range l.cs {
		if c.Sign() != 0 {
			return false
		}
	}
	return true
}

// multiple: d is a multiple of l.
func multiple(d, l *Lin) bool {
	if len(d.ts) == 0 {
		return d.k.Sign() == 0
	}
	if len(d.ts) != len(l.ts) {
		return false
	}
	for i := range d.ts {
		if d.ts[i] != l.ts[i] {
			return false
		}
	}
	// d = f * l for a rational f
	f, g := d.cs[0], l.cs[0]
	same := func(a, b *big.Int) bool {
		return new(big.Int).Mul(a, g).Cmp(new(big.Int).Mul(b, f)) == 0
	}
	for i := range d.ts {
		if !same(d.cs[i], l.cs[i]) {
			return false
		}
	}
	return same(d.k, l.k)
}

func sameIn(p *eqPath, cond, a, b *Node) *eqPath {
	type key struct {
		c, a, b *Node
	}
	var rec func(p *eqPath, c, a, b *Node) *eqPath
	okMemo := map[key]bool{}
	budget := 300000
	rec = func(p *eqPath, c, a, b *Node) *eqPath {
		if c == T.False || a == b {
			return nil
		}
		if budget--; budget < 0 {
			return p // undecided counts as different
		}
		k := key{c, a, b}
		if okMemo[k] {
			return nil
		}
		at := topAtom(c, a, b)
		if at == nil {
			if p.leafSame(a.leaf, b.leaf) || p.infeasible() {
				return nil // depends on the path: not remembered
			}
			if x, y := a.leaf, b.leaf; x != nil && y != nil && x.op == y.op && x.aux == y.aux && len(x.args) == len(y.args) &&
				(x.op == "struct" || x.op == "array" || x.op == "tuple") {
				// part by part
				path := ands(p.conds...)
				for i := range x.args {
					if bad := rec(p, c, restrict(x.args[i], path), restrict(y.args[i], path)); bad != nil {
						return bad
					}
				}
				return nil
			}
			if dbgSame {
				println("DIFF", a.leaf.String(), "|", b.leaf.String(), len(p.lin))
				for _, c := range p.conds {
					println("   ", c.String())
				}
			}
			return p
		}
		for _, v := range []bool{true, false} {
			if bad := rec(p.assume(at, v), assign(c, at, v), assign(a, at, v), assign(b, at, v)); bad != nil {
				return bad
			}
		}
		if len(p.str)+len(p.eqs)+len(p.lin)+len(p.nils) == 0 {
			okMemo[k] = true
		}
		return nil
	}
	return rec(p, cond, a, b)
}

// sameUnder compares two values where cond holds; it returns a condition
// under which they differ, or nil.
func sameUnder(cond, a, b *Node) *Node {
	if a == nil || b == nil {
		return T.True
	}
	p := sameIn((&eqPath{}).clone(), cond, a, b)
	if p == nil {
		return nil
	}
	return ands(p.conds...)
}

var dbgSame = os.Getenv("DBGSAME") != ""

// substAll uses the equations (== 0) with a unit coefficient to eliminate
// terms from d.
func substAll(d *Lin, eqs []*Lin) *Lin {
	done := []*Lin{}
	for _, l := range eqs {
		for _, q := range done {
			l = elim(l, q)
		}
		if pivot(l) < 0 {
			continue
		}
		for i := range done {
			done[i] = elim(done[i], l)
		}
		done = append(done, l)
	}
	for _, l := range done {
		d = elim(d, l)
	}
	n := &Lin{k: d.k}
	for i, t := range d.ts {
		if d.cs[i].Sign() != 0 {
			n.ts, n.cs = append(n.ts, t), append(n.cs, d.cs[i])
		}
	}
	return n
}

// pivot: index of the last term with the coefficient 1 or -1.
func pivot(l *Lin) int {
	for i := len(l.ts) - 1; i >= 0; i-- {
		if l.cs[i].IsInt64() && (l.cs[i].Int64() == 1 || l.cs[i].Int64() == -1) {
			return i
		}
	}
	return -1
}

func elim(d, l *Lin) *Lin {
	i := pivot(l)
	if i < 0 {
		return d
	}
	for j, t := range d.ts {
		if t == l.ts[i] && d.cs[j].Sign() != 0 {
			f := new(big.Int).Mul(d.cs[j], l.cs[i]) // l.cs[i] is 1 or -1
			return linAdd(d, linScale(l, f), -1)
		}
	}
	return d
}

// infeasible: the linear conditions of the path contradict each other once
// its equations are used.
func (p *eqPath) infeasible() bool {
	if len(p.les)+len(p.lin)+len(p.nes) >= 2 {
		les := append([]*Lin{}, p.les...)
		seen := map[*Term]bool{}
		for _, ls := range [][]*Lin{p.les, p.lin, p.nes} {
			for _, l := range ls {
				for _, t := range l.ts {
					if !seen[t] && nonNeg(t) {
						les = append(les, linScale(linOf(t), big.NewInt(-1)))
					}
					seen[t] = true
				}
			}
		}
		if unsolvable(les, p.lin) {
			return true
		}
		one := &Lin{k: big.NewInt(1)}
		for _, l := range p.nes {
			if unsolvable(append(append([]*Lin{}, les...), linAdd(l, one, 1)), p.lin) &&
				unsolvable(append(append([]*Lin{}, les...), linAdd(one, l, -1)), p.lin) {
				return true
			}
		}
	}
	zero := map[*Term]bool{} // a sum of terms that are never negative is zero
	for i, l := range append(append([]*Lin{}, p.lin...), p.les...) {
		all := l.k.Sign() == 0 && len(l.ts) > 0
		if i >= len(p.lin) {
			all = all && l.cs[0].Sign() > 0
		}
		for i, t := range l.ts {
			all = all && nonNeg(t) && l.cs[i].Sign() == l.cs[0].Sign()
		}
		for _, t := range l.ts {
			if all {
				zero[t] = true
			}
		}
	}
	drop := func(l *Lin) *Lin {
		n := &Lin{k: l.k}
		for i, t := range l.ts {
			if !zero[t] {
				n.ts, n.cs = append(n.ts, t), append(n.cs, l.cs[i])
			}
		}
		return n
	}
	all := T.True
	for _, c := range p.conds {
		a := topAtom(c)
		if a == nil || a.op != "le0" && a.op != "eq0" {
			continue
		}
		l := a.args[0].leaf
		if l == nil {
			continue
		}
		s := linNode(substAll(drop(linOf(l)), p.lin))
		var n *Node
		if a.op == "le0" {
			n = apply1(s, le0T)
		} else {
			n = apply1(s, eq0T)
		}
		if c != atomNode(a) {
			n = not(n)
		}
		if all = and(all, n); all == T.False {
			return true
		}
	}
	return false
}

// deepRestrict simplifies a value, and the values inside of its terms, for
// the case that c holds.
func deepRestrict(n, c *Node) *Node {
	memoN := map[*Node]*Node{}
	memoT := map[*Term]*Node{}
	var vn func(n *Node) *Node
	var vt func(t *Term) *Node
	vt = func(t *Term) *Node {
		if r, ok := memoT[t]; ok {
			return r
		}
		memoT[t] = symNode2(t)
		var r *Node
		if t.op == "lin" {
			r = bigConst(t.lin.k)
			for i, x := range t.lin.ts {
				k := t.lin.cs[i]
				r = add(r, apply1(vt(x), func(y *Term) *Node { return linNode(linScale(linOf(y), k)) }))
			}
		} else {
			args := make([]*Node, len(t.args))
			same := true
			for i, a := range t.args {
				if a == nil {
					continue
				}
				args[i] = vn(a)
				same = same && args[i] == a
			}
			if same {
				r = symNode2(t)
			} else {
				r = rebuild(t, args)
			}
		}
		memoT[t] = r
		return r
	}
	vn = func(n *Node) *Node {
		if r, ok := memoN[n]; ok {
			return r
		}
		memoN[n] = n
		m := restrict(n, c)
		var r *Node
		if m.atom == nil {
			r = vt(m.leaf)
		} else {
			r = muxVal(toBool(vt(m.atom)), vn(m.hi), vn(m.lo))
		}
		memoN[n] = r
		return r
	}
	return vn(n)
}

// unsolvable: the inequalities (<= 0) and equations (== 0) have no rational
// solution, shown by eliminating one term after the other.
func unsolvable(les, eqs []*Lin) bool {
	var cur []*Lin
	clean := func(l *Lin) *Lin {
		n := &Lin{k: l.k}
		for i, t := range l.ts {
			if l.cs[i].Sign() != 0 {
				n.ts, n.cs = append(n.ts, t), append(n.cs, l.cs[i])
			}
		}
		return n
	}
	for _, l := range les {
		cur = append(cur, clean(l))
	}
	for _, l := range eqs {
		cur = append(cur, clean(l), clean(linScale(l, big.NewInt(-1))))
	}
	coef := func(l *Lin, t *Term) *big.Int {
		for i := range l.ts {
			if l.ts[i] == t {
				return l.cs[i]
			}
		}
		return nil
	}
	for round := 0; round < 40; round++ {
		// choose the term with the fewest combinations
		count := map[*Term][2]int{}
		var order []*Term
		for _, l := range cur {
			if len(l.ts) == 0 {
				if l.k.Sign() > 0 {
					return true
				}
				continue
			}
			for i, t := range l.ts {
				c, ok := count[t]
				if !ok {
					order = append(order, t)
				}
				if l.cs[i].Sign() > 0 {
					c[0]++
				} else {
					c[1]++
				}
				count[t] = c
			}
		}
		if len(order) == 0 {
			return false
		}
		best := order[0]
		for _, t := range order {
			if count[t][0]*count[t][1] < count[best][0]*count[best][1] {
				best = t
			}
		}
		var next, pos, neg []*Lin
		for _, l := range cur {
			c := coef(l, best)
			switch {
			case c == nil:
				next = append(next, l)
			case c.Sign() > 0:
				pos = append(pos, l)
			default:
				neg = append(neg, l)
			}
		}
		if len(pos)*len(neg)+len(next) > 300 {
			return false
		}
		for _, a := range pos {
			for _, b := range neg {
				x := linAdd(linScale(a, new(big.Int).Neg(coef(b, best))), linScale(b, coef(a, best)), 1)
				next = append(next, clean(x))
			}
		}
		cur = next
	}
	return false
}
