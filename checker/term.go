package main

// Hash-consed value terms and multi-terminal decision diagrams (gated values).
//
// A *Term is a canonical, condition free value. A *Node is a decision diagram
// whose inner nodes test boolean atoms (terms) in a fixed order and whose
// leaves are terms; booleans are diagrams over the leaves true and false.
// Equal values are pointer-equal nodes.

import (
	"fmt"
	"go/constant"
	"go/types"
	"math/big"
	"sort"
	"strings"
)

type Term struct {
	id   int
	op   string
	args []*Node
	aux  string
	obj  interface{}
	typ  types.Type
	lin  *Lin  // for op "lin" and integer constants
	dir  uint8 // what a condition is about, see dirOf
}

type Lin struct {
	ts []*Term
	cs []*big.Int
	k  *big.Int
}

type Node struct {
	id     int
	atom   *Term
	hi, lo *Node
	leaf   *Term
	dirs   [4]uint64 // what its conditions are about
}

type nodeKey struct{ a, h, l int }

// overLimit: the time or memory for the check is used up.
type overLimit struct{}

type Tab struct {
	elemsOf string // function that returns lists without nil
	limit   *string
	terms   map[string]*Term
	nodes   map[nodeKey]*Node
	leaves  map[int]*Node
	nnode   int
	True    *Node
	False   *Node
	Nil     *Node
	ands    map[[2]int]*Node
	ors     map[[2]int]*Node
	simpl   map[[3]int]*Node
	deps    map[*Term]map[*Loop]bool
}

var T *Tab

func NewTab() *Tab {
	t := &Tab{terms: map[string]*Term{}, nodes: map[nodeKey]*Node{}, leaves: map[int]*Node{},
		ands: map[[2]int]*Node{}, ors: map[[2]int]*Node{}, simpl: map[[3]int]*Node{},
		deps: map[*Term]map[*Loop]bool{}}
	T = t
	t.True = leafNode(mk("true", "", nil, types.Typ[types.Bool]))
	t.False = leafNode(mk("false", "", nil, types.Typ[types.Bool]))
	t.Nil = leafNode(mk("nil", "", nil, types.Typ[types.UntypedNil]))
	return t
}

func mk(op, aux string, obj interface{}, typ types.Type, args ...*Node) *Term {
	var sb strings.Builder
	sb.WriteString(op)
	sb.WriteByte('|')
	sb.WriteString(aux)
	for _, a := range args {
		fmt.Fprintf(&sb, "|%d", a.id)
	}
	key := sb.String()
	if t, ok := T.terms[key]; ok {
		return t
	}
	t := &Term{id: len(T.terms), op: op, args: args, aux: aux, obj: obj, typ: typ}
	T.terms[key] = t
	return t
}

func leafNode(t *Term) *Node {
	if n, ok := T.leaves[t.id]; ok {
		return n
	}
	T.nnode++
	n := &Node{id: T.nnode, leaf: t}
	T.leaves[t.id] = n
	return n
}

// mkN makes a leaf for an operator application.
func mkN(op, aux string, obj interface{}, typ types.Type, args ...*Node) *Node {
	return leafNode(mk(op, aux, obj, typ, args...))
}

func boolNode(b bool) *Node {
	if b {
		return T.True
	}
	return T.False
}

func ite(atom *Term, hi, lo *Node) *Node {
	hi = simplifyUnder(hi, atom, true)
	lo = simplifyUnder(lo, atom, false)
	if hi == lo {
		return hi
	}
	k := nodeKey{atom.id, hi.id, lo.id}
	if n, ok := T.nodes[k]; ok {
		return n
	}
	T.nnode++
	if T.nnode&0xfff == 0 && T.limit != nil && *T.limit != "" {
		panic(overLimit{})
	}
	n := &Node{id: T.nnode, atom: atom, hi: hi, lo: lo}
	for i := range n.dirs {
		n.dirs[i] = hi.dirs[i] | lo.dirs[i]
	}
	d := dirOf(atom)
	n.dirs[d>>6] |= 1 << (d & 63)
	T.nodes[k] = n
	return n
}

func atomNode(t *Term) *Node { return ite(t, T.True, T.False) }

// implied: does atom a having value v determine atom b? (+1 true, -1 false, 0 unknown)
func implied(a *Term, v bool, b *Term) int {
	if a == b {
		if v {
			return 1
		}
		return -1
	}
	if a.op == "eqc" && b.op == "eqc" && a.args[0] == b.args[0] {
		if v {
			return -1
		}
		return 0
	}
	if (a.op == "le0" || a.op == "eq0") && (b.op == "le0" || b.op == "eq0") {
		return impliedLin(a, v, b)
	}
	if v && b.op == "equalfold" && (a.op == "equalfold" || a.op == "eqc") && a.args[0] == b.args[0] {
		// a text that is equal to one constant
		c := a.obj
		if a.op == "equalfold" {
			c = a.args[1].leaf
		}
		if x, ok := c.(*Term); ok && x != nil && x.op == "const" {
			s1, ok1 := x.obj.(string)
			s2, ok2 := constString(b.args[1])
			if ok1 && ok2 {
				if strings.EqualFold(s1, s2) {
					return 1
				}
				return -1
			}
		}
	}
	return 0
}

// dirOf: conditions that imply something about each other have the same one.
func dirOf(a *Term) uint8 {
	if a.dir != 0 {
		return a.dir
	}
	h := uint64(14695981039346656037)
	mix := func(n uint64) { h = (h ^ n) * 1099511628211 }
	switch a.op {
	case "eqc", "equalfold":
		mix(1)
		mix(uint64(a.args[0].id))
	case "le0", "eq0":
		if a.args[0].leaf == nil {
			mix(uint64(a.id))
			break
		}
		l := linOf(a.args[0].leaf)
		for i, t := range l.ts {
			mix(uint64(t.id))
			mix(new(big.Int).Abs(l.cs[i]).Uint64())
		}
	default:
		mix(uint64(a.id))
	}
	a.dir = uint8(h>>56^h>>32^h>>16)%255 + 1
	return a.dir
}

func linOf(t *Term) *Lin {
	if t.lin != nil {
		return t.lin
	}
	return &Lin{ts: []*Term{t}, cs: []*big.Int{big.NewInt(1)}, k: new(big.Int)}
}

// same direction: returns sign s (+1/-1) if b.ts == s*a.ts
func sameDir(a, b *Lin) int {
	if len(a.ts) != len(b.ts) || len(a.ts) == 0 {
		return 0
	}
	s := 0
	for i := range a.ts {
		if a.ts[i] != b.ts[i] {
			return 0
		}
		if a.cs[i].Cmp(b.cs[i]) == 0 {
			if s == -1 {
				return 0
			}
			s = 1
		} else if new(big.Int).Neg(a.cs[i]).Cmp(b.cs[i]) == 0 {
			if s == 1 {
				return 0
			}
			s = -1
		} else {
			return 0
		}
	}
	return s
}

func impliedLin(a *Term, v bool, b *Term) int {
	la, lb := a.args[0].leaf, b.args[0].leaf
	if la == nil || lb == nil {
		return 0
	}
	A, B := linOf(la), linOf(lb)
	s := sameDir(A, B)
	if s == 0 {
		return 0
	}
	// let x = direction of A. a: x + ka (<=|=) 0 ; b: s*x + kb (<=|=) 0
	// compute interval of x implied by a.
	var lo, hi *big.Int // nil: unbounded
	if a.op == "le0" {
		if v {
			hi = new(big.Int).Neg(A.k)
		} else {
			lo = new(big.Int).Add(new(big.Int).Neg(A.k), big.NewInt(1))
		}
	} else {
		if v {
			lo = new(big.Int).Neg(A.k)
			hi = lo
		} else {
			// x != -ka: only useful against eq with the same point
			if b.op == "eq0" {
				p := new(big.Int).Neg(A.k)
				q := new(big.Int).Neg(B.k)
				if s < 0 {
					q = new(big.Int).Set(B.k)
				}
				if p.Cmp(q) == 0 {
					return -1
				}
			}
			return 0
		}
	}
	// interval of s*x
	if s < 0 {
		nlo, nhi := (*big.Int)(nil), (*big.Int)(nil)
		if hi != nil {
			nlo = new(big.Int).Neg(hi)
		}
		if lo != nil {
			nhi = new(big.Int).Neg(lo)
		}
		lo, hi = nlo, nhi
	}
	p := new(big.Int).Neg(B.k) // b: y <= p or y == p
	if b.op == "le0" {
		if hi != nil && hi.Cmp(p) <= 0 {
			return 1
		}
		if lo != nil && lo.Cmp(p) > 0 {
			return -1
		}
		return 0
	}
	if hi != nil && hi.Cmp(p) < 0 || lo != nil && lo.Cmp(p) > 0 {
		return -1
	}
	if lo != nil && hi != nil && lo.Cmp(p) == 0 && hi.Cmp(p) == 0 {
		return 1
	}
	return 0
}

func simplifyUnder(n *Node, atom *Term, v bool) *Node {
	if n.atom == nil {
		return n
	}
	if d := dirOf(atom); n.dirs[d>>6]&(1<<(d&63)) == 0 {
		return n
	}
	vi := 0
	if v {
		vi = 1
	}
	key := [3]int{n.id, atom.id, vi}
	if r, ok := T.simpl[key]; ok {
		return r
	}
	var r *Node
	switch implied(atom, v, n.atom) {
	case 1:
		r = simplifyUnder(n.hi, atom, v)
	case -1:
		r = simplifyUnder(n.lo, atom, v)
	default:
		h, l := simplifyUnder(n.hi, atom, v), simplifyUnder(n.lo, atom, v)
		if h == n.hi && l == n.lo {
			r = n
		} else {
			r = ite(n.atom, h, l)
		}
	}
	T.simpl[key] = r
	return r
}

func cof(n *Node, a *Term) (*Node, *Node) {
	if n.atom == a {
		return n.hi, n.lo
	}
	return n, n
}

func topAtom(ns ...*Node) *Term {
	var best *Term
	for _, n := range ns {
		if n.atom != nil && (best == nil || n.atom.id < best.id) {
			best = n.atom
		}
	}
	return best
}

func apply1(a *Node, f func(*Term) *Node) *Node {
	memo := map[*Node]*Node{}
	var rec func(a *Node) *Node
	rec = func(a *Node) *Node {
		if r, ok := memo[a]; ok {
			return r
		}
		var r *Node
		if a.atom == nil {
			r = f(a.leaf)
		} else {
			r = mux(atomRef(a.atom), rec(a.hi), rec(a.lo))
		}
		memo[a] = r
		return r
	}
	return rec(a)
}

func atomRef(t *Term) *Node { return atomNode(t) }

func apply2(a, b *Node, f func(x, y *Term) *Node) *Node {
	memo := map[[2]*Node]*Node{}
	var rec func(a, b *Node) *Node
	rec = func(a, b *Node) *Node {
		k := [2]*Node{a, b}
		if r, ok := memo[k]; ok {
			return r
		}
		var r *Node
		if t := topAtom(a, b); t == nil {
			r = f(a.leaf, b.leaf)
		} else {
			ah, al := cof(a, t)
			bh, bl := cof(b, t)
			// avoid exploring combinations that the theory excludes
			r = mux(atomRef(t), rec(simplifyUnder(ah, t, true), simplifyUnder(bh, t, true)),
				rec(simplifyUnder(al, t, false), simplifyUnder(bl, t, false)))
		}
		memo[k] = r
		return r
	}
	return rec(a, b)
}

// mux is if-then-else over arbitrary diagrams.
func mux(c, t, e *Node) *Node {
	if c == T.True || t == e {
		return t
	}
	if c == T.False {
		return e
	}
	type k3 [3]*Node
	memo := map[k3]*Node{}
	var rec func(c, t, e *Node) *Node
	rec = func(c, t, e *Node) *Node {
		if c == T.True || t == e {
			return t
		}
		if c == T.False {
			return e
		}
		k := k3{c, t, e}
		if r, ok := memo[k]; ok {
			return r
		}
		a := topAtom(c, t, e)
		ch, cl := cof(c, a)
		th, tl := cof(t, a)
		eh, el := cof(e, a)
		r := ite(a, rec(ch, th, eh), rec(cl, tl, el))
		memo[k] = r
		return r
	}
	return rec(c, t, e)
}

func and(a, b *Node) *Node {
	if a == T.True {
		return b
	}
	if b == T.True {
		return a
	}
	if a == T.False || b == T.False {
		return T.False
	}
	if a == b {
		return a
	}
	k := [2]int{a.id, b.id}
	if a.id > b.id {
		k = [2]int{b.id, a.id}
	}
	if r, ok := T.ands[k]; ok {
		return r
	}
	r := mux(a, b, T.False)
	T.ands[k] = r
	return r
}

func ands(ns ...*Node) *Node {
	r := T.True
	for _, n := range ns {
		r = and(r, n)
	}
	return r
}

func or(a, b *Node) *Node {
	if a == T.False {
		return b
	}
	if b == T.False {
		return a
	}
	if a == T.True || b == T.True {
		return T.True
	}
	return not(and(not(a), not(b)))
}

func not(a *Node) *Node { return mux(a, T.False, T.True) }

func isBool(n *Node) bool { return n == T.True || n == T.False }

// implies reports whether a => b holds propositionally (with the atom theory).
func implies(a, b *Node) bool { return and(a, not(b)) == T.False }

// restrict simplifies f using the care set c (Coudert/Madre).
func restrict(f, c *Node) *Node {
	if c == T.True || c == T.False || f.atom == nil {
		return f
	}
	memo := map[[2]*Node]*Node{}
	var rec func(f, c *Node) *Node
	rec = func(f, c *Node) *Node {
		if f.atom == nil || c == T.True {
			return f
		}
		if c == T.False {
			return f
		}
		k := [2]*Node{f, c}
		if r, ok := memo[k]; ok {
			return r
		}
		a := topAtom(f, c)
		ch, cl := cof(c, a)
		ch = simplifyUnder(ch, a, true)
		cl = simplifyUnder(cl, a, false)
		var r *Node
		if f.atom != a {
			r = rec(f, or(ch, cl))
		} else if ch == T.False {
			r = rec(f.lo, cl)
		} else if cl == T.False {
			r = rec(f.hi, ch)
		} else {
			r = ite(a, rec(f.hi, ch), rec(f.lo, cl))
		}
		memo[k] = r
		return r
	}
	return rec(f, c)
}

// leavesOf lists all leaves with the condition under which they are taken.
type Guarded struct {
	Cond *Node
	T    *Term
}

func guardedLeaves(n *Node) []Guarded {
	m := map[*Term]*Node{}
	var order []*Term
	var rec func(n *Node, c *Node)
	rec = func(n *Node, c *Node) {
		if c == T.False {
			return
		}
		if n.atom == nil {
			if o, ok := m[n.leaf]; ok {
				m[n.leaf] = or(o, c)
			} else {
				m[n.leaf] = c
				order = append(order, n.leaf)
			}
			return
		}
		a := atomNode(n.atom)
		rec(n.hi, and(c, a))
		rec(n.lo, and(c, not(a)))
	}
	rec(n, T.True)
	var out []Guarded
	for _, t := range order {
		out = append(out, Guarded{m[t], t})
	}
	return out
}

func leafTerms(n *Node) []*Term {
	seen := map[*Node]bool{}
	var out []*Term
	var rec func(n *Node)
	rec = func(n *Node) {
		if seen[n] {
			return
		}
		seen[n] = true
		if n.atom == nil {
			out = append(out, n.leaf)
			return
		}
		rec(n.hi)
		rec(n.lo)
	}
	rec(n)
	return out
}

func atomsOf(n *Node) []*Term {
	seen := map[*Node]bool{}
	set := map[*Term]bool{}
	var rec func(n *Node)
	rec = func(n *Node) {
		if n.atom == nil || seen[n] {
			return
		}
		seen[n] = true
		set[n.atom] = true
		rec(n.hi)
		rec(n.lo)
	}
	rec(n)
	var out []*Term
	for t := range set {
		out = append(out, t)
	}
	sort.Slice(out, func(i, j int) bool { return out[i].id < out[j].id })
	return out
}

// subst replaces boolean atoms by constants
func assign(n *Node, a *Term, v bool) *Node { return simplifyUnder(n, a, v) }

// ---------------------------------------------------------------- constants

func intConst(v int64) *Node { return bigConst(big.NewInt(v)) }

func bigConst(v *big.Int) *Node {
	t := mk("const", "i"+v.String(), nil, types.Typ[types.Int])
	if t.lin == nil {
		t.lin = &Lin{k: new(big.Int).Set(v)}
	}
	return leafNode(t)
}

func strConst(s string) *Node {
	return mkN("const", fmt.Sprintf("s%q", s), s, types.Typ[types.String])
}

func constNode(v constant.Value, typ types.Type) *Node {
	if v == nil {
		return zeroOf(typ)
	}
	switch v.Kind() {
	case constant.Bool:
		return boolNode(constant.BoolVal(v))
	case constant.String:
		return strConst(constant.StringVal(v))
	case constant.Int:
		if b, ok := typ.Underlying().(*types.Basic); ok && b.Info()&types.IsFloat != 0 {
			return mkN("const", "f"+v.ExactString(), v, typ)
		}
		b, ok := new(big.Int).SetString(v.ExactString(), 10)
		if ok {
			return bigConst(b)
		}
	case constant.Float:
		if b, ok := typ.Underlying().(*types.Basic); ok && b.Info()&types.IsInteger != 0 {
			if i := constant.ToInt(v); i.Kind() == constant.Int {
				if b, ok := new(big.Int).SetString(i.ExactString(), 10); ok {
					return bigConst(b)
				}
			}
		}
		return mkN("const", "f"+v.ExactString(), v, typ)
	}
	return mkN("const", "x"+v.ExactString(), v, typ)
}

func zeroOf(typ types.Type) *Node {
	switch u := typ.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return T.False
		case u.Info()&types.IsInteger != 0:
			return intConst(0)
		case u.Info()&types.IsString != 0:
			return strConst("")
		case u.Info()&types.IsFloat != 0:
			return mkN("const", "f0", constant.MakeInt64(0), typ)
		}
		return T.Nil
	case *types.Struct:
		args := make([]*Node, u.NumFields())
		for i := range args {
			args[i] = zeroOf(u.Field(i).Type())
		}
		return mkN("struct", typeKey(typ), typ, typ, args...)
	case *types.Array:
		if smallArray(u) {
			args := make([]*Node, u.Len())
			for i := range args {
				args[i] = zeroOf(u.Elem())
			}
			return mkN("array", typeKey(typ), typ, typ, args...)
		}
		return mkN("zeroarray", typeKey(typ), typ, typ)
	}
	return T.Nil
}

const maxArray = 40

// smallArray: arrays that are tracked element by element
func smallArray(a *types.Array) bool {
	if a.Len() <= maxArray {
		return true
	}
	_, basic := a.Elem().Underlying().(*types.Basic)
	return basic && a.Len() <= 256
}

func isIntConst(n *Node) (*big.Int, bool) {
	if n.leaf != nil && n.leaf.op == "const" && n.leaf.lin != nil {
		return n.leaf.lin.k, true
	}
	return nil, false
}

func constInt64(n *Node) (int64, bool) {
	if v, ok := isIntConst(n); ok && v.IsInt64() {
		return v.Int64(), true
	}
	return 0, false
}

func constString(n *Node) (string, bool) {
	if n.leaf != nil && n.leaf.op == "const" {
		if s, ok := n.leaf.obj.(string); ok {
			return s, true
		}
	}
	return "", false
}

// ---------------------------------------------------------------- linear arithmetic

func linNode(l *Lin) *Node {
	// normalise
	type pair struct {
		t *Term
		c *big.Int
	}
	var ps []pair
	for i := range l.ts {
		if l.cs[i].Sign() != 0 {
			ps = append(ps, pair{l.ts[i], l.cs[i]})
		}
	}
	sort.Slice(ps, func(i, j int) bool { return ps[i].t.id < ps[j].t.id })
	if len(ps) == 0 {
		return bigConst(l.k)
	}
	if len(ps) == 1 && ps[0].c.Cmp(big.NewInt(1)) == 0 && l.k.Sign() == 0 {
		return leafNode(ps[0].t)
	}
	n := &Lin{k: new(big.Int).Set(l.k)}
	var sb strings.Builder
	for _, p := range ps {
		n.ts = append(n.ts, p.t)
		n.cs = append(n.cs, new(big.Int).Set(p.c))
		fmt.Fprintf(&sb, "%d*%s,", p.t.id, p.c)
	}
	sb.WriteString(n.k.String())
	t := mk("lin", sb.String(), nil, ps[0].t.typ)
	if t.lin == nil {
		t.lin = n
	}
	return leafNode(t)
}

func linAdd(a, b *Lin, s int64) *Lin {
	m := map[*Term]*big.Int{}
	r := &Lin{k: new(big.Int).Set(a.k)}
	for i, t := range a.ts {
		m[t] = new(big.Int).Set(a.cs[i])
		r.ts = append(r.ts, t)
	}
	S := big.NewInt(s)
	for i, t := range b.ts {
		if c, ok := m[t]; ok {
			c.Add(c, new(big.Int).Mul(S, b.cs[i]))
		} else {
			m[t] = new(big.Int).Mul(S, b.cs[i])
			r.ts = append(r.ts, t)
		}
	}
	r.k.Add(r.k, new(big.Int).Mul(S, b.k))
	for _, t := range r.ts {
		r.cs = append(r.cs, m[t])
	}
	return r
}

func linScale(a *Lin, s *big.Int) *Lin {
	r := &Lin{k: new(big.Int).Mul(a.k, s)}
	for i, t := range a.ts {
		r.ts = append(r.ts, t)
		r.cs = append(r.cs, new(big.Int).Mul(a.cs[i], s))
	}
	return r
}

func addT(x, y *Term) *Node { return linNode(linAdd(linOf(x), linOf(y), 1)) }
func subT(x, y *Term) *Node { return linNode(linAdd(linOf(x), linOf(y), -1)) }

func add(a, b *Node) *Node { return apply2(a, b, addT) }
func sub(a, b *Node) *Node { return apply2(a, b, subT) }
func scale(a *Node, s int64) *Node {
	return apply1(a, func(x *Term) *Node { return linNode(linScale(linOf(x), big.NewInt(s))) })
}

func mulT(x, y *Term) *Node {
	if x.op == "const" && x.lin != nil {
		return linNode(linScale(linOf(y), x.lin.k))
	}
	if y.op == "const" && y.lin != nil {
		return linNode(linScale(linOf(x), y.lin.k))
	}
	if x.id > y.id {
		x, y = y, x
	}
	return mkN("mul", "", nil, x.typ, leafNode(x), leafNode(y))
}

// nonNeg: terms that are known to be >= 0.
func nonNeg(t *Term) bool {
	if t.op == "const" && t.lin != nil {
		return t.lin.k.Sign() >= 0
	}
	if t.op == "lin" {
		if t.lin.k.Sign() < 0 {
			return false
		}
		for i, s := range t.lin.ts {
			if t.lin.cs[i].Sign() < 0 || !nonNeg(s) {
				return false
			}
		}
		return true
	}
	switch t.op {
	case "len", "cap", "K", "zext":
		return true
	}
	if t.typ != nil {
		if b, ok := t.typ.Underlying().(*types.Basic); ok && b.Info()&types.IsUnsigned != 0 {
			return true
		}
	}
	return false
}

func gcdAll(l *Lin) *big.Int {
	g := new(big.Int)
	for _, c := range l.cs {
		g.GCD(nil, nil, g, new(big.Int).Abs(c))
	}
	return g
}

func floorDiv(a, b *big.Int) *big.Int {
	q, m := new(big.Int).DivMod(a, b, new(big.Int)) // Euclidean, b>0: floor
	_ = m
	return q
}

// le0: d <= 0 as boolean diagram
func le0T(d *Term) *Node {
	l := linOf(d)
	if len(l.ts) == 0 {
		return boolNode(l.k.Sign() <= 0)
	}
	g := gcdAll(l)
	if g.Cmp(big.NewInt(1)) != 0 {
		// sum(g*c'*t) + k <= 0  <=> sum(c' t) + ceil(k/g) <= 0
		n := &Lin{ts: l.ts}
		for _, c := range l.cs {
			n.cs = append(n.cs, new(big.Int).Quo(c, g))
		}
		n.k = new(big.Int).Neg(floorDiv(new(big.Int).Neg(l.k), g))
		return apply1(linNode(n), le0T)
	}
	// single non-negative term special cases
	if len(l.ts) == 1 && nonNeg(l.ts[0]) {
		c := l.cs[0]
		if c.Sign() > 0 { // t <= -k
			if l.k.Sign() > 0 {
				return T.False
			}
			if l.k.Sign() == 0 {
				return eq0T(l.ts[0])
			}
		} else { // -t + k <= 0 : t >= k
			if l.k.Sign() <= 0 {
				return T.True
			}
			if l.k.Cmp(big.NewInt(1)) == 0 {
				return not(eq0T(l.ts[0]))
			}
		}
	}
	if len(l.ts) > 1 {
		allpos, allneg := true, true
		for i, t := range l.ts {
			if !nonNeg(t) {
				allpos, allneg = false, false
				break
			}
			if l.cs[i].Sign() > 0 {
				allneg = false
			} else {
				allpos = false
			}
		}
		if allpos && l.k.Sign() > 0 {
			return T.False
		}
		if allneg && l.k.Sign() <= 0 {
			return T.True
		}
	}
	if len(l.ts) == 1 {
		// x/c <= k and x/c >= k for a constant c > 0, rounding towards zero
		if t := l.ts[0]; t.op == "bin" && t.aux == "/" {
			if c, ok := isIntConst(t.args[1]); ok && c.Sign() > 0 {
				c1 := new(big.Int).Sub(c, big.NewInt(1))
				b := new(big.Int)
				if l.cs[0].Sign() > 0 { // x/c <= k
					k := new(big.Int).Neg(l.k)
					b.Mul(k, c)
					if k.Sign() >= 0 {
						b.Add(b, c1)
					}
					return lessEq(t.args[0], bigConst(b))
				}
				k := l.k // x/c >= k
				b.Mul(k, c)
				if k.Sign() <= 0 {
					b.Sub(b, c1)
				}
				return lessEq(bigConst(b), t.args[0])
			}
		}
	}
	if l.cs[0].Sign() < 0 {
		// canonical polarity: not( -d + 1 <= 0 )
		n := linScale(l, big.NewInt(-1))
		n.k.Add(n.k, big.NewInt(1))
		return not(atomNode(mk("le0", "", nil, types.Typ[types.Bool], linNode(n))))
	}
	return atomNode(mk("le0", "", nil, types.Typ[types.Bool], leafNode(d)))
}

func eq0T(d *Term) *Node {
	l := linOf(d)
	if len(l.ts) == 0 {
		return boolNode(l.k.Sign() == 0)
	}
	if len(l.ts) == 1 && l.ts[0].op == "len" && l.k.Sign() == 0 && l.ts[0].args[0].leaf != nil {
		x := l.ts[0].args[0].leaf
		if x.typ != nil {
			if b, ok := x.typ.Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
				return eqT(x, strConst("").leaf)
			}
		}
	}
	if len(l.ts) == 1 && l.k.Sign() == 0 && l.ts[0].op == "conv" && l.ts[0].args[0].leaf != nil {
		// conversions that keep all bits keep zero
		x := l.ts[0].args[0].leaf
		if x.typ != nil && l.ts[0].typ != nil {
			w1, _ := bitsOf(x.typ)
			w2, _ := bitsOf(l.ts[0].typ)
			if w1 > 0 && w2 >= w1 {
				return eq0T(x)
			}
		}
	}
	g := gcdAll(l)
	if g.Cmp(big.NewInt(1)) != 0 {
		if new(big.Int).Mod(l.k, g).Sign() != 0 {
			return T.False
		}
		n := &Lin{ts: l.ts, k: new(big.Int).Quo(l.k, g)}
		for _, c := range l.cs {
			n.cs = append(n.cs, new(big.Int).Quo(c, g))
		}
		return apply1(linNode(n), eq0T)
	}
	allpos := true
	for i, t := range l.ts {
		if !nonNeg(t) || l.cs[i].Sign() < 0 {
			allpos = false
		}
	}
	if allpos && l.k.Sign() > 0 {
		return T.False
	}
	if l.cs[0].Sign() < 0 {
		return atomNode(mk("eq0", "", nil, types.Typ[types.Bool], linNode(linScale(l, big.NewInt(-1)))))
	}
	return atomNode(mk("eq0", "", nil, types.Typ[types.Bool], leafNode(d)))
}

func lessThan(a, b *Node) *Node { // a < b
	return apply2(a, b, func(x, y *Term) *Node {
		d := linAdd(linOf(x), linOf(y), -1)
		d.k.Add(d.k, big.NewInt(1))
		return apply1(linNode(d), le0T)
	})
}

func lessEq(a, b *Node) *Node { return not(lessThan(b, a)) }

func isIntTerm(t *Term) bool {
	if t.lin != nil {
		return true
	}
	if t.typ == nil {
		return false
	}
	b, ok := t.typ.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}

func isNilable(t *Term) bool { return t.op == "nil" }

func eq(a, b *Node) *Node { return apply2(a, b, eqT) }

func eqT(x, y *Term) *Node {
	if x == y {
		return T.True
	}
	if x == T.True.leaf {
		return leafBool(y)
	}
	if y == T.True.leaf {
		return leafBool(x)
	}
	if x == T.False.leaf {
		return not(leafBool(y))
	}
	if y == T.False.leaf {
		return not(leafBool(x))
	}
	if x.op == "nil" || y.op == "nil" {
		if x.op == "nil" {
			x, y = y, x
		}
		return isNil(x)
	}
	if isIntTerm(x) && isIntTerm(y) {
		return apply1(subT(x, y), eq0T)
	}
	if x.op == "const" && y.op == "const" {
		return T.False
	}
	// string emptiness is length zero in one canonical form
	if x.op == "const" {
		x, y = y, x
	}
	if y.op == "const" {
		if s, ok := y.obj.(string); ok && s == "" && x.op == "concat" {
			return and(eqT2(x.args[0], y), eqT2(x.args[1], y))
		}
		if s, ok := y.obj.(string); ok && x.op == "strof" {
			if len(x.args) != len(s) {
				return T.False
			}
			r := T.True
			for i := range x.args {
				r = and(r, eq(x.args[i], intConst(int64(s[i]))))
			}
			return r
		}
		return atomNode(mk("eqc", y.aux, y, types.Typ[types.Bool], leafNode(x)))
	}
	if x.op == "struct" && y.op == "struct" && len(x.args) == len(y.args) {
		r := T.True
		for i := range x.args {
			r = and(r, eq(x.args[i], y.args[i]))
		}
		return r
	}
	if distinctAddr(x, y) {
		return T.False
	}
	if x.id > y.id {
		x, y = y, x
	}
	return atomNode(mk("eq", "", nil, types.Typ[types.Bool], leafNode(x), leafNode(y)))
}

func eqT2(n *Node, y *Term) *Node { return apply1(n, func(x *Term) *Node { return eqT(x, y) }) }

func distinctAddr(x, y *Term) bool {
	return x.op == "alloc" && y.op == "alloc"
}

// leafBool turns a boolean typed term into a diagram
func leafBool(t *Term) *Node {
	if t == T.True.leaf {
		return T.True
	}
	if t == T.False.leaf {
		return T.False
	}
	return atomNode(t)
}

func toBool(n *Node) *Node { return apply1(n, leafBool) }

func isNil(x *Term) *Node {
	switch x.op {
	case "nil":
		return T.True
	case "alloc", "global", "fieldaddr", "indexaddr", "closure", "func", "mkiface", "slice", "makemap", "makechan", "struct", "const", "array":
		return T.False
	case "append":
		return T.False
	case "nonnil":
		return T.False
	case "wraperr":
		return apply1(x.args[0], isNil)
	}
	if isExternalErrGlobal(x) {
		return T.False
	}
	if x.op == "load" && T.elemsOf != "" {
		// an element of a list without nil
		if a := x.args[0].leaf; a != nil && a.op == "indexaddr" && a.args[0].leaf != nil && a.args[0].leaf.op == "sdata" {
			if c := a.args[0].leaf.args[0].leaf; c != nil && c.op == "sym" && strings.HasPrefix(c.aux, "call:"+T.elemsOf+"@") {
				return T.False
			}
		}
	}
	return atomNode(mk("isnil", "", nil, types.Typ[types.Bool], leafNode(x)))
}

// ---------------------------------------------------------------- printing

func (t *Term) String() string { return t.str(6) }
func (n *Node) String() string { return n.str(6) }

func shortType(t types.Type) string {
	if t == nil {
		return "?"
	}
	return types.TypeString(t, func(p *types.Package) string { return p.Name() })
}

func (t *Term) str(d int) string {
	if d == 0 {
		return "…"
	}
	if t.op == "const" {
		if t.lin != nil {
			return t.lin.k.String()
		}
		if s, ok := t.obj.(string); ok {
			return fmt.Sprintf("%q", s)
		}
		return t.aux[1:]
	}
	if t.op == "lin" {
		var sb strings.Builder
		for i, x := range t.lin.ts {
			c := t.lin.cs[i]
			if i > 0 || c.Sign() < 0 {
				if c.Sign() < 0 {
					sb.WriteString("-")
				} else {
					sb.WriteString("+")
				}
			}
			a := new(big.Int).Abs(c)
			if a.Cmp(big.NewInt(1)) != 0 {
				sb.WriteString(a.String() + "*")
			}
			sb.WriteString(x.str(d - 1))
		}
		if t.lin.k.Sign() != 0 {
			if t.lin.k.Sign() > 0 {
				sb.WriteString("+")
			}
			sb.WriteString(t.lin.k.String())
		}
		return "(" + sb.String() + ")"
	}
	var as []string
	for _, a := range t.args {
		as = append(as, a.str(d-1))
	}
	switch t.op {
	case "sym", "alloc", "global", "func", "K", "mu", "exit":
		return t.aux
	case "load":
		return "*" + as[0]
	case "fieldaddr":
		return "&" + as[0] + "." + t.aux
	case "field":
		return as[0] + "." + t.aux
	case "indexaddr":
		return "&" + as[0] + "[" + as[1] + "]"
	case "eqc":
		return as[0] + "==" + t.obj.(*Term).str(2)
	case "le0":
		return as[0] + "<=0"
	case "eq0":
		return as[0] + "==0"
	case "struct":
		st, _ := t.typ.Underlying().(*types.Struct)
		for i := range as {
			if st != nil && i < st.NumFields() {
				as[i] = st.Field(i).Name() + ":" + as[i]
			}
		}
		return shortType(t.typ) + "{" + strings.Join(as, ", ") + "}"
	}
	s := t.op
	if t.aux != "" {
		s += "<" + t.aux + ">"
	}
	if len(as) > 0 {
		s += "(" + strings.Join(as, ", ") + ")"
	}
	return s
}

func (n *Node) str(d int) string {
	if n == nil {
		return "<nil>"
	}
	if n.atom == nil {
		return n.leaf.str(d)
	}
	if d == 0 {
		return "…"
	}
	if n.hi == T.True && n.lo == T.False {
		return n.atom.str(d - 1)
	}
	if n.hi == T.False && n.lo == T.True {
		return "!" + n.atom.str(d-1)
	}
	if n.lo == T.False {
		return "(" + n.atom.str(d-1) + " && " + n.hi.str(d) + ")"
	}
	if n.hi == T.False {
		return "(!" + n.atom.str(d-1) + " && " + n.lo.str(d) + ")"
	}
	if n.hi == T.True {
		return "(" + n.atom.str(d-1) + " || " + n.lo.str(d) + ")"
	}
	return "[" + n.atom.str(d-1) + " ? " + n.hi.str(d) + " : " + n.lo.str(d) + "]"
}

// walkTerms visits all terms reachable from the node.
func walkTerms(n *Node, f func(*Term) bool) {
	seenN := map[*Node]bool{}
	seenT := map[*Term]bool{}
	var vt func(t *Term)
	var vn func(n *Node)
	vt = func(t *Term) {
		if seenT[t] {
			return
		}
		seenT[t] = true
		if !f(t) {
			return
		}
		if t.lin != nil {
			for _, x := range t.lin.ts {
				vt(x)
			}
		}
		for _, a := range t.args {
			vn(a)
		}
	}
	vn = func(n *Node) {
		if n == nil || seenN[n] {
			return
		}
		seenN[n] = true
		if n.atom == nil {
			vt(n.leaf)
			return
		}
		vt(n.atom)
		vn(n.hi)
		vn(n.lo)
	}
	vn(n)
}

func contains(n *Node, t *Term) bool {
	found := false
	walkTerms(n, func(x *Term) bool {
		if x == t {
			found = true
		}
		return !found
	})
	return found
}

func containsNode(n, sub *Node) bool {
	if sub.leaf != nil {
		return contains(n, sub.leaf)
	}
	return false
}
