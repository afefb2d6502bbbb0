package main

// Bit provenance: an integer value as 64 bits, each of them the exclusive or
// of bits of other values and a constant. Operations on bits are exact where
// the result has this form; otherwise the result is an opaque bit that is
// only equal to itself.

import (
	"fmt"
	"go/types"
	"math/big"
	"sort"
	"strings"
)

type bit struct {
	one bool
	as  string // sorted atoms, separated by blanks
}

type bitEnv map[*Term][64]bit

func bitAtom(s string) bit { return bit{as: s} }

func (a bit) zero() bool    { return a.as == "" && !a.one }
func (a bit) isConst() bool { return a.as == "" }

func xorBit(a, b bit) bit {
	m := map[string]bool{}
	for _, s := range append(strings.Fields(a.as), strings.Fields(b.as)...) {
		if m[s] {
			delete(m, s)
		} else {
			m[s] = true
		}
	}
	var l []string
	for s := range m {
		l = append(l, s)
	}
	sort.Strings(l)
	return bit{a.one != b.one, strings.Join(l, " ")}
}

func (a bit) key() string {
	s := strings.ReplaceAll(a.as, " ", "^")
	if a.one {
		s += "^1"
	}
	return s
}

func andBit(a, b bit) bit {
	switch {
	case a.zero() || b.zero():
		return bit{}
	case a.isConst():
		return b
	case b.isConst() || a == b:
		return a
	case a == xorBit(b, bit{one: true}):
		return bit{}
	}
	x, y := a.key(), b.key()
	if x > y {
		x, y = y, x
	}
	return bitAtom("(" + x + "&" + y + ")")
}

func notBit(a bit) bit { return xorBit(a, bit{one: true}) }

func orBit(a, b bit) bit { return notBit(andBit(notBit(a), notBit(b))) }

func shiftBits(v [64]bit, k int, fill bit) (out [64]bit) { // to the left; negative: to the right
	for i := range out {
		j := i - k
		switch {
		case j < 0:
		case j > 63:
			out[i] = fill
		default:
			out[i] = v[j]
		}
	}
	return
}

func constBits(v *big.Int) (out [64]bit) {
	m := new(big.Int).Mod(v, new(big.Int).Lsh(big.NewInt(1), 64))
	for i := range out {
		out[i].one = m.Bit(i) == 1
	}
	return
}

// truncBits: the value converted to a type of w bits, extended to 64 bits.
func truncBits(v [64]bit, w int, uns bool) [64]bit {
	for i := w; i < 64; i++ {
		if uns {
			v[i] = bit{}
		} else {
			v[i] = v[w-1]
		}
	}
	return v
}

// bitVec: the bits of a value; env overrides the bits of terms.
func bitVec(n *Node, env bitEnv) [64]bit {
	if n.leaf != nil {
		return bitTerm(n.leaf, env)
	}
	a, b := bitVec(n.hi, env), bitVec(n.lo, env)
	c, ok := condBit(n.atom, env)
	for i := range a {
		if a[i] != b[i] {
			if d := xorBit(a[i], b[i]); ok && d.isConst() {
				a[i] = xorBit(b[i], c)
				continue
			}
			if ok && c.isConst() {
				if !c.one {
					a[i] = b[i]
				}
				continue
			}
			a[i] = bitAtom(fmt.Sprintf("(?%d:%s:%s)", n.atom.id, a[i].key(), b[i].key()))
		}
	}
	return a
}

func bitTerm(t *Term, env bitEnv) (out [64]bit) {
	if v, ok := env[t]; ok {
		return v
	}
	if v, ok := isIntConst(leafNode(t)); ok {
		return constBits(v)
	}
	switch t.op {
	case "lin":
		if v, ok := linBits(t.lin, env); ok {
			return v
		}
	case "conv":
		v := bitVec(t.args[0], env)
		w, uns := bitsOf(t.typ)
		return truncBits(v, w, uns)
	case "byte":
		v := bitVec(t.args[0], env)
		var k int
		fmt.Sscan(t.aux, &k)
		return truncBits(shiftBits(v, -8*k, bit{}), 8, true)
	case "bin":
		if !isInteger(t.typ) {
			break
		}
		w, uns := bitsOf(t.typ)
		a := bitVec(t.args[0], env)
		if t.aux == ">>" || t.aux == "<<" {
			k, ok := constInt64(t.args[1])
			if !ok || k < 0 {
				break
			}
			if k > 64 {
				k = 64
			}
			if t.aux == "<<" {
				return truncBits(shiftBits(a, int(k), bit{}), w, uns)
			}
			fill := bit{}
			if !uns {
				fill = a[63]
			}
			return shiftBits(a, -int(k), fill)
		}
		b := bitVec(t.args[1], env)
		var f func(a, b bit) bit
		switch t.aux {
		case "&":
			f = andBit
		case "|":
			f = orBit
		case "^":
			f = xorBit
		case "&^":
			f = func(a, b bit) bit { return andBit(a, notBit(b)) }
		}
		if f != nil {
			for i := range out {
				out[i] = f(a[i], b[i])
			}
			return truncBits(out, w, uns)
		}
	}
	return atomBits(t)
}

// atomBits: the bits of a value of unknown structure.
func atomBits(t *Term) (out [64]bit) {
	w, uns := 64, false
	if t.typ != nil && isInteger(t.typ) && t.op != "lin" {
		w, uns = bitsOf(t.typ)
	}
	for i := range out {
		out[i] = bitAtom(fmt.Sprintf("%d.%d", t.id, i))
	}
	out = truncBits(out, w, uns)
	if lo, hi := rangeOf(t); lo != nil && lo.Sign() >= 0 {
		for i := hi.BitLen(); i < 64; i++ {
			out[i] = bit{}
		}
	}
	return out
}

// linBits: sums in which no carry can occur, and -x and ^x.
func linBits(l *Lin, env bitEnv) (out [64]bit, ok bool) {
	if len(l.ts) == 1 && l.cs[0].Cmp(big.NewInt(-1)) == 0 {
		v := bitVec(leafNode(l.ts[0]), env)
		if l.k.Sign() == 0 {
			// -x of a single bit
			for i := 1; i < 64; i++ {
				if !v[i].zero() {
					return out, false
				}
			}
			for i := range out {
				out[i] = v[0]
			}
			return out, true
		}
		if l.k.Cmp(big.NewInt(-1)) == 0 {
			for i := range out {
				out[i] = notBit(v[i])
			}
			return out, true
		}
		return out, false
	}
	out = constBits(l.k)
	for i, x := range l.ts {
		c := l.cs[i]
		k := c.BitLen() - 1
		if c.Sign() <= 0 || c.Cmp(new(big.Int).Lsh(big.NewInt(1), uint(k))) != 0 || k > 63 {
			return out, false
		}
		v := shiftBits(bitVec(leafNode(x), env), k, bit{})
		carry := false
		for j := range out {
			if !out[j].zero() && !v[j].zero() || carry {
				// a carry between constant bits
				if !out[j].isConst() || !v[j].isConst() {
					return out, false
				}
				n := 0
				for _, b := range []bool{out[j].one, v[j].one, carry} {
					if b {
						n++
					}
				}
				out[j], carry = bit{one: n%2 == 1}, n > 1
				continue
			}
			out[j] = xorBit(out[j], v[j])
		}
	}
	return out, true
}

// freshBits: 64 independent bits.
func freshBits(name string) (out [64]bit) {
	for i := range out {
		out[i] = bitAtom(fmt.Sprintf("%s.%d", name, i))
	}
	return
}

func sameBits(a, b [64]bit) string {
	for i := range a {
		if a[i] != b[i] {
			return fmt.Sprintf("bit %d is %s, not %s", i, a[i].key0(), b[i].key0())
		}
	}
	return ""
}

func (a bit) key0() string {
	if a.isConst() {
		if a.one {
			return "1"
		}
		return "0"
	}
	return a.key()
}

var _ = types.Typ

// condBit: a condition that is decided by one bit.
func condBit(atom *Term, env bitEnv) (bit, bool) {
	if atom.op != "eq0" || len(atom.args) != 1 || atom.args[0].leaf == nil {
		return bit{}, false
	}
	x, want := atom.args[0], new(big.Int)
	if l := x.leaf.lin; l != nil && x.leaf.op == "lin" {
		if len(l.ts) != 1 || l.cs[0].CmpAbs(big.NewInt(1)) != 0 {
			return bit{}, false
		}
		want = new(big.Int).Mul(l.k, new(big.Int).Neg(l.cs[0]))
		x = leafNode(l.ts[0])
	}
	v, w := bitVec(x, env), constBits(want)
	var out bit
	n := 0
	for i := range v {
		d := notBit(xorBit(v[i], w[i])) // equal
		if d.zero() {
			return bit{}, true
		}
		if !d.isConst() {
			out = d
			n++
		}
	}
	if n == 0 {
		return bit{one: true}, true
	}
	return out, n == 1
}
