package main

// Linear expressions over integer symbols, and Fourier-Motzkin elimination to
// decide whether facts entail another one.

import (
	"sort"
	"strconv"
	"strings"
)

type lt struct {
	v int
	a int64
}

// lx is c + sum of a*v; the terms are sorted by symbol.
type lx struct {
	c int64
	t []lt
}

func lc(c int64) lx { return lx{c: c} }
func lv(v int) lx   { return lx{t: []lt{{v, 1}}} }

func (x lx) add(y lx) lx { return x.addk(y, 1) }
func (x lx) sub(y lx) lx { return x.addk(y, -1) }
func (x lx) plus(c int64) lx {
	x.c += c
	return x
}

func (x lx) addk(y lx, k int64) lx {
	if len(y.t) == 0 {
		x.c += k * y.c
		return x
	}
	out := lx{c: x.c + k*y.c, t: make([]lt, 0, len(x.t)+len(y.t))}
	i, j := 0, 0
	for i < len(x.t) || j < len(y.t) {
		switch {
		case j == len(y.t) || i < len(x.t) && x.t[i].v < y.t[j].v:
			out.t = append(out.t, x.t[i])
			i++
		case i == len(x.t) || y.t[j].v < x.t[i].v:
			out.t = append(out.t, lt{y.t[j].v, k * y.t[j].a})
			j++
		default:
			if a := x.t[i].a + k*y.t[j].a; a != 0 {
				out.t = append(out.t, lt{x.t[i].v, a})
			}
			i++
			j++
		}
	}
	return out
}

func (x lx) scale(k int64) lx { return lc(0).addk(x, k) }

func (x lx) isConst() (int64, bool) { return x.c, len(x.t) == 0 }

func (x lx) lin() string {
	var b strings.Builder
	for _, t := range x.t {
		b.WriteString(strconv.FormatInt(t.a, 10))
		b.WriteByte('*')
		b.WriteString(strconv.Itoa(t.v))
		b.WriteByte(' ')
	}
	return b.String()
}

func (x lx) key() string { return x.lin() + strconv.FormatInt(x.c, 10) }

func (x lx) coef(v int) int64 {
	for _, t := range x.t {
		if t.v == v {
			return t.a
		}
	}
	return 0
}

func gcd64(a, b int64) int64 {
	if a < 0 {
		a = -a
	}
	if b < 0 {
		b = -b
	}
	for b != 0 {
		a, b = b, a%b
	}
	return a
}

// norm divides a fact x <= 0 by the divisor of its coefficients.
func (x lx) norm() lx {
	var g int64
	for _, t := range x.t {
		g = gcd64(g, t.a)
	}
	if g <= 1 {
		return x
	}
	out := lx{t: make([]lt, len(x.t))}
	for i, t := range x.t {
		out.t[i] = lt{t.v, t.a / g}
	}
	// ceil(c/g)
	out.c = x.c / g
	if x.c%g > 0 {
		out.c++
	}
	return out
}

// factSet keeps the strongest fact for each linear part.
type factSet struct {
	m   map[uint64]int
	f   []lx
	bad bool
}

// hash identifies the terms of x, or of -x.
func (x lx) hash(sign int64) uint64 {
	h := uint64(14695981039346656037)
	for _, t := range x.t {
		h = (h ^ uint64(t.v)) * 1099511628211
		h = (h ^ uint64(sign*t.a)) * 1099511628211
	}
	return h
}

func (x lx) sameTerms(y lx, sign int64) bool {
	if len(x.t) != len(y.t) {
		return false
	}
	for i, t := range x.t {
		if y.t[i].v != t.v || y.t[i].a != sign*t.a {
			return false
		}
	}
	return true
}

// find gives the fact with the terms of x, or of -x.
func (s *factSet) find(x lx, sign int64) (int, uint64, bool) {
	h := x.hash(sign)
	for {
		i, ok := s.m[h]
		if !ok {
			return 0, h, false
		}
		if x.sameTerms(s.f[i], sign) {
			return i, h, true
		}
		h++
	}
}

func (s *factSet) add(x lx) {
	x = x.norm()
	if len(x.t) == 0 {
		if x.c > 0 {
			s.bad = true
		}
		return
	}
	i, h, ok := s.find(x, 1)
	if ok {
		if x.c > s.f[i].c {
			s.f[i] = x
		}
		return
	}
	s.m[h] = len(s.f)
	s.f = append(s.f, x)
}

// connected selects the facts that share symbols with x, directly or not.
func connected(f []lx, x lx) []lx {
	in := map[int]bool{}
	for _, t := range x.t {
		in[t.v] = true
	}
	used := make([]bool, len(f))
	var out []lx
	for ch := true; ch; {
		ch = false
		for i, y := range f {
			if used[i] {
				continue
			}
			hit := len(y.t) == 0
			for _, t := range y.t {
				if in[t.v] {
					hit = true
					break
				}
			}
			if hit {
				used[i] = true
				ch = true
				out = append(out, y)
				for _, t := range y.t {
					in[t.v] = true
				}
			}
		}
	}
	return out
}

// fmInfeasible: no integers satisfy all facts (false if that is not decided).
func fmInfeasible(f []lx) bool {
	s := &factSet{m: map[uint64]int{}}
	for _, x := range f {
		s.add(x)
	}
	for round := 0; ; round++ {
		if s.bad {
			return true
		}
		if len(s.f) == 0 || len(s.f) > 600 || round > 400 {
			return false
		}
		// a pair of facts that makes an equation with a symbol of coefficient one
		pick, eqv := -1, 0
		for i, x := range s.f {
			if j, _, ok := s.find(x, -1); ok {
				if s.f[j].c+x.c > 0 {
					return true
				}
				if s.f[j].c == -x.c {
					for _, t := range x.t {
						if t.a == 1 || t.a == -1 {
							pick, eqv = i, t.v
						}
					}
				}
			}
			if pick >= 0 {
				break
			}
		}
		n := &factSet{m: make(map[uint64]int, len(s.f))}
		if pick >= 0 {
			e := s.f[pick]
			a := e.coef(eqv)
			for _, x := range s.f {
				if b := x.coef(eqv); b != 0 {
					x = x.addk(e, -b*a) // a is 1 or -1
				}
				n.add(x)
			}
			s = n
			continue
		}
		// the symbol that makes the fewest new facts
		pos, negc := map[int]int{}, map[int]int{}
		for _, x := range s.f {
			for _, t := range x.t {
				if t.a > 0 {
					pos[t.v]++
				} else {
					negc[t.v]++
				}
			}
		}
		best, bv := 1<<30, -1
		var vs []int
		for v := range pos {
			vs = append(vs, v)
		}
		for v := range negc {
			if pos[v] == 0 {
				vs = append(vs, v)
			}
		}
		sort.Ints(vs)
		for _, v := range vs {
			p, q := pos[v], negc[v]
			if c := p*q - p - q; c < best {
				best, bv = c, v
			}
		}
		if bv < 0 {
			return false
		}
		var ps, qs []lx
		for _, x := range s.f {
			switch c := x.coef(bv); {
			case c > 0:
				ps = append(ps, x)
			case c < 0:
				qs = append(qs, x)
			default:
				n.add(x)
			}
		}
		for _, p := range ps {
			for _, q := range qs {
				a, b := p.coef(bv), -q.coef(bv)
				y := p.scale(b).addk(q, a)
				big := false
				for _, t := range y.t {
					if t.a > 1<<40 || t.a < -(1<<40) {
						big = true
					}
				}
				if !big {
					n.add(y)
				}
			}
			if len(n.f) > 600 {
				return false
			}
		}
		s = n
	}
}

// entails: all integers that satisfy the facts have x <= 0.
func entails(f []lx, x lx) bool {
	if c, ok := x.isConst(); ok && c <= 0 {
		return true
	}
	n := x.norm()
	for _, y := range f {
		if y.c >= n.c && n.sameTerms(y, 1) {
			return true
		}
	}
	g := connected(f, x)
	return fmInfeasible(append(g, lc(1).sub(x)))
}
