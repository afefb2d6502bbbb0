package main

// C29: the string cache. A shape analysis of the list, the map and the
// counters of the cache: abstract heaps with named nodes and segments that
// stand for any number of nodes, focused on demand and folded at loop heads.

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// lin is a linear expression over named quantities.
type lin struct {
	c int64
	m map[string]int64
}

func linC(c int64) lin { return lin{c: c} }
func linV(s string) lin {
	return lin{m: map[string]int64{s: 1}}
}

func (a lin) add(b lin, k int64) lin {
	n := lin{c: a.c + k*b.c, m: map[string]int64{}}
	for x, v := range a.m {
		n.m[x] = v
	}
	for x, v := range b.m {
		n.m[x] += k * v
		if n.m[x] == 0 {
			delete(n.m, x)
		}
	}
	return n
}

func (a lin) scale(k int64) lin { return linC(0).add(a, k) }

func (a lin) subst(s string, b lin) lin {
	k := a.m[s]
	if k == 0 {
		return a
	}
	return a.add(linV(s), -k).add(b, k)
}

func (a lin) String() string {
	var ks []string
	for x := range a.m {
		ks = append(ks, x)
	}
	sort.Strings(ks)
	var sb strings.Builder
	for _, x := range ks {
		fmt.Fprintf(&sb, "%+d*%s ", a.m[x], x)
	}
	fmt.Fprintf(&sb, "%+d", a.c)
	return sb.String()
}

func (a lin) equal(b lin) bool {
	d := a.add(b, -1)
	return d.c == 0 && len(d.m) == 0
}

// every quantity is at least one.
func (a lin) min() (int64, bool) {
	v := a.c
	for _, k := range a.m {
		if k < 0 {
			return 0, false
		}
		v += k
	}
	return v, true
}

func (a lin) nonNeg(facts []lin) bool {
	if v, ok := a.min(); ok && v >= 0 {
		return true
	}
	for _, f := range facts {
		if v, ok := a.add(f, -1).min(); ok && v >= 0 {
			return true
		}
	}
	return false
}

// sv is an abstract value.
type sv struct {
	k    byte // n nil, p pointer, g end of a segment, i int, b bool, s text, y bytes, m map, t tuple, f function, S struct, ? unknown
	obj  string
	path string
	lin  lin
	eq   bool // bool: lin == 0 instead of lin >= 0
	neg  bool
	tup  []sv
	flds map[string]sv
	fn   *ssa.Function
	bind []sv
}

var svTop = sv{k: '?'}
var svNil = sv{k: 'n'}

func svInt(l lin) sv { return sv{k: 'i', lin: l} }
func svBool(v bool) sv {
	if v {
		return sv{k: 'b', lin: linC(0)}
	}
	return sv{k: 'b', lin: linC(-1)}
}
func svText(s string) sv { return sv{k: 's', obj: s} }

func (v sv) String() string {
	switch v.k {
	case 'p', 'g', 'm', 'y':
		return fmt.Sprintf("%c:%s%s(%s)", v.k, v.obj, v.path, v.lin)
	case 's':
		return "s:" + v.obj
	case 'i':
		return v.lin.String()
	case 'b':
		return fmt.Sprintf("b:%v:%v:%s", v.eq, v.neg, v.lin)
	case 't':
		return fmt.Sprint(v.tup)
	case 'f':
		return "f:" + v.fn.String() + fmt.Sprint(v.bind)
	case 'S':
		var ks []string
		for p, x := range v.flds {
			ks = append(ks, p+"="+x.String())
		}
		sort.Strings(ks)
		return "{" + strings.Join(ks, ",") + "}"
	}
	return string(v.k)
}

// each rewrites the values within a value.
func (v sv) each(f func(x sv) sv) sv {
	if len(v.tup) > 0 {
		t := make([]sv, len(v.tup))
		for i, x := range v.tup {
			t[i] = x.each(f)
		}
		v.tup = t
	}
	if len(v.bind) > 0 {
		t := make([]sv, len(v.bind))
		for i, x := range v.bind {
			t[i] = x.each(f)
		}
		v.bind = t
	}
	if v.flds != nil {
		m := map[string]sv{}
		for p, x := range v.flds {
			m[p] = x.each(f)
		}
		v.flds = m
	}
	return f(v)
}

type shSeg struct{ left, right sv }

type shFrame struct {
	fn     *ssa.Function
	b      *ssa.BasicBlock
	prev   *ssa.BasicBlock
	i      int
	env    map[ssa.Value]sv
	defers []*ssa.Defer
	ret    ssa.Value // where the result goes in the caller
	undo   bool      // the defers are running
}

type shState struct {
	cells  map[string]sv
	maps   map[string]map[string]sv
	segs   map[string]shSeg
	order  []string // nodes and segments when the section was entered
	facts  []lin
	frames []*shFrame
	lock   int
	first  string // was the text there at first
	vhere  bool   // was it there at the last check
	insec  bool
	front  bool // the text was the newest entry when the lock was released
	hits   map[string]lin
	result []sv
	done   bool
}

func (s *shState) clone() *shState {
	n := &shState{cells: map[string]sv{}, maps: map[string]map[string]sv{}, segs: map[string]shSeg{}, lock: s.lock, first: s.first, vhere: s.vhere, insec: s.insec, front: s.front, done: s.done}
	for k, v := range s.cells {
		n.cells[k] = v
	}
	for k, m := range s.maps {
		mm := map[string]sv{}
		for x, v := range m {
			mm[x] = v
		}
		n.maps[k] = mm
	}
	for k, v := range s.segs {
		n.segs[k] = v
	}
	n.order = append(n.order, s.order...)
	n.facts = append(n.facts, s.facts...)
	n.result = append(n.result, s.result...)
	for _, f := range s.frames {
		g := *f
		g.env = map[ssa.Value]sv{}
		for k, v := range f.env {
			g.env[k] = v
		}
		g.defers = append([]*ssa.Defer{}, f.defers...)
		n.frames = append(n.frames, &g)
	}
	return n
}

// rewrite replaces values everywhere.
func (s *shState) rewrite(f func(v sv) sv) {
	for k, v := range s.cells {
		s.cells[k] = v.each(f)
	}
	for _, m := range s.maps {
		for x, v := range m {
			m[x] = v.each(f)
		}
	}
	for k, g := range s.segs {
		s.segs[k] = shSeg{g.left.each(f), g.right.each(f)}
	}
	for _, fr := range s.frames {
		for k, v := range fr.env {
			fr.env[k] = v.each(f)
		}
	}
}

func (s *shState) substLin(x string, b lin) {
	s.rewrite(func(v sv) sv {
		v.lin = v.lin.subst(x, b)
		return v
	})
	for i := range s.facts {
		s.facts[i] = s.facts[i].subst(x, b)
	}
}

// roles of the parts of the cache
type shRoles struct {
	head, tail  string // cells
	prev, next  string // fields of a node
	text        string // field of a node
	count, size string // cells; the size may hold something extra for each entry
	extra       int64
	mapObj      string
	limit       int64
	nodeT       *types.Named
}

type shape struct {
	r        *Report
	pkg      *ssa.Package
	base     *shState // behind the initialisation of the package
	types    map[string]types.Type
	ro       *shRoles
	fails    map[string]string // message -> place
	n        int
	steps    int
	states   int
	headers  map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool
	counters map[string]bool
	alpha    int64
	beta     int64
	gamma    int64
	vEmpty   bool
	checks   int
	infos    map[string]int
}

func (a *shape) fail(where, format string, args ...interface{}) {
	m := fmt.Sprintf(format, args...)
	if _, ok := a.fails[m]; !ok {
		a.fails[m] = where
	}
}

func (a *shape) zero(t types.Type) sv {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return svBool(false)
		case u.Info()&types.IsInteger != 0:
			return svInt(linC(0))
		case u.Info()&types.IsString != 0:
			return svText("")
		}
		return svTop
	case *types.Struct:
		return sv{k: 'S', flds: map[string]sv{}}
	case *types.Pointer, *types.Map, *types.Slice, *types.Interface, *types.Signature, *types.Chan:
		return svNil
	}
	return svTop
}

func (a *shape) leaves(t types.Type, pre string, f func(path string, t types.Type)) {
	if st, ok := t.Underlying().(*types.Struct); ok {
		for i := 0; i < st.NumFields(); i++ {
			a.leaves(st.Field(i).Type(), pre+"."+st.Field(i).Name(), f)
		}
		return
	}
	f(pre, t)
}

func (a *shape) load(s *shState, p sv, t types.Type) sv {
	if p.k != 'p' {
		return svTop
	}
	key := p.obj + p.path
	if _, ok := t.Underlying().(*types.Struct); ok {
		v := sv{k: 'S', flds: map[string]sv{}}
		a.leaves(t, "", func(path string, lt types.Type) {
			x, ok := s.cells[key+path]
			if !ok {
				x = a.zero(lt)
			}
			v.flds[path] = x
		})
		return v
	}
	v, ok := s.cells[key]
	if !ok {
		return a.zero(t)
	}
	// texts and bytes seen as each other
	if isString(t) && (v.k == 'y' || v.k == 'n') {
		return a.textOf(s, v)
	}
	if _, ok := t.Underlying().(*types.Slice); ok && v.k == 's' {
		return a.bytesOf(s, v, "view:"+key)
	}
	return v
}

func (a *shape) store(s *shState, p, v sv, t types.Type) bool {
	if p.k != 'p' {
		return false
	}
	key := p.obj + p.path
	if _, ok := t.Underlying().(*types.Struct); ok {
		a.leaves(t, "", func(path string, lt types.Type) {
			x, ok := v.flds[path]
			if !ok {
				x = a.zero(lt)
				if v.k == '?' {
					x = svTop
				}
			}
			s.cells[key+path] = x
		})
		return true
	}
	s.cells[key] = v
	return true
}

func (a *shape) textOf(s *shState, v sv) sv {
	switch v.k {
	case 'n':
		return svText("")
	case 's':
		return v
	case 'y':
		if x, ok := s.cells[v.obj+"#text"]; ok {
			return x
		}
	}
	return svTop
}

func (a *shape) textLen(v sv) sv {
	if v.k != 's' {
		return svTop
	}
	if v.obj == "" {
		return svInt(linC(0))
	}
	return svInt(linV("len:" + v.obj))
}

func (a *shape) bytesOf(s *shState, text sv, id string) sv {
	if text.k != 's' {
		return svTop
	}
	s.cells[id+"#text"] = text
	return sv{k: 'y', obj: id, lin: a.textLen(text).lin}
}

func (a *shape) fresh(pre string) string {
	a.n++
	return fmt.Sprintf("%s%d", pre, a.n)
}

// focus makes the first or last node of a segment explicit.
func (a *shape) focus(s *shState, seg, end string) []*shState {
	id := a.fresh("x")
	var out []*shState
	for _, single := range []bool{true, false} {
		n := s.clone()
		g := n.segs[seg]
		x := sv{k: 'p', obj: id}
		ln := linV("len:" + id)
		if single {
			n.rewrite(func(v sv) sv {
				if v.k == 'g' && v.obj == seg {
					return x
				}
				return v
			})
			g = n.segs[seg]
			delete(n.segs, seg)
			n.cells[id+a.ro.prev] = g.left
			n.cells[id+a.ro.next] = g.right
			n.substLin("n:"+seg, linC(1))
			n.substLin("z:"+seg, ln)
			for i, o := range n.order {
				if o == seg {
					n.order[i] = id
				}
			}
		} else {
			n.rewrite(func(v sv) sv {
				if v.k == 'g' && v.obj == seg && v.path == end {
					return x
				}
				return v
			})
			g = n.segs[seg]
			var o []string
			for _, e := range n.order {
				if e != seg {
					o = append(o, e)
				} else if end == "l" {
					o = append(o, id, seg)
				} else {
					o = append(o, seg, id)
				}
			}
			n.order = o
			rest := sv{k: 'g', obj: seg, path: end}
			if end == "l" {
				n.cells[id+a.ro.prev] = g.left
				n.cells[id+a.ro.next] = rest
				g.left = x
			} else {
				n.cells[id+a.ro.next] = g.right
				n.cells[id+a.ro.prev] = rest
				g.right = x
			}
			n.segs[seg] = g
			n.substLin("n:"+seg, linV("n:"+seg).add(linC(1), 1))
			n.substLin("z:"+seg, linV("z:"+seg).add(ln, 1))
		}
		n.cells[id+a.ro.text] = svText(id)
		n.maps[a.ro.mapObj][id] = x
		out = append(out, n)
	}
	return out
}

// install gives the cache a new well-formed content.
func (a *shape) install(s *shState, conf []string) *shState {
	n := s.clone()
	// nodes that were known are strangers now
	n.rewrite(func(v sv) sv {
		if v.k == 'g' || v.k == 'p' && a.isNode(n, v.obj) {
			return svTop
		}
		return v
	})
	for k := range n.cells {
		for _, f := range []string{a.ro.prev, a.ro.next, a.ro.text} {
			if strings.HasSuffix(k, f) && a.isNode(n, strings.TrimSuffix(k, f)) {
				delete(n.cells, k)
			}
		}
	}
	n.segs = map[string]shSeg{}
	n.facts = nil
	n.maps[a.ro.mapObj] = map[string]sv{}
	n.order = append([]string{}, conf...)
	count, size := linC(0), linC(0)
	first := func(c string) sv {
		if c[0] == 'S' {
			return sv{k: 'g', obj: c, path: "l"}
		}
		return sv{k: 'p', obj: c}
	}
	last := func(c string) sv {
		if c[0] == 'S' {
			return sv{k: 'g', obj: c, path: "r"}
		}
		return sv{k: 'p', obj: c}
	}
	n.vhere = false
	for i, c := range conf {
		l, r := svNil, svNil
		if i > 0 {
			l = last(conf[i-1])
		}
		if i+1 < len(conf) {
			r = first(conf[i+1])
		}
		if c[0] == 'S' {
			n.segs[c] = shSeg{l, r}
			count = count.add(linV("n:"+c), 1)
			size = size.add(linV("z:"+c), 1)
			continue
		}
		n.vhere = true
		n.cells[c+a.ro.prev] = l
		n.cells[c+a.ro.next] = r
		n.cells[c+a.ro.text] = svText("V")
		n.maps[a.ro.mapObj]["V"] = sv{k: 'p', obj: c}
		count = count.add(linC(1), 1)
		size = size.add(linV("len:V"), 1)
	}
	a.setCounts(n, count, size)
	n.cells[a.ro.head], n.cells[a.ro.tail] = svNil, svNil
	if len(conf) > 0 {
		n.cells[a.ro.head] = first(conf[0])
		n.cells[a.ro.tail] = last(conf[len(conf)-1])
	}
	return n
}

func (a *shape) isNode(s *shState, obj string) bool {
	if obj == "nV" || len(obj) > 1 && obj[0] == 'x' && obj[1] >= '0' && obj[1] <= '9' {
		return true
	}
	t := a.types[obj]
	return t != nil && types.Identical(t, a.ro.nodeT)
}

var dbgShape = os.Getenv("DBGSHAPE") != ""

var shConfs = [][]string{{}, {"S1"}, {"nV"}, {"S1", "nV"}, {"nV", "S1"}, {"S1", "nV", "S2"}}

// sequence walks the list.
func (a *shape) sequence(s *shState) ([]string, string) {
	out := []string{}
	seen := map[string]bool{}
	prev := svNil
	cur := s.cells[a.ro.head]
	same := func(x, y sv) bool { return x.k == y.k && x.obj == y.obj && x.path == y.path }
	for cur.k != 'n' {
		if cur.k == 'g' {
			if cur.path != "l" {
				return out, "the list does not enter its nodes from the front"
			}
			g, ok := s.segs[cur.obj]
			if !ok || seen[cur.obj] {
				return out, "a part of the list appears twice"
			}
			if !same(g.left, prev) {
				return out, "the backward link of a node does not name its predecessor"
			}
			seen[cur.obj] = true
			out = append(out, cur.obj)
			prev = sv{k: 'g', obj: cur.obj, path: "r"}
			cur = g.right
			continue
		}
		if cur.k != 'p' || cur.path != "" || !a.isNode(s, cur.obj) {
			return out, "a link of the list is not known"
		}
		if seen[cur.obj] {
			return out, "the list has a cycle"
		}
		seen[cur.obj] = true
		p, ok := s.cells[cur.obj+a.ro.prev]
		if !ok {
			p = svNil
		}
		if !same(p, prev) {
			return out, "the backward link of a node does not name its predecessor"
		}
		out = append(out, cur.obj)
		prev = cur
		nx, ok := s.cells[cur.obj+a.ro.next]
		if !ok {
			nx = svNil
		}
		cur = nx
	}
	t := s.cells[a.ro.tail]
	if !same(t, prev) {
		return out, "the end of the list is not its last node"
	}
	return out, ""
}

func (a *shape) sums(s *shState, seq []string) (n, z lin) {
	n, z = linC(0), linC(0)
	for _, c := range seq {
		if c[0] == 'S' {
			n = n.add(linV("n:"+c), 1)
			z = z.add(linV("z:"+c), 1)
			continue
		}
		n = n.add(linC(1), 1)
		t := s.cells[c+a.ro.text]
		if t.k == 's' {
			z = z.add(a.textLen(t).lin, 1)
		}
	}
	return n, z
}

// setCounts stores the number of entries and the size of their texts.
func (a *shape) setCounts(s *shState, n, z lin) {
	if a.ro.count != "" {
		s.cells[a.ro.count] = svInt(n)
	}
	s.cells[a.ro.size] = svInt(z.add(n, a.ro.extra))
}

func (a *shape) limitOf(n, z lin) lin {
	return z.scale(a.alpha).add(n, a.beta).add(linC(a.gamma), 1)
}

// check compares the cache with what it was at the last check.
func (a *shape) check(s *shState, where, when string) []string {
	a.checks++
	seq, bad := a.sequence(s)
	if bad != "" {
		a.fail(where, "%s (%s)", bad, when)
		return nil
	}
	m := s.maps[a.ro.mapObj]
	inSeq := map[string]bool{}
	texts := map[string]bool{}
	vNew := false
	for _, c := range seq {
		inSeq[c] = true
		if c[0] == 'S' {
			continue
		}
		t := s.cells[c+a.ro.text]
		if t.k != 's' || t.obj == "" {
			a.fail(where, "an entry has no proper text (%s)", when)
			return nil
		}
		if texts[t.obj] {
			a.fail(where, "two entries have the same text (%s)", when)
		}
		texts[t.obj] = true
		if e := m[t.obj]; e.k != 'p' || e.obj != c {
			a.fail(where, "an entry of the list is not found by its text (%s)", when)
		}
	}
	for _, e := range m {
		if e.k != 'p' || !inSeq[e.obj] {
			a.fail(where, "a text leads to an entry that is not in the list any more (%s)", when)
		}
	}
	n, z := a.sums(s, seq)
	if v := s.cells[a.ro.count]; a.ro.count != "" && (v.k != 'i' || !v.lin.equal(n)) {
		a.fail(where, "the number of entries is not known exactly (%s)", when)
	}
	if v := s.cells[a.ro.size]; v.k != 'i' || !v.lin.equal(z.add(n, a.ro.extra)) {
		a.fail(where, "the size of the texts is not known exactly (%s)", when)
	}
	// order
	isV := func(c string) bool {
		if c[0] == 'S' {
			return false
		}
		t := s.cells[c+a.ro.text]
		return t.k == 's' && t.obj == "V"
	}
	rest := seq
	vFirst := len(seq) > 0 && isV(seq[0])
	was := map[string]bool{}
	for _, o := range s.order {
		was[o] = true
	}
	if vFirst {
		rest = seq[1:]
		vNew = !was[seq[0]]
	}
	var old []string
	for _, o := range s.order {
		if vFirst && o == seq[0] {
			continue
		}
		old = append(old, o)
	}
	ok := len(rest) <= len(old)
	for i := range rest {
		ok = ok && rest[i] == old[i]
	}
	if !ok {
		a.fail(where, "entries were lost, doubled or changed their order: %v became %v (%s)", s.order, seq, when)
		return seq
	}
	dropped := old[len(rest):]
	if len(dropped) > 0 {
		if s.vhere {
			a.fail(where, "entries are dropped although the text was there (%s)", when)
		}
		if dropped[0][0] == 'S' {
			a.fail(where, "a part of the list got lost (%s)", when)
			return seq
		}
		full := append(append([]string{}, rest...), dropped[0])
		fn, fz := a.sums(s, full)
		over := a.limitOf(fn, fz).add(linC(a.ro.limit), -1)
		full2 := append(append([]string{}, seq...), dropped[0])
		fn, fz = a.sums(s, full2)
		over2 := a.limitOf(fn, fz).add(linC(a.ro.limit), -1)
		if !over.nonNeg(s.facts) && !over2.nonNeg(s.facts) {
			a.fail(where, "an entry is dropped although the cache is not full (%s)", when)
		}
	}
	if vNew {
		rn, rz := a.sums(s, rest)
		room := linC(a.ro.limit).add(a.limitOf(rn, rz), -1)
		if !room.nonNeg(s.facts) {
			a.fail(where, "an entry is added although the cache is full (%s)", when)
		}
	}
	return seq
}

// fold prepares for a loop head: what no variable names becomes part of a
// segment.
func (a *shape) fold(s *shState, seq []string) {
	named := map[string]bool{}
	mark := func(v sv) sv {
		if v.k == 'p' {
			named[v.obj] = true
		}
		return v
	}
	for _, f := range s.frames {
		for _, v := range f.env {
			v.each(mark)
		}
	}
	listed := map[string]bool{}
	for _, c := range seq {
		listed[c] = true
	}
	for k := range s.cells {
		for _, f := range []string{a.ro.prev, a.ro.next, a.ro.text} {
			if id := strings.TrimSuffix(k, f); id != k && a.isNode(s, id) && !listed[id] && !named[id] {
				delete(s.cells, k)
			}
		}
	}
	keep := func(c string) bool {
		if c[0] == 'S' {
			return false
		}
		t := s.cells[c+a.ro.text]
		return named[c] || t.k == 's' && t.obj == "V"
	}
	var items [][]string
	for i := 0; i < len(seq); {
		if keep(seq[i]) {
			items = append(items, []string{seq[i]})
			i++
			continue
		}
		j := i
		for j < len(seq) && !keep(seq[j]) {
			j++
		}
		items = append(items, seq[i:j])
		i = j
	}
	// new segments
	names := make([]string, len(items))
	k := 0
	tmp := map[string]string{}
	for i, it := range items {
		if len(it) == 1 && keep(it[0]) {
			names[i] = it[0]
			continue
		}
		k++
		names[i] = fmt.Sprintf("S%d", k)
		tmp[names[i]] = a.fresh("T")
		n, z := a.sums(s, it)
		t := tmp[names[i]]
		for _, q := range []struct {
			l   lin
			pre string
		}{{n, "n:"}, {z, "z:"}} {
			for _, c := range it {
				if c[0] == 'S' {
					// the first segment is expressed by the whole
					s.substLin(q.pre+c, linV(q.pre+t).add(q.l.add(linV(q.pre+c), -1), -1))
					break
				}
			}
		}
		for _, c := range it {
			if c[0] != 'S' {
				tx := s.cells[c+a.ro.text]
				delete(s.maps[a.ro.mapObj], tx.obj)
				for _, f := range []string{a.ro.prev, a.ro.next, a.ro.text} {
					delete(s.cells, c+f)
				}
			}
		}
	}
	for nm, t := range tmp {
		s.substLin("n:"+t, linV("n:"+nm))
		s.substLin("z:"+t, linV("z:"+nm))
	}
	s.facts = nil
	s.segs = map[string]shSeg{}
	end := func(i int, e string) sv {
		if i < 0 || i >= len(names) {
			return svNil
		}
		if tmp[names[i]] != "" {
			return sv{k: 'g', obj: names[i], path: e}
		}
		return sv{k: 'p', obj: names[i]}
	}
	count, size := linC(0), linC(0)
	for i, nm := range names {
		l, r := end(i-1, "r"), end(i+1, "l")
		if tmp[nm] != "" {
			s.segs[nm] = shSeg{l, r}
			count = count.add(linV("n:"+nm), 1)
			size = size.add(linV("z:"+nm), 1)
			continue
		}
		s.cells[nm+a.ro.prev], s.cells[nm+a.ro.next] = l, r
		count = count.add(linC(1), 1)
		size = size.add(a.textLen(s.cells[nm+a.ro.text]).lin, 1)
	}
	a.setCounts(s, count, size)
	s.cells[a.ro.head], s.cells[a.ro.tail] = end(0, "l"), end(len(names)-1, "r")
	s.order = names
	s.vhere = false
	for _, nm := range names {
		if t := s.cells[nm+a.ro.text]; t.k == 's' && t.obj == "V" {
			s.vhere = true
		}
	}
}

func (s *shState) key() string {
	var sb strings.Builder
	for _, f := range s.frames {
		fmt.Fprintf(&sb, "|%s/%d/%d", f.fn.String(), f.b.Index, f.i)
		var ks []string
		for k, v := range f.env {
			ks = append(ks, k.Name()+"="+v.String())
		}
		sort.Strings(ks)
		sb.WriteString(strings.Join(ks, ";"))
	}
	var ks []string
	for k, v := range s.cells {
		ks = append(ks, k+"="+v.String())
	}
	for mo, m := range s.maps {
		for k, v := range m {
			ks = append(ks, mo+"["+k+"="+v.String())
		}
	}
	sort.Strings(ks)
	sb.WriteString(strings.Join(ks, ";"))
	fmt.Fprintf(&sb, "|%v|%d|%s|%v|%v", s.order, s.lock, s.first, s.vhere, s.front)
	return sb.String()
}

// loopOf: the blocks of the loops with the head b.
func (a *shape) loopOf(b *ssa.BasicBlock) map[*ssa.BasicBlock]bool {
	if l, ok := a.headers[b]; ok {
		return l
	}
	var l map[*ssa.BasicBlock]bool
	for _, p := range b.Preds {
		if !b.Dominates(p) {
			continue
		}
		if l == nil {
			l = map[*ssa.BasicBlock]bool{b: true}
		}
		work := []*ssa.BasicBlock{p}
		for len(work) > 0 {
			x := work[0]
			work = work[1:]
			if l[x] {
				continue
			}
			l[x] = true
			work = append(work, x.Preds...)
		}
	}
	a.headers[b] = l
	return l
}

func (a *shape) val(s *shState, f *shFrame, v ssa.Value) sv {
	switch x := v.(type) {
	case *ssa.Const:
		if x.Value == nil {
			return a.zero(x.Type())
		}
		switch x.Value.Kind() {
		case constant.Bool:
			return svBool(constant.BoolVal(x.Value))
		case constant.Int:
			if i, ok := constant.Int64Val(x.Value); ok {
				return svInt(linC(i))
			}
		case constant.String:
			if t := constant.StringVal(x.Value); t == "" {
				return svText("")
			}
		}
		return svTop
	case *ssa.Global:
		return sv{k: 'p', obj: "g:" + x.Pkg.Pkg.Path() + "." + x.Name()}
	case *ssa.Function:
		return sv{k: 'f', fn: x}
	}
	if r, ok := f.env[v]; ok {
		return r
	}
	return svTop
}

// explore runs the states until they return.
func (a *shape) explore(start []*shState, done func(s *shState)) {
	seen := map[string]bool{}
	work := start
	for len(work) > 0 {
		s := work[len(work)-1]
		work = work[:len(work)-1]
		a.states++
		if a.states > 8000 || len(a.fails) > 12 {
			a.fail("", "the analysis of the cache does not end")
			return
		}
		for s != nil {
			a.steps++
			if a.steps > 3000000 {
				a.fail("", "the analysis of the cache does not end")
				return
			}
			if dbgShape {
				f := s.frames[len(s.frames)-1]
				fmt.Printf("%d %s %d.%d %s | %v\n", len(s.frames), f.fn.Name(), f.b.Index, f.i, f.b.Instrs[f.i], s.order)
			}
			next, ok := a.step(s, seen)
			if s.done {
				done(s)
				break
			}
			if !ok {
				break
			}
			if len(next) == 1 {
				s = next[0]
				continue
			}
			work = append(work, next...)
			s = nil
		}
	}
}

func (a *shape) enter(s *shState, fn *ssa.Function, args, bind []sv, ret ssa.Value) {
	f := &shFrame{fn: fn, b: fn.Blocks[0], env: map[ssa.Value]sv{}, ret: ret}
	for i, p := range fn.Params {
		if i < len(args) {
			f.env[p] = args[i]
		}
	}
	for i, p := range fn.FreeVars {
		if i < len(bind) {
			f.env[p] = bind[i]
		}
	}
	s.frames = append(s.frames, f)
}

func (a *shape) jump(s *shState, f *shFrame, to *ssa.BasicBlock, seen map[string]bool) ([]*shState, bool) {
	from := f.b
	f.prev, f.b, f.i = from, to, 0
	idx := -1
	for i, p := range to.Preds {
		if p == from {
			idx = i
		}
	}
	vals := map[ssa.Value]sv{}
	for _, ins := range to.Instrs {
		if p, ok := ins.(*ssa.Phi); ok {
			vals[p] = a.val(s, f, p.Edges[idx])
		}
	}
	loop := a.loopOf(to)
	if loop != nil {
		// values of the last round are gone
		for v := range f.env {
			if i, ok := v.(ssa.Instruction); ok && loop[i.Block()] {
				delete(f.env, v)
			}
		}
	}
	for p, v := range vals {
		f.env[p] = v
	}
	if loop != nil && a.ro != nil {
		before := append([]string{}, s.order...)
		where := a.r.L.pos(to.Instrs[len(to.Instrs)-1])
		seq := a.check(s, where, "in the loop")
		if seq == nil {
			return nil, false
		}
		if to.Dominates(from) && len(seq) >= len(before) {
			a.fail(where, "a round of the loop drops nothing")
			return nil, false
		}
		a.fold(s, seq)
		k := s.key()
		if seen[k] {
			return nil, false
		}
		seen[k] = true
	}
	return []*shState{s}, true
}

// step executes one instruction.
func (a *shape) step(s *shState, seen map[string]bool) ([]*shState, bool) {
	one := []*shState{s}
	f := s.frames[len(s.frames)-1]
	ins := f.b.Instrs[f.i]
	where := a.r.L.pos(ins)
	set := func(v ssa.Value, x sv) { f.env[v] = x }
	unsupported := func(what string) ([]*shState, bool) {
		a.fail(where, "%s in %s is not understood", what, f.fn.Name())
		return nil, false
	}
	switch x := ins.(type) {
	case *ssa.Phi, *ssa.DebugRef:
		f.i++
		return one, true
	case *ssa.Alloc:
		id := fmt.Sprintf("a:%s:%s:%d", f.fn.Name(), x.Name(), len(s.frames))
		t := derefType(x.Type())
		if a.ro != nil && types.Identical(t, a.ro.nodeT) {
			id = a.fresh("x")
		}
		if a.ro == nil {
			id = a.fresh("o")
		}
		a.types[id] = t
		for k := range s.cells {
			if k == id || strings.HasPrefix(k, id+".") || strings.HasPrefix(k, id+"[") {
				delete(s.cells, k)
			}
		}
		if _, ok := t.Underlying().(*types.Struct); ok {
			a.store(s, sv{k: 'p', obj: id}, a.zero(t), t)
		}
		set(x, sv{k: 'p', obj: id})
		f.i++
		return one, true
	case *ssa.FieldAddr:
		p := a.val(s, f, x.X)
		if p.k == 'g' {
			return a.focus(s, p.obj, p.path), true
		}
		if p.k == 'n' {
			a.fail(where, "a missing entry is used")
			return nil, false
		}
		if p.k != 'p' {
			set(x, svTop)
		} else {
			set(x, sv{k: 'p', obj: p.obj, path: p.path + "." + fieldName(x)})
		}
		f.i++
		return one, true
	case *ssa.IndexAddr:
		p := a.val(s, f, x.X)
		i := a.val(s, f, x.Index)
		if p.k == 'p' && i.k == 'i' && len(i.lin.m) == 0 {
			set(x, sv{k: 'p', obj: p.obj, path: fmt.Sprintf("%s[%d]", p.path, i.lin.c)})
		} else {
			set(x, svTop)
		}
		f.i++
		return one, true
	case *ssa.Field:
		p := a.val(s, f, x.X)
		v := svTop
		if p.k == 'S' {
			st := x.X.Type().Underlying().(*types.Struct)
			nm := "." + st.Field(x.Field).Name()
			if y, ok := p.flds[nm]; ok {
				v = y
			} else if _, ok := x.Type().Underlying().(*types.Struct); ok {
				v = sv{k: 'S', flds: map[string]sv{}}
				for k, y := range p.flds {
					if strings.HasPrefix(k, nm+".") {
						v.flds[k[len(nm):]] = y
					}
				}
			} else {
				v = a.zero(x.Type())
			}
		}
		set(x, v)
		f.i++
		return one, true
	case *ssa.Store:
		p, v := a.val(s, f, x.Addr), a.val(s, f, x.Val)
		if p.k == 'g' {
			return a.focus(s, p.obj, p.path), true
		}
		if p.k == 'n' {
			a.fail(where, "a missing entry is used")
			return nil, false
		}
		if !a.store(s, p, v, x.Val.Type()) {
			return unsupported("a write to an unknown place")
		}
		f.i++
		return one, true
	case *ssa.UnOp:
		v := a.val(s, f, x.X)
		switch x.Op {
		case token.MUL:
			if v.k == 'g' {
				return a.focus(s, v.obj, v.path), true
			}
			if v.k == 'n' {
				a.fail(where, "a missing entry is used")
				return nil, false
			}
			set(x, a.load(s, v, x.Type()))
		case token.NOT:
			if v.k == 'b' {
				v.neg = !v.neg
				set(x, v)
			} else {
				set(x, svTop)
			}
		case token.SUB:
			if v.k == 'i' {
				set(x, svInt(v.lin.scale(-1)))
			} else {
				set(x, svTop)
			}
		default:
			set(x, svTop)
		}
		f.i++
		return one, true
	case *ssa.BinOp:
		l, r := a.val(s, f, x.X), a.val(s, f, x.Y)
		// ends of one segment
		if (x.Op == token.EQL || x.Op == token.NEQ) && l.k == 'g' && r.k == 'g' && l.obj == r.obj && l.path != r.path {
			return a.focus(s, l.obj, l.path), true
		}
		set(x, a.binop(s, x.Op, l, r))
		f.i++
		return one, true
	case *ssa.Convert:
		set(x, a.convert(s, f, x))
		f.i++
		return one, true
	case *ssa.ChangeType:
		set(x, a.val(s, f, x.X))
		f.i++
		return one, true
	case *ssa.MakeInterface, *ssa.ChangeInterface, *ssa.TypeAssert, *ssa.MakeChan, *ssa.Index, *ssa.Range, *ssa.Next:
		set(ins.(ssa.Value), svTop)
		f.i++
		return one, true
	case *ssa.MakeMap:
		id := a.fresh("m")
		s.maps[id] = map[string]sv{}
		set(x, sv{k: 'm', obj: id})
		f.i++
		return one, true
	case *ssa.MakeSlice:
		n := a.val(s, f, x.Len)
		id := fmt.Sprintf("b:%s:%s:%d", f.fn.Name(), x.Name(), len(s.frames))
		v := svTop
		if n.k == 'i' {
			v = sv{k: 'y', obj: id, lin: n.lin}
			s.cells[id+"#text"] = svTop
			if len(n.lin.m) == 0 && n.lin.c == 0 {
				s.cells[id+"#text"] = svText("")
			}
		}
		set(x, v)
		f.i++
		return one, true
	case *ssa.MakeClosure:
		v := sv{k: 'f', fn: x.Fn.(*ssa.Function)}
		for _, b := range x.Bindings {
			v.bind = append(v.bind, a.val(s, f, b))
		}
		set(x, v)
		f.i++
		return one, true
	case *ssa.Slice:
		v := a.val(s, f, x.X)
		out := svTop
		if v.k == 'y' || v.k == 's' || v.k == 'n' {
			lo, hi := linC(0), v.lin
			if v.k == 's' {
				hi = a.textLen(v).lin
			}
			full := hi
			ok := true
			if x.Low != nil {
				l := a.val(s, f, x.Low)
				ok = ok && l.k == 'i' && l.lin.equal(linC(0))
			}
			if x.High != nil {
				h := a.val(s, f, x.High)
				ok = ok && h.k == 'i'
				hi = h.lin
			}
			switch {
			case ok && hi.equal(full):
				out = v
			case ok && hi.equal(lo) && v.k == 's':
				out = svText("")
			case ok && hi.equal(lo) && v.k == 'y':
				id := v.obj + "[:0]"
				s.cells[id+"#text"] = svText("")
				out = sv{k: 'y', obj: id}
			}
		}
		set(x, out)
		f.i++
		return one, true
	case *ssa.Lookup:
		m := a.val(s, f, x.X)
		k := a.val(s, f, x.Index)
		if m.k != 'm' {
			set(x, svTop)
			f.i++
			return one, true
		}
		if k.k != 's' {
			a.fail(where, "an entry is looked up by something else than the text")
			return nil, false
		}
		v, ok := s.maps[m.obj][k.obj]
		if !ok {
			v = a.zero(x.X.Type().Underlying().(*types.Map).Elem())
		}
		if x.CommaOk {
			set(x, sv{k: 't', tup: []sv{v, svBool(ok)}})
		} else {
			set(x, v)
		}
		f.i++
		return one, true
	case *ssa.MapUpdate:
		m, k, v := a.val(s, f, x.Map), a.val(s, f, x.Key), a.val(s, f, x.Value)
		if m.k != 'm' || k.k != 's' {
			return unsupported("a change of a map")
		}
		s.maps[m.obj][k.obj] = v
		f.i++
		return one, true
	case *ssa.Extract:
		t := a.val(s, f, x.Tuple)
		v := svTop
		if t.k == 't' && x.Index < len(t.tup) {
			v = t.tup[x.Index]
		}
		set(x, v)
		f.i++
		return one, true
	case *ssa.Jump:
		return a.jump(s, f, f.b.Succs[0], seen)
	case *ssa.If:
		c := a.val(s, f, x.Cond)
		var out []*shState
		for i, want := range []bool{true, false} {
			fs, ok := a.assume(s, c, want)
			if !ok {
				continue
			}
			n := s.clone()
			n.facts = append(n.facts, fs...)
			nx, ok := a.jump(n, n.frames[len(n.frames)-1], f.b.Succs[i], seen)
			if ok {
				out = append(out, nx...)
			}
		}
		if len(out) == 0 {
			return nil, false
		}
		return out, true
	case *ssa.Defer:
		f.defers = append(f.defers, x)
		f.i++
		return one, true
	case *ssa.RunDefers:
		if n := len(f.defers); n > 0 {
			d := f.defers[n-1]
			f.defers = f.defers[:n-1]
			return a.call(s, f, d, nil, where)
		}
		f.i++
		return one, true
	case *ssa.Return:
		var res []sv
		for _, v := range x.Results {
			res = append(res, a.val(s, f, v))
		}
		s.frames = s.frames[:len(s.frames)-1]
		if len(s.frames) == 0 {
			s.result = res
			s.done = true
			return nil, false
		}
		g := s.frames[len(s.frames)-1]
		if f.ret != nil {
			if len(res) == 1 {
				g.env[f.ret] = res[0]
			} else {
				g.env[f.ret] = sv{k: 't', tup: res}
			}
		}
		return one, true
	case *ssa.Call:
		f.i++
		return a.call(s, f, x, x, where)
	case *ssa.Panic:
		a.fail(where, "%s panics", f.fn.Name())
		return nil, false
	}
	return unsupported(fmt.Sprintf("%T", ins))
}

func (a *shape) binop(s *shState, op token.Token, l, r sv) sv {
	cmp := func(v bool) sv {
		b := svBool(v)
		b.neg = op == token.NEQ
		return b
	}
	if l.k == 'i' && r.k == 'i' {
		d := l.lin.add(r.lin, -1)
		switch op {
		case token.ADD:
			return svInt(l.lin.add(r.lin, 1))
		case token.SUB:
			return svInt(d)
		case token.MUL:
			if len(l.lin.m) == 0 {
				return svInt(r.lin.scale(l.lin.c))
			}
			if len(r.lin.m) == 0 {
				return svInt(l.lin.scale(r.lin.c))
			}
		case token.GEQ:
			return sv{k: 'b', lin: d}
		case token.LSS:
			return sv{k: 'b', lin: d, neg: true}
		case token.LEQ:
			return sv{k: 'b', lin: d.scale(-1)}
		case token.GTR:
			return sv{k: 'b', lin: d.scale(-1), neg: true}
		case token.EQL:
			return sv{k: 'b', lin: d, eq: true}
		case token.NEQ:
			return sv{k: 'b', lin: d, eq: true, neg: true}
		}
		return svTop
	}
	if op != token.EQL && op != token.NEQ {
		return svTop
	}
	if l.k == '?' || r.k == '?' {
		return svTop
	}
	switch {
	case l.k == 's' && r.k == 's':
		return cmp(l.obj == r.obj)
	case l.k == 'b' && r.k == 'b':
		return svTop
	case l.k == 'n' || r.k == 'n':
		return cmp(l.k == r.k)
	case l.k == 'p' && r.k == 'p', l.k == 'g' && r.k == 'g', l.k == 'm' && r.k == 'm':
		return cmp(l.obj == r.obj && l.path == r.path)
	case (l.k == 'p' || l.k == 'g') && (r.k == 'p' || r.k == 'g'):
		return cmp(false)
	}
	return svTop
}

// assume: the facts under which the condition has the value.
func (a *shape) assume(s *shState, c sv, want bool) ([]lin, bool) {
	if c.k != 'b' {
		return nil, true
	}
	if c.neg {
		want = !want
	}
	pos := c.lin                            // >= 0
	neg := c.lin.scale(-1).add(linC(-1), 1) // < 0
	imposs := func(l lin, other lin) bool { // l >= 0 can not be: other >= 0 holds
		return other.nonNeg(s.facts)
	}
	if c.eq {
		ge, le := c.lin, c.lin.scale(-1)
		gt, lt := c.lin.add(linC(-1), 1), neg
		if want {
			if gt.nonNeg(s.facts) || lt.nonNeg(s.facts) {
				return nil, false
			}
			return []lin{ge, le}, true
		}
		if ge.nonNeg(s.facts) && le.nonNeg(s.facts) {
			return nil, false
		}
		if ge.nonNeg(s.facts) {
			return []lin{gt}, true
		}
		if le.nonNeg(s.facts) {
			return []lin{lt}, true
		}
		return nil, true
	}
	if want {
		if imposs(pos, neg) {
			return nil, false
		}
		return []lin{pos}, true
	}
	if imposs(neg, pos) {
		return nil, false
	}
	return []lin{neg}, true
}

func (a *shape) convert(s *shState, f *shFrame, x *ssa.Convert) sv {
	v := a.val(s, f, x.X)
	t := x.Type().Underlying()
	if isString(x.Type()) && (v.k == 'y' || v.k == 'n') {
		return a.textOf(s, v)
	}
	if _, ok := t.(*types.Slice); ok && v.k == 's' {
		return a.bytesOf(s, v, "conv:"+f.fn.Name()+":"+x.Name())
	}
	switch v.k {
	case 'i':
		if b, ok := t.(*types.Basic); ok && b.Info()&types.IsInteger != 0 {
			return v
		}
		return svTop
	case 'p', 'n', 's':
		return v
	}
	return svTop
}

func (a *shape) call(s *shState, f *shFrame, ci ssa.CallInstruction, ret ssa.Value, where string) ([]*shState, bool) {
	one := []*shState{s}
	cc := ci.Common()
	set := func(v sv) {
		if ret != nil {
			f.env[ret] = v
		}
	}
	var args []sv
	for _, x := range cc.Args {
		args = append(args, a.val(s, f, x))
	}
	if b, ok := cc.Value.(*ssa.Builtin); ok {
		return a.builtin(s, f, b.Name(), cc, args, set, where)
	}
	if op, _ := mutexOp(cc); op != "" {
		switch op {
		case "Lock", "RLock":
			s.lock++
			if s.lock == 1 && a.ro != nil && !a.vEmpty {
				var out []*shState
				for _, conf := range shConfs {
					n := a.install(s, conf)
					if !n.insec {
						n.first = "absent"
						if n.vhere {
							n.first = "present"
						}
					}
					n.insec = true
					out = append(out, n)
				}
				return out, true
			}
		case "Unlock", "RUnlock":
			s.lock--
			if s.lock == 0 && a.ro != nil && !a.vEmpty {
				seq := a.check(s, where, "when the lock is released")
				s.front = len(seq) > 0 && seq[0][0] != 'S' && s.cells[seq[0]+a.ro.text].obj == "V"
			}
		}
		return one, true
	}
	fn := cc.StaticCallee()
	var bind []sv
	if fn == nil && !cc.IsInvoke() {
		v := a.val(s, f, cc.Value)
		if v.k == 'f' {
			fn, bind = v.fn, v.bind
		}
	} else if mc, ok := cc.Value.(*ssa.MakeClosure); ok {
		for _, b := range mc.Bindings {
			bind = append(bind, a.val(s, f, b))
		}
	}
	if fn != nil && fn.Name() == "init" && fn.Synthetic != "" {
		return one, true
	}
	if fn != nil && fn.Blocks != nil && a.r.L.isRepoFn(fn) {
		if len(s.frames) > 20 {
			a.fail(where, "%s is called recursively", fn.Name())
			return nil, false
		}
		a.r.Funcs[fn.String()] = true
		a.enter(s, fn, args, bind, ret)
		return one, true
	}
	name := ""
	if fn != nil {
		name = fn.RelString(nil)
	} else if cc.IsInvoke() {
		name = cc.Method.FullName()
	}
	switch {
	case strings.HasPrefix(name, "sync/atomic.") || strings.HasPrefix(name, "(*sync/atomic."):
		p := args[0]
		if p.k != 'p' {
			set(svTop)
			return one, true
		}
		if name[0] == '(' {
			p.path += ".v"
		}
		old, ok := s.cells[p.obj+p.path]
		if !ok {
			old = svInt(linC(0))
		}
		base := name[strings.LastIndexByte(name, '.')+1:]
		switch {
		case strings.HasPrefix(base, "Add"):
			nv := svTop
			if old.k == 'i' && args[1].k == 'i' {
				nv = svInt(old.lin.add(args[1].lin, 1))
			}
			s.cells[p.obj+p.path] = nv
			set(nv)
		case strings.HasPrefix(base, "Swap"):
			s.cells[p.obj+p.path] = args[1]
			set(old)
		case strings.HasPrefix(base, "Store"):
			s.cells[p.obj+p.path] = args[1]
		case strings.HasPrefix(base, "Load"):
			set(old)
		default:
			set(svTop)
		}
		return one, true
	case name == "github.com/modern-go/reflect2.UnsafeCastString":
		if args[0].k == 's' && args[0].obj == "" {
			s.cells["cast#text"] = svText("")
			set(sv{k: 'y', obj: "cast"})
			return one, true
		}
		set(a.bytesOf(s, args[0], "cast"))
		return one, true
	case name == "strings.Clone":
		set(args[0])
		return one, true
	case name == "bytes.Clone":
		if args[0].k == 'n' {
			set(args[0])
		} else {
			set(a.bytesOf(s, a.textOf(s, args[0]), "clone"))
		}
		return one, true
	}
	// a node that is given away may change
	for _, v := range args {
		if v.k == 'p' && a.ro != nil && a.isNode(s, v.obj) || v.k == 'g' {
			a.fail(where, "an entry is given to %s", name)
			return nil, false
		}
	}
	set(svTop)
	return one, true
}

func (a *shape) builtin(s *shState, f *shFrame, name string, cc *ssa.CallCommon, args []sv, set func(sv), where string) ([]*shState, bool) {
	one := []*shState{s}
	switch name {
	case "len":
		switch args[0].k {
		case 's':
			set(a.textLen(args[0]))
		case 'y':
			set(svInt(args[0].lin))
		case 'n':
			set(svInt(linC(0)))
		case 'm':
			if a.ro != nil && args[0].obj == a.ro.mapObj {
				n := linC(int64(len(s.maps[args[0].obj])))
				for g := range s.segs {
					n = n.add(linV("n:"+g), 1)
				}
				set(svInt(n))
			} else {
				set(svTop)
			}
		default:
			set(svTop)
		}
	case "delete":
		if args[0].k != 'm' || args[1].k != 's' {
			a.fail(where, "what is removed from the map is not known")
			return nil, false
		}
		delete(s.maps[args[0].obj], args[1].obj)
	case "append":
		out := svTop
		text := svTop
		if len(args) > 1 {
			text = a.textOf(s, args[1])
		}
		switch {
		case text.k != 's':
		case args[0].k == 'n' || args[0].k == 'y' && args[0].lin.equal(linC(0)):
			if text.obj == "" {
				out = args[0]
			} else {
				out = a.bytesOf(s, text, "app:"+f.fn.Name()+":"+fmt.Sprint(f.b.Index, f.i))
			}
		case text.obj == "":
			out = args[0]
		}
		set(out)
	case "copy":
		text := a.textOf(s, args[1])
		n := a.textLen(text)
		if args[0].k == 'y' {
			if n.k == 'i' && n.lin.equal(args[0].lin) {
				s.cells[args[0].obj+"#text"] = text
			} else {
				s.cells[args[0].obj+"#text"] = svTop
			}
		}
		set(n)
	case "SliceData", "StringData":
		set(args[0])
	case "String":
		t := a.textOf(s, args[0])
		if n := a.textLen(t); n.k == 'i' && args[1].k == 'i' && n.lin.equal(args[1].lin) {
			set(t)
		} else {
			set(svTop)
		}
	default:
		set(svTop)
	}
	return one, true
}
