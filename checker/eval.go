package main

// Interprocedural gated value flow over go/ssa: every function of the
// repository is evaluated in its calling context over canonical value terms;
// values are joined (gated) at control flow merges, loops are summarised by
// one abstract iteration.

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math/big"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type Ctx struct {
	id     int
	parent *Ctx
	site   ssa.Instruction
	fn     *ssa.Function
	bind   string
	depth  int
}

type ctxKey struct {
	parent int
	site   ssa.Instruction
	fn     *ssa.Function
	bind   string
}

// bindKey identifies the captured variables of a function value.
func bindKey(bind []*Node) string {
	s := ""
	for _, b := range bind {
		s += fmt.Sprintf(",%d", b.id)
	}
	return s
}

// Loop is the summary of a loop in its calling context.
type Loop struct {
	id     int
	ctx    *Ctx
	header *ssa.BasicBlock
	parent *Loop
	blocks map[*ssa.BasicBlock]bool
	K, KX  *Term
	Phis   []*LoopPhi
	Cells  map[*Term]*LoopPhi // memory cells modified by the loop
	Havoc  map[string]map[string]bool
	Stay   *Node // condition (of an iteration) of taking the back edge
	Exits  []LoopExit
	Entry  *Node // full condition of entering the loop
	Over   *Node // ranged value (map or channel), if any
	Infin  bool
	unroll bool
}

type LoopPhi struct {
	Name string
	Phi  *ssa.Phi
	Addr *Term
	Mu   *Term
	Init *Node
	Step *Node
	Val  *Node // value at the start of an iteration
	typ  types.Type
}

type LoopExit struct {
	From, To *ssa.BasicBlock
	Cond     *Node
}

type Effect struct {
	Kind   string
	Name   string
	FV     *Node         // the function value, for calls of closures
	Fn     *ssa.Function // function containing the instruction
	Callee *ssa.Function
	Args   []*Node
	Res    *Node
	Cond   *Node // full condition since the entry point
	Loops  []*Loop
	Seq    int
	Mem    *Mem
	Instr  ssa.Instruction
	Ctx    *Ctx
	Gor    *Effect // the go statement of the goroutine it runs in
	Defer  bool
	Pure   bool
}

type State struct {
	cond *Node
	mem  *Mem
}

type edgeState struct {
	from *ssa.BasicBlock
	to   *ssa.BasicBlock
	st   *State
	pidx int
	pset bool
	pin  map[*ssa.Phi]*Node
	envs map[ssa.Value]*Node
}

type frame struct {
	e      *Engine
	ctx    *Ctx
	fn     *ssa.Function
	env    map[ssa.Value]*Node
	base   *Node // full condition of the current region
	loops  []*Loop
	iters  []*Node
	defers []*deferred
	rets   []retState
	info   *fnInfo
	isDef  bool
}

type deferred struct {
	instr *ssa.Defer
	fnv   *Node
	args  []*Node
	cond  *Node
}

type retState struct {
	st   *State
	vals []*Node
}

type Engine struct {
	L        *Loaded
	Opaque   func(fn *ssa.Function) bool
	Effects  []*Effect
	facts    []*Node
	ctxs     map[ctxKey]*Ctx
	loops    map[string]*Loop
	infos    map[*ssa.Function]*fnInfo
	seq      int
	steps    int
	maxSteps int
	gor      *Effect
	record   int // >0: discovery pass, effects are dropped
	loopsRec []*Loop
	Warn     []string
	initMem  *Mem
	UnrollTo int
	ExternHk func(e *Engine, fr *frame, name string, args []*Node, st *State, instr ssa.Instruction) (*Node, bool)
	modsets  map[*ssa.Function]map[string]bool
	entered  map[*ssa.Function]bool
	trace    bool
}

func NewEngine(l *Loaded) *Engine {
	return &Engine{L: l, ctxs: map[ctxKey]*Ctx{}, loops: map[string]*Loop{}, infos: map[*ssa.Function]*fnInfo{},
		maxSteps: 4000000, UnrollTo: 12, modsets: map[*ssa.Function]map[string]bool{}, entered: map[*ssa.Function]bool{}}
}

type tooComplex struct{ msg string }

func (e *Engine) warn(format string, args ...interface{}) {
	s := fmt.Sprintf(format, args...)
	for _, w := range e.Warn {
		if w == s {
			return
		}
	}
	e.Warn = append(e.Warn, s)
}

func (e *Engine) mkctx(parent *Ctx, site ssa.Instruction, fn *ssa.Function, bind []*Node) *Ctx {
	pid := -1
	d := 0
	if parent != nil {
		pid = parent.id
		d = parent.depth + 1
	}
	k := ctxKey{pid, site, fn, bindKey(bind)}
	if c, ok := e.ctxs[k]; ok {
		return c
	}
	c := &Ctx{id: len(e.ctxs), parent: parent, site: site, fn: fn, bind: k.bind, depth: d}
	e.ctxs[k] = c
	return c
}

// ---------------------------------------------------------------- function info

type fnInfo struct {
	rpo    []*ssa.BasicBlock
	idx    map[*ssa.BasicBlock]int
	loopOf map[*ssa.BasicBlock]*natLoop // innermost loop
	loops  map[*ssa.BasicBlock]*natLoop // by header
	instr  map[ssa.Instruction]int
	vals   map[ssa.Value]int
}

type natLoop struct {
	header *ssa.BasicBlock
	blocks map[*ssa.BasicBlock]bool
	parent *natLoop
}

func (e *Engine) info(fn *ssa.Function) *fnInfo {
	if i, ok := e.infos[fn]; ok {
		return i
	}
	in := &fnInfo{idx: map[*ssa.BasicBlock]int{}, loopOf: map[*ssa.BasicBlock]*natLoop{}, loops: map[*ssa.BasicBlock]*natLoop{},
		instr: map[ssa.Instruction]int{}, vals: map[ssa.Value]int{}}
	seen := map[*ssa.BasicBlock]bool{}
	var post []*ssa.BasicBlock
	var dfs func(b *ssa.BasicBlock)
	dfs = func(b *ssa.BasicBlock) {
		seen[b] = true
		for _, s := range b.Succs {
			if !seen[s] {
				dfs(s)
			}
		}
		post = append(post, b)
	}
	dfs(fn.Blocks[0])
	for i := len(post) - 1; i >= 0; i-- {
		in.idx[post[i]] = len(in.rpo)
		in.rpo = append(in.rpo, post[i])
	}
	n := 0
	for _, b := range in.rpo {
		for _, ins := range b.Instrs {
			in.instr[ins] = n
			n++
		}
	}
	// natural loops
	for _, b := range in.rpo {
		for _, s := range b.Succs {
			if in.idx[s] <= in.idx[b] && s.Dominates(b) {
				l := in.loops[s]
				if l == nil {
					l = &natLoop{header: s, blocks: map[*ssa.BasicBlock]bool{s: true}}
					in.loops[s] = l
				}
				var stack []*ssa.BasicBlock
				if !l.blocks[b] {
					l.blocks[b] = true
					stack = append(stack, b)
				}
				for len(stack) > 0 {
					x := stack[len(stack)-1]
					stack = stack[:len(stack)-1]
					for _, p := range x.Preds {
						if !l.blocks[p] && seen[p] {
							l.blocks[p] = true
							stack = append(stack, p)
						}
					}
				}
			}
		}
	}
	var ls []*natLoop
	for _, l := range in.loops {
		ls = append(ls, l)
	}
	sort.Slice(ls, func(i, j int) bool {
		if len(ls[i].blocks) != len(ls[j].blocks) {
			return len(ls[i].blocks) > len(ls[j].blocks)
		}
		return ls[i].header.Index < ls[j].header.Index
	})
	for _, l := range ls { // larger first, so the innermost wins
		for b := range l.blocks {
			in.loopOf[b] = l
		}
	}
	for _, l := range ls {
		for _, m := range ls {
			if m != l && m.blocks[l.header] && (l.parent == nil || len(m.blocks) < len(l.parent.blocks)) {
				l.parent = m
			}
		}
	}
	e.infos[fn] = in
	return in
}

// ---------------------------------------------------------------- states

func (e *Engine) merge(sts []*State) (*State, []*Node) {
	// returns merged state and the selector conditions (mux chain)
	if len(sts) == 1 {
		return sts[0], []*Node{T.True}
	}
	total := T.False
	for _, s := range sts {
		total = or(total, s.cond)
	}
	sels := make([]*Node, len(sts))
	for i, s := range sts {
		sels[i] = restrict(s.cond, total)
	}
	m := sts[len(sts)-1].mem
	for i := len(sts) - 2; i >= 0; i-- {
		m = e.mergeMem(sels[i], sts[i].mem, m)
	}
	return &State{cond: e.restrictFacts(total), mem: m}, sels
}

func (e *Engine) restrictFacts(c *Node) *Node {
	if isBool(c) {
		return c
	}
	for i := len(e.facts) - 1; i >= 0; i-- {
		if c.atom == nil {
			break
		}
		c = restrict(c, e.facts[i])
	}
	return c
}

func muxSel(sels []*Node, vals []*Node) *Node {
	v := vals[len(vals)-1]
	for i := len(vals) - 2; i >= 0; i-- {
		v = muxVal(sels[i], vals[i], v)
	}
	return v
}

// muxVal joins values; structs are joined field by field.
func muxVal(c, a, b *Node) *Node {
	if a == b || c == T.True {
		return a
	}
	if c == T.False {
		return b
	}
	if a.leaf != nil && b.leaf != nil && a.leaf.op == b.leaf.op && len(a.leaf.args) == len(b.leaf.args) &&
		(a.leaf.op == "struct" || a.leaf.op == "array" || a.leaf.op == "tuple") && a.leaf.aux == b.leaf.aux {
		args := make([]*Node, len(a.leaf.args))
		for i := range args {
			args[i] = muxVal(c, a.leaf.args[i], b.leaf.args[i])
		}
		return mkN(a.leaf.op, a.leaf.aux, a.leaf.obj, a.leaf.typ, args...)
	}
	return mux(c, a, b)
}

func (e *Engine) mergeMem(c *Node, a, b *Mem) *Mem {
	if a == b || c == T.True {
		return a
	}
	if c == T.False {
		return b
	}
	r := newMem()
	for _, k := range keysOf(a.regs) {
		ra := a.regs[k]
		rb, ok := b.regs[k]
		if ok && ra == rb {
			r.regs[k] = ra
			continue
		}
		if !ok {
			rb = e.baseFor(k, ra)
		}
		n := newRNode(rMerge)
		n.cond, n.a, n.b = c, ra, rb
		r.regs[k] = n
	}
	for _, k := range keysOf(b.regs) {
		rb := b.regs[k]
		if _, ok := a.regs[k]; ok {
			continue
		}
		n := newRNode(rMerge)
		n.cond, n.a, n.b = c, e.baseFor(k, rb), rb
		r.regs[k] = n
	}
	return r
}

func (e *Engine) baseFor(k string, other *RNode) *RNode {
	if b, ok := baseNodes[k]; ok {
		return b
	}
	// region written before it was ever read
	var find func(r *RNode) *RNode
	find = func(r *RNode) *RNode {
		for r != nil {
			if r.kind == rBase {
				return r
			}
			if r.kind == rMerge {
				return find(r.a)
			}
			r = r.prev
		}
		return nil
	}
	if b := find(other); b != nil {
		return b
	}
	b := newRNode(rBase)
	b.label = "0"
	b.zero = strings.HasPrefix(k, "A:") || strings.HasPrefix(k, "hA:")
	baseNodes[k] = b
	return b
}

func derefType(t types.Type) types.Type {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return t
}

func fieldAddrTerm(base *Node, st types.Type, i int) *Node {
	s := st.Underlying().(*types.Struct)
	f := s.Field(i)
	aux := shortType(st) + "." + f.Name()
	return apply1(base, func(b *Term) *Node {
		if b.op == "nil" {
			return T.Nil
		}
		return mkN("fieldaddr", aux, f, types.NewPointer(f.Type()), leafNode(b))
	})
}

func indexAddrTerm(data *Node, idx *Node, et types.Type) *Node {
	return apply1(data, func(d *Term) *Node {
		if d.op == "nil" {
			return T.Nil
		}
		return mkN("indexaddr", elemTypeString(et), nil, types.NewPointer(et), leafNode(d), idx)
	})
}

// loadAt reads a value of the given type.
func (e *Engine) loadAt(m *Mem, addr *Node, typ types.Type) *Node {
	if addr.atom != nil {
		gl := guardedLeaves(addr)
		var v *Node
		for i := len(gl) - 1; i >= 0; i-- {
			if gl[i].T.op == "nil" {
				continue
			}
			x := e.loadAt(m, leafNode(gl[i].T), typ)
			if v == nil {
				v = x
			} else {
				v = muxVal(gl[i].Cond, x, v)
			}
		}
		if v == nil {
			return zeroOf(typ)
		}
		return v
	}
	a := addr.leaf
	if a.op == "nil" {
		return zeroOf(typ)
	}
	if st, ok := expandable(typ); ok {
		args := make([]*Node, st.NumFields())
		for i := range args {
			args[i] = e.loadAt(m, fieldAddrTerm(addr, typ, i), st.Field(i).Type())
		}
		return mkN("struct", typeKey(typ), typ, typ, args...)
	}
	if at, ok := typ.Underlying().(*types.Array); ok && smallArray(at) {
		args := make([]*Node, at.Len())
		for i := range args {
			args[i] = e.loadAt(m, indexAddrTerm(addr, intConst(int64(i)), at.Elem()), at.Elem())
		}
		return mkN("array", typeKey(typ), typ, typ, args...)
	}
	// string view of a byte slice cell
	if b, ok := typ.Underlying().(*types.Basic); ok && b.Kind() == types.String {
		if pt, ok := cellType(a).(*types.Slice); ok {
			_ = pt
			return viewString(e.loadAt(m, addr, cellType(a)))
		}
	}
	root := addrRoot(a)
	if a == root && a.op == "global" && isErrorType(typ) {
		// error values of other packages (io.EOF) are never reassigned
		if g, ok := a.obj.(*ssa.Global); ok && g.Pkg != nil && !e.L.isRepo(g.Pkg.Pkg) {
			return loadSym("0", a, typ, nil)
		}
	}
	key := regionKey(a)
	if a.op == "indexaddr" {
		if v := e.tableLoad(m, key, a); v != nil {
			return v
		}
	}
	return rread(m.region(key, root), a, typ)
}

// tableLoad reads an element of an array variable that only the package
// initialisers write.
func (e *Engine) tableLoad(m *Mem, key string, a *Term) *Node {
	if e.initMem == nil {
		return nil
	}
	g := a.args[0].leaf
	if g == nil || g.op != "global" {
		return nil
	}
	r := e.initMem.regs[key]
	if r == nil || m.regs[key] != r {
		return nil
	}
	if _, ok := constInt64(a.args[1]); ok {
		return nil
	}
	gl, ok := g.obj.(*ssa.Global)
	if !ok {
		return nil
	}
	at, ok := derefType(gl.Type()).Underlying().(*types.Array)
	if !ok || !smallArray(at) {
		return nil
	}
	args := make([]*Node, at.Len())
	cnt := map[*Node]int{}
	most := 0
	for i := range args {
		args[i] = rread(r, indexAddrTerm(a.args[0], intConst(int64(i)), at.Elem()).leaf, at.Elem())
		if args[i].leaf == nil || args[i].leaf.op == "load" {
			return nil
		}
		cnt[args[i]]++
		if cnt[args[i]] > most {
			most = cnt[args[i]]
		}
	}
	arr := mkN("array", typeKey(derefType(gl.Type())), derefType(gl.Type()), derefType(gl.Type()), args...)
	if len(args)-most > 48 {
		return symNode(mk("index", "", nil, at.Elem(), arr, a.args[1]))
	}
	return getIndex(arr, a.args[1], at.Elem())
}

func cellType(a *Term) types.Type {
	if p, ok := a.typ.(*types.Pointer); ok {
		return p.Elem().Underlying()
	}
	return nil
}

func viewString(n *Node) *Node {
	return apply1(n, func(t *Term) *Node {
		if t.op == "nil" {
			return strConst("")
		}
		return mkN("strview", "", nil, types.Typ[types.String], leafNode(t))
	})
}

func (e *Engine) storeAt(m *Mem, addr *Node, val *Node, typ types.Type, guard *Node) {
	if addr.atom != nil {
		for _, g := range guardedLeaves(addr) {
			if g.T.op != "nil" {
				e.storeAt(m, leafNode(g.T), val, typ, and(guard, g.Cond))
			}
		}
		return
	}
	a := addr.leaf
	if a.op == "nil" {
		return
	}
	if st, ok := expandable(typ); ok {
		for i := 0; i < st.NumFields(); i++ {
			e.storeAt(m, fieldAddrTerm(addr, typ, i), getField(val, st, i), st.Field(i).Type(), guard)
		}
		return
	}
	if at, ok := typ.Underlying().(*types.Array); ok && smallArray(at) {
		for i := 0; i < int(at.Len()); i++ {
			e.storeAt(m, indexAddrTerm(addr, intConst(int64(i)), at.Elem()), getIndex(val, intConst(int64(i)), at.Elem()), at.Elem(), guard)
		}
		return
	}
	root := addrRoot(a)
	key := regionKey(a)
	prev := m.region(key, root)
	n := newRNode(rWrite)
	n.prev, n.guard, n.addr, n.val = prev, guard, a, val
	m.regs[key] = n
}

func (e *Engine) havocRegion(m *Mem, key string, label string, args []*Node, match map[string]bool) {
	prev, ok := m.regs[key]
	if !ok {
		prev = m.region(key, rootOfKey(key))
	}
	n := newRNode(rHavoc)
	n.prev, n.label, n.args, n.match = prev, label, args, match
	m.regs[key] = n
}

func rootOfKey(key string) *Term {
	if strings.HasPrefix(key, "A:") || strings.HasPrefix(key, "hA:") {
		var id int
		fmt.Sscanf(key[strings.Index(key, ":")+1:], "%d", &id)
		for _, t := range T.terms {
			if t.id == id {
				return t
			}
		}
	}
	return nil
}

func getField(n *Node, st *types.Struct, i int) *Node {
	return apply1v(n, func(t *Term) *Node {
		if t.op == "struct" && i < len(t.args) {
			return t.args[i]
		}
		if t.op == "nil" {
			return zeroOf(st.Field(i).Type())
		}
		return symNode(mk("field", st.Field(i).Name(), nil, st.Field(i).Type(), leafNode(t)))
	})
}

// apply1v is apply1 with a structural join.
func apply1v(a *Node, f func(*Term) *Node) *Node {
	if a.atom == nil {
		return f(a.leaf)
	}
	memo := map[*Node]*Node{}
	var rec func(a *Node) *Node
	rec = func(a *Node) *Node {
		if r, ok := memo[a]; ok {
			return r
		}
		var r *Node
		if a.atom == nil {
			r = f(a.leaf)
		} else {
			r = muxVal(atomNode(a.atom), rec(a.hi), rec(a.lo))
		}
		memo[a] = r
		return r
	}
	return rec(a)
}

func getIndex(n *Node, idx *Node, et types.Type) *Node {
	return apply1v(n, func(t *Term) *Node {
		if t.op == "array" {
			if k, ok := constInt64(idx); ok {
				if k >= 0 && int(k) < len(t.args) {
					return t.args[k]
				}
				return T.Nil
			}
			// start from the most frequent element
			cnt := map[*Node]int{}
			v := t.args[len(t.args)-1]
			for _, a := range t.args {
				cnt[a]++
				if cnt[a] > cnt[v] {
					v = a
				}
			}
			dflt := v
			for i := len(t.args) - 1; i >= 0; i-- {
				if t.args[i] != dflt {
					v = muxVal(eq(idx, intConst(int64(i))), t.args[i], v)
				}
			}
			return v
		}
		if t.op == "zeroarray" {
			return zeroOf(et)
		}
		return symNode(mk("index", "", nil, et, leafNode(t), idx))
	})
}

// ---------------------------------------------------------------- slices and strings

func sliceData(n *Node) *Node {
	return apply1(n, func(t *Term) *Node {
		switch t.op {
		case "slice":
			return t.args[0]
		case "nil":
			return T.Nil
		}
		return mkN("sdata", "", nil, nil, leafNode(t))
	})
}

func sliceOff(n *Node) *Node {
	return apply1(n, func(t *Term) *Node {
		if t.op == "slice" {
			return t.args[1]
		}
		return intConst(0)
	})
}

func lenOf(n *Node) *Node {
	return apply1(n, func(t *Term) *Node {
		switch t.op {
		case "slice":
			return t.args[2]
		case "nil":
			return intConst(0)
		case "const":
			if s, ok := t.obj.(string); ok {
				return intConst(int64(len(s)))
			}
		case "append":
			return add(lenOf(t.args[0]), intConst(int64(len(t.args)-1)))
		case "appends":
			return add(lenOf(t.args[0]), lenOf(t.args[1]))
		case "substr":
			return sub(t.args[2], t.args[1])
		case "strview", "str", "bytes":
			return lenOf(t.args[0])
		case "strof":
			return intConst(int64(len(t.args)))
		case "concat":
			return add(lenOf(t.args[0]), lenOf(t.args[1]))
		case "array":
			return intConst(int64(len(t.args)))
		}
		if t.typ != nil {
			if a, ok := t.typ.Underlying().(*types.Array); ok {
				return intConst(a.Len())
			}
		}
		return mkN("len", "", nil, types.Typ[types.Int], leafNode(t))
	})
}

func capOf(n *Node) *Node {
	return apply1(n, func(t *Term) *Node {
		switch t.op {
		case "slice":
			return t.args[3]
		case "nil":
			return intConst(0)
		}
		if t.typ != nil {
			if a, ok := t.typ.Underlying().(*types.Array); ok {
				return intConst(a.Len())
			}
		}
		return mkN("cap", "", nil, types.Typ[types.Int], leafNode(t))
	})
}

// mkSlice builds the canonical slice value.
func mkSlice(data, off, ln, cp *Node, typ types.Type) *Node {
	if d := data.leaf; d != nil {
		if d.op == "nil" {
			return T.Nil
		}
		if d.op == "sdata" && off == intConst(0) {
			s := d.args[0]
			if ln == lenOf(s) && cp == capOf(s) {
				return s
			}
		}
	}
	if data.atom != nil {
		return apply1(data, func(d *Term) *Node { return mkSlice(leafNode(d), off, ln, cp, typ) })
	}
	return mkN("slice", "", nil, typ, data, off, ln, cp)
}

func mkAppend(s *Node, elems []*Node, typ types.Type) *Node {
	if len(elems) == 0 {
		return s
	}
	return mkN("append", "", nil, typ, append([]*Node{s}, elems...)...)
}

func concat(a, b *Node) *Node {
	return apply2(a, b, func(x, y *Term) *Node {
		xs, ok1 := constString(leafNode(x))
		ys, ok2 := constString(leafNode(y))
		if ok1 && ok2 {
			return strConst(xs + ys)
		}
		if ok1 && xs == "" {
			return leafNode(y)
		}
		if ok2 && ys == "" {
			return leafNode(x)
		}
		return mkN("concat", "", nil, types.Typ[types.String], leafNode(x), leafNode(y))
	})
}

// ---------------------------------------------------------------- arithmetic

func bitsOf(t types.Type) (int, bool) { // width, unsigned
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		return 64, false
	}
	switch b.Kind() {
	case types.Int8:
		return 8, false
	case types.Int16:
		return 16, false
	case types.Int32, types.UntypedRune:
		return 32, false
	case types.Uint8:
		return 8, true
	case types.Uint16:
		return 16, true
	case types.Uint32:
		return 32, true
	case types.Uint, types.Uint64, types.Uintptr:
		return 64, true
	}
	return 64, false
}

func isInteger(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}

func isFloat(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsFloat != 0
}

func isString(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

func isBoolType(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsBoolean != 0
}

func wrapConst(v *big.Int, t types.Type) *big.Int {
	w, uns := bitsOf(t)
	m := new(big.Int).Lsh(big.NewInt(1), uint(w))
	r := new(big.Int).Mod(v, m)
	if !uns && r.Cmp(new(big.Int).Rsh(m, 1)) >= 0 {
		r.Sub(r, m)
	}
	return r
}

func arith(op token.Token, a, b *Node, t types.Type) *Node {
	if isString(t) && op == token.ADD {
		return concat(a, b)
	}
	if bt, ok := t.Underlying().(*types.Basic); ok && bt.Kind() == types.Uintptr && op == token.ADD {
		isPtr := func(n *Node) bool {
			for _, x := range leafTerms(n) {
				if x.lin == nil && (x.typ == nil || !isInteger(x.typ) || x.op == "ptradd") {
					return true
				}
			}
			return false
		}
		if isPtr(a) {
			return ptrAdd(a, b)
		}
	}
	if !isInteger(t) {
		return mkN("bin", op.String(), t, t, a, b)
	}
	switch op {
	case token.ADD:
		return foldWrap(add(a, b), t)
	case token.SUB:
		return foldWrap(sub(a, b), t)
	case token.MUL:
		return foldWrap(apply2(a, b, mulT), t)
	case token.SHL:
		if k, ok := constInt64(b); ok && k >= 0 && k < 64 {
			return foldWrap(apply2(a, bigConst(new(big.Int).Lsh(big.NewInt(1), uint(k))), mulT), t)
		}
	}
	return apply2(a, b, func(x, y *Term) *Node { return bitop(op, x, y, t) })
}

func foldWrap(n *Node, t types.Type) *Node {
	if w, _ := bitsOf(t); w < 64 || true {
		if n.leaf != nil {
			if v, ok := isIntConst(n); ok {
				return bigConst(wrapConst(v, t))
			}
		}
	}
	return n
}

func bitop(op token.Token, x, y *Term, t types.Type) *Node {
	xn, yn := leafNode(x), leafNode(y)
	xv, ok1 := isIntConst(xn)
	yv, ok2 := isIntConst(yn)
	if ok1 && ok2 {
		r := new(big.Int)
		switch op {
		case token.AND:
			return bigConst(r.And(xv, yv))
		case token.OR:
			return bigConst(r.Or(xv, yv))
		case token.XOR:
			return bigConst(wrapConst(r.Xor(xv, yv), t))
		case token.AND_NOT:
			return bigConst(r.AndNot(xv, yv))
		case token.SHL:
			if yv.IsInt64() && yv.Int64() < 256 {
				return bigConst(wrapConst(r.Lsh(xv, uint(yv.Int64())), t))
			}
		case token.SHR:
			if yv.IsInt64() && yv.Int64() < 256 {
				return bigConst(r.Rsh(xv, uint(yv.Int64())))
			}
			return intConst(0)
		case token.QUO:
			if yv.Sign() != 0 {
				return bigConst(r.Quo(xv, yv))
			}
		case token.REM:
			if yv.Sign() != 0 {
				return bigConst(r.Rem(xv, yv))
			}
		}
	}
	zero := func(v *big.Int, ok bool) bool { return ok && v.Sign() == 0 }
	switch op {
	case token.OR, token.XOR:
		if zero(xv, ok1) {
			return yn
		}
		if zero(yv, ok2) {
			return xn
		}
	case token.AND:
		if zero(xv, ok1) || zero(yv, ok2) {
			return intConst(0)
		}
	case token.SHR:
		if zero(yv, ok2) {
			return xn
		}
		// (x >> a) >> b
		if ok2 && x.op == "bin" && x.aux == ">>" {
			if k, ok := isIntConst(x.args[1]); ok {
				return bitop(token.SHR, x.args[0].leaf, bigConst(new(big.Int).Add(k, yv)).leaf, t)
			}
		}
	case token.QUO:
		if ok2 && yv.Cmp(big.NewInt(1)) == 0 {
			return xn
		}
	}
	if op == token.AND || op == token.OR || op == token.XOR {
		// commutative: constant last, otherwise by id
		if ok1 || (!ok2 && x.id > y.id) {
			xn, yn = yn, xn
		}
	}
	return mkN("bin", op.String(), t, t, xn, yn)
}

func (e *Engine) compare(op token.Token, a, b *Node, t types.Type) *Node {
	switch op {
	case token.EQL:
		return eq(a, b)
	case token.NEQ:
		return not(eq(a, b))
	}
	if isInteger(t) {
		switch op {
		case token.LSS:
			return lessThan(a, b)
		case token.LEQ:
			return lessEq(a, b)
		case token.GTR:
			return lessThan(b, a)
		case token.GEQ:
			return lessEq(b, a)
		}
	}
	// strings and floats: uninterpreted strict order
	lt := func(a, b *Node) *Node {
		return apply2(a, b, func(x, y *Term) *Node {
			return leafBool(mk("lt", "", nil, types.Typ[types.Bool], leafNode(x), leafNode(y)))
		})
	}
	switch op {
	case token.LSS:
		return lt(a, b)
	case token.GTR:
		return lt(b, a)
	case token.LEQ:
		if isFloat(t) {
			return or(lt(a, b), eq(a, b))
		}
		return not(lt(b, a))
	case token.GEQ:
		if isFloat(t) {
			return or(lt(b, a), eq(a, b))
		}
		return not(lt(a, b))
	}
	return leafBool(mk("cmp", op.String(), nil, types.Typ[types.Bool], a, b))
}

// rangeOf bounds the value of an integer term.
func rangeOf(t *Term) (lo, hi *big.Int) {
	if t.op == "const" && t.lin != nil {
		return t.lin.k, t.lin.k
	}
	switch t.op {
	case "len", "cap", "K", "Kx":
		return new(big.Int), new(big.Int).Lsh(big.NewInt(1), 62)
	case "lin":
		lo, hi = new(big.Int).Set(t.lin.k), new(big.Int).Set(t.lin.k)
		for i, x := range t.lin.ts {
			l, h := rangeOf(x)
			if l == nil {
				return nil, nil
			}
			c := t.lin.cs[i]
			p, q := new(big.Int).Mul(l, c), new(big.Int).Mul(h, c)
			if c.Sign() < 0 {
				p, q = q, p
			}
			lo.Add(lo, p)
			hi.Add(hi, q)
		}
		return lo, hi
	case "bin":
		if t.aux == "&" {
			if v, ok := isIntConst(t.args[1]); ok && v.Sign() >= 0 {
				return new(big.Int), v
			}
		}
		if t.aux == ">>" && t.args[0].leaf != nil {
			l, h := rangeOf(t.args[0].leaf)
			if k, ok := isIntConst(t.args[1]); ok && l != nil && l.Sign() >= 0 {
				return new(big.Int).Rsh(l, uint(k.Int64())), new(big.Int).Rsh(h, uint(k.Int64()))
			}
		}
	case "byte":
		return new(big.Int), big.NewInt(255)
	}
	if t.typ != nil && isInteger(t.typ) && t.op != "lin" {
		w, uns := bitsOf(t.typ)
		if uns {
			return new(big.Int), new(big.Int).Sub(new(big.Int).Lsh(big.NewInt(1), uint(w)), big.NewInt(1))
		}
		h := new(big.Int).Lsh(big.NewInt(1), uint(w-1))
		return new(big.Int).Neg(h), new(big.Int).Sub(h, big.NewInt(1))
	}
	return nil, nil
}

func stripConv(n *Node) *Node {
	for n.leaf != nil && n.leaf.op == "conv" {
		w, _ := bitsOf(n.leaf.typ)
		if w < 64 {
			return n
		}
		n = n.leaf.args[0]
	}
	return n
}

// byteOf is byte number k (0: least significant) of x
func byteOf(x *Node, k int) *Node {
	x = stripConv(x)
	if v, ok := isIntConst(x); ok {
		r := new(big.Int).Rsh(v, uint(8*k))
		return bigConst(r.And(r, big.NewInt(255)))
	}
	return mkN("byte", fmt.Sprint(k), nil, types.Typ[types.Uint8], x)
}

func (e *Engine) convert(n *Node, from, to types.Type) *Node {
	if types.Identical(from.Underlying(), to.Underlying()) {
		return n
	}
	fb, fok := from.Underlying().(*types.Basic)
	tb, tok := to.Underlying().(*types.Basic)
	if fok && tok && fb.Info()&types.IsInteger != 0 && tb.Info()&types.IsInteger != 0 {
		return apply1(n, func(t *Term) *Node { return convInt(t, to) })
	}
	if fok && tok && tb.Kind() == types.UnsafePointer && fb.Kind() == types.Uintptr {
		return n
	}
	if fok && tok && fb.Kind() == types.UnsafePointer && tb.Kind() == types.Uintptr {
		return n
	}
	if tok && tb.Kind() == types.UnsafePointer || fok && fb.Kind() == types.UnsafePointer {
		return n
	}
	if tok && tb.Info()&types.IsFloat != 0 || fok && fb.Info()&types.IsFloat != 0 {
		return mkN("fconv", shortType(to), nil, to, n)
	}
	if tok && tb.Info()&types.IsString != 0 {
		if _, ok := from.Underlying().(*types.Slice); ok {
			return nil // needs memory
		}
		return mkN("runestr", "", nil, to, n)
	}
	if fok && fb.Info()&types.IsString != 0 {
		return apply1(n, func(t *Term) *Node {
			if sl, ok := to.Underlying().(*types.Slice); ok {
				if b, ok := sl.Elem().Underlying().(*types.Basic); ok && b.Kind() != types.Uint8 {
					return mkN("runes", "", nil, to, leafNode(t))
				}
			}
			return mkN("bytes", "", nil, to, leafNode(t))
		})
	}
	return n
}

func convInt(t *Term, to types.Type) *Node {
	if v, ok := isIntConst(leafNode(t)); ok {
		return bigConst(wrapConst(v, to))
	}
	w, uns := bitsOf(to)
	lo, hi := rangeOf(t)
	if lo != nil {
		var tl, th *big.Int
		if uns {
			tl, th = new(big.Int), new(big.Int).Sub(new(big.Int).Lsh(big.NewInt(1), uint(w)), big.NewInt(1))
		} else {
			h := new(big.Int).Lsh(big.NewInt(1), uint(w-1))
			tl, th = new(big.Int).Neg(h), new(big.Int).Sub(h, big.NewInt(1))
		}
		if lo.Cmp(tl) >= 0 && hi.Cmp(th) <= 0 {
			return leafNode(t)
		}
	}
	if w == 8 && uns {
		// byte extraction
		x := t
		if x.op == "bin" && x.aux == "&" {
			if v, ok := isIntConst(x.args[1]); ok && v.Cmp(big.NewInt(255)) == 0 && x.args[0].leaf != nil {
				x = x.args[0].leaf
			}
		}
		if x.op == "bin" && x.aux == ">>" {
			if k, ok := constInt64(x.args[1]); ok && k%8 == 0 {
				return byteOf(x.args[0], int(k/8))
			}
		}
		if b, ok := x.typ.(types.Type); ok && b != nil {
			if bw, _ := bitsOf(b); bw == 64 && x.op != "lin" {
				return byteOf(leafNode(x), 0)
			}
		}
	}
	if t.op == "conv" && t.args[0].leaf != nil {
		// reinterpretation of the same width and back
		iw, _ := bitsOf(t.typ)
		src := t.args[0].leaf
		if iw >= w && src.typ != nil {
			sw, suns := bitsOf(src.typ)
			if sw == w && suns == uns && src.op != "lin" {
				return leafNode(src)
			}
			if iw == 64 && w <= 64 {
				return convInt(src, to)
			}
		}
	}
	return mkN("conv", typeKey(to.Underlying()), nil, to.Underlying(), leafNode(t))
}

// ---------------------------------------------------------------- substitution

type substKey struct{ n, from, to int }

var substMemo = map[substKey]*Node{}
var containsMemo = map[[2]int]bool{}

func containsFast(n *Node, t *Term) bool {
	var vt func(x *Term) bool
	var vn func(n *Node) bool
	vn = func(n *Node) bool {
		k := [2]int{n.id, t.id}
		if r, ok := containsMemo[k]; ok {
			return r
		}
		var r bool
		if n.atom == nil {
			r = vt(n.leaf)
		} else {
			r = vt(n.atom) || vn(n.hi) || vn(n.lo)
		}
		containsMemo[k] = r
		return r
	}
	vt = func(x *Term) bool {
		if x == t {
			return true
		}
		if x.op == "lin" {
			for _, y := range x.lin.ts {
				if vn(leafNode(y)) {
					return true
				}
			}
		}
		for _, a := range x.args {
			if vn(a) {
				return true
			}
		}
		return false
	}
	return vn(n)
}

// subst replaces a term by a value everywhere and renormalises.
func subst(n *Node, from *Term, to *Node) *Node {
	if !containsFast(n, from) {
		return n
	}
	k := substKey{n.id, from.id, to.id}
	if r, ok := substMemo[k]; ok {
		return r
	}
	var r *Node
	if n.atom == nil {
		r = substT(n.leaf, from, to)
	} else {
		r = muxVal(toBool(substT(n.atom, from, to)), subst(n.hi, from, to), subst(n.lo, from, to))
	}
	substMemo[k] = r
	return r
}

func substT(t *Term, from *Term, to *Node) *Node {
	if t == from {
		return to
	}
	if t.op == "lin" {
		r := bigConst(t.lin.k)
		for i, x := range t.lin.ts {
			v := subst(leafNode(x), from, to)
			c := t.lin.cs[i]
			v = apply1(v, func(y *Term) *Node { return linNode(linScale(linOf(y), c)) })
			r = add(r, v)
		}
		return r
	}
	if len(t.args) == 0 {
		return symNode2(t)
	}
	args := make([]*Node, len(t.args))
	same := true
	for i, a := range t.args {
		args[i] = subst(a, from, to)
		if args[i] != a {
			same = false
		}
	}
	if same {
		return symNode2(t)
	}
	return rebuild(t, args)
}

func symNode2(t *Term) *Node {
	if t == T.True.leaf || t == T.False.leaf {
		return leafNode(t)
	}
	if t.typ != nil && isBoolType(t.typ) {
		return leafBool(t)
	}
	return leafNode(t)
}

func rebuild(t *Term, args []*Node) *Node {
	switch t.op {
	case "le0":
		return apply1(args[0], le0T)
	case "eq0":
		return apply1(args[0], eq0T)
	case "eqc":
		c := t.obj.(*Term)
		return apply1(args[0], func(x *Term) *Node { return eqT(x, c) })
	case "eq":
		return eq(args[0], args[1])
	case "isnil":
		return apply1(args[0], isNil)
	case "len":
		if t.aux == "" {
			return lenOf(args[0])
		}
	case "cap":
		return capOf(args[0])
	case "sdata":
		return sliceData(args[0])
	case "mul":
		return apply2(args[0], args[1], mulT)
	case "bin":
		if isInteger(t.typ) {
			op := map[string]token.Token{"&": token.AND, "|": token.OR, "^": token.XOR, "&^": token.AND_NOT, "<<": token.SHL, ">>": token.SHR, "/": token.QUO, "%": token.REM}[t.aux]
			return apply2(args[0], args[1], func(x, y *Term) *Node { return bitop(op, x, y, t.typ) })
		}
	case "conv":
		return apply1(args[0], func(x *Term) *Node { return convInt(x, t.typ) })
	case "byte":
		var k int
		fmt.Sscan(t.aux, &k)
		return apply1(args[0], func(x *Term) *Node { return byteOf(leafNode(x), k) })
	case "concat":
		return concat(args[0], args[1])
	case "indexaddr":
		return apply1(args[0], func(d *Term) *Node {
			return leafNode(mk("indexaddr", t.aux, t.obj, t.typ, leafNode(d), args[1]))
		})
	case "slice":
		return mkSlice(args[0], args[1], args[2], args[3], t.typ)
	case "index":
		return getIndex(args[0], args[1], t.typ)
	case "load":
		if a := args[0].leaf; a != nil {
			return symNodeRaw(mk("load", t.aux, a, t.typ, args...))
		}
		return apply1v(args[0], func(a *Term) *Node {
			return symNodeRaw(mk("load", t.aux, a, t.typ, append([]*Node{leafNode(a)}, args[1:]...)...))
		})
	}
	if t.op == "fieldaddr" || t.op == "sdata" {
		return apply1(args[0], func(d *Term) *Node {
			return leafNode(mk(t.op, t.aux, t.obj, t.typ, leafNode(d)))
		})
	}
	return symNodeRaw(mk(t.op, t.aux, t.obj, t.typ, args...))
}

func symNodeRaw(t *Term) *Node {
	if t.typ != nil && isBoolType(t.typ) {
		return leafBool(t)
	}
	return leafNode(t)
}

// fold a concrete value
func foldConst(v constant.Value, typ types.Type) *Node { return constNode(v, typ) }
