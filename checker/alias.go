package main

// Sharing of recycled memory: which values share memory with an object that
// came from a pool or with the buffer of a parser, and where such a value ends
// up.  A flow-insensitive, field-insensitive, interprocedural dataflow
// analysis over the SSA form, with one summary per function and combination of
// constant boolean arguments.
//
// A value carries labels.  Kind P: the value refers to the memory of the
// source.  Kind V: a string header that was made of such memory without a
// copy.  An ordinary load of a string drops P (a string that is stored in
// recycled memory is itself immutable), but keeps V.

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type alabel struct {
	src  interface{} // ssa.Instruction of the source, or int: parameter
	from byte        // kind at the parameter
	kind byte
}

type aset map[alabel]bool

func (s aset) union(o aset) {
	for l := range o {
		s[l] = true
	}
}

type aroot interface{} // ssa.Value: local object; int: parameter; *ssa.Global

type rootset map[aroot]bool

func (s rootset) union(o rootset) {
	for l := range o {
		s[l] = true
	}
}

type aflow struct {
	lab alabel
	to  int
}

type aleak struct {
	lab   alabel
	where string
	what  string
}

type asummary struct {
	fn     *ssa.Function
	consts map[int]bool
	ret    []aset
	roots  []rootset // parameters and globals that a result may point into
	flows  map[aflow]bool
	leaks  map[aleak]bool
}

func (s *asummary) size() int {
	n := len(s.flows) + len(s.leaks)
	for i := range s.ret {
		n += len(s.ret[i]) + len(s.roots[i])
	}
	return n
}

type aliasAn struct {
	r    *Report
	sums map[string]*asummary
	ord  []string
	dyn  []*ssa.Function // functions whose value is taken
	n    int
}

// holds: values of the type refer to memory (strings included).
func holds(t types.Type) bool { return holds1(t, map[types.Type]bool{}) }

func holds1(t types.Type, seen map[types.Type]bool) bool {
	if seen[t] {
		return false
	}
	seen[t] = true
	switch u := t.Underlying().(type) {
	case *types.Basic:
		return u.Info()&types.IsString != 0 || u.Kind() == types.UnsafePointer || u.Kind() == types.Uintptr
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if holds1(u.Field(i).Type(), seen) {
				return true
			}
		}
		return false
	case *types.Array:
		return holds1(u.Elem(), seen)
	case *types.Tuple:
		for i := 0; i < u.Len(); i++ {
			if holds1(u.At(i).Type(), seen) {
				return true
			}
		}
		return false
	}
	return true
}

// onlyStrings: the only references in values of the type are strings.
func onlyStrings(t types.Type) bool {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		return u.Kind() != types.UnsafePointer && u.Kind() != types.Uintptr
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if !onlyStrings(u.Field(i).Type()) {
				return false
			}
		}
		return true
	case *types.Array:
		return onlyStrings(u.Elem())
	}
	return false
}

// plain: the labels of a value that is read from memory with the labels s.
func plain(s aset, t types.Type) aset {
	if !holds(t) || isErrorType(t) {
		return nil
	}
	if !onlyStrings(t) {
		return s
	}
	o := aset{}
	for l := range s {
		if l.kind == 'V' {
			o[l] = true
		}
	}
	return o
}

func toV(s aset) aset {
	o := aset{}
	for l := range s {
		l.kind = 'V'
		o[l] = true
	}
	return o
}

func isPoolMethod(c *ssa.CallCommon, name string) bool {
	fn := c.StaticCallee()
	return fn != nil && fn.Name() == name && strings.HasSuffix(fn.String(), "(*sync.Pool)."+name)
}

func (an *aliasAn) summary(fn *ssa.Function, consts map[int]bool) *asummary {
	k := fmt.Sprintf("%p", fn)
	for i := range fn.Params {
		if v, ok := consts[i]; ok {
			k += fmt.Sprintf(" %d=%v", i, v)
		}
	}
	if s, ok := an.sums[k]; ok {
		return s
	}
	s := &asummary{fn: fn, consts: consts, flows: map[aflow]bool{}, leaks: map[aleak]bool{}}
	for i := 0; i < fn.Signature.Results().Len(); i++ {
		s.ret = append(s.ret, aset{})
		s.roots = append(s.roots, rootset{})
	}
	an.sums[k] = s
	an.ord = append(an.ord, k)
	return s
}

func (an *aliasAn) solve() {
	for round := 0; ; round++ {
		before, cnt := 0, len(an.ord)
		for _, s := range an.sums {
			before += s.size()
		}
		for i := 0; i < len(an.ord); i++ {
			an.analyse(an.sums[an.ord[i]])
		}
		after := 0
		for _, s := range an.sums {
			after += s.size()
		}
		if after == before && len(an.ord) == cnt {
			return
		}
	}
}

type afun struct {
	an    *aliasAn
	fn    *ssa.Function
	sum   *asummary
	lab   map[ssa.Value]aset
	rts   map[ssa.Value]rootset
	con   map[aroot]aset    // labels of what the object contains
	crts  map[aroot]rootset // objects that the object points to
	alive map[*ssa.BasicBlock]bool
}

// reachable: blocks, given the constant parameters.
func (f *afun) reachable() {
	f.alive = map[*ssa.BasicBlock]bool{}
	var visit func(b *ssa.BasicBlock)
	visit = func(b *ssa.BasicBlock) {
		if f.alive[b] {
			return
		}
		f.alive[b] = true
		if iff, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If); ok {
			if v, ok := f.constBool(iff.Cond); ok {
				if v {
					visit(b.Succs[0])
				} else {
					visit(b.Succs[1])
				}
				return
			}
		}
		for _, s := range b.Succs {
			visit(s)
		}
	}
	visit(f.fn.Blocks[0])
	if f.fn.Recover != nil {
		visit(f.fn.Recover)
	}
}

func (f *afun) constBool(v ssa.Value) (bool, bool) {
	switch v := v.(type) {
	case *ssa.Const:
		if v.Value != nil && v.Value.Kind() == constant.Bool {
			return constant.BoolVal(v.Value), true
		}
	case *ssa.Parameter:
		for i, p := range f.fn.Params {
			if p == v {
				b, ok := f.sum.consts[i]
				return b, ok
			}
		}
	case *ssa.UnOp:
		if v.Op == token.NOT {
			b, ok := f.constBool(v.X)
			return !b, ok
		}
	}
	return false, false
}

func (f *afun) edgeAlive(from, to *ssa.BasicBlock) bool {
	if !f.alive[from] {
		return false
	}
	if iff, ok := from.Instrs[len(from.Instrs)-1].(*ssa.If); ok {
		if v, ok := f.constBool(iff.Cond); ok {
			i := 1
			if v {
				i = 0
			}
			return from.Succs[i] == to
		}
	}
	return true
}

func (f *afun) labels(v ssa.Value) aset {
	if s, ok := f.lab[v]; ok {
		return s
	}
	return nil
}

func (f *afun) roots(v ssa.Value) rootset {
	if g, ok := v.(*ssa.Global); ok {
		return rootset{g: true}
	}
	return f.rts[v]
}

// all: labels of the value and of everything that can be reached from it.
func (f *afun) all(v ssa.Value) aset {
	o := aset{}
	o.union(f.labels(v))
	seen := rootset{}
	var visit func(r aroot)
	visit = func(r aroot) {
		if seen[r] {
			return
		}
		seen[r] = true
		o.union(f.con[r])
		for x := range f.crts[r] {
			visit(x)
		}
	}
	for r := range f.roots(v) {
		visit(r)
	}
	return o
}

func (f *afun) reach(v ssa.Value) rootset {
	seen := rootset{}
	var visit func(r aroot)
	visit = func(r aroot) {
		if seen[r] {
			return
		}
		seen[r] = true
		for x := range f.crts[r] {
			visit(x)
		}
	}
	for r := range f.roots(v) {
		visit(r)
	}
	return seen
}

func (f *afun) set(v ssa.Value, l aset, r rootset) bool {
	ch := false
	if len(l) > 0 {
		s := f.lab[v]
		if s == nil {
			s = aset{}
			f.lab[v] = s
		}
		n := len(s)
		s.union(l)
		ch = ch || len(s) != n
	}
	if len(r) > 0 {
		s := f.rts[v]
		if s == nil {
			s = rootset{}
			f.rts[v] = s
		}
		n := len(s)
		s.union(r)
		ch = ch || len(s) != n
	}
	return ch
}

// into records that labelled memory (and objects) is stored in the objects.
func (f *afun) into(objs rootset, l aset, rs rootset, where ssa.Instruction, what string) bool {
	ch := false
	for r := range objs {
		if g, ok := r.(*ssa.Global); ok {
			for x := range l {
				ch = f.leak(x, where, what+" in "+g.Name()) || ch
			}
			// objects that a global refers to keep what they contain
			for o := range rs {
				for x := range f.con[o] {
					ch = f.leak(x, where, what+" in "+g.Name()) || ch
				}
			}
			continue
		}
		if i, ok := r.(int); ok {
			for x := range l {
				if x.src == i {
					continue
				}
				fl := aflow{x, i}
				if !f.sum.flows[fl] {
					f.sum.flows[fl] = true
					ch = true
				}
			}
		}
		if len(l) > 0 {
			c := f.con[r]
			if c == nil {
				c = aset{}
				f.con[r] = c
			}
			n := len(c)
			c.union(l)
			ch = ch || len(c) != n
		}
		if len(rs) > 0 {
			c := f.crts[r]
			if c == nil {
				c = rootset{}
				f.crts[r] = c
			}
			n := len(c)
			c.union(rs)
			ch = ch || len(c) != n
		}
	}
	return ch
}

func (f *afun) leak(l alabel, where ssa.Instruction, what string) bool {
	k := aleak{l, f.an.r.L.pos(where), what}
	if f.sum.leaks[k] {
		return false
	}
	f.sum.leaks[k] = true
	return true
}

func (an *aliasAn) analyse(sum *asummary) {
	fn := sum.fn
	f := &afun{an: an, fn: fn, sum: sum, lab: map[ssa.Value]aset{}, rts: map[ssa.Value]rootset{}, con: map[aroot]aset{}, crts: map[aroot]rootset{}}
	f.reachable()
	param := func(v ssa.Value, i int) {
		f.rts[v] = rootset{i: true}
		if holds(v.Type()) {
			f.lab[v] = aset{alabel{i, 'P', 'P'}: true, alabel{i, 'V', 'V'}: true}
		}
	}
	for i, p := range fn.Params {
		param(p, i)
	}
	for i, p := range fn.FreeVars {
		param(p, len(fn.Params)+i)
	}
	for ch := true; ch; {
		ch = false
		for _, b := range fn.Blocks {
			if !f.alive[b] {
				continue
			}
			for _, ins := range b.Instrs {
				ch = f.instr(ins) || ch
			}
		}
	}
	an.n++
}

func (f *afun) instr(ins ssa.Instruction) bool {
	switch x := ins.(type) {
	case *ssa.Alloc:
		var l aset
		if pt := f.an.r.L.typ("codec/hyperjson", "Parser"); pt != nil && types.Identical(derefType(x.Type()), pt) {
			l = aset{alabel{x, 0, 'P'}: true}
		}
		return f.set(x, l, rootset{x: true})
	case *ssa.MakeSlice:
		return f.set(x, nil, rootset{x: true})
	case *ssa.MakeMap:
		return f.set(x, nil, rootset{x: true})
	case *ssa.MakeChan:
		return f.set(x, nil, rootset{x: true})
	case *ssa.Phi:
		ch := false
		for i, e := range x.Edges {
			if f.edgeAlive(x.Block().Preds[i], x.Block()) {
				ch = f.set(x, f.labels(e), f.roots(e)) || ch
			}
		}
		return ch
	case *ssa.ChangeType:
		return f.set(x, f.labels(x.X), f.roots(x.X))
	case *ssa.ChangeInterface:
		return f.set(x, f.labels(x.X), f.roots(x.X))
	case *ssa.MakeInterface:
		return f.set(x, f.labels(x.X), f.roots(x.X))
	case *ssa.SliceToArrayPointer:
		return f.set(x, f.labels(x.X), f.roots(x.X))
	case *ssa.Slice:
		return f.set(x, f.labels(x.X), f.roots(x.X))
	case *ssa.FieldAddr:
		return f.set(x, f.labels(x.X), f.roots(x.X))
	case *ssa.IndexAddr:
		return f.set(x, f.labels(x.X), f.roots(x.X))
	case *ssa.TypeAssert:
		return f.set(x, plain(f.labels(x.X), x.Type()), f.roots(x.X))
	case *ssa.Extract:
		if c, ok := x.Tuple.(*ssa.Call); ok {
			return f.callResult(x, c, x.Index)
		}
		return f.set(x, plain(f.labels(x.Tuple), x.Type()), f.roots(x.Tuple))
	case *ssa.Field:
		return f.set(x, plain(f.labels(x.X), x.Type()), f.roots(x.X))
	case *ssa.Index:
		return f.set(x, plain(f.labels(x.X), x.Type()), f.roots(x.X))
	case *ssa.Lookup:
		return f.load(x, x.X, false)
	case *ssa.Range:
		return f.set(x, f.all(x.X), f.roots(x.X))
	case *ssa.Next:
		return f.set(x, f.all(x.Iter), f.roots(x.Iter))
	case *ssa.Convert:
		from, to := x.X.Type().Underlying(), x.Type().Underlying()
		_, fs := from.(*types.Slice)
		_, ts := to.(*types.Slice)
		if fs || ts {
			return false // string <-> []byte copies
		}
		if !holds(x.Type()) {
			return false
		}
		return f.set(x, f.labels(x.X), f.roots(x.X))
	case *ssa.BinOp:
		if x.Op == token.ADD && !isString(x.Type()) && holds(x.Type()) { // pointer arithmetic
			ch := f.set(x, f.labels(x.X), f.roots(x.X))
			return f.set(x, f.labels(x.Y), f.roots(x.Y)) || ch
		}
	case *ssa.UnOp:
		if x.Op == token.MUL {
			return f.load(x, x.X, isString(x.Type()) && reinterpreted(x.X))
		}
		if x.Op == token.ARROW {
			return f.set(x, nil, rootset{x: true})
		}
	case *ssa.Store:
		return f.into(f.reach1(x.Addr), f.labels(x.Val), f.roots(x.Val), x, "stored")
	case *ssa.MapUpdate:
		ch := f.into(f.roots(x.Map), f.labels(x.Key), nil, x, "used as key")
		return f.into(f.roots(x.Map), f.labels(x.Value), f.roots(x.Value), x, "stored") || ch
	case *ssa.Send:
		ch := false
		for l := range f.all(x.X) {
			ch = f.leak(l, x, "sent to a channel") || ch
		}
		return ch
	case *ssa.Go:
		ch := false
		for _, a := range append([]ssa.Value{x.Call.Value}, x.Call.Args...) {
			for l := range f.all(a) {
				ch = f.leak(l, x, "given to a goroutine") || ch
			}
		}
		return ch
	case *ssa.MakeClosure:
		ch := f.set(x, nil, rootset{x: true})
		for _, b := range x.Bindings {
			ch = f.into(rootset{x: true}, f.labels(b), f.roots(b), x, "captured") || ch
		}
		return ch
	case *ssa.Return:
		ch := false
		n := f.sum.size()
		for i, v := range x.Results {
			f.sum.ret[i].union(plain(f.all(v), v.Type()))
			for r := range f.reach(v) {
				switch r.(type) {
				case int, *ssa.Global:
					f.sum.roots[i][r] = true
				}
			}
		}
		return ch || f.sum.size() != n
	case *ssa.Defer:
		return f.call(x, x.Common(), nil)
	case *ssa.Call:
		return f.call(x, x.Common(), x)
	}
	return false
}

func (f *afun) reach1(addr ssa.Value) rootset { return f.roots(addr) }

// reinterpreted: a pointer to a string that was made of a pointer to something
// else.
func reinterpreted(p ssa.Value) bool {
	c, ok := p.(*ssa.Convert)
	if !ok {
		return false
	}
	u, ok := c.X.(*ssa.Convert)
	return ok && isUnsafe(u.Type()) && !types.Identical(derefType(u.X.Type()), derefType(c.Type()))
}

func (f *afun) load(x ssa.Value, from ssa.Value, reinterpret bool) bool {
	l := aset{}
	l.union(f.labels(from))
	rs := rootset{}
	for r := range f.roots(from) {
		l.union(f.con[r])
		rs[r] = true
		rs.union(f.crts[r])
	}
	if reinterpret {
		l = toV(l)
	} else {
		l = plain(l, x.Type())
	}
	if !holds(x.Type()) || isString(x.Type()) {
		rs = nil
	}
	return f.set(x, l, rs)
}

// inst: the labels of the caller that a label of the callee stands for.
func (f *afun) inst(l alabel, args []ssa.Value) aset {
	i, ok := l.src.(int)
	if !ok {
		return aset{l: true}
	}
	if i >= len(args) {
		return nil
	}
	o := aset{}
	for x := range f.all(args[i]) {
		if x.kind == l.from {
			x.kind = l.kind
			o[x] = true
		}
	}
	return o
}

// callees of a call in the repository, with their arguments.
func (f *afun) callees(c *ssa.CallCommon) []*ssa.Function {
	if fn := c.StaticCallee(); fn != nil {
		if fn.Blocks != nil && f.an.r.L.isRepoFn(fn) {
			return []*ssa.Function{fn}
		}
		return nil
	}
	if _, ok := c.Value.(*ssa.Builtin); ok {
		return nil
	}
	var l []*ssa.Function
	if c.IsInvoke() {
		for _, fn := range f.an.r.L.Fns {
			if fn.Blocks != nil && fn.Signature.Recv() != nil && fn.Name() == c.Method.Name() && f.an.r.L.isRepoFn(fn) {
				if i, ok := c.Value.Type().Underlying().(*types.Interface); ok && types.Implements(fn.Signature.Recv().Type(), i) {
					l = append(l, fn)
				}
			}
		}
		return l
	}
	for _, fn := range f.an.dyn {
		s, t := fn.Signature, c.Signature()
		if types.Identical(types.NewSignatureType(nil, nil, nil, s.Params(), s.Results(), s.Variadic()), types.NewSignatureType(nil, nil, nil, t.Params(), t.Results(), t.Variadic())) {
			l = append(l, fn)
		}
	}
	return l
}

func (f *afun) args(c *ssa.CallCommon, fn *ssa.Function) []ssa.Value {
	if c.IsInvoke() {
		return append([]ssa.Value{c.Value}, c.Args...)
	}
	a := append([]ssa.Value{}, c.Args...)
	if mc, ok := c.Value.(*ssa.MakeClosure); ok {
		return append(a, mc.Bindings...)
	}
	for range fn.FreeVars {
		a = append(a, c.Value)
	}
	return a
}

func constArgs(args []ssa.Value) map[int]bool {
	var m map[int]bool
	for i, a := range args {
		if k, ok := a.(*ssa.Const); ok && k.Value != nil && k.Value.Kind() == constant.Bool {
			if m == nil {
				m = map[int]bool{}
			}
			m[i] = constant.BoolVal(k.Value)
		}
	}
	return m
}

func (f *afun) call(ins ssa.Instruction, c *ssa.CallCommon, res *ssa.Call) bool {
	ch := false
	if b, ok := c.Value.(*ssa.Builtin); ok {
		switch b.Name() {
		case "append":
			if res != nil {
				ch = f.set(res, f.labels(c.Args[0]), f.roots(c.Args[0])) || ch
				ch = f.set(res, nil, rootset{res: true}) || ch
				if len(c.Args) > 1 {
					if et, ok := c.Args[1].Type().Underlying().(*types.Slice); ok && holds(et.Elem()) {
						l := plain(f.all(c.Args[1]), et.Elem())
						ch = f.into(f.roots(res), l, f.reach(c.Args[1]), ins, "appended") || ch
						ch = f.set(res, l, nil) || ch
					}
				}
			}
		case "copy":
			if et, ok := c.Args[1].Type().Underlying().(*types.Slice); ok && holds(et.Elem()) {
				ch = f.into(f.roots(c.Args[0]), plain(f.all(c.Args[1]), et.Elem()), f.reach(c.Args[1]), ins, "copied") || ch
			}
		}
		return ch
	}
	if isPoolMethod(c, "Get") {
		if res != nil {
			ch = f.set(res, aset{alabel{ins, 0, 'P'}: true}, rootset{res: true}) || ch
		}
		return ch
	}
	if isPoolMethod(c, "Put") {
		return false
	}
	cs := f.callees(c)
	for _, fn := range cs {
		args := f.args(c, fn)
		s := f.an.summary(fn, constArgs(args[:len(fn.Params)]))
		for fl := range s.flows {
			if fl.to < len(args) {
				ch = f.into(f.roots(args[fl.to]), f.inst(fl.lab, args), nil, ins, "stored by "+fn.Name()) || ch
			}
		}
		for lk := range s.leaks {
			if _, ok := lk.lab.src.(int); !ok {
				continue // reported where it happens
			}
			for l := range f.inst(lk.lab, args) {
				k := aleak{l, lk.where, lk.what}
				if !f.sum.leaks[k] {
					f.sum.leaks[k] = true
					ch = true
				}
			}
		}
	}
	if res != nil {
		if _, tuple := res.Type().(*types.Tuple); !tuple {
			ch = f.callResult(res, res, 0) || ch
		}
	}
	if len(cs) == 0 {
		ch = f.external(ins, c) || ch
	}
	return ch
}

// sharing: packages outside of the repository whose functions return views of
// their arguments.
var sharing = map[string]bool{"strings": true, "bytes": true, "github.com/modern-go/reflect2": true, "unsafe": true, "reflect": true, "bufio": true}

// keeping: packages whose containers keep what they are given.
var keeping = map[string]bool{"sync": true, "sync/atomic": true, "container/list": true, "container/ring": true, "container/heap": true}

func calleePkg(c *ssa.CallCommon) string {
	if c.IsInvoke() {
		if p := c.Method.Pkg(); p != nil {
			return p.Path()
		}
		return ""
	}
	if fn := c.StaticCallee(); fn != nil && fn.Pkg != nil {
		return fn.Pkg.Pkg.Path()
	}
	if fn := c.StaticCallee(); fn != nil && fn.Object() != nil && fn.Object().Pkg() != nil {
		return fn.Object().Pkg().Path()
	}
	return ""
}

func (f *afun) external(ins ssa.Instruction, c *ssa.CallCommon) bool {
	if !keeping[calleePkg(c)] {
		return false
	}
	args := append([]ssa.Value{}, c.Args...)
	if c.IsInvoke() {
		args = append([]ssa.Value{c.Value}, args...)
	}
	ch := false
	for i := 1; i < len(args); i++ {
		ch = f.into(f.roots(args[0]), f.all(args[i]), f.reach(args[i]), ins, "kept") || ch
	}
	return ch
}

func (f *afun) callResult(x ssa.Value, c *ssa.Call, idx int) bool {
	ch := f.set(x, nil, rootset{c: true})
	cc := c.Common()
	if isPoolMethod(cc, "Get") {
		return ch
	}
	cs := f.callees(cc)
	for _, fn := range cs {
		args := f.args(cc, fn)
		s := f.an.summary(fn, constArgs(args[:len(fn.Params)]))
		for l := range s.ret[idx] {
			ch = f.set(x, plain(f.inst(l, args), x.Type()), nil) || ch
		}
		for r := range s.roots[idx] {
			if i, ok := r.(int); ok && i < len(args) {
				ch = f.set(x, nil, f.reach(args[i])) || ch
			} else if !ok {
				ch = f.set(x, nil, rootset{r: true}) || ch
			}
		}
	}
	if len(cs) == 0 && sharing[calleePkg(cc)] && holds(x.Type()) && !isErrorType(x.Type()) {
		args := append([]ssa.Value{}, cc.Args...)
		if cc.IsInvoke() {
			args = append([]ssa.Value{cc.Value}, args...)
		}
		for _, a := range args {
			l := f.all(a)
			if isString(x.Type()) && isString(a.Type()) {
				l = plain(l, x.Type())
			} else if isString(x.Type()) {
				continue // String() copies
			}
			ch = f.set(x, l, f.roots(a)) || ch
		}
	}
	return ch
}

// aliasing runs the analysis on the decoding packages.
func (r *Report) aliasing() *aliasAn {
	an := &aliasAn{r: r, sums: map[string]*asummary{}}
	fns := r.repoFns("codec", "codec/hyperjson", "cache", "proxy", "")
	for _, fn := range fns {
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				for _, op := range ins.Operands(nil) {
					var t *ssa.Function
					switch v := (*op).(type) {
					case *ssa.Function:
						t = v
					case *ssa.MakeClosure:
						t, _ = v.Fn.(*ssa.Function)
					}
					if t == nil || t.Blocks == nil || !r.L.isRepoFn(t) {
						continue
					}
					if c, ok := ins.(ssa.CallInstruction); ok && c.Common().StaticCallee() == t {
						continue
					}
					an.dyn = append(an.dyn, t)
				}
			}
		}
	}
	uniq := map[*ssa.Function]bool{}
	var dyn []*ssa.Function
	for _, fn := range an.dyn {
		if !uniq[fn] {
			uniq[fn] = true
			dyn = append(dyn, fn)
		}
	}
	an.dyn = dyn
	for _, fn := range fns {
		an.summary(fn, nil)
	}
	an.solve()
	r.note("%d function summaries, %d function values", len(an.sums), len(an.dyn))
	// what outlives the request
	for _, fn := range fns {
		s := an.summary(fn, nil)
		var bad []string
		for lk := range s.leaks {
			if src, ok := lk.lab.src.(ssa.Instruction); ok {
				bad = append(bad, fmt.Sprintf("%s (%s): memory of %s", lk.what, lk.where, r.describe(src)))
			}
		}
		sort.Strings(bad)
		r.ob("kept", fnLabel(fn)+" keeps no recycled memory", len(bad) == 0, r.L.fnPos(fn), "%s", strings.Join(bad, "; "))
		if fn.Parent() == nil && fn.Object() != nil && fn.Object().Exported() && fn.Pkg == r.L.pkg("codec") {
			bad = nil
			for i, set := range s.ret {
				for l := range set {
					if src, ok := l.src.(ssa.Instruction); ok {
						bad = append(bad, fmt.Sprintf("result %d: memory of %s", i, r.describe(src)))
					}
				}
			}
			sort.Strings(bad)
			r.ob("result", fnLabel(fn)+" returns no recycled memory", len(bad) == 0, r.L.fnPos(fn), "%s", strings.Join(bad, "; "))
		}
	}
	return an
}

func (r *Report) describe(src ssa.Instruction) string {
	what := "the pooled object"
	if _, ok := src.(*ssa.Alloc); ok {
		what = "the buffer of the parser"
	}
	return fmt.Sprintf("%s from %s", what, r.L.pos(src))
}

func (l *Loaded) isRepoFn(fn *ssa.Function) bool {
	for fn.Parent() != nil {
		fn = fn.Parent()
	}
	if o := fn.Origin(); o != nil {
		fn = o
	}
	return fn.Pkg != nil && l.isRepo(fn.Pkg.Pkg)
}
