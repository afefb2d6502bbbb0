package main

// Memory model: regions of cells with persistent, guarded write logs.

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/types/typeutil"
)

type rkind int

const (
	rBase rkind = iota
	rWrite
	rHavoc
	rMerge
)

// RNode is one entry of the (persistent) write log of a region.
type RNode struct {
	id    int
	kind  rkind
	prev  *RNode
	guard *Node
	addr  *Term
	val   *Node
	label string
	args  []*Node
	zero  bool
	match map[string]bool // rHavoc: only these kinds of cells (nil: all)
	cond  *Node
	a, b  *RNode
	memo  map[int]*Node
}

var rnodeCount int

func newRNode(k rkind) *RNode {
	rnodeCount++
	return &RNode{id: rnodeCount, kind: k}
}

// Mem maps region keys to the write log of the region.
type Mem struct {
	regs map[string]*RNode
}

func newMem() *Mem { return &Mem{regs: map[string]*RNode{}} }

func (m *Mem) clone() *Mem {
	r := &Mem{regs: make(map[string]*RNode, len(m.regs))}
	for k, v := range m.regs {
		r.regs[k] = v
	}
	return r
}

func addrRoot(a *Term) *Term {
	for {
		switch a.op {
		case "fieldaddr", "indexaddr", "mapcell", "maphas", "maplen":
			if l := a.args[0].leaf; l != nil {
				a = l
				continue
			}
		}
		return a
	}
}

var typeKeys typeutil.Map

// typeKey names a type such that identical types have the same name.
func typeKey(t types.Type) string {
	if k := typeKeys.At(t); k != nil {
		return k.(string)
	}
	k := types.TypeString(types.Unalias(t), nil)
	switch k {
	case "byte":
		k = "uint8"
	case "rune":
		k = "int32"
	}
	typeKeys.Set(t, k)
	return k
}

func elemTypeString(t types.Type) string {
	if t == nil {
		return "?"
	}
	return typeKey(t)
}

func regionKey(a *Term) string {
	root := addrRoot(a)
	pre := ""
	switch a.op {
	case "mapcell", "maplen":
		pre = ""
	case "maphas":
		pre = "h"
	}
	if root.op == "alloc" || root.op == "global" {
		return fmt.Sprintf("%sA:%d", pre, root.id)
	}
	switch a.op {
	case "fieldaddr":
		return "F:" + a.aux
	case "indexaddr":
		// an element of an array that is a field belongs to the field
		if b := a.args[0].leaf; b != nil && b.op == "fieldaddr" {
			return regionKey(b)
		}
		return "I:" + a.aux
	case "mapcell", "maphas", "maplen":
		return pre + "M:" + a.aux
	case "ptradd":
		return "U:"
	}
	return "P:" + elemTypeString(a.typ)
}

var baseNodes = map[string]*RNode{}

func (m *Mem) region(key string, root *Term) *RNode {
	if r, ok := m.regs[key]; ok {
		return r
	}
	zero := root != nil && root.op == "alloc"
	k := key
	if b, ok := baseNodes[k]; ok {
		return b
	}
	b := newRNode(rBase)
	b.zero = zero
	b.label = "0"
	baseNodes[k] = b
	return b
}

// addrEq: condition under which two addresses of the same region coincide
func addrEq(a, b *Term) *Node {
	if a == b {
		return T.True
	}
	if a.op != b.op {
		// one of them is a plain pointer
		if (a.op == "alloc" || a.op == "global") && (b.op == "fieldaddr" || b.op == "indexaddr") && addrRoot(b) == a {
			return T.False
		}
		if (b.op == "alloc" || b.op == "global") && (a.op == "fieldaddr" || a.op == "indexaddr") && addrRoot(a) == b {
			return T.False
		}
		if ra, rb := addrRoot(a), addrRoot(b); ra == rb && (ra.op == "alloc" || ra.op == "global") {
			return T.False
		}
		return eqT(a, b)
	}
	switch a.op {
	case "alloc", "global":
		return T.False
	case "fieldaddr":
		if a.aux != b.aux {
			return T.False
		}
		return nodeAddrEq(a.args[0], b.args[0])
	case "indexaddr", "mapcell", "maphas":
		ie := eq(a.args[1], b.args[1])
		if ie == T.False {
			return T.False
		}
		return and(nodeAddrEq(a.args[0], b.args[0]), ie)
	case "maplen":
		return nodeAddrEq(a.args[0], b.args[0])
	}
	return eqT(a, b)
}

func nodeAddrEq(a, b *Node) *Node {
	if a == b {
		return T.True
	}
	return apply2(a, b, func(x, y *Term) *Node {
		switch x.op {
		case "fieldaddr", "indexaddr", "alloc", "global":
			return addrEq(x, y)
		}
		switch y.op {
		case "fieldaddr", "indexaddr", "alloc", "global":
			return addrEq(y, x)
		}
		return eqT(x, y)
	})
}

func rread(r *RNode, addr *Term, typ types.Type) *Node {
	if r.memo == nil {
		r.memo = map[int]*Node{}
	}
	if v, ok := r.memo[addr.id]; ok {
		return v
	}
	var v *Node
	switch r.kind {
	case rBase:
		if r.zero {
			if addr.op == "maplen" {
				v = intConst(0)
			} else {
				v = zeroOf(typ)
			}
		} else {
			v = loadSym(r.label, addr, typ, nil)
		}
	case rHavoc:
		if r.match != nil && !hitKind(r.match, addr) {
			v = rread(r.prev, addr, typ)
		} else {
			v = loadSym(r.label, addr, typ, r.args)
		}
	case rWrite:
		c := and(r.guard, addrEq(addr, r.addr))
		if c == T.True {
			v = r.val
		} else if c == T.False {
			v = rread(r.prev, addr, typ)
		} else {
			v = rread(r.prev, addr, typ)
			if r.val.leaf == nil || restrict(v, c) != r.val {
				v = mux(c, r.val, v)
			}
		}
	case rMerge:
		v = mux(r.cond, rread(r.a, addr, typ), rread(r.b, addr, typ))
	}
	r.memo[addr.id] = v
	return v
}

func loadSym(label string, addr *Term, typ types.Type, args []*Node) *Node {
	if addr.op == "maplen" {
		typ = types.Typ[types.Int]
		t := mk("len", label, nil, typ, append([]*Node{addr.args[0]}, args...)...)
		return leafNode(t)
	}
	if addr.op == "maphas" {
		typ = types.Typ[types.Bool]
	}
	t := mk("load", label, addr, typ, append([]*Node{leafNode(addr)}, args...)...)
	return symNode(t)
}

// symNode makes the value of a symbolic term: booleans become atoms,
// structs are expanded to their fields.
func symNode(t *Term) *Node {
	if t.typ == nil {
		return leafNode(t)
	}
	if b, ok := t.typ.Underlying().(*types.Basic); ok && b.Info()&types.IsBoolean != 0 {
		return leafBool(t)
	}
	if st, ok := expandable(t.typ); ok {
		args := make([]*Node, st.NumFields())
		for i := range args {
			f := st.Field(i)
			args[i] = symNode(mk("field", f.Name(), nil, f.Type(), leafNode(t)))
		}
		return mkN("struct", typeKey(t.typ), t.typ, t.typ, args...)
	}
	return leafNode(t)
}

func expandable(t types.Type) (*types.Struct, bool) {
	if n, ok := t.(*types.Named); ok && n.Obj().Pkg() != nil {
		switch n.Obj().Pkg().Path() {
		case "time", "sync", "context", "net/http", "reflect", "go/types":
			return nil, false
		}
	}
	st, ok := t.Underlying().(*types.Struct)
	if !ok || st.NumFields() > 40 {
		return nil, false
	}
	return st, true
}

// collectWrites lists what was written in a log since the given node.
func collectWrites(from, to *RNode, addrs map[*Term]bool, havoc *bool, seen map[*RNode]bool) {
	for from != nil && from != to && !seen[from] {
		seen[from] = true
		switch from.kind {
		case rWrite:
			addrs[from.addr] = true
			from = from.prev
		case rHavoc:
			*havoc = true
			from = from.prev
		case rMerge:
			collectWrites(from.a, to, addrs, havoc, seen)
			from = from.b
		default:
			return
		}
	}
}

func (m *Mem) dump() string {
	var sb strings.Builder
	for k, r := range m.regs {
		fmt.Fprintf(&sb, "%s:", k)
		n := 0
		for r != nil && n < 6 {
			n++
			switch r.kind {
			case rWrite:
				fmt.Fprintf(&sb, " w(%s,%s)", r.addr, r.val)
			case rHavoc:
				fmt.Fprintf(&sb, " havoc(%s)", r.label)
			case rMerge:
				fmt.Fprintf(&sb, " merge")
				r = nil
				continue
			}
			r = r.prev
		}
		sb.WriteByte('\n')
	}
	return sb.String()
}

// cellKind is the shape of an address: the chain of fields and elements that
// leads to it, innermost first.
func cellKind(a *Term) string {
	s := a.op + "|" + a.aux
	for a.op == "fieldaddr" || a.op == "indexaddr" {
		b := a.args[0].leaf
		if b == nil || b.op != "fieldaddr" && b.op != "indexaddr" {
			break
		}
		a = b
		s += ">" + a.op + "|" + a.aux
	}
	return s
}

// hitKind: may one of the written cells be a? Cells with different names of
// fields or types of elements on the way are different.
func hitKind(kinds map[string]bool, a *Term) bool {
	if len(kinds) == 0 {
		return false
	}
	k := cellKind(a)
	if kinds[k] {
		return true
	}
	ks := strings.Split(k, ">")
	for o := range kinds {
		if kindsMeet(ks, strings.Split(o, ">")) {
			return true
		}
	}
	return false
}

func kindsMeet(a, b []string) bool {
	for i := 0; i < len(a) && i < len(b); i++ {
		if a[i] == b[i] {
			continue
		}
		oa, ob := a[i][:strings.Index(a[i]+"|", "|")], b[i][:strings.Index(b[i]+"|", "|")]
		if oa == ob || i == 0 {
			return false
		}
		return true
	}
	return true
}
