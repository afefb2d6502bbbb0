package main

// Helpers shared by the checks.

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func effs(res *EvalResult, kind string, pred func(ef *Effect) bool) []*Effect {
	var l []*Effect
	for _, ef := range res.Effects {
		if (kind == "" || ef.Kind == kind) && (pred == nil || pred(ef)) {
			l = append(l, ef)
		}
	}
	return l
}

func named(parts ...string) func(ef *Effect) bool {
	return func(ef *Effect) bool {
		for _, p := range parts {
			if strings.HasSuffix(ef.Name, p) {
				return true
			}
		}
		return false
	}
}

func short(n *Node) string {
	if n == nil {
		return "<none>"
	}
	s := n.str(5)
	if len(s) > 400 {
		s = s[:400] + "…"
	}
	return s
}

// iff demands that two conditions are equivalent.
func (r *Report) iff(rule, construct, where string, got, want *Node) bool {
	if got == want {
		return r.ob(rule, construct, true, where, "exactly if %s", short(want))
	}
	d := ""
	if x := and(got, not(want)); x != T.False {
		d += " also if " + short(x) + ";"
	}
	if x := and(want, not(got)); x != T.False {
		d += " not if " + short(x) + ";"
	}
	if d == "" || sameUnder(T.True, got, want) == nil {
		return r.ob(rule, construct, true, where, "exactly if %s", short(want))
	}
	return r.ob(rule, construct, false, where, "must happen exactly if %s, but happens%s", short(want), d)
}

// same demands that two values are the same.
func (r *Report) same(rule, construct, where string, got, want *Node) bool {
	return r.sameIf(rule, construct, where, T.True, got, want)
}

// sameIf demands that two values are the same where the condition holds.
func (r *Report) sameIf(rule, construct, where string, cond, got, want *Node) bool {
	if got == want && got != nil {
		return r.ob(rule, construct, true, where, "is %s", short(want))
	}
	x := sameUnder(cond, got, want)
	if x == nil {
		return r.ob(rule, construct, true, where, "is %s", short(want))
	}
	if got != nil && want != nil {
		got, want = restrict(got, x), restrict(want, x)
	}
	return r.ob(rule, construct, false, where, "must be %s, but is %s if %s", short(want), short(got), short(x))
}

// ranges: the loop runs its iterations K = 0 .. n-1, in this order, and ends
// only then.
func ranges(L *Loop, n *Node) bool {
	if len(L.Exits) != 1 {
		return false
	}
	return L.Exits[0].Cond == lessEq(n, leafNode(L.K))
}

// within: condition of the effect relative to one iteration of its innermost
// loop, that is without the loop test.
func inLoop(L *Loop, n *Node) *Node { return lessThan(leafNode(L.K), n) }

// elemOf: the value of element idx of the slice s at the effect.
func (e *Engine) elemOf(m *Mem, s, idx *Node, et types.Type) *Node {
	return e.loadAt(m, indexAddrTerm(sliceData(s), add(sliceOff(s), idx), et), et)
}

func tupleElem(n *Node, i int) *Node {
	if n.leaf != nil && n.leaf.op == "tuple" && i < len(n.leaf.args) {
		return n.leaf.args[i]
	}
	return nil
}

func nilNode(n *Node) *Node { return apply1(n, isNil) }

// pathTo prints the calling context of an effect.
func (r *Report) at(ef *Effect) string {
	s := r.L.pos(ef.Instr)
	for c := ef.Ctx; c != nil && c.site != nil; c = c.parent {
		s += " < " + r.L.pos(c.site)
		if len(s) > 200 {
			break
		}
	}
	return s
}

// fnIs compares the static callee of an effect.
func fnIs(ef *Effect, fn *ssa.Function) bool { return fn != nil && ef.Callee == fn }

func fieldAddrOf(ptr *Node, st types.Type, name string) *Node {
	s, ok := derefType(st).Underlying().(*types.Struct)
	if !ok {
		return nil
	}
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Name() == name {
			return fieldAddrTerm(ptr, derefType(st), i)
		}
	}
	return nil
}

func fieldType(st types.Type, name string) types.Type {
	s, ok := derefType(st).Underlying().(*types.Struct)
	if !ok {
		return nil
	}
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Name() == name {
			return s.Field(i).Type()
		}
	}
	return nil
}

func (r *Report) must(ok bool, format string, args ...interface{}) {
	if !ok {
		panic("anchor: " + fmt.Sprintf(format, args...))
	}
}

var (
	stringType = types.Typ[types.String]
	boolType   = types.Typ[types.Bool]
	byteType   = types.Typ[types.Uint8]
	intType    = types.Typ[types.Int]
)

// equiv: two conditions are equivalent.
func equiv(a, b *Node) bool {
	return a == b || and(a, not(b)) == T.False && and(b, not(a)) == T.False || sameUnder(T.True, a, b) == nil
}
