package main

import (
	"sort"

	"golang.org/x/tools/go/ssa"
)

// The order in which terms are made decides the order of the conditions in a
// value, so it must be the same in each run.

func keysOf[V any](m map[string]V) []string {
	l := make([]string, 0, len(m))
	for k := range m {
		l = append(l, k)
	}
	sort.Strings(l)
	return l
}

func termsOf[V any](m map[*Term]V) []*Term {
	l := make([]*Term, 0, len(m))
	for k := range m {
		l = append(l, k)
	}
	sort.Slice(l, func(i, j int) bool { return l[i].id < l[j].id })
	return l
}

func blocksOf(m map[*ssa.BasicBlock]bool) []*ssa.BasicBlock {
	l := make([]*ssa.BasicBlock, 0, len(m))
	for k := range m {
		l = append(l, k)
	}
	sort.Slice(l, func(i, j int) bool { return l[i].Index < l[j].Index })
	return l
}

// valuesOf: in the order of the instructions of the function.
func valuesOf[K interface {
	comparable
	ssa.Value
}, V any](m map[K]V) []K {
	l := make([]K, 0, len(m))
	for k := range m {
		l = append(l, k)
	}
	at := func(v ssa.Value) (int, int) {
		i, ok := v.(ssa.Instruction)
		if !ok {
			return -1, int(v.Pos())
		}
		for k, x := range i.Block().Instrs {
			if x == i {
				return i.Block().Index, k
			}
		}
		return i.Block().Index, -1
	}
	sort.SliceStable(l, func(i, j int) bool {
		a, b := at(l[i])
		c, d := at(l[j])
		return a < c || a == c && b < d
	})
	return l
}
