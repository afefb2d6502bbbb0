package main

// Registry of the checks.

import (
	"fmt"
	"os"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

type meta struct{ how string }

var propMeta = map[string]meta{}

type check struct {
	id  string
	run func(r *Report)
}

var allChecks = map[string]*check{}

func register(id, how string, run func(r *Report)) {
	allChecks[id] = &check{id, run}
	propMeta[id] = meta{how}
}

var commonAssumptions = []string{
	"the Go compiler, go/types, golang.org/x/tools/go/ssa and the standard library behave as documented",
	"libraries outside of the repository behave as modelled: they have no effect on memory of the repository that they were not given",
	"integers of the repository's computations do not wrap unless a rule says so; pointers of different provenance that a loop advances do not alias",
}

// runCheck runs one check and returns its exit code.
func runCheck(id, repo, dir, tier string) (code int) {
	c := allChecks[id]
	r := newReport(id, tier, repo)
	if c == nil {
		var ids []string
		for k := range allChecks {
			ids = append(ids, k)
		}
		sort.Strings(ids)
		fmt.Println("unknown property", id, "known:", strings.Join(ids, " "))
		return 2
	}
	func() {
		defer func() {
			if x := recover(); x != nil {
				if _, ok := x.(overLimit); ok {
					r.note("INCOMPLETE: %s used up after %d obligations; the others of this run are not decided", r.incomplete, len(r.Obs))
					return
				}
				r.ob("analysis", "the analysis completes", false, "", "%v", x)
				if os.Getenv("VERIF_TRACE") != "" {
					fmt.Println(string(debug.Stack()))
				}
			}
		}()
		l, err := load(repo)
		if err != nil {
			r.ob("analysis", "the repository loads and type checks", false, repo, "%v", err)
			return
		}
		r.L = l
		NewTab()
		T.limit = &r.incomplete
		done := make(chan bool)
		go func() {
			// within the limits of the sandbox: what is not decided by then
			// is reported as such, and what was found counts
			for {
				select {
				case <-done:
					return
				case <-time.After(200 * time.Millisecond):
				}
				why := ""
				if time.Since(r.start) > 780*time.Second {
					why = "780 seconds"
				}
				var ms runtime.MemStats
				if runtime.ReadMemStats(&ms); ms.Sys > 26<<30 || ms.HeapInuse > 20<<30 {
					why = "20 GB of memory"
				}
				if why != "" {
					r.incomplete = why
					return
				}
			}
		}()
		defer close(done)
		c.run(r)
	}()
	return r.finish(dir, "other")
}

// engine makes an engine with the usual models.
func (r *Report) engine(opaque func(fn *ssa.Function) bool, hs ...hook) *Engine {
	e := NewEngine(r.L)
	if err := e.evalInit(); err != nil {
		r.note("package initialisers: %v", err)
	}
	e.Warn = nil
	e.entered = map[*ssa.Function]bool{}
	e.Opaque = opaque
	e.ExternHk = hooks(append(hs, cacheModel)...)
	return e
}

// entry resolves an anchor; a missing one is a violation.
func (r *Report) entry(rel, name string) *ssa.Function {
	fn := r.L.fn(rel, name)
	if fn == nil {
		panic(fmt.Sprintf("anchor %s.%s does not exist any more", rel, name))
	}
	return fn
}
