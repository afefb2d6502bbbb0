package main

import (
	"flag"
	"fmt"
	"os"
	"runtime/debug"
	"runtime/pprof"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func main() {
	debug.SetGCPercent(400)
	repo := flag.String("repo", "/repo", "")
	dump := flag.String("dump", "", "pkg:func")
	ssad := flag.String("ssa", "", "pkg:func")
	stat := flag.Bool("stat", false, "")
	propF := flag.String("prop", "", "property to check")
	tierF := flag.String("tier", "quick", "")
	dirF := flag.String("dir", "/verif", "")
	opq := flag.String("opaque", "", "")
	flag.Parse()
	if f := os.Getenv("VERIF_PROFILE"); f != "" {
		if w, err := os.Create(f); err == nil {
			pprof.StartCPUProfile(w)
			defer pprof.StopCPUProfile()
		}
	}
	if *propF != "" && os.Getenv("VERIF_PROFILE") != "" {
		runCheck(*propF, *repo, *dirF, *tierF)
		return
	}
	if *propF != "" {
		os.Exit(runCheck(*propF, *repo, *dirF, *tierF))
	}
	l, err := load(*repo)
	if err != nil {
		fmt.Println(err)
		os.Exit(2)
	}
	NewTab()
	if *ssad != "" {
		p := strings.SplitN(*ssad, ":", 2)
		l.fn(p[0], p[1]).WriteTo(os.Stdout)
	}
	if *dump != "" {
		p := strings.SplitN(*dump, ":", 2)
		fn := l.fn(p[0], p[1])
		if fn == nil {
			fmt.Println("no such function")
			os.Exit(2)
		}
		e := NewEngine(l)
		e.ExternHk = hooks(cacheModel)
		if err := e.evalInit(); err != nil {
			fmt.Println(err)
		}
		if *opq != "" {
			e.Opaque = func(f *ssa.Function) bool {
				for _, o := range strings.Split(*opq, ",") {
					if strings.Contains(f.String(), o) {
						return true
					}
				}
				return false
			}
			if *opq == "wire" {
				r := newReport("", "", "")
				r.L = l
				e.Opaque = r.wireOpaque
			}
		}
		r := e.Eval(fn, nil, nil, nil)
		if *stat {
			fmt.Println("effects", len(r.Effects), "steps", e.steps, "nodes", T.nnode, "terms", len(T.terms))
			return
		}
		dumpResult(r)
	}
}

func dumpResult(r *EvalResult) {
	for _, w := range r.E.Warn {
		fmt.Println("warn:", w)
	}
	for _, ef := range r.Effects {
		if ef.Pure {
			continue
		}
		fmt.Printf("%4d %-10s %s %v", ef.Seq, ef.Kind, ef.Name, ef.Args)
		if ef.Res != nil {
			fmt.Printf(" -> %v", ef.Res)
		}
		var ls []string
		for _, l := range ef.Loops {
			ls = append(ls, fmt.Sprint("L", l.id))
		}
		fmt.Printf("\n       if %v  %v %s\n", ef.Cond, ls, r.E.L.pos(ef.Instr))
	}
	for _, l := range r.Loops {
		fmt.Printf("loop L%d in %s entry %v stay %v\n", l.id, l.header.Parent(), l.Entry, l.Stay)
		for _, p := range l.Phis {
			fmt.Printf("   phi %s init %v val %v step %v\n", p.Name, p.Init, p.Val, p.Step)
		}
		for _, p := range l.Cells {
			fmt.Printf("   cell %s init %v step %v\n", p.Name, p.Init, p.Step)
		}
		for _, x := range l.Exits {
			fmt.Printf("   exit %v\n", x.Cond)
		}
		for k, v := range l.Havoc {
			fmt.Printf("   havoc %s %v\n", k, v)
		}
	}
	for i, v := range r.Results {
		fmt.Printf("result %d: %v\n", i, v)
	}
	fmt.Println("steps", r.E.steps, "nodes", T.nnode, "terms", len(T.terms))
}
