package main

// C04: the parser and the input it reads; C05: parsing ends.

import "sort"

var c04Rules = map[string]bool{"index": true, "received": true, "content": true, "state": true, "refill": true, "end": true, "lost": true, "start": true, "forward": true, "panic": true}
var c05Rules = map[string]bool{"progress": true, "recursion": true, "reserve": true, "consume": true, "failed read": true}

func init() {
	register("C04", "Numeric interpretation of the parser: positions, bounds and which bytes of the input the buffer holds, with inferred loop facts.", func(r *Report) {
		r.numbers(c04Rules, true)
		r.count("index", 10)
		r.count("received", 5)
		r.count("content", 8)
		r.count("refill", 3)
		r.count("lost", 8)
		r.count("start", 2)
		r.count("end", 1)
	})
	register("C05", "Numeric interpretation of the parser: progress of every loop, depth of recursion, sizes that are reserved.", func(r *Report) {
		r.numbers(c05Rules, false)
		r.count("progress", 8)
		r.count("reserve", 1)
		r.count("consume", 6)
	})
}

func (r *Report) numbers(rules map[string]bool, first bool) {
	x, err := r.parserNumbers()
	if err != nil {
		panic("anchor: " + err.Error())
	}
	for f := range x.funcs {
		r.Funcs[f.String()] = true
	}
	r.Loops += x.loopsN
	sort.Strings(x.order)
	for _, k := range x.order {
		o := x.obs[k]
		if rules[o.rule] {
			r.ob(o.rule, o.what, o.ok, o.where, "%s", o.detail)
		}
	}
}
