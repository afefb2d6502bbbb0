package main

func init() {
	register("C06", "Taint analysis of every value that shares memory with a pooled object or with the parser's buffer: it must not reach a result, a package variable, a channel or a goroutine, and it is not used after the memory was refilled or given back.", func(r *Report) {
		r.lifetimes(r.aliasing())
		r.count("kept", 80)
		r.count("result", 4)
		r.count("lifetime", 10)
	})
}
