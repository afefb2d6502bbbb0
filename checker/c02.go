package main

import (
	"strings"
)

func init() {
	register("C02", "Value-flow summary of the served HTTP handler: the body and headers that the routes see, and the condition of passing a request on, are compared with the specification.", func(r *Report) {
		s := r.serving(r.mainOpaque())
		e := s.main.E
		// routing
		uc := s.userCall
		if uc == nil {
			r.ob("routing", "the routing function of the program is applied", false, r.at(s.serve), "no call of the parameter")
			return
		}
		r.same("routing", "the routing function of the program is applied", r.at(uc), uc.Args[0], s.main.Params[0])
		r.same("routing", "it is given the router with the span routes", r.at(uc), uc.Args[1], s.router)
		user := uc.Res
		r.must(user != nil, "the routing function has no result")
		// Main passes everything on
		checkMainRouting(r)

		if s.handler == nil {
			r.ob("gzip", "a handler is served", false, r.at(s.serve), "the routing callback returns nothing")
			return
		}
		res, err := e.closureEval(s.handler, nil, s.setup.Out.mem)
		if err != nil {
			r.ob("gzip", "the served handler is a function of the repository", false, r.at(s.serve), "%v", err)
			return
		}
		r.used(res)
		np := len(res.Params)
		r.must(np >= 2, "handler with %d parameters", np)
		writer, req := res.Params[np-2], res.Params[np-1]
		reqT := res.Fn.Params[np-1].Type()
		m0 := s.setup.Out.mem
		body := e.loadAt(m0, fieldAddrOf(req, reqT, "Body"), fieldType(reqT, "Body"))
		header := e.loadAt(m0, fieldAddrOf(req, reqT, "Header"), fieldType(reqT, "Header"))
		where := r.L.fnPos(res.Fn)
		gz := eq(pureCall("(net/http.Header).Get", stringType, []*Node{header, strConst("Content-Encoding")}), strConst("gzip"))

		var open *Effect
		for _, ef := range effs(res, "call", named("gzip.NewReader")) {
			if open != nil {
				r.ob("gzip", "the body is unpacked once", false, r.at(ef), "second gzip reader")
			}
			open = ef
		}
		if open == nil {
			r.ob("gzip", "compressed bodies are unpacked", false, where, "no gzip reader is made")
			return
		}
		r.iff("gzip", "bodies are unpacked", r.at(open), open.Cond, gz)
		r.ob("gzip", "the gzip reader reads the body", isBody(open.Args[0], body), r.at(open), "reads %s", short(open.Args[0]))
		rd, gerr := tupleElem(open.Res, 0), tupleElem(open.Res, 1)
		good := or(not(gz), nilNode(gerr))

		var serves []*Effect
		for _, ef := range effs(res, "call", nil) {
			if strings.HasSuffix(ef.Name, ".ServeHTTP") {
				serves = append(serves, ef)
			}
		}
		served := T.False
		for _, ef := range serves {
			w := r.at(ef)
			r.ob("serve", "the request is served once, by the configured handler", and(served, ef.Cond) == T.False && len(ef.Loops) == 0 && ef.Gor == nil && stripIface(ef.Args[0]) == stripIface(user), w, "handler %s", short(ef.Args[0]))
			r.ob("serve", "the request and the response writer are passed on", stripIface(ef.Args[1]) == writer && ef.Args[2] == req, w, "%s, %s", short(ef.Args[1]), short(ef.Args[2]))
			got := e.loadAt(ef.Mem, fieldAddrOf(req, reqT, "Body"), fieldType(reqT, "Body"))
			zb := restrict(got, and(ef.Cond, gz))
			r.ob("serve", "compressed requests are served with the unpacked body", and(ef.Cond, gz) == T.False || zb.leaf != nil && stripIface(zb) == rd, w, "body %s", short(zb))
			pb := restrict(got, and(ef.Cond, not(gz)))
			r.ob("serve", "other requests are served with their own body", and(ef.Cond, not(gz)) == T.False || isBody(pb, body), w, "body %s", short(pb))
			served = or(served, ef.Cond)
			// the headers that describe the packed body
			for _, h := range []string{"Content-Encoding", "Content-Length"} {
				del := T.False
				for _, d := range effs(res, "call", named("(net/http.Header).Del")) {
					if n, _ := constString(d.Args[1]); n == h && d.Seq < ef.Seq && restrict(d.Args[0], d.Cond) == header {
						del = or(del, d.Cond)
					}
				}
				r.iff("headers", h+" is removed from unpacked requests only", w, restrictTo(del, ef.Cond), restrictTo(gz, ef.Cond))
			}
		}
		for _, d := range effs(res, "call", nil) {
			if strings.Contains(d.Name, "(net/http.Header).") && !strings.HasSuffix(d.Name, ".Get") && !strings.HasSuffix(d.Name, ".Values") && d.Args[0] == header {
				n, _ := constString(d.Args[1])
				r.ob("headers", "only the headers of the packed body change", strings.HasSuffix(d.Name, ".Del") && (n == "Content-Encoding" || n == "Content-Length"), r.at(d), "%s %s", d.Name, n)
			}
		}
		for _, ef := range effs(res, "call", nil) {
			for _, a := range ef.Args {
				if a == nil || stripIface(a) != rd {
					continue
				}
				ok := strings.HasSuffix(ef.Name, ".Close") || strings.HasSuffix(ef.Name, ".Multistream") && toBool(ef.Args[1]) == T.True
				for _, s := range serves {
					ok = ok && (!strings.HasSuffix(ef.Name, ".Close") || ef.Seq > s.Seq || ef.Defer)
				}
				r.ob("serve", "the unpacked body is left to the decoder", ok, r.at(ef), "%s before the request is served", ef.Name)
			}
		}
		r.iff("serve", "requests are passed on", where, served, good)
		bad := T.False
		for _, p := range responses(res, writer) {
			if strings.HasSuffix(p.ef.Name, ".ServeHTTP") {
				continue
			}
			r.ob("reject", "a broken stream is a client error", p.ok && p.code >= 400 && p.code < 500, r.at(p.ef), "status %d", p.code)
			r.ob("reject", "the rejection is sent once", and(bad, p.ef.Cond) == T.False, r.at(p.ef), "")
			bad = or(bad, p.ef.Cond)
		}
		r.iff("reject", "requests are rejected", where, bad, not(good))
		r.count("gzip", 2)
		r.count("serve", 5)
		r.count("headers", 2)
		r.count("reject", 2)
	})
}

func restrictTo(n, c *Node) *Node { return and(n, c) }

// checkMainRouting: Main serves the router itself.
func checkMainRouting(r *Report) {
	ex := exportedOf(r.L, "")
	e := r.engine(r.opaqueSet(ex))
	fn := r.entry("", "Main")
	res := e.Eval(fn, nil, nil, nil)
	r.used(res)
	mwr := r.entry("", "MainWithRouting")
	n := 0
	for _, ef := range effs(res, "call", func(ef *Effect) bool { return ef.Callee == mwr }) {
		n++
		w := r.at(ef)
		r.ob("routing", "Main starts the proxy unconditionally", ef.Cond == T.True && len(ef.Loops) == 0, w, "if %s", short(ef.Cond))
		r.same("routing", "Main passes the span converter on", w, ef.Args[1], res.Params[0])
		rt := leafNode(mk("sym", "$r", nil, nil))
		sub, err := e.closureEval(ef.Args[0], []*Node{rt}, ef.Mem)
		ok := err == nil && len(sub.Results) == 1 && stripIface(sub.Results[0]) == rt
		r.ob("routing", "Main serves the router itself", ok, w, "routing function is the identity")
	}
	r.ob("routing", "Main starts one proxy", n == 1, r.L.fnPos(fn), "%d calls", n)
}
