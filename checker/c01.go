package main

import (
	"strings"

	"golang.org/x/tools/go/ssa"
)

var apiEndpoints = []struct{ path, parser string }{
	{"/api/v1/spans", "ParseJsonV1"},
	{"/api/v2/spans", "ParseJsonV2"},
	{"/api/jaeger/spans", "ParseJaeger"},
}

// isBody: the value reads the bytes of the body, possibly buffered.
func isBody(n, body *Node) bool {
	for i := 0; i < 4; i++ {
		if n == body {
			return true
		}
		t := n.leaf
		if t == nil {
			return false
		}
		switch {
		case t.op == "mkiface" && len(t.args) == 1:
			n = t.args[0]
		default:
			return false
		}
	}
	return false
}

// acceptCond is the condition under which an endpoint looks at the body.
func acceptCond(path string, header *Node) *Node {
	if path != "/api/v1/spans" {
		return T.True
	}
	ct := pureCall("(net/http.Header).Get", stringType, []*Node{header, strConst("Content-Type")})
	return pureCall("strings.Contains", boolType, []*Node{ct, strConst("application/json")})
}

type response struct {
	ef   *Effect
	code int64
	ok   bool
}

// responses lists what sets the status code.
func responses(res *EvalResult, writer *Node) []response {
	var l []response
	for _, ef := range res.Effects {
		if ef.Kind != "call" {
			continue
		}
		hasW := false
		for _, a := range ef.Args {
			if stripIface(a) == writer {
				hasW = true
			}
		}
		if !hasW {
			continue
		}
		switch {
		case ef.Name == "(net/http.ResponseWriter).WriteHeader":
			c, ok := constInt64(ef.Args[1])
			l = append(l, response{ef, c, ok})
		case ef.Name == "net/http.Error":
			c, ok := constInt64(ef.Args[2])
			l = append(l, response{ef, c, ok})
		case ef.Name == "(net/http.ResponseWriter).Header":
		default:
			if ef.Callee != nil && ef.Callee.Blocks != nil {
				continue
			}
			// writing the body sends 200 unless a status was sent before
			before := T.False
			for _, p := range l {
				before = or(before, p.ef.Cond)
			}
			if !implies(ef.Cond, before) {
				l = append(l, response{ef, 200, true})
			}
		}
	}
	return l
}

func checkEndpoint(r *Report, s *serving, path, parser string, ch *Node) {
	e := s.main.E
	eps := s.find("POST", path)
	r.ob("endpoint", "POST "+path, len(eps) == 1, "", "%d registrations", len(eps))
	if len(eps) != 1 {
		return
	}
	ep := eps[0]
	where := r.at(ep.ef)
	r.ob("endpoint", "POST "+path+" is registered unconditionally on the served router", ep.ef.Cond == T.True && ep.router == s.router && len(ep.ef.Loops) == 0, where, "condition %s, router %s", short(ep.ef.Cond), short(ep.router))
	res, err := e.closureEval(ep.handler, nil, ep.ef.Mem)
	if err != nil {
		r.ob("endpoint", "handler of "+path, false, where, "%v", err)
		return
	}
	r.used(res)
	ps := res.Fn.Params
	r.must(len(ps) >= 2, "handler of %s has %d parameters", path, len(ps))
	writer, req := res.Params[0], res.Params[1]
	reqT := ps[1].Type()
	m0 := ep.ef.Mem
	body := e.loadAt(m0, fieldAddrOf(req, reqT, "Body"), fieldType(reqT, "Body"))
	header := e.loadAt(m0, fieldAddrOf(req, reqT, "Header"), fieldType(reqT, "Header"))
	A := acceptCond(path, header)

	// parsing
	pf := r.entry("codec", parser)
	var parse *Effect
	for _, ef := range effs(res, "call", func(ef *Effect) bool {
		return ef.Callee != nil && ef.Callee.Pkg == pf.Pkg && strings.HasPrefix(ef.Callee.Name(), "Parse")
	}) {
		if ef.Callee != pf || parse != nil {
			r.ob("parse", path+" is decoded once, by "+parser, false, r.at(ef), "calls %s", ef.Name)
			return
		}
		parse = ef
	}
	if parse == nil {
		r.ob("parse", path+" is decoded once, by "+parser, false, where, "no call of %s", parser)
		return
	}
	r.ob("parse", path+" is decoded once, by "+parser, parse.Gor == nil && len(parse.Loops) == 0, r.at(parse), "in the request's goroutine")
	r.iff("parse", path+" decodes the body of an acceptable request", r.at(parse), parse.Cond, A)
	r.ob("parse", path+" decodes the whole body", isBody(parse.Args[0], body), r.at(parse), "reads %s", short(parse.Args[0]))
	S, perr := tupleElem(parse.Res, 0), tupleElem(parse.Res, 1)
	good := nilNode(perr)
	ok := and(A, good)

	// hand-over
	sends := effs(res, "", func(ef *Effect) bool { return ef.Kind == "send" || ef.Kind == "select" })
	r.ob("handover", path+" hands over at one place", len(sends) == 1, where, "%d channel operations", len(sends))
	var lastSend int
	for _, sd := range sends {
		w := r.at(sd)
		if sd.Seq > lastSend {
			lastSend = sd.Seq
		}
		r.ob("handover", path+" waits for the receiver", sd.Kind == "send" && sd.Gor == nil && !sd.Defer, w, "%s, in the goroutine of the request: %v", sd.Kind, sd.Gor == nil)
		if sd.Kind != "send" {
			continue
		}
		r.same("handover", path+" sends to the input channel", w, sd.Args[0], ch)
		if len(sd.Loops) != 1 {
			r.ob("handover", path+" sends every span in order", false, w, "inside of %d loops", len(sd.Loops))
			continue
		}
		L := sd.Loops[0]
		n := lenOf(S)
		r.ob("handover", path+" sends every span in order", ranges(L, n), w, "the loop runs over the indices 0..len-1 of the decoded spans and has no other exit")
		r.iff("handover", path+" sends the spans of a body that was decoded without an error, and no others", w, sd.Cond, and(ok, inLoop(L, n)))
		et := r.L.typ("proxy", "Span")
		v := e.elemOf(m0, S, leafNode(L.K), et)
		v2 := e.elemOf(sd.Mem, S, leafNode(L.K), et)
		r.ob("handover", path+" sends the spans as they were decoded", sd.Args[1] == v || sd.Args[1] == v2 && !writtenSpans(res, e), w, "sends %s", short(sd.Args[1]))
	}

	// response
	rs := responses(res, writer)
	okc, badc := T.False, T.False
	for _, p := range rs {
		w := r.at(p.ef)
		r.ob("response", path+" status is constant and sent once", p.ok && len(p.ef.Loops) == 0 && p.ef.Gor == nil, w, "status %d", p.code)
		switch {
		case p.code == 202:
			r.ob("response", path+" answers after the hand-over", p.ef.Seq > lastSend || p.ef.Defer, w, "sends are before the response")
			r.ob("response", path+" answers once", and(okc, p.ef.Cond) == T.False, w, "")
			okc = or(okc, p.ef.Cond)
		case p.code >= 400 && p.code < 500:
			r.ob("response", path+" answers once", and(badc, p.ef.Cond) == T.False, w, "")
			badc = or(badc, p.ef.Cond)
		default:
			r.ob("response", path+" answers 202 or a client error", false, w, "status %d if %s", p.code, short(p.ef.Cond))
		}
	}
	r.iff("response", path+" answers 202", where, okc, ok)
	r.iff("response", path+" answers with a client error", where, badc, not(ok))
	for _, p := range effs(res, "panic", nil) {
		r.ob("response", path+" does not panic", false, r.at(p), "%s", short(p.Cond))
	}
}

func writtenSpans(res *EvalResult, e *Engine) bool {
	for _, ef := range effs(res, "store", nil) {
		a := ef.Args[0]
		if a.leaf == nil {
			return true
		}
		if root := addrRoot(a.leaf); root.op != "alloc" {
			return true
		}
	}
	return false
}

func init() {
	register("C01", "Value-flow summary of the three request handlers: the gated value and condition of the decoder call, of every channel send and of every response are compared with the specification.", func(r *Report) {
		s := r.serving(r.mainOpaque())
		var ch *Node
		for _, d := range effs(s.main, "makechan", nil) {
			_ = d
		}
		ch = inputChannel(r, s)
		for _, ep := range apiEndpoints {
			checkEndpoint(r, s, ep.path, ep.parser, ch)
		}
		r.count("endpoint", 6)
		r.count("parse", 9)
		r.count("handover", 15)
		r.count("response", 12)
	})
}

// inputChannel: the channel that the consumers of the HTTP input read.
func inputChannel(r *Report, s *serving) *Node {
	// the channel handed to the first stage in each configuration
	send := r.L.fn("balance", "Sender.Send")
	direct := r.L.fn("", "ErrorCorrectSpans")
	var ch *Node
	for _, ef := range effs(s.main, "go", nil) {
		var fn *ssa.Function
		if t := ef.Args[0].leaf; t != nil && (t.op == "func" || t.op == "closure") {
			fn = t.obj.(*ssa.Function)
		}
		if send != nil && fn == send {
			ch = ef.Args[2]
		}
	}
	if ch == nil {
		for _, ef := range effs(s.main, "call", nil) {
			if ef.Gor != nil && ef.Callee != nil && (ef.Callee == send) {
				ch = ef.Args[1]
			}
		}
	}
	_ = direct
	r.must(ch != nil, "no goroutine sends the spans of the HTTP server to kafka")
	return ch
}
