package main

// Models of functions outside of the repository.

import (
	"fmt"
	"go/token"
	"go/types"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// pure: result depends on the arguments only, no effect on memory we track.
var pureFuncs = map[string]bool{
	"strings.Contains": true, "strings.EqualFold": true, "strings.Repeat": true, "strings.ToLower": true,
	"strings.ToUpper": true, "strings.HasPrefix": true, "strings.HasSuffix": true, "strings.Index": true,
	"strings.TrimSpace": true, "strings.Split": true,
	"strconv.Itoa": true, "strconv.FormatInt": true, "strconv.FormatUint": true, "strconv.Quote": true,
	"(time.Time).Add": true, "(time.Time).Sub": true, "(time.Time).Before": true, "(time.Time).After": true,
	"(time.Time).UnixNano": true, "(time.Time).Unix": true, "time.Unix": true, "(time.Duration).Nanoseconds": true,
	"(time.Duration).Microseconds": true, "(time.Duration).Milliseconds": true, "(time.Duration).Seconds": true,
	"(time.Duration).String": true, "(time.Time).IsZero": true,
	"(time.Time).MarshalJSON": true, "unicode/utf16.IsSurrogate": true, "unicode/utf16.DecodeRune": true,
	"unicode/utf8.RuneLen": true, "unicode/utf8.ValidRune": true, "bytes.NewReader": false,
	"(net/http.Header).Get":                true,
	"github.com/modern-go/reflect2.TypeOf": true,
	"(*bytes.Buffer).Len":                  false, "(*bytes.Reader).Len": false,
	"(github.com/modern-go/reflect2.SliceType).UnsafeGetIndex": true,
	"(github.com/modern-go/reflect2.ArrayType).UnsafeGetIndex": true,
	"(github.com/modern-go/reflect2.ArrayType).Len":            true,
	"(github.com/modern-go/reflect2.SliceType).Elem":           true,
	"(github.com/modern-go/reflect2.ArrayType).Elem":           true,
	"(github.com/modern-go/reflect2.SliceType).String":         true,
	"(github.com/modern-go/reflect2.ArrayType).String":         true,
	"(github.com/modern-go/reflect2.Type).String":              true,
	"(error).Error":            true,
	"math/bits.LeadingZeros64": true, "math.Abs": true, "bytes.Equal": true,
}

// noEffect: fresh result, memory we track is not modified.
var noEffectFuncs = map[string]bool{
	"time.Now": true, "time.Since": true, "math/rand.Float64": true, "os.Getenv": true,
	"(*bytes.Buffer).Len": true, "(*bytes.Reader).Len": true, "(*bytes.Buffer).Bytes": true,
	"fmt.Sprintf": true, "fmt.Sprint": true, "encoding/json.MarshalIndent": true, "encoding/json.Marshal": true,
	"github.com/sirupsen/logrus.GetLevel": true, "strings.Join": true,
	"bytes.NewReader": true, "bytes.NewBuffer": true, "encoding/json.NewDecoder": true, "time.NewTicker": true,
	"context.WithCancel": true, "context.Background": true, "(*time.Ticker).Stop": true,
	"net/http.Error": true, "(net/http.ResponseWriter).WriteHeader": true, "(net/http.ResponseWriter).Header": true,
	"(net/http.Header).Set": true, "(net/http.Header).Del": true, "(net/http.Header).Add": true,
	"(*github.com/julienschmidt/httprouter.Router).POST": true, "(*github.com/julienschmidt/httprouter.Router).Handle": true,
	"(*github.com/julienschmidt/httprouter.Router).Handler": true, "(*github.com/julienschmidt/httprouter.Router).HandlerFunc": true,
	"(*github.com/julienschmidt/httprouter.Router).GET": true, "(*github.com/julienschmidt/httprouter.Router).PUT": true,
	"(net/http.Handler).ServeHTTP": true,
	"compress/gzip.NewReader":      true,
	"(*sync.Mutex).Lock":           true, "(*sync.Mutex).Unlock": true, "(*sync.RWMutex).Lock": true, "(*sync.RWMutex).Unlock": true,
	"(*sync.RWMutex).RLock": true, "(*sync.RWMutex).RUnlock": true,
	"(*sync.Pool).Put": true, "(*sync.Pool).Get": true,
	"(*bytes.Buffer).WriteByte": true, "(*bytes.Buffer).WriteString": true, "(*bytes.Buffer).Write": true, "(*bytes.Buffer).Grow": true,
	"(*bytes.Reader).ReadByte": true,
}

func isLogName(n string) bool {
	return hasPrefixAny(n, "(*github.com/sirupsen/logrus.Entry).", "(*github.com/sirupsen/logrus.Logger).", "github.com/sirupsen/logrus.")
}

func isMetricsName(n string) bool {
	return strings.Contains(n, "github.com/rcrowley/go-metrics.")
}

// errors created by these are never nil.
func isErrCtor(n string) bool {
	switch n {
	case "errors.New", "fmt.Errorf", "github.com/pkg/errors.New", "github.com/pkg/errors.Errorf":
		return true
	}
	return false
}

func isErrWrap(n string) bool {
	switch n {
	case "github.com/pkg/errors.WithMessage", "github.com/pkg/errors.WithMessagef", "github.com/pkg/errors.Wrap",
		"github.com/pkg/errors.Wrapf", "github.com/pkg/errors.WithStack":
		return true
	}
	return false
}

func isExternalErrGlobal(t *Term) bool {
	if t.op != "load" || t.aux != "0" || !isErrorType(t.typ) {
		return false
	}
	a := t.args[0].leaf
	if a == nil || a.op != "global" {
		return false
	}
	g, ok := a.obj.(*ssa.Global)
	return ok && g.Pkg != nil && !strings.HasPrefix(g.Pkg.Pkg.Path(), repoPrefix)
}

func pureCall(name string, rt types.Type, args []*Node) *Node {
	if rt == nil {
		return T.Nil
	}
	if tt, ok := rt.(*types.Tuple); ok {
		base := mk("call", name, nil, nil, args...)
		var vs []*Node
		for i := 0; i < tt.Len(); i++ {
			vs = append(vs, symNode(mk("ext", fmt.Sprint(i), nil, tt.At(i).Type(), leafNode(base))))
		}
		return mkN("tuple", "", nil, nil, vs...)
	}
	return symNode(mk("call", name, nil, rt, args...))
}

// tns is the position of a time on the time line, in nanoseconds: a time is a
// term of its own or a sum of one and a duration.
func tns(a *Node) *Node {
	return apply1(a, func(x *Term) *Node {
		if x.op == "timeof" {
			return x.args[0]
		}
		return mkN("tns", "", nil, types.Typ[types.Int64], leafNode(x))
	})
}

func timeOf(ns *Node, typ types.Type) *Node {
	return apply1(ns, func(x *Term) *Node {
		if x.op == "tns" {
			return x.args[0]
		}
		return mkN("timeof", "", nil, typ, leafNode(x))
	})
}

// timeBefore is the canonical strict order on times
func timeBefore(a, b *Node) *Node { return lessThan(tns(a), tns(b)) }

func (fr *frame) extern(ins ssa.Instruction, name string, fn *ssa.Function, args []*Node, st *State, rt types.Type) *Node {
	e := fr.e
	if e.ExternHk != nil {
		if v, ok := e.ExternHk(e, fr, name, args, st, ins); ok {
			return v
		}
	}
	rec := func(res *Node, pure bool) *Node {
		fr.effect(&Effect{Kind: "call", Name: name, Callee: fn, Args: args, Res: res, Instr: ins, Pure: pure}, st)
		return res
	}
	// ---- errors
	if isErrCtor(name) {
		return rec(leafNode(mk("nonnil", fmt.Sprintf("err@%d.%d", fr.ctx.id, fr.info.instr[ins]), nil, rt, fr.iters...)), true)
	}
	if isErrWrap(name) {
		return rec(apply1(args[0], func(t *Term) *Node {
			if t.op == "nil" {
				return T.Nil
			}
			return mkN("wraperr", "", nil, rt, leafNode(t))
		}), true)
	}
	switch name {
	case "errors.Is":
		return rec(eq(args[0], args[1]), true)
	case "github.com/modern-go/reflect2.NoEscape":
		return args[0]
	case "github.com/modern-go/reflect2.UnsafeCastString":
		return mkN("bytes", "", nil, rt, args[0])
	// ---- time
	case "time.Now", "time.Since":
		now := symNode(fr.sym(ins, "now", nil))
		if name == "time.Now" {
			return rec(now, true)
		}
		return rec(sub(tns(now), tns(args[0])), true)
	case "(time.Time).Sub":
		return rec(sub(tns(args[0]), tns(args[1])), true)
	case "(time.Time).Add":
		return rec(timeOf(add(tns(args[0]), args[1]), rt), true)
	case "(time.Time).Equal":
		return rec(eq(tns(args[0]), tns(args[1])), true)
	case "time.Until":
		now := symNode(fr.sym(ins, "now", nil))
		return rec(sub(tns(args[0]), tns(now)), true)
	case "(time.Time).Before":
		return rec(timeBefore(args[0], args[1]), true)
	case "(time.Time).After":
		return rec(timeBefore(args[1], args[0]), true)
	case "(time.Duration).Nanoseconds":
		return rec(args[0], true)
	case "(time.Duration).Microseconds":
		return rec(arith(token.QUO, args[0], intConst(1000), rt), true)
	case "(time.Duration).Milliseconds":
		return rec(arith(token.QUO, args[0], intConst(1000000), rt), true)
	case "time.Unix":
		return rec(mkN("tunix", "", nil, rt, args[0], args[1]), true)
	case "(time.Time).UnixNano":
		return rec(apply1(args[0], func(t *Term) *Node {
			if t.op == "tunix" {
				if s, ok := constInt64(t.args[0]); ok {
					return add(intConst(s*1000000000), t.args[1])
				}
			}
			return mkN("call", name, nil, rt, leafNode(t))
		}), true)
	// ---- strings
	case "strings.EqualFold":
		a, b := args[0], args[1]
		if _, ok := constString(a); ok {
			a, b = b, a
		}
		if s, ok := constString(b); ok {
			b = strConst(strings.ToLower(s))
		}
		return rec(symNodeApply("equalfold", a, b), true)
	case "strconv.Itoa":
		if v, ok := constInt64(args[0]); ok {
			return rec(strConst(strconv.Itoa(int(v))), true)
		}
		return rec(pureCall(name, rt, args), true)
	// ---- bytes
	case "(encoding/binary.littleEndian).PutUint64", "(encoding/binary.bigEndian).PutUint64":
		buf, v := args[len(args)-2], args[len(args)-1]
		rec(T.Nil, false)
		for i := 0; i < 8; i++ {
			k := i
			if strings.Contains(name, "big") {
				k = 7 - i
			}
			a := indexAddrTerm(sliceData(buf), add(sliceOff(buf), intConst(int64(i))), types.Typ[types.Uint8])
			e.storeAt(st.mem, a, byteOf(v, k), types.Typ[types.Uint8], T.True)
		}
		return T.Nil
	case "encoding/hex.Encode":
		rec(T.Nil, false)
		if n, ok := constInt64(lenOf(args[1])); ok && n <= maxArray {
			b := types.Typ[types.Uint8]
			for i := int64(0); i < n; i++ {
				src := e.loadAt(st.mem, indexAddrTerm(sliceData(args[1]), add(sliceOff(args[1]), intConst(i)), b), b)
				hi := mkN("hexhi", "", nil, b, src)
				lo := mkN("hexlo", "", nil, b, src)
				d := sliceData(args[0])
				e.storeAt(st.mem, indexAddrTerm(d, add(sliceOff(args[0]), intConst(2*i)), b), hi, b, T.True)
				e.storeAt(st.mem, indexAddrTerm(d, add(sliceOff(args[0]), intConst(2*i+1)), b), lo, b, T.True)
			}
			return intConst(2 * n)
		}
		e.havocReach(st.mem, args[0], fmt.Sprintf("x%d.%d", fr.ctx.id, fr.info.instr[ins]), fr.iters, 0)
		return symNode(fr.sym(ins, "hexlen", rt))
	case "fmt.Sprintf":
		if f, ok := constString(args[0]); ok && f == "%016x" {
			if n, ok := constInt64(lenOf(args[1])); ok && n == 1 {
				v := e.elemOf(st.mem, args[1], intConst(0), types.NewInterfaceType(nil, nil))
				if t := v.leaf; t != nil && t.op == "mkiface" {
					if et, _ := t.obj.(types.Type); et != nil && isUint64(et) && types.NewMethodSet(et).Len() == 0 {
						b := types.Typ[types.Uint8]
						var el []*Node
						for i := 7; i >= 0; i-- {
							src := byteOf(t.args[0], i)
							el = append(el, mkN("hexhi", "", nil, b, src), mkN("hexlo", "", nil, b, src))
						}
						return rec(mkN("strof", "", nil, types.Typ[types.String], el...), true)
					}
				}
			}
		}
	case "bytes.Equal":
		a, b := e.bytesToString(args[0], st), e.bytesToString(args[1], st)
		known := func(n *Node) bool {
			for _, l := range guardedLeaves(n) {
				if l.T.op != "const" && l.T.op != "strof" {
					return false
				}
			}
			return true
		}
		if known(a) && known(b) {
			return rec(eq(a, b), true)
		}
	case "encoding/hex.EncodeToString":
		if n, ok := constInt64(lenOf(args[0])); ok && n <= maxArray {
			b := types.Typ[types.Uint8]
			var el []*Node
			for i := int64(0); i < n; i++ {
				src := e.loadAt(st.mem, indexAddrTerm(sliceData(args[0]), add(sliceOff(args[0]), intConst(i)), b), b)
				el = append(el, mkN("hexhi", "", nil, b, src), mkN("hexlo", "", nil, b, src))
			}
			return rec(mkN("strof", "", nil, types.Typ[types.String], el...), true)
		}
	// ---- writing to a buffer in memory never fails
	case "(*bytes.Buffer).WriteByte":
		return rec(T.Nil, false)
	case "(*bytes.Buffer).WriteString", "(*bytes.Buffer).Write":
		rec(T.Nil, false)
		return mkN("tuple", "", nil, nil, lenOf(args[1]), T.Nil)
	// ---- callbacks
	case "(github.com/rcrowley/go-metrics.Timer).Time":
		rec(T.Nil, false)
		fr.callValue(ins, args[1], nil, st, nil)
		return T.Nil
	case "sort.Search":
		bound := leafNode(mk("bound", "i", nil, types.Typ[types.Int]))
		s2 := &State{cond: st.cond, mem: st.mem.clone()}
		pred := fr.callValue(ins, args[1], []*Node{bound}, s2, types.Typ[types.Bool])
		if pred == nil {
			pred = T.False
		}
		res := mkN("search", "", nil, types.Typ[types.Int], args[0], toBool(pred))
		return rec(res, true)
	case "sort.Slice", "sort.SliceStable":
		i := leafNode(mk("bound", "i", nil, types.Typ[types.Int]))
		j := leafNode(mk("bound", "j", nil, types.Typ[types.Int]))
		s2 := &State{cond: st.cond, mem: st.mem.clone()}
		less := fr.callValue(ins, args[1], []*Node{i, j}, s2, types.Typ[types.Bool])
		if less == nil {
			less = T.False
		}
		fr.effect(&Effect{Kind: "sort", Name: name, Args: []*Node{args[0], toBool(less)}, Instr: ins}, st)
		e.havocReach(st.mem, args[0], fmt.Sprintf("sort%d.%d", fr.ctx.id, fr.info.instr[ins]), fr.iters, 0)
		return T.Nil
	case "(*sync.Pool).Get":
		return rec(leafNode(mk("sym", fmt.Sprintf("pool@%d.%d", fr.ctx.id, fr.info.instr[ins]), ins, rt, append([]*Node{args[0]}, fr.iters...)...)), false)
	case "(*sync.Once).Do":
		rec(T.Nil, false)
		fr.callValue(ins, args[1], nil, st, nil)
		return T.Nil
	// ---- reflect2 struct layout
	case "(github.com/modern-go/reflect2.StructType).FieldByName":
		if x := args[0].leaf; x != nil {
			y := x
			if x.op == "assert" {
				y = x.args[0].leaf
			}
			if y != nil && y.op == "call" && strings.HasSuffix(y.aux, "reflect2.TypeOf") {
				if iface := y.args[0].leaf; iface != nil && iface.op == "mkiface" {
					if nm, ok := constString(args[1]); ok {
						t := iface.obj.(types.Type)
						return rec(leafNode(mk("structfield", typeKey(t)+"."+nm, fieldRef{t, nm}, rt)), true)
					}
				}
			}
		}
	case "(github.com/modern-go/reflect2.StructField).Offset":
		if x := args[0].leaf; x != nil && x.op == "structfield" {
			f := x.obj.(fieldRef)
			if off, ok := e.L.fieldOffset(f.t, f.name); ok {
				return rec(intConst(off), true)
			}
		}
	}
	if name == "github.com/modern-go/reflect2.TypeOf" && args[0].leaf != nil {
		t := args[0].leaf
		if t.op == "mkiface" {
			// the type only, not the value
			z := mkN("mkiface", t.aux, t.obj, t.typ, T.Nil)
			return rec(pureCall(name, rt, []*Node{z}), true)
		}
	}
	if isLogName(name) {
		if rt == nil {
			return rec(T.Nil, true)
		}
		return rec(fr.results(ins, "log", rt), true)
	}
	if isMetricsName(name) {
		if rt == nil {
			return rec(T.Nil, false)
		}
		// registry lookups by constant name are functions of their arguments
		if strings.Contains(name, "GetOrRegister") && !strings.Contains(name, "Uniform") {
			if _, ok := constString(args[0]); ok {
				return rec(mkN("metric", name[strings.LastIndex(name, ".")+1:], nil, rt, args[0]), true)
			}
		}
		return rec(fr.results(ins, "metric", rt), false)
	}
	if strings.HasPrefix(name, "sync/atomic.") {
		return fr.atomicCall(ins, name, args, st, rt, rec)
	}
	if pureFuncs[name] {
		return rec(pureCall(name, rt, args), true)
	}
	res := fr.results(ins, "ext:"+shortName(name), rt)
	if strings.HasPrefix(shortName(name), "Must") && false {
		return res
	}
	rec(res, false)
	if !noEffectFuncs[name] {
		lab := fmt.Sprintf("x%d.%d", fr.ctx.id, fr.info.instr[ins])
		for _, a := range args {
			e.havocReach(st.mem, a, lab, fr.iters, 0)
		}
	}
	return res
}

type fieldRef struct {
	t    types.Type
	name string
}

func shortName(n string) string {
	i := strings.LastIndex(n, "/")
	n = n[i+1:]
	return n
}

func symNodeApply(op string, args ...*Node) *Node {
	if len(args) == 2 {
		return apply2(args[0], args[1], func(x, y *Term) *Node {
			if op == "equalfold" && (x.op == "const" && y.op != "const" || x.op != "const" && y.op != "const" && x.id > y.id) {
				x, y = y, x
			}
			return leafBool(mk(op, "", nil, types.Typ[types.Bool], leafNode(x), leafNode(y)))
		})
	}
	return leafBool(mk(op, "", nil, types.Typ[types.Bool], args...))
}

func (fr *frame) atomicCall(ins ssa.Instruction, name string, args []*Node, st *State, rt types.Type, rec func(*Node, bool) *Node) *Node {
	res := T.Nil
	if rt != nil {
		res = fr.results(ins, "atomic", rt)
	}
	return rec(res, false)
}

// callValue calls a function value from a modelled external function.
func (fr *frame) callValue(ins ssa.Instruction, fv *Node, args []*Node, st *State, rt types.Type) *Node {
	e := fr.e
	t := fv.leaf
	if t == nil || (t.op != "closure" && t.op != "func") {
		fr.effect(&Effect{Kind: "call", Name: "dynamic", Args: append([]*Node{fv}, args...), Instr: ins}, st)
		if rt == nil {
			return T.Nil
		}
		return fr.results(ins, "dyn", rt)
	}
	fn := t.obj.(*ssa.Function)
	if fn.Blocks == nil {
		return fr.extern(ins, fn.String(), fn, args, st, rt)
	}
	var bind []*Node
	if t.op == "closure" {
		bind = t.args[:len(fn.FreeVars)]
	}
	ctx := e.mkctx(fr.ctx, ins, fn, bind)
	rets, out := e.run(ctx, fn, args, bind, st, and(fr.base, st.cond), fr.loops, fr.iters)
	if out == nil {
		st.cond = T.False
		return nil
	}
	vals := joinRets(e, rets)
	st.mem = out.mem
	st.cond = and(st.cond, e.restrictFacts(out.cond))
	if len(vals) == 1 {
		return vals[0]
	}
	return T.Nil
}

func isUint64(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Kind() == types.Uint64
}
