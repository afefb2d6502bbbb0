package zipkinproxy

import (
	"testing"

	"github.com/flachnetz/dd-zipkin-proxy/proxy"
)

// D10: spans are not reported in the order they were received
func TestDefect_BufferOrder(t *testing.T) {
	buf := NewSpansBuffer(4)
	ch := make(chan proxy.Trace, 1)
	ch <- proxy.Trace{{Id: 1}, {Id: 2}, {Id: 3}, {Id: 4}, {Id: 5}, {Id: 6}}
	close(ch)
	buf.ReadFrom(ch)
	for i, span := range buf.ToSlice() {
		if int(span.Id) != i+3 {
			t.Fatal(buf.ToSlice())
		}
	}
}

// D11: the number of discarded traces is reported as the number of spans
func TestDefect_DiscardedMetric(t *testing.T) {
	trees := map[Id]*tree{}
	tr := newTree(1)
	for i := 1; i <= 10; i++ {
		tr.AddSpan(proxy.Span{Trace: 1, Id: Id(i)})
	}
	trees[1] = tr
	before := metricsTracesDiscarded.Count()
	discardSuspiciousTraces(trees, 5)
	if n := metricsTracesDiscarded.Count() - before; n != 1 {
		t.Fatal("one trace was discarded, the meter says", n)
	}
}

// D12: the number of spans of a trace wraps around
func TestDefect_NodeCountWraps(t *testing.T) {
	tr := newTree(1)
	const n = 65536 + 10
	for i := n; i > 0; i-- {
		tr.AddSpan(proxy.Span{Trace: 1, Id: Id(i), Parent: 1})
	}
	if int(tr.nodeCount) != n {
		t.Fatal(tr.nodeCount)
	}
}

// D15: the client times of a span with all times are lost if it is merged into a client half without times
func TestDefect_ClientTimesLost(t *testing.T) {
	tr := newTree(1)
	tr.AddSpan(proxy.Span{Trace: 1, Id: 2, Parent: 1})
	tr.AddSpan(proxy.Span{Trace: 1, Id: 2, Parent: 1, Timings: proxy.Timings{CS: 10, SR: 20, SS: 30, CR: 40}})
	if got := tr.GetSpan(2).Timings; got != (proxy.Timings{CS: 10, SR: 20, SS: 30, CR: 40}) {
		t.Fatal(got)
	}
}
