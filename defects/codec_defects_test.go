package codec

import (
	"bytes"
	"encoding/json"
	"runtime"
	"strings"
	"testing"

	"github.com/flachnetz/dd-zipkin-proxy/proxy"
)

// D6: a tiny message could make the decoder allocate gigabytes
func TestDefect_HugeAllocation(t *testing.T) {
	var w bytes.Buffer
	_ = writeLong(1, &w)
	_ = writeLong(2, &w)
	_ = writeLong(3, &w)
	_ = writeLong(1<<30, &w)
	var before, after runtime.MemStats
	runtime.ReadMemStats(&before)
	if _, err := BinaryDecode(bytes.NewReader(w.Bytes())); err == nil {
		t.Fatal("expected error")
	}
	runtime.ReadMemStats(&after)
	if d := after.TotalAlloc - before.TotalAlloc; d > 1<<20 {
		t.Fatalf("allocated %d bytes for a %d byte message", d, w.Len())
	}
}

// D7: annotations of an earlier request show up in a later one
func TestDefect_StaleAnnotations(t *testing.T) {
	for i := 0; i < 50; i++ {
		_, err := ParseJsonV1(strings.NewReader(`[{"id":"1","traceId":"1","binaryAnnotations":[{"key":"a","value":"b"},{"key":"password","value":"secret"}],"binaryAnnotations":[{"key":"x","value":"y"}]}]`))
		if err != nil {
			t.Fatal(err)
		}
		spans, err := ParseJsonV1(strings.NewReader(`[{"id":"2","traceId":"2","binaryAnnotations":[{"key":"a","value":"b"},{}]}]`))
		if err != nil {
			t.Fatal(err)
		}
		if v, ok := spans[0].Tags["password"]; ok {
			t.Fatal("leaked from the previous request: ", v)
		}
	}
}

// D8: the json form of a span could not be read back
func TestDefect_IdJson(t *testing.T) {
	encoded, err := json.Marshal(proxy.Span{Id: 0xdead})
	if err != nil {
		t.Fatal(err)
	}
	var span proxy.Span
	if err := json.Unmarshal(encoded, &span); err != nil || span.Id != 0xdead {
		t.Fatal(string(encoded), err)
	}
}
