package cache

import (
	"bytes"
	"testing"

	"github.com/rcrowley/go-metrics"
)

// D13: an idle proxy reports NaN as hit rate, which breaks the json export of all metrics
func TestDefect_HitRate(t *testing.T) {
	r := metrics.NewRegistry()
	RegisterCacheMetrics(r)
	var buf bytes.Buffer
	metrics.WriteJSONOnce(r, &buf)
	if buf.Len() == 0 {
		t.Fatal("metrics can not be exported")
	}
}
