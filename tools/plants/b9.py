B=[
dict(id="C31-whole-seconds",prop="C31",needs="a data point or exemplar with a time between two seconds",breaks="Times of points and exemplars are exported in whole seconds.",
 edits=[("internal/self/metrics/transform/metricdata.go","	return uint64(t.UnixNano())\n","	return uint64(t.Unix()) * uint64(time.Second)\n")],pkg="internal/self/metrics/transform",test='''package transform

import (
	"testing"
	"time"

	"go.opentelemetry.io/otel/sdk/metric/metricdata"
)

func TestDemo(t *testing.T) {
	ts := time.Unix(1700000000, 5e8)
	out := DataPoints([]metricdata.DataPoint[int64]{{Time: ts}})
	if got := out[0].TimeUnixNano; got != uint64(ts.UnixNano()) {
		t.Fatalf("time %d, want %d", got, ts.UnixNano())
	}
}
'''),
]
