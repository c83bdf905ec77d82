B=[
dict(id="C32-short-parent",prop="C32",needs="a span whose parent id is not empty and shorter than eight bytes (clients can send any bytes)",breaks="Indexing takes the first eight bytes of the parent id: a shorter id ends the process with a slice bounds panic while the batch is saved.",
 edits=[("internal/transform/trace.go","						WithKey(hex.EncodeToString(span.ParentSpanId))","						WithKey(hex.EncodeToString(span.ParentSpanId[:8]))")],pkg="internal/transform",test='''package transform

import (
	"testing"

	v1 "github.com/gernest/requiemdb/gen/go/rq/v1"
	tracev1 "go.opentelemetry.io/proto/otlp/trace/v1"
)

func TestDemo(t *testing.T) {
	c := NewContext(func(b []byte) uint64 { return 1 })
	_, err := c.ProcessSamples(&v1.Sample{Id: 1, Data: &v1.Data{Data: &v1.Data_Traces{Traces: &tracev1.TracesData{ResourceSpans: []*tracev1.ResourceSpans{{
		ScopeSpans: []*tracev1.ScopeSpans{{Spans: []*tracev1.Span{{Name: "a", ParentSpanId: []byte{1, 2, 3, 4}[:4:4]}}}},
	}}}}}})
	if err != nil {
		t.Fatal(err)
	}
}
'''),
dict(id="C32-scope-filter-without-scope",prop="C32",needs="logs, spans or metrics without a scope, and a script that filters",breaks="The version of a scope that is missing is read while data is trimmed: the server ends with a nil pointer panic.",
 edits=[("internal/visit/visit.go","		a.AcceptScopeVersion(r.GetVersion()) &&","		a.AcceptScopeVersion(r.Version) &&")],pkg="internal/visit",test='''package visit

import (
	"testing"

	v1 "github.com/gernest/requiemdb/gen/go/rq/v1"
	metricsv1 "go.opentelemetry.io/proto/otlp/metrics/v1"
)

func TestDemo(t *testing.T) {
	a := New()
	a.SetScopVersion("")
	_ = v1.Scan{}
	a.Visit(&v1.Data{Data: &v1.Data_Metrics{Metrics: &metricsv1.MetricsData{ResourceMetrics: []*metricsv1.ResourceMetrics{{
		ScopeMetrics: []*metricsv1.ScopeMetrics{{Metrics: []*metricsv1.Metric{{Name: "a"}}}},
	}}}}})
}
'''),
]
