B=[
dict(id="C30-links-share-ids",prop="C30",needs="a span with two links or more to different spans",breaks="The trace id of a link is in a variable shared by all links, so that every link of a span points to the trace of the last one.",
 edits=[("internal/self/trace/tracetransform/span.go","		tid := otLink.SpanContext.TraceID()\n","		tid = otLink.SpanContext.TraceID()\n"),("internal/self/trace/tracetransform/span.go","	sl := make([]*tracepb.Span_Link, 0, len(links))\n","	sl, tid := make([]*tracepb.Span_Link, 0, len(links)), trace.TraceID{}\n")],pkg="internal/self/trace/tracetransform",test='''package tracetransform

import (
	"testing"

	tracesdk "go.opentelemetry.io/otel/sdk/trace"
	"go.opentelemetry.io/otel/trace"
)

func TestDemo(t *testing.T) {
	var ls []tracesdk.Link
	for i := byte(1); i < 4; i++ {
		ls = append(ls, tracesdk.Link{SpanContext: trace.NewSpanContext(trace.SpanContextConfig{TraceID: trace.TraceID{i}, SpanID: trace.SpanID{i}})})
	}
	for i, l := range links(ls) {
		if l.TraceId[0] != byte(i+1) || l.SpanId[0] != byte(i+1) {
			t.Fatalf("link %d: %x %x", i, l.TraceId, l.SpanId)
		}
	}
}
'''),
dict(id="C30-scope-by-name",prop="C30",needs="spans of two versions of the same instrumentation in one batch",breaks="Spans are grouped by the name of their scope only, so that spans of another version of it are exported under the first one's.",
 edits=[("internal/self/trace/tracetransform/span.go","			is: sd.InstrumentationScope(),\n","			is: instrumentation.Scope{Name: sd.InstrumentationScope().Name, SchemaURL: sd.InstrumentationScope().SchemaURL},\n")],pkg="internal/self/trace/tracetransform",test='''package tracetransform

import (
	"testing"

	"go.opentelemetry.io/otel/attribute"
	"go.opentelemetry.io/otel/sdk/instrumentation"
	"go.opentelemetry.io/otel/sdk/resource"
	tracesdk "go.opentelemetry.io/otel/sdk/trace"
	"go.opentelemetry.io/otel/sdk/trace/tracetest"
)

func TestDemo(t *testing.T) {
	res := resource.NewSchemaless(attribute.String("a", "b"))
	var in []tracesdk.ReadOnlySpan
	for _, v := range []string{"1", "2"} {
		in = append(in, tracetest.SpanStub{Name: v, Resource: res, InstrumentationLibrary: instrumentation.Scope{Name: "x", Version: v}}.Snapshot())
	}
	for _, rs := range Spans(in) {
		for _, ss := range rs.ScopeSpans {
			for _, s := range ss.Spans {
				if ss.Scope.Version != s.Name {
					t.Fatalf("span %s is under version %s", s.Name, ss.Scope.Version)
				}
			}
		}
	}
}
'''),
]
