HEAD='''package arrow3

import (
	"testing"

	"github.com/apache/arrow/go/v17/arrow/memory"
	commonv1 "go.opentelemetry.io/proto/otlp/common/v1"
	metricsv1 "go.opentelemetry.io/proto/otlp/metrics/v1"
	tracev1 "go.opentelemetry.io/proto/otlp/trace/v1"
	"google.golang.org/protobuf/proto"
)

var _ *metricsv1.Metric
var _ *tracev1.Span
var _ *commonv1.KeyValue

func round[T proto.Message](t *testing.T, ms ...T) {
	t.Helper()
	s, err := New[T](memory.DefaultAllocator)
	if err != nil {
		t.Fatal(err)
	}
	defer s.Release()
	for _, m := range ms {
		s.Append(m)
	}
	r := s.NewRecord()
	defer r.Release()
	defer func() {
		if x := recover(); x != nil {
			t.Fatal(x)
		}
	}()
	for i, m := range s.Proto(r, nil) {
		if !proto.Equal(m, ms[i]) {
			t.Errorf("record %d: stored %v, read %v", i, ms[i], m)
		}
	}
}
'''
B=[
dict(id="C38-empty-attribute-lost",prop="C38",needs="an attribute whose value is present and empty",breaks="An attribute value without any content is stored as null to save space: it is read as not set.",
 edits=[("internal/arrow3/node.go","					a.Append(bs)\n					return nil\n				}\n			}\n			n.encode","					if len(bs) == 0 {\n						a.AppendNull()\n					} else {\n						a.Append(bs)\n					}\n					return nil\n				}\n			}\n			n.encode")],pkg="internal/arrow3",test=HEAD+'''
func TestDemo(t *testing.T) {
	round(t, &tracev1.Span{Name: "a", Attributes: []*commonv1.KeyValue{{Key: "k", Value: &commonv1.AnyValue{}}}})
}
'''),
dict(id="C38-zero-of-oneof-lost",prop="C38",needs="a data point whose value is zero",breaks="Members of a oneof that have their zero value are stored as null: which member was chosen is lost, and a value of zero is read as no value.",
 edits=[("internal/arrow3/node.go","		// Handle oneof for base types\n		setup := n.setup\n		n.setup = func(b array.Builder) valueFn {\n			do := setup(b)\n			return func(v protoreflect.Value, set bool) error {\n				if !set {","		// Handle oneof for base types\n		setup := n.setup\n		n.setup = func(b array.Builder) valueFn {\n			do := setup(b)\n			return func(v protoreflect.Value, set bool) error {\n				if !set || v.Equal(field.Default()) {")],pkg="internal/arrow3",test=HEAD+'''
func TestDemo(t *testing.T) {
	round(t,
		&metricsv1.NumberDataPoint{Value: &metricsv1.NumberDataPoint_AsInt{AsInt: 7}},
		&metricsv1.NumberDataPoint{Value: &metricsv1.NumberDataPoint_AsInt{}},
		&metricsv1.NumberDataPoint{Value: &metricsv1.NumberDataPoint_AsDouble{}},
		&metricsv1.NumberDataPoint{})
}
'''),
dict(id="C38-list-of-first-record",prop="C38",needs="a second record in the same block that has a list",breaks="The elements of a list are read from the start of the column instead of from where the list of the record starts: every record has elements of the first one.",
 edits=[("internal/arrow3/node.go","								list.NewElement(),\n								val,\n								int(k),","								list.NewElement(),\n								val,\n								int(k-start),")],pkg="internal/arrow3",test=HEAD+'''
func TestDemo(t *testing.T) {
	sp := func(s string) *tracev1.Span {
		return &tracev1.Span{Name: s, Links: []*tracev1.Span_Link{{TraceState: s}}}
	}
	round(t, sp("a"), sp("b"), sp("c"))
}
'''),
]
