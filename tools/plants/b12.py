pre='''package f2

import (
	"strings"
	"testing"

	"github.com/dgraph-io/badger/v4"
	commonv1 "go.opentelemetry.io/proto/otlp/common/v1"
	metricsv1 "go.opentelemetry.io/proto/otlp/metrics/v1"
)

func rows(t *testing.T, d *metricsv1.MetricsData) string {
	t.Helper()
	db, err := badger.Open(badger.DefaultOptions("").WithInMemory(true).WithLogger(nil))
	if err != nil {
		t.Fatal(err)
	}
	defer db.Close()
	m, err := NewMetrics(db)
	if err != nil {
		t.Fatal(err)
	}
	defer m.Close()
	m.Append(d)
	r := m.build.NewRecord()
	defer r.Release()
	b, err := r.MarshalJSON()
	if err != nil {
		t.Fatal(err)
	}
	return string(b)
}

'''
B=[
dict(id="C35-scope-carried-over",prop="C35",needs="a scope with attributes that is followed, in one request, by metrics without a scope",breaks="When the scope is missing nothing is cleared: the points of those metrics are stored with the attributes and index positions of the scope before.",
 edits=[("internal/f2/attr.go","	a.scope = a.scope[:0]\n	a.scope = append(a.scope, scope.GetAttributes()...)\n	a.sb.Clear()\n	a.do(&a.sb, a.scope)","	if scope == nil {\n		return\n	}\n	a.scope = append(a.scope[:0], scope.Attributes...)\n	a.sb.Clear()\n	a.do(&a.sb, a.scope)")],pkg="internal/f2",test=pre+'''
func TestDemo(t *testing.T) {
	g := func() []*metricsv1.Metric {
		return []*metricsv1.Metric{{Name: "m", Data: &metricsv1.Metric_Gauge{Gauge: &metricsv1.Gauge{DataPoints: []*metricsv1.NumberDataPoint{{TimeUnixNano: 1}}}}}}
	}
	s := rows(t, &metricsv1.MetricsData{ResourceMetrics: []*metricsv1.ResourceMetrics{{ScopeMetrics: []*metricsv1.ScopeMetrics{
		{Scope: &commonv1.InstrumentationScope{Attributes: []*commonv1.KeyValue{{Key: "lonely", Value: &commonv1.AnyValue{Value: &commonv1.AnyValue_StringValue{StringValue: "x"}}}}}, Metrics: g()},
		{Metrics: g()},
	}}}})
	if n := strings.Count(s, "lonely"); n != 1 {
		t.Fatalf("attribute of a scope is on %d points: %s", n, s)
	}
}
'''),
dict(id="C35-exemplars-carried-over",prop="C35",needs="a histogram point with exemplars followed by one without in the same metric",breaks="Exemplars are replaced only when there are some: later points are stored with those of an earlier point.",
 edits=[("internal/f2/metrics.go","		mx.Exemplars = dp.Exemplars\n		mx.Histogram = &","		if len(dp.Exemplars) > 0 {\n			mx.Exemplars = dp.Exemplars\n		}\n		mx.Histogram = &")],pkg="internal/f2",test=pre.replace("	commonv1 \"go.opentelemetry.io/proto/otlp/common/v1\"\n","")+'''
func TestDemo(t *testing.T) {
	s := rows(t, &metricsv1.MetricsData{ResourceMetrics: []*metricsv1.ResourceMetrics{{ScopeMetrics: []*metricsv1.ScopeMetrics{
		{Metrics: []*metricsv1.Metric{{Name: "m", Data: &metricsv1.Metric_Histogram{Histogram: &metricsv1.Histogram{DataPoints: []*metricsv1.HistogramDataPoint{
			{TimeUnixNano: 1, Exemplars: []*metricsv1.Exemplar{{TimeUnixNano: 987654}}},
			{TimeUnixNano: 2},
		}}}}}},
	}}}})
	if n := strings.Count(s, "987654"); n != 1 {
		t.Fatalf("exemplar of a point is on %d points: %s", n, s)
	}
}
'''),
]
