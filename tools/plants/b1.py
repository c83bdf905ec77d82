VT='''package visit

import (
	"testing"

	v1 "github.com/gernest/requiemdb/gen/go/rq/v1"
	commonV1 "go.opentelemetry.io/proto/otlp/common/v1"
	logsv1 "go.opentelemetry.io/proto/otlp/logs/v1"
	metricsV1 "go.opentelemetry.io/proto/otlp/metrics/v1"
	resourcev1 "go.opentelemetry.io/proto/otlp/resource/v1"
)

var _ = resourcev1.Resource{}
var _ = logsv1.LogRecord{}
var _ = metricsV1.Metric{}

func str(k, v string) *commonV1.KeyValue {
	return &commonV1.KeyValue{Key: k, Value: &commonV1.AnyValue{Value: &commonV1.AnyValue_StringValue{StringValue: v}}}
}

func attrFilter(p v1.Scan_AttributeProp, k, v string) *v1.Scan_Filter {
	return &v1.Scan_Filter{Value: &v1.Scan_Filter_Attr{Attr: &v1.Scan_AttrFilter{Prop: p, Key: k, Value: v}}}
}

func baseFilter(p v1.Scan_BaseProp, v string) *v1.Scan_Filter {
	return &v1.Scan_Filter{Value: &v1.Scan_Filter_Base{Base: &v1.Scan_BaseFilter{Prop: p, Value: v}}}
}

'''
TT='''package transform

import (
	"strings"
	"testing"

	v1 "github.com/gernest/requiemdb/gen/go/rq/v1"
	commonv1 "go.opentelemetry.io/proto/otlp/common/v1"
	logsv1 "go.opentelemetry.io/proto/otlp/logs/v1"
	metricsv1 "go.opentelemetry.io/proto/otlp/metrics/v1"
	resourcev1 "go.opentelemetry.io/proto/otlp/resource/v1"
)

var _ = resourcev1.Resource{}
var _ = logsv1.LogRecord{}
var _ = metricsv1.Metric{}

func str(k, v string) *commonv1.KeyValue {
	return &commonv1.KeyValue{Key: k, Value: &commonv1.AnyValue{Value: &commonv1.AnyValue_StringValue{StringValue: v}}}
}

func labelsOf(t *testing.T, ls ...*v1.Sample) []string {
	t.Helper()
	var out []string
	seen := map[string]uint64{}
	c := NewContext(func(k []byte) uint64 {
		if id, ok := seen[string(k)]; ok {
			return id
		}
		seen[string(k)] = uint64(len(seen) + 1)
		out = append(out, string(k))
		return seen[string(k)]
	})
	if _, err := c.ProcessSamples(ls...); err != nil {
		t.Fatal(err)
	}
	return out
}

func has(ls []string, suffix string) bool {
	for _, l := range ls {
		if strings.HasSuffix(l, suffix) {
			return true
		}
	}
	return false
}

'''
B=[
dict(id="C01-repeated-key",prop="C01",needs="a batch in which the same attribute key follows itself with another value (two resources that each have only service.name)",
 breaks="the second value is not indexed, so a query for it finds nothing",
 edits=[("internal/transform/transform.go","		s := v.Value.GetStringValue()\n		if s != \"\" {","		if c.label.Prefix == prefix && c.label.Key == v.Key {\n			// already indexed\n			continue\n		}\n		s := v.Value.GetStringValue()\n		if s != \"\" {")],
 pkg="internal/transform",
 test=TT+'''func TestDemo(t *testing.T) {
	ls := labelsOf(t, &v1.Sample{Data: &v1.Data{Data: &v1.Data_Logs{Logs: &logsv1.LogsData{ResourceLogs: []*logsv1.ResourceLogs{
		{Resource: &resourcev1.Resource{Attributes: []*commonv1.KeyValue{str("service.name", "a")}}},
		{Resource: &resourcev1.Resource{Attributes: []*commonv1.KeyValue{str("service.name", "b")}}},
	}}}}})
	if !has(ls, "service.name=a") || !has(ls, "service.name=b") {
		t.Fatal(ls)
	}
}
'''),
dict(id="C01-scope-without-name",prop="C01",needs="a scope that has a version or attributes but no name",
 breaks="version and attributes of unnamed scopes are not indexed",
 edits=[("internal/transform/transform.go","	if r := b.GetScope(); r != nil {\n		if r.Name != \"\" {","	if r := b.GetScope(); r.GetName() != \"\" {\n		if r.Name != \"\" {")],
 pkg="internal/transform",
 test=TT+'''func TestDemo(t *testing.T) {
	ls := labelsOf(t, &v1.Sample{Data: &v1.Data{Data: &v1.Data_Logs{Logs: &logsv1.LogsData{ResourceLogs: []*logsv1.ResourceLogs{
		{ScopeLogs: []*logsv1.ScopeLogs{{Scope: &commonv1.InstrumentationScope{Version: "v9"}}}},
	}}}}})
	if !has(ls, ":v9") {
		t.Fatal(ls)
	}
}
'''),
dict(id="C02-trimmed-values",prop="C02",needs="an attribute value with surrounding spaces",
 breaks="values are trimmed when they are indexed, but not when they are looked up",
 edits=[("internal/transform/transform.go","					WithKey(v.Key).\n					WithValue(s)","					WithKey(v.Key).\n					WithValue(strings.TrimSpace(s))"),("internal/transform/transform.go","import (\n	\"time\"","import (\n	\"strings\"\n	\"time\"")],
 pkg="internal/transform",
 test=TT.replace('"testing"\n','"testing"\n\n	"github.com/gernest/requiemdb/internal/labels"',1)+'''func TestDemo(t *testing.T) {
	ls := labelsOf(t, &v1.Sample{Data: &v1.Data{Data: &v1.Data_Logs{Logs: &logsv1.LogsData{ResourceLogs: []*logsv1.ResourceLogs{
		{Resource: &resourcev1.Resource{Attributes: []*commonv1.KeyValue{str("k", "v ")}}},
	}}}}})
	want := labels.NewLabel().WithResource(v1.RESOURCE_LOGS).WithPrefix(v1.PREFIX_RESOURCE_ATTRIBUTES).WithKey("k").WithValue("v ").String()
	if !has(ls, want) {
		t.Fatal(ls)
	}
}
'''),
dict(id="C03-sample-of-batch",prop="C03",needs="a batch of several samples where a later one is earlier than the first",
 breaks="the bounds of earlier samples in the batch leak into later ones",
 edits=[("internal/transform/transform.go","	c.minTs = 0\n	c.maxTs = 0\n	c.positions = bitmaps.New()","	if c.minTs == 0 {\n		c.maxTs = 0\n	}\n	c.positions = bitmaps.New()")],
 pkg="internal/transform",
 test=TT+'''func TestDemo(t *testing.T) {
	mk := func(ts uint64) *v1.Sample {
		return &v1.Sample{Data: &v1.Data{Data: &v1.Data_Logs{Logs: &logsv1.LogsData{ResourceLogs: []*logsv1.ResourceLogs{
			{ScopeLogs: []*logsv1.ScopeLogs{{LogRecords: []*logsv1.LogRecord{{TimeUnixNano: ts}}}}},
		}}}}}
	}
	a, b := mk(100), mk(200)
	labelsOf(t, a, b)
	if b.MinTs != 200 || b.MaxTs != 200 || a.MinTs != 100 || a.MaxTs != 100 {
		t.Fatal(a.MinTs, a.MaxTs, b.MinTs, b.MaxTs)
	}
}
'''),
dict(id="C10-one-attribute-enough",prop="C10",needs="a query with two attribute filters and an item that has only one of them",
 breaks="attribute filters become alternatives instead of a conjunction",
 edits=[("internal/visit/visit.go","	return b.GetCardinality() == a.GetCardinality()","	return b.GetCardinality() != 0")],
 pkg="internal/visit",
 test=VT+'''func TestDemo(t *testing.T) {
	a := New()
	defer a.Release()
	a.SetTimeRange(0, 1000)
	a.Compile(attrFilter(v1.Scan_ATTRIBUTES, "x", "1"), attrFilter(v1.Scan_ATTRIBUTES, "y", "2"))
	if a.AcceptAttributes([]*commonV1.KeyValue{str("x", "1"), str("z", "2")}) {
		t.Fatal("accepted")
	}
	if !a.AcceptAttributes([]*commonV1.KeyValue{str("x", "1"), str("y", "2")}) {
		t.Fatal("rejected")
	}
}
'''),
dict(id="C10-break-after-rejected-scope",prop="C10",needs="a resource with several scopes, the first of which is not selected",
 breaks="scopes after one that is not selected are lost",
 edits=[("internal/visit/logs.go","			if !AcceptScope(sm.SchemaUrl, sm.Scope, visitor) {\n				continue","			if !AcceptScope(sm.SchemaUrl, sm.Scope, visitor) {\n				break")],
 pkg="internal/visit",
 test=VT+'''func TestDemo(t *testing.T) {
	a := New()
	defer a.Release()
	a.SetTimeRange(0, 1000)
	a.Compile(baseFilter(v1.Scan_SCOPE_NAME, "b"))
	mk := func(n string) *logsv1.ScopeLogs {
		return &logsv1.ScopeLogs{Scope: &commonV1.InstrumentationScope{Name: n}, LogRecords: []*logsv1.LogRecord{{TimeUnixNano: 1}}}
	}
	r := a.Visit(&v1.Data{Data: &v1.Data_Logs{Logs: &logsv1.LogsData{ResourceLogs: []*logsv1.ResourceLogs{{ScopeLogs: []*logsv1.ScopeLogs{mk("a"), mk("b")}}}}}})
	if n := len(r.GetLogs().GetResourceLogs()); n != 1 {
		t.Fatal(n)
	}
}
'''),
dict(id="C11-scope-of-resource",prop="C11",needs="a resource with several selected scopes",
 breaks="log records of all scopes of a resource are put into the first scope",
 edits=[("internal/visit/logs.go","			var scope *logsv1.ScopeLogs\n","			// reuse\n"),("internal/visit/logs.go","		for _, sm := range rm.ScopeLogs {\n","		var scope *logsv1.ScopeLogs\n		for _, sm := range rm.ScopeLogs {\n")],
 pkg="internal/visit",
 test=VT+'''func TestDemo(t *testing.T) {
	a := New()
	defer a.Release()
	a.SetTimeRange(0, 1000)
	mk := func(n string) *logsv1.ScopeLogs {
		return &logsv1.ScopeLogs{Scope: &commonV1.InstrumentationScope{Name: n}, LogRecords: []*logsv1.LogRecord{{TimeUnixNano: 1}}}
	}
	r := a.Visit(&v1.Data{Data: &v1.Data_Logs{Logs: &logsv1.LogsData{ResourceLogs: []*logsv1.ResourceLogs{{ScopeLogs: []*logsv1.ScopeLogs{mk("a"), mk("b")}}}}}})
	sc := r.GetLogs().GetResourceLogs()[0].ScopeLogs
	if len(sc) != 2 || len(sc[0].LogRecords) != 1 || sc[1].Scope.Name != "b" {
		t.Fatal(sc)
	}
}
'''),
dict(id="C12-level-not-cleared",prop="C12",needs="a query with a severity filter, followed by a query without it which gets the same pooled filter set",
 breaks="the severity filter of an earlier query stays active",
 edits=[("internal/visit/visit.go","		&a.parent_span_id,\n		&a.log_level,\n","		&a.parent_span_id,\n")],
 pkg="internal/visit",
 test=VT+'''func TestDemo(t *testing.T) {
	a := &All{}
	a.Compile(baseFilter(v1.Scan_LOGS_LEVEL, "ERROR"))
	a.Reset()
	if !a.AcceptLogLevel("INFO") {
		t.Fatal("filter is still active")
	}
}
'''),
]
