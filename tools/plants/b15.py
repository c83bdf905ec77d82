B=[
dict(id="C23-released-while-matching",prop="C23",needs="two queries that match attributes at the same time",breaks="The set that attributes are collected in is returned to the pool before it is filled: another query fills the same set.",
 edits=[("internal/visit/visit.go","	b := bitmaps.New()\n	defer b.Release()\n	var h xxhash.Digest\n	for _, k","	b := bitmaps.New()\n	b.Release()\n	var h xxhash.Digest\n	for _, k")],pkg="internal/visit",test='''package visit

import (
	"fmt"
	"sync"
	"sync/atomic"
	"testing"

	commonV1 "go.opentelemetry.io/proto/otlp/common/v1"
)

func attrs(g, n int) (o []*commonV1.KeyValue) {
	for i := 0; i < n; i++ {
		o = append(o, &commonV1.KeyValue{Key: fmt.Sprint("k", g, i), Value: &commonV1.AnyValue{Value: &commonV1.AnyValue_StringValue{StringValue: "v"}}})
	}
	return
}

func TestDemo(t *testing.T) {
	var wrong atomic.Int64
	var wg sync.WaitGroup
	for g := 0; g < 16; g++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			defer func() {
				if recover() != nil {
					wrong.Add(1)
				}
			}()
			a := New()
			ls := attrs(g, 50)
			for _, k := range ls {
				a.SetAttr(k.Key, "v")
			}
			for i := 0; i < 3000; i++ {
				if !a.AcceptAttributes(ls) {
					wrong.Add(1)
					return
				}
			}
		}()
	}
	wg.Wait()
	if wrong.Load() > 0 {
		t.Fatal("attributes that match were not accepted")
	}
}
'''),
dict(id="C23-merge-keeps-empty-maps-only",prop="C23",needs="a merge of more than eight metrics or of scopes without metrics, then another merge that shares a scope",breaks="The pooled sorter is emptied only when it saw several resources: scopes of an earlier merge stay in it and the records of the next are added to them.",
 edits=[("internal/data/sort.go","	clear(r.resource)\n	clear(r.scope)\n","	if len(r.resource) > 0 {\n		clear(r.resource)\n	}\n	if len(r.metrics) > 0 {\n		clear(r.scope)\n	}\n")],pkg="internal/data",test='''package data

import (
	"testing"

	commonv1 "go.opentelemetry.io/proto/otlp/common/v1"
	logsv1 "go.opentelemetry.io/proto/otlp/logs/v1"
)

func logs(body string) *logsv1.LogsData {
	return &logsv1.LogsData{ResourceLogs: []*logsv1.ResourceLogs{{SchemaUrl: "r", ScopeLogs: []*logsv1.ScopeLogs{{
		Scope: &commonv1.InstrumentationScope{Name: "s"}, LogRecords: []*logsv1.LogRecord{{SeverityText: body}}}}}}}
}

func TestDemo(t *testing.T) {
	for i := 0; i < 100; i++ {
		first := CollapseLogs([]*logsv1.LogsData{logs("a")})
		CollapseLogs([]*logsv1.LogsData{logs("b"), {ResourceLogs: []*logsv1.ResourceLogs{{SchemaUrl: "r", ScopeLogs: []*logsv1.ScopeLogs{{SchemaUrl: "x"}}}}}, logs("c")})
		if n := len(first.ResourceLogs[0].ScopeLogs[0].LogRecords); n != 1 {
			t.Fatalf("the first merge has %d records now", n)
		}
		second := CollapseLogs([]*logsv1.LogsData{{ResourceLogs: []*logsv1.ResourceLogs{{SchemaUrl: "r"}}}, logs("d")})
		if len(second.ResourceLogs[0].ScopeLogs) != 1 {
			t.Fatal("scope lost")
		}
	}
}
'''),
]
