VT='''package visit

import (
	"testing"

	v1 "github.com/gernest/requiemdb/gen/go/rq/v1"
	commonV1 "go.opentelemetry.io/proto/otlp/common/v1"
	logsv1 "go.opentelemetry.io/proto/otlp/logs/v1"
	metricsV1 "go.opentelemetry.io/proto/otlp/metrics/v1"
	resourcev1 "go.opentelemetry.io/proto/otlp/resource/v1"
)

var _ = resourcev1.Resource{}
var _ = logsv1.LogRecord{}
var _ = metricsV1.Metric{}

func str(k, v string) *commonV1.KeyValue {
	return &commonV1.KeyValue{Key: k, Value: &commonV1.AnyValue{Value: &commonV1.AnyValue_StringValue{StringValue: v}}}
}

func attrFilter(p v1.Scan_AttributeProp, k, v string) *v1.Scan_Filter {
	return &v1.Scan_Filter{Value: &v1.Scan_Filter_Attr{Attr: &v1.Scan_AttrFilter{Prop: p, Key: k, Value: v}}}
}

func baseFilter(p v1.Scan_BaseProp, v string) *v1.Scan_Filter {
	return &v1.Scan_Filter{Value: &v1.Scan_Filter_Base{Base: &v1.Scan_BaseFilter{Prop: p, Value: v}}}
}

'''
TT='''package transform

import (
	"strings"
	"testing"

	v1 "github.com/gernest/requiemdb/gen/go/rq/v1"
	commonv1 "go.opentelemetry.io/proto/otlp/common/v1"
	logsv1 "go.opentelemetry.io/proto/otlp/logs/v1"
	metricsv1 "go.opentelemetry.io/proto/otlp/metrics/v1"
	resourcev1 "go.opentelemetry.io/proto/otlp/resource/v1"
)

var _ = resourcev1.Resource{}
var _ = logsv1.LogRecord{}
var _ = metricsv1.Metric{}

func str(k, v string) *commonv1.KeyValue {
	return &commonv1.KeyValue{Key: k, Value: &commonv1.AnyValue{Value: &commonv1.AnyValue_StringValue{StringValue: v}}}
}

func labelsOf(t *testing.T, ls ...*v1.Sample) []string {
	t.Helper()
	var out []string
	seen := map[string]uint64{}
	c := NewContext(func(k []byte) uint64 {
		if id, ok := seen[string(k)]; ok {
			return id
		}
		seen[string(k)] = uint64(len(seen) + 1)
		out = append(out, string(k))
		return seen[string(k)]
	})
	if _, err := c.ProcessSamples(ls...); err != nil {
		t.Fatal(err)
	}
	return out
}

func has(ls []string, suffix string) bool {
	for _, l := range ls {
		if strings.HasSuffix(l, suffix) {
			return true
		}
	}
	return false
}

'''
