From c487faed6ac1fad279f9f87edbbb9abe3d91eddf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:20 +0000
Subject: [PATCH 01/39] fix: return dataframe read errors from Scan instead of
 an empty result

---
 internal/store/scan.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/internal/store/scan.go b/internal/store/scan.go
index c13c14c..52ffd98 100644
--- a/internal/store/scan.go
+++ b/internal/store/scan.go
@@ -66,6 +66,12 @@ func (s *Storage) Scan(ctx context.Context, scan *v1.Scan) (result *v1.Data, err
 	default:
 		return nil, fmt.Errorf("%d is not a supported resource", resource)
 	}
+	if err != nil {
+		return nil, err
+	}
+	if len(rs) == 0 {
+		return data.Zero(resource), nil
+	}
 	return data.Collapse(rs), nil
 }
 
-- 
2.43.0


From ba54257ba088f52b3a70370d781a1674d56c502a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:20 +0000
Subject: [PATCH 02/39] fix: attribute filters must constrain item attributes,
 not scope attributes

---
 internal/visit/visit.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/visit/visit.go b/internal/visit/visit.go
index 6a250ab..3c72391 100644
--- a/internal/visit/visit.go
+++ b/internal/visit/visit.go
@@ -115,7 +115,7 @@ func (o *All) Compile(filters ...*v1.Scan_Filter) {
 			case v1.Scan_SCOPE_ATTRIBUTES:
 				o.SetScopeAttr(e.Attr.Key, e.Attr.Value)
 			case v1.Scan_ATTRIBUTES:
-				o.SetScopeAttr(e.Attr.Key, e.Attr.Value)
+				o.SetAttr(e.Attr.Key, e.Attr.Value)
 			}
 		}
 	}
-- 
2.43.0


From 3e7ff53c55ef8d5263142bf1213e6e1c803d1a9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:20 +0000
Subject: [PATCH 03/39] fix: match span id and parent span id filters against
 their own fields

---
 internal/visit/trace.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/internal/visit/trace.go b/internal/visit/trace.go
index a610ad4..3a25c95 100644
--- a/internal/visit/trace.go
+++ b/internal/visit/trace.go
@@ -25,7 +25,8 @@ func (Trace) Visit(data *tracev1.TracesData, visitor *All) *tracev1.TracesData {
 				if !(visitor.AcceptName(ms.Name) &&
 					visitor.AcceptTimestamp(ms.StartTimeUnixNano) &&
 					visitor.AcceptTraceID(ms.TraceId) &&
-					visitor.AcceptParentSpanID(ms.SpanId) &&
+					visitor.AcceptSpanID(ms.SpanId) &&
+					visitor.AcceptParentSpanID(ms.ParentSpanId) &&
 					visitor.AcceptAttributes(ms.Attributes)) {
 					continue
 				}
-- 
2.43.0


From 097e143858b6a0fe36f3e4b1fc6904cbd3963668 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:20 +0000
Subject: [PATCH 04/39] fix: apply trace id and span id filters to log records

---
 internal/visit/logs.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/internal/visit/logs.go b/internal/visit/logs.go
index 861ccbd..e001ed1 100644
--- a/internal/visit/logs.go
+++ b/internal/visit/logs.go
@@ -24,6 +24,8 @@ func (Logs) Visit(data *logsv1.LogsData, visitor *All) *logsv1.LogsData {
 			for _, ms := range sm.LogRecords {
 				if !(visitor.AcceptLogLevel(ms.SeverityText) &&
 					visitor.AcceptTimestamp(ms.TimeUnixNano) &&
+					visitor.AcceptTraceID(ms.TraceId) &&
+					visitor.AcceptSpanID(ms.SpanId) &&
 					visitor.AcceptAttributes(ms.Attributes)) {
 					continue
 				}
-- 
2.43.0


From abe014594150c4f474c6a90fe2e7355048384c9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:40 +0000
Subject: [PATCH 05/39] fix: keep scope schema url and metric description, unit
 and metadata when trimming

---
 internal/visit/logs.go    |  3 ++-
 internal/visit/metrics.go | 40 +++++++++++++++++++++++++++++----------
 internal/visit/trace.go   |  3 ++-
 3 files changed, 34 insertions(+), 12 deletions(-)

diff --git a/internal/visit/logs.go b/internal/visit/logs.go
index e001ed1..71017d4 100644
--- a/internal/visit/logs.go
+++ b/internal/visit/logs.go
@@ -31,7 +31,8 @@ func (Logs) Visit(data *logsv1.LogsData, visitor *All) *logsv1.LogsData {
 				}
 				if scope == nil {
 					scope = &logsv1.ScopeLogs{
-						Scope: sm.Scope,
+						Scope:     sm.Scope,
+						SchemaUrl: sm.SchemaUrl,
 					}
 				}
 				scope.LogRecords = append(scope.LogRecords, ms)
diff --git a/internal/visit/metrics.go b/internal/visit/metrics.go
index 886ebff..780f19d 100644
--- a/internal/visit/metrics.go
+++ b/internal/visit/metrics.go
@@ -38,11 +38,15 @@ func (Metrics) Visit(data *metricsV1.MetricsData, visitor *All) *metricsV1.Metri
 					if len(points) > 0 {
 						if scope == nil {
 							scope = &metricsV1.ScopeMetrics{
-								Scope: sm.Scope,
+								Scope:     sm.Scope,
+								SchemaUrl: sm.SchemaUrl,
 							}
 						}
 						scope.Metrics = append(scope.Metrics, &metricsV1.Metric{
-							Name: ms.Name,
+							Name:        ms.Name,
+							Description: ms.Description,
+							Unit:        ms.Unit,
+							Metadata:    ms.Metadata,
 							Data: &metricsV1.Metric_Gauge{
 								Gauge: &metricsV1.Gauge{
 									DataPoints: points,
@@ -62,11 +66,15 @@ func (Metrics) Visit(data *metricsV1.MetricsData, visitor *All) *metricsV1.Metri
 					if len(points) > 0 {
 						if scope == nil {
 							scope = &metricsV1.ScopeMetrics{
-								Scope: sm.Scope,
+								Scope:     sm.Scope,
+								SchemaUrl: sm.SchemaUrl,
 							}
 						}
 						scope.Metrics = append(scope.Metrics, &metricsV1.Metric{
-							Name: ms.Name,
+							Name:        ms.Name,
+							Description: ms.Description,
+							Unit:        ms.Unit,
+							Metadata:    ms.Metadata,
 							Data: &metricsV1.Metric_Sum{
 								Sum: &metricsV1.Sum{
 									DataPoints:             points,
@@ -89,11 +97,15 @@ func (Metrics) Visit(data *metricsV1.MetricsData, visitor *All) *metricsV1.Metri
 					if len(points) > 0 {
 						if scope == nil {
 							scope = &metricsV1.ScopeMetrics{
-								Scope: sm.Scope,
+								Scope:     sm.Scope,
+								SchemaUrl: sm.SchemaUrl,
 							}
 						}
 						scope.Metrics = append(scope.Metrics, &metricsV1.Metric{
-							Name: ms.Name,
+							Name:        ms.Name,
+							Description: ms.Description,
+							Unit:        ms.Unit,
+							Metadata:    ms.Metadata,
 							Data: &metricsV1.Metric_Histogram{
 								Histogram: &metricsV1.Histogram{
 									DataPoints:             points,
@@ -115,11 +127,15 @@ func (Metrics) Visit(data *metricsV1.MetricsData, visitor *All) *metricsV1.Metri
 					if len(points) > 0 {
 						if scope == nil {
 							scope = &metricsV1.ScopeMetrics{
-								Scope: sm.Scope,
+								Scope:     sm.Scope,
+								SchemaUrl: sm.SchemaUrl,
 							}
 						}
 						scope.Metrics = append(scope.Metrics, &metricsV1.Metric{
-							Name: ms.Name,
+							Name:        ms.Name,
+							Description: ms.Description,
+							Unit:        ms.Unit,
+							Metadata:    ms.Metadata,
 							Data: &metricsV1.Metric_ExponentialHistogram{
 								ExponentialHistogram: &metricsV1.ExponentialHistogram{
 									DataPoints:             points,
@@ -141,11 +157,15 @@ func (Metrics) Visit(data *metricsV1.MetricsData, visitor *All) *metricsV1.Metri
 					if len(points) > 0 {
 						if scope == nil {
 							scope = &metricsV1.ScopeMetrics{
-								Scope: sm.Scope,
+								Scope:     sm.Scope,
+								SchemaUrl: sm.SchemaUrl,
 							}
 						}
 						scope.Metrics = append(scope.Metrics, &metricsV1.Metric{
-							Name: ms.Name,
+							Name:        ms.Name,
+							Description: ms.Description,
+							Unit:        ms.Unit,
+							Metadata:    ms.Metadata,
 							Data: &metricsV1.Metric_Summary{
 								Summary: &metricsV1.Summary{
 									DataPoints: points,
diff --git a/internal/visit/trace.go b/internal/visit/trace.go
index 3a25c95..5c0aa20 100644
--- a/internal/visit/trace.go
+++ b/internal/visit/trace.go
@@ -32,7 +32,8 @@ func (Trace) Visit(data *tracev1.TracesData, visitor *All) *tracev1.TracesData {
 				}
 				if scope == nil {
 					scope = &tracev1.ScopeSpans{
-						Scope: sm.Scope,
+						Scope:     sm.Scope,
+						SchemaUrl: sm.SchemaUrl,
 					}
 				}
 				scope.Spans = append(scope.Spans, ms)
-- 
2.43.0


From ac18eb2b0902eec50246228a5fc84e63527bb246 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:40 +0000
Subject: [PATCH 06/39] fix: initialise the digest that hashes attribute
 filters

---
 internal/visit/visit.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/internal/visit/visit.go b/internal/visit/visit.go
index 3c72391..b80b3dd 100644
--- a/internal/visit/visit.go
+++ b/internal/visit/visit.go
@@ -162,6 +162,7 @@ var sep = []byte("=")
 
 func attr(k, v string) uint64 {
 	var h xxhash.Digest
+	h.Reset()
 	h.WriteString(k)
 	h.Write(sep)
 	h.WriteString(v)
-- 
2.43.0


From a8a13e1342d2a3e2bf0d4ef7aa45c479a1eb8549 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:40 +0000
Subject: [PATCH 07/39] fix: TimeRange returns the end of the range

---
 internal/visit/visit.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/visit/visit.go b/internal/visit/visit.go
index b80b3dd..95934ff 100644
--- a/internal/visit/visit.go
+++ b/internal/visit/visit.go
@@ -263,7 +263,7 @@ func (a *All) AcceptAttributes(attr []*commonV1.KeyValue) bool {
 }
 
 func (a *All) TimeRange() (start, end uint64) {
-	return a.start_nano, a.start_nano
+	return a.start_nano, a.end_nano
 }
 
 func (a *All) AcceptLogLevel(lvl string) bool {
-- 
2.43.0


From 1ed008893bea8e904a58292bd5d0cd30eb4ea054 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:40 +0000
Subject: [PATCH 08/39] fix: attributes without a value must not crash
 filtering and rendering

---
 internal/f2/attr.go          | 2 +-
 internal/render/attribute.go | 2 +-
 internal/visit/visit.go      | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/internal/f2/attr.go b/internal/f2/attr.go
index 02112f2..ce42c2a 100644
--- a/internal/f2/attr.go
+++ b/internal/f2/attr.go
@@ -87,7 +87,7 @@ func (a *Attr) do(b *roaring64.Bitmap, kv []*v1.KeyValue) {
 }
 
 func toString(b *bytes.Buffer, a *v1.AnyValue) bool {
-	switch e := a.Value.(type) {
+	switch e := a.GetValue().(type) {
 	case *v1.AnyValue_StringValue:
 		b.WriteString(e.StringValue)
 		return true
diff --git a/internal/render/attribute.go b/internal/render/attribute.go
index 8a64086..fd07060 100644
--- a/internal/render/attribute.go
+++ b/internal/render/attribute.go
@@ -18,7 +18,7 @@ func attr(kv []*v1.KeyValue) string {
 }
 
 func value(b *bytes.Buffer, v *v1.AnyValue) {
-	switch e := v.Value.(type) {
+	switch e := v.GetValue().(type) {
 	case *v1.AnyValue_StringValue:
 		fmt.Fprintf(b, "%q", e.StringValue)
 	case *v1.AnyValue_BoolValue:
diff --git a/internal/visit/visit.go b/internal/visit/visit.go
index 95934ff..0913dfb 100644
--- a/internal/visit/visit.go
+++ b/internal/visit/visit.go
@@ -292,7 +292,7 @@ func matchAttr(a *roaring64.Bitmap, ls []*commonV1.KeyValue) bool {
 	defer b.Release()
 	var h xxhash.Digest
 	for _, k := range ls {
-		switch e := k.Value.Value.(type) {
+		switch e := k.GetValue().GetValue().(type) {
 		case *commonV1.AnyValue_StringValue:
 			h.Reset()
 			h.WriteString(k.Key)
-- 
2.43.0


From 6c7e741d02f361de0c33adc25ed42beb68c12909 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:40 +0000
Subject: [PATCH 09/39] fix: distinct attributes must not hash to the same
 filter

---
 internal/visit/visit.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/internal/visit/visit.go b/internal/visit/visit.go
index 0913dfb..3e54197 100644
--- a/internal/visit/visit.go
+++ b/internal/visit/visit.go
@@ -158,7 +158,9 @@ func (a *All) SetResourceAttr(k, v string) {
 	a.resource_attr.Add(attr(k, v))
 }
 
-var sep = []byte("=")
+// sep can not appear in valid utf-8, so a key that contains "=" stays distinct
+// from a shorter key with a longer value.
+var sep = []byte{0xff}
 
 func attr(k, v string) uint64 {
 	var h xxhash.Digest
-- 
2.43.0


From 2396da433d6e2e15333e3c181e87fa154342d056 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:40 +0000
Subject: [PATCH 10/39] fix: index span attributes

---
 internal/transform/trace.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/internal/transform/trace.go b/internal/transform/trace.go
index 5805585..ec6c369 100644
--- a/internal/transform/trace.go
+++ b/internal/transform/trace.go
@@ -41,6 +41,7 @@ func (c *Context) transformTrace(rm *tracev1.ResourceSpans) {
 						WithKey(hex.EncodeToString(span.ParentSpanId))
 				})
 			}
+			c.attributes(v1.PREFIX_ATTRIBUTES, span.Attributes)
 			c.Range(span.StartTimeUnixNano, span.EndTimeUnixNano)
 		}
 	}
-- 
2.43.0


From 668675b8ed047ee8872e012ed637784e4fc967f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:40 +0000
Subject: [PATCH 11/39] fix: index the kind of the sample itself, not of the
 sample processed before it

---
 internal/transform/transform.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/internal/transform/transform.go b/internal/transform/transform.go
index f84019f..2e041b2 100644
--- a/internal/transform/transform.go
+++ b/internal/transform/transform.go
@@ -46,9 +46,11 @@ func (c *Context) processSample(sample *v1.Sample) {
 	c.minTs = 0
 	c.maxTs = 0
 	c.positions = bitmaps.New()
-	c.init()
-	c.WithSample(sample.Id).
+	c.WithResource(v1.RESOURCE_UNKOWN).
+		WithSample(sample.Id).
 		data(sample.Data)
+	// marks the kind of the sample, so this must come after the resource is known
+	c.init()
 	sample.MinTs = c.minTs
 	sample.MaxTs = c.maxTs
 	c.batch.Add(
-- 
2.43.0


From 59c19588e9a08141fa848808dbe224793ea1235a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:58 +0000
Subject: [PATCH 12/39] fix: combine data points of metrics only when they are
 the same kind of stream

---
 internal/data/metrics.go |  6 +++---
 internal/data/sort.go    | 34 ++++++++++++++++++++++++++++++++--
 2 files changed, 35 insertions(+), 5 deletions(-)

diff --git a/internal/data/metrics.go b/internal/data/metrics.go
index 7ab6622..c3986bf 100644
--- a/internal/data/metrics.go
+++ b/internal/data/metrics.go
@@ -25,7 +25,7 @@ func CollapseMetrics(ds []*metricsV1.MetricsData) *metricsV1.MetricsData {
 					sh := xm.hashScope(rh, sm.SchemaUrl, sm.Scope)
 					xm.scope[sh] = sm
 					for _, m := range sm.Metrics {
-						mh := xm.hashMetrics(sh, m.Name)
+						mh := xm.hashMetrics(sh, m)
 						xm.metrics[mh] = m
 					}
 				}
@@ -38,13 +38,13 @@ func CollapseMetrics(ds []*metricsV1.MetricsData) *metricsV1.MetricsData {
 					xm.scope[sh] = sm
 					resource.ScopeMetrics = append(resource.ScopeMetrics, sm)
 					for _, m := range sm.Metrics {
-						mh := xm.hashMetrics(sh, m.Name)
+						mh := xm.hashMetrics(sh, m)
 						xm.metrics[mh] = m
 					}
 					continue
 				}
 				for _, m := range sm.Metrics {
-					mh := xm.hashMetrics(sh, m.Name)
+					mh := xm.hashMetrics(sh, m)
 					om, ok := xm.metrics[mh]
 					if !ok {
 						scope.Metrics = append(scope.Metrics, m)
diff --git a/internal/data/sort.go b/internal/data/sort.go
index c2f3401..b49dbbb 100644
--- a/internal/data/sort.go
+++ b/internal/data/sort.go
@@ -7,6 +7,7 @@ import (
 
 	"github.com/cespare/xxhash/v2"
 	commonv1 "go.opentelemetry.io/proto/otlp/common/v1"
+	metricsv1 "go.opentelemetry.io/proto/otlp/metrics/v1"
 	resourcev1 "go.opentelemetry.io/proto/otlp/resource/v1"
 	"google.golang.org/protobuf/proto"
 )
@@ -42,10 +43,33 @@ func newSorter[T any, R any, S any]() *Sorter[T, R, S] {
 	}
 }
 
-func (r *Sorter[T, R, S]) hashMetrics(scope uint64, name string) uint64 {
+// hashMetrics identifies the stream a metric belongs to. Only metrics of the same
+// kind, with the same semantics can have their data points combined.
+func (r *Sorter[T, R, S]) hashMetrics(scope uint64, m *metricsv1.Metric) uint64 {
 	r.h.Reset()
 	r.hashNum(scope)
-	r.h.WriteString(name)
+	r.hashString(m.Name)
+	r.hashString(m.Description)
+	r.hashString(m.Unit)
+	r.attr(m.Metadata)
+	switch e := m.Data.(type) {
+	case *metricsv1.Metric_Gauge:
+		r.hashNum(1)
+	case *metricsv1.Metric_Sum:
+		r.hashNum(2)
+		r.hashNum(uint64(e.Sum.GetAggregationTemporality()))
+		if e.Sum.GetIsMonotonic() {
+			r.hashNum(1)
+		}
+	case *metricsv1.Metric_Histogram:
+		r.hashNum(3)
+		r.hashNum(uint64(e.Histogram.GetAggregationTemporality()))
+	case *metricsv1.Metric_ExponentialHistogram:
+		r.hashNum(4)
+		r.hashNum(uint64(e.ExponentialHistogram.GetAggregationTemporality()))
+	case *metricsv1.Metric_Summary:
+		r.hashNum(5)
+	}
 	return r.h.Sum64()
 }
 
@@ -55,6 +79,12 @@ func (r *Sorter[T, R, S]) hashNum(v uint64) {
 	r.buf = r.buf[:0]
 }
 
+// hashString hashes v such that consecutive strings can not run into each other.
+func (r *Sorter[T, R, S]) hashString(v string) {
+	r.hashNum(uint64(len(v)))
+	r.h.WriteString(v)
+}
+
 func (r *Sorter[T, R, S]) hashResource(schema string, resource *resourcev1.Resource) uint64 {
 	r.h.Reset()
 	r.h.WriteString(schema)
-- 
2.43.0


From c6a90241a9459a2e1bc7f119298f847ba498df24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:26 +0000
Subject: [PATCH 13/39] fix: different resources and scopes must not hash the
 same

---
 internal/data/sort.go | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/internal/data/sort.go b/internal/data/sort.go
index b49dbbb..bdfaaba 100644
--- a/internal/data/sort.go
+++ b/internal/data/sort.go
@@ -74,9 +74,9 @@ func (r *Sorter[T, R, S]) hashMetrics(scope uint64, m *metricsv1.Metric) uint64
 }
 
 func (r *Sorter[T, R, S]) hashNum(v uint64) {
-	binary.BigEndian.PutUint64(r.buf[:8], v)
-	r.h.Write(r.buf[:8])
-	r.buf = r.buf[:0]
+	var b [8]byte
+	binary.BigEndian.PutUint64(b[:], v)
+	r.h.Write(b[:])
 }
 
 // hashString hashes v such that consecutive strings can not run into each other.
@@ -87,7 +87,7 @@ func (r *Sorter[T, R, S]) hashString(v string) {
 
 func (r *Sorter[T, R, S]) hashResource(schema string, resource *resourcev1.Resource) uint64 {
 	r.h.Reset()
-	r.h.WriteString(schema)
+	r.hashString(schema)
 	if resource != nil {
 		r.attr(resource.Attributes)
 	}
@@ -97,10 +97,10 @@ func (r *Sorter[T, R, S]) hashResource(schema string, resource *resourcev1.Resou
 func (r *Sorter[T, R, S]) hashScope(resource uint64, schema string, scope *commonv1.InstrumentationScope) uint64 {
 	r.h.Reset()
 	r.hashNum(resource)
-	r.h.WriteString(schema)
+	r.hashString(schema)
 	if scope != nil {
-		r.h.WriteString(scope.Name)
-		r.h.WriteString(scope.Version)
+		r.hashString(scope.Name)
+		r.hashString(scope.Version)
 		if scope.Attributes != nil {
 			r.attr(scope.Attributes)
 		}
@@ -144,6 +144,7 @@ func (r *Sorter[T, R, S]) Swap(i, j int) {
 func (r *Sorter[T, R, S]) attr(kv []*commonv1.KeyValue) {
 	for _, v := range kv {
 		r.buf, _ = proto.MarshalOptions{}.MarshalAppend(r.buf[:0], v)
+		r.hashNum(uint64(len(r.buf)))
 		r.h.Write(r.buf)
 	}
 }
-- 
2.43.0


From 3ba356a88f86ca96f7e35be3e027cfd30fd2e661 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:26 +0000
Subject: [PATCH 14/39] fix: a sample occupies the row of its id in every view

---
 internal/dataframe/dataframe.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/internal/dataframe/dataframe.go b/internal/dataframe/dataframe.go
index e88c989..b62652a 100644
--- a/internal/dataframe/dataframe.go
+++ b/internal/dataframe/dataframe.go
@@ -222,21 +222,21 @@ func (df *DataFrame) appendView(ctx context.Context, view string, samples []*v1.
 		}
 		// Sample ID == Row ID, for each view we need to store a contiguous rows
 		// starting from 0
-		var lastId uint64
+		var next uint64
 		if r != nil {
-			lastId = uint64(r.NumRows()) - 1
+			next = uint64(r.NumRows())
 			defer r.Release()
 		}
 		empty := &v1.Data{}
 		for _, s := range samples {
 			setSample(s)
-			for i := lastId + 1; i < s.Id; i++ {
+			for ; next < s.Id; next++ {
 				// we fill the blanks with empty data. All records in all views have the
 				// same number of columns
 				schema.Append(empty)
 			}
 			schema.Append(s.Data)
-			lastId = s.Id
+			next = s.Id + 1
 		}
 		if r != nil {
 			b := schema.NewRecord()
-- 
2.43.0


From 1265fe0feda380f5dcb4913e0d0872b9792c4d49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:26 +0000
Subject: [PATCH 15/39] fix: keys derived from one prefix must not share memory

---
 internal/f2/id.go               |  4 +++-
 internal/translate/translate.go | 10 ++++++++--
 2 files changed, 11 insertions(+), 3 deletions(-)

diff --git a/internal/f2/id.go b/internal/f2/id.go
index 9bc01df..12cb250 100644
--- a/internal/f2/id.go
+++ b/internal/f2/id.go
@@ -1,6 +1,8 @@
 package f2
 
 import (
+	"slices"
+
 	"github.com/dgraph-io/badger/v4"
 	"github.com/gernest/requiemdb/internal/logger"
 )
@@ -10,7 +12,7 @@ type idGen struct {
 }
 
 func newID(db *badger.DB, prefix []byte) (*idGen, error) {
-	seq, err := db.GetSequence(append(prefix, []byte("id")...), 4<<10)
+	seq, err := db.GetSequence(append(slices.Clip(prefix), []byte("id")...), 4<<10)
 	if err != nil {
 		return nil, err
 	}
diff --git a/internal/translate/translate.go b/internal/translate/translate.go
index ff9da7b..2ce2f04 100644
--- a/internal/translate/translate.go
+++ b/internal/translate/translate.go
@@ -4,6 +4,7 @@ import (
 	"bytes"
 	"encoding/binary"
 	"errors"
+	"slices"
 	"sync"
 
 	"github.com/dgraph-io/badger/v4"
@@ -17,6 +18,8 @@ type Translate struct {
 }
 
 func New(db *badger.DB, prefix []byte) (*Translate, error) {
+	// the keys built below must not share memory
+	prefix = slices.Clip(prefix)
 	seq, err := db.GetSequence(append(prefix, []byte("seq")...), 4<<10)
 	if err != nil {
 		return nil, err
@@ -121,8 +124,11 @@ var kb = &sync.Pool{New: func() any { return new(bytes.Buffer) }}
 // Find finds translated key. Returns 0 if no key was found
 func (b *Translate) Find(key []byte) (n uint64, err error) {
 	err = b.db.Update(func(txn *badger.Txn) error {
-		k := append(b.keys, key...)
-		it, err := txn.Get(k)
+		g := get()
+		defer put(g)
+		g.Write(b.keys)
+		g.Write(key)
+		it, err := txn.Get(g.Bytes())
 		if err != nil {
 			return err
 		}
-- 
2.43.0


From c5d9f07c1c47635bab6af5d07da7821a33250bf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:02 +0000
Subject: [PATCH 16/39] fix: open a shard at most once

---
 internal/shards/shards.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/internal/shards/shards.go b/internal/shards/shards.go
index 9faac59..2d52c3a 100644
--- a/internal/shards/shards.go
+++ b/internal/shards/shards.go
@@ -206,6 +206,11 @@ func (s *Shards) get(shard uint64) (*rbf.DB, error) {
 		return r, nil
 	}
 	s.mu.RUnlock()
+	s.mu.Lock()
+	defer s.mu.Unlock()
+	if r, ok = s.db[shard]; ok {
+		return r, nil
+	}
 	path := filepath.Join(s.dir, strconv.FormatUint(shard, 10))
 	config := s.config
 	config.Logger = slog.Default().With(
@@ -216,9 +221,7 @@ func (s *Shards) get(shard uint64) (*rbf.DB, error) {
 	if err != nil {
 		return nil, err
 	}
-	s.mu.Lock()
 	s.db[shard] = r
-	s.mu.Unlock()
 	return r, nil
 }
 
-- 
2.43.0


From d78eebde953e4f00522e4b506004587bccfc5297 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:02 +0000
Subject: [PATCH 17/39] fix: a sample must match the filters of every shard,
 including shards not opened yet

---
 internal/shards/shards.go | 45 ++++++++++++++++++---------------------
 1 file changed, 21 insertions(+), 24 deletions(-)

diff --git a/internal/shards/shards.go b/internal/shards/shards.go
index 2d52c3a..a52dc2e 100644
--- a/internal/shards/shards.go
+++ b/internal/shards/shards.go
@@ -111,18 +111,18 @@ func (s *Shards) Rows(start, end time.Time, columns *bitmaps.Bitmap) (*bitmaps.B
 }
 
 func (s *Shards) rows(views []string, columns map[uint64][]uint64) (r *bitmaps.Bitmap, err error) {
-	s.mu.RLock()
-	defer s.mu.RUnlock()
-
+	defer func() {
+		if err != nil && r != nil {
+			r.Release()
+			r = nil
+		}
+	}()
+	var db *rbf.DB
 	var tx *rbf.Tx
 	var fs []roaring.BitmapFilter
 	for k, f := range columns {
-		db, ok := s.db[k]
-		if !ok {
-			// Matches should be true for all filters.
-			if r != nil {
-				r.Clear()
-			}
+		db, err = s.get(k)
+		if err != nil {
 			return
 		}
 		tx, err = db.Begin(false)
@@ -141,26 +141,23 @@ func (s *Shards) rows(views []string, columns map[uint64][]uint64) (r *bitmaps.B
 			}, fs...))
 			if err != nil {
 				tx.Rollback()
+				b.Release()
 				return
 			}
 		}
 		tx.Rollback()
-		if !b.IsEmpty() {
-			if r == nil {
-				// first column set
-				r = bitmaps.New()
-				r.Or(&b.Bitmap)
-			} else {
-				some := !r.IsEmpty()
-				r.And(&b.Bitmap)
-				if r.IsEmpty() && some {
-					// this shard resulted in no match. No need to keep searching
-					b.Release()
-					return
-				}
-			}
+		if r == nil {
+			// first column set
+			r = b
+		} else {
+			// Matches should be true for all filters.
+			r.And(&b.Bitmap)
+			b.Release()
+		}
+		if r.IsEmpty() {
+			// this shard resulted in no match. No need to keep searching
+			return
 		}
-		b.Release()
 	}
 	return
 }
-- 
2.43.0


From cf5dca5e73d765c0f331d5145564bcf17903abf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:13 +0000
Subject: [PATCH 18/39] fix: shards of previous runs are part of all shards

---
 internal/shards/shards.go | 37 +++++++++++++++++++++++++++++++++----
 1 file changed, 33 insertions(+), 4 deletions(-)

diff --git a/internal/shards/shards.go b/internal/shards/shards.go
index a52dc2e..292246f 100644
--- a/internal/shards/shards.go
+++ b/internal/shards/shards.go
@@ -4,6 +4,7 @@ import (
 	"errors"
 	"io"
 	"log/slog"
+	"os"
 	"path/filepath"
 	"slices"
 	"strconv"
@@ -71,13 +72,41 @@ func (s *Shards) Update(shard uint64, f func(tx *rbf.Tx) error) error {
 	return tx.Commit()
 }
 
-// AllShards iterate on all active shards and calling f with the database
+// list returns all existing shards in ascending order.
+func (s *Shards) list() ([]uint64, error) {
+	entries, err := os.ReadDir(s.dir)
+	if err != nil {
+		if errors.Is(err, os.ErrNotExist) {
+			return nil, nil
+		}
+		return nil, err
+	}
+	all := make([]uint64, 0, len(entries))
+	for _, e := range entries {
+		shard, err := strconv.ParseUint(e.Name(), 10, 64)
+		if err != nil {
+			// not a shard
+			continue
+		}
+		all = append(all, shard)
+	}
+	slices.Sort(all)
+	return all, nil
+}
+
+// AllShards iterate on all existing shards in order and calling f with the database
 // transaction. If f returns io.EOF it signals end of iterations which will
 // return a nil error.
 func (s *Shards) AllShards(f func(tx *rbf.Tx, shard uint64) error) error {
-	s.mu.RLock()
-	defer s.mu.RUnlock()
-	for shard, db := range s.db {
+	all, err := s.list()
+	if err != nil {
+		return err
+	}
+	for _, shard := range all {
+		db, err := s.get(shard)
+		if err != nil {
+			return err
+		}
 		tx, err := db.Begin(false)
 		if err != nil {
 			return err
-- 
2.43.0


From 7212fed429404c3b0eb6136488a8f8bb2bc4cccd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:38 +0000
Subject: [PATCH 19/39] fix: search the views of units that are partially
 inside the time range

---
 internal/dataframe/dataframe.go |  3 +--
 internal/shards/shards.go       |  8 +------
 internal/view/view.go           | 41 +++++++++++++++++++++++++++++++--
 3 files changed, 41 insertions(+), 11 deletions(-)

diff --git a/internal/dataframe/dataframe.go b/internal/dataframe/dataframe.go
index b62652a..5269b0d 100644
--- a/internal/dataframe/dataframe.go
+++ b/internal/dataframe/dataframe.go
@@ -12,7 +12,6 @@ import (
 	"github.com/apache/arrow/go/v17/arrow/memory"
 	"github.com/dgraph-io/badger/v4"
 	"github.com/gernest/arrow3"
-	"github.com/gernest/rbf/quantum"
 	v1 "github.com/gernest/requiemdb/gen/go/rq/v1"
 	"github.com/gernest/requiemdb/internal/arena"
 	"github.com/gernest/requiemdb/internal/batch"
@@ -79,7 +78,7 @@ func readRows(r arrow.Record, rows []int) []*v1.Data {
 }
 
 func (df *DataFrame) View(ctx context.Context, resource v1.Scan_SCOPE, start, end time.Time, columns []int, rows *bitmaps.Bitmap, f ViewFn) error {
-	all := quantum.ViewsByTimeRange(view.StdView, start, end, view.ChooseQuantum(end.Sub(start)))
+	all := view.Search(start, end)
 	var set string
 	switch resource {
 	case v1.Scan_METRICS:
diff --git a/internal/shards/shards.go b/internal/shards/shards.go
index 292246f..c500661 100644
--- a/internal/shards/shards.go
+++ b/internal/shards/shards.go
@@ -13,7 +13,6 @@ import (
 
 	"github.com/gernest/rbf"
 	"github.com/gernest/rbf/cfg"
-	"github.com/gernest/rbf/quantum"
 	"github.com/gernest/requiemdb/internal/bitmaps"
 	"github.com/gernest/requiemdb/internal/rows"
 	"github.com/gernest/requiemdb/internal/view"
@@ -21,8 +20,6 @@ import (
 	"github.com/gernest/roaring/shardwidth"
 )
 
-const stdView = view.StdView
-
 type Shards struct {
 	config cfg.Config
 	mu     sync.RWMutex
@@ -133,10 +130,7 @@ func (s *Shards) Rows(start, end time.Time, columns *bitmaps.Bitmap) (*bitmaps.B
 		shard := col / shardwidth.ShardWidth
 		m[shard] = append(m[shard], col)
 	}
-	views := quantum.ViewsByTimeRange(stdView, start, end, view.ChooseQuantum(
-		end.Sub(start),
-	))
-	return s.rows(views, m)
+	return s.rows(view.Search(start, end), m)
 }
 
 func (s *Shards) rows(views []string, columns map[uint64][]uint64) (r *bitmaps.Bitmap, err error) {
diff --git a/internal/view/view.go b/internal/view/view.go
index 8deb4ab..d830b81 100644
--- a/internal/view/view.go
+++ b/internal/view/view.go
@@ -47,9 +47,46 @@ func ChooseQuantum(duration time.Duration) quantum.TimeQuantum {
 	return QH
 }
 
+// Search returns views covering all of the time between start and end, including
+// units at the boundaries which are only partially inside the range.
 func Search(start, end time.Time) []string {
-	return quantum.ViewsByTimeRange(StdView, start, end,
-		ChooseQuantum(end.Sub(start)))
+	q := ChooseQuantum(end.Sub(start))
+	from := truncate(start, q)
+	to := truncate(end, q)
+	if to.Before(end) {
+		to = next(to, q)
+	}
+	return quantum.ViewsByTimeRange(StdView, from, to, q)
+}
+
+// truncate returns the beginning of the unit of q that t belongs to. Views are
+// named in utc.
+func truncate(t time.Time, q quantum.TimeQuantum) time.Time {
+	t = t.UTC()
+	switch q {
+	case QY:
+		return time.Date(t.Year(), time.January, 1, 0, 0, 0, 0, time.UTC)
+	case QM:
+		return time.Date(t.Year(), t.Month(), 1, 0, 0, 0, 0, time.UTC)
+	case QD:
+		return time.Date(t.Year(), t.Month(), t.Day(), 0, 0, 0, 0, time.UTC)
+	default:
+		return t.Truncate(hour)
+	}
+}
+
+// next returns the beginning of the unit of q that follows the one starting at t.
+func next(t time.Time, q quantum.TimeQuantum) time.Time {
+	switch q {
+	case QY:
+		return t.AddDate(1, 0, 0)
+	case QM:
+		return t.AddDate(0, 1, 0)
+	case QD:
+		return t.AddDate(0, 0, 1)
+	default:
+		return t.Add(hour)
+	}
 }
 
 // Pos generates position in a bitmap
-- 
2.43.0


From 30468161a3686eded1409ba1daf0cca1af0fed99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:38 +0000
Subject: [PATCH 20/39] fix: caches must tell apart keys whose hashes collide

---
 internal/f2/translate.go      | 6 ++----
 internal/snippets/snippets.go | 6 ++----
 internal/store/store.go       | 6 ++----
 3 files changed, 6 insertions(+), 12 deletions(-)

diff --git a/internal/f2/translate.go b/internal/f2/translate.go
index cb4734d..f4fd2f6 100644
--- a/internal/f2/translate.go
+++ b/internal/f2/translate.go
@@ -1,7 +1,6 @@
 package f2
 
 import (
-	"github.com/cespare/xxhash/v2"
 	"github.com/dgraph-io/badger/v4"
 	"github.com/dgraph-io/ristretto"
 	"github.com/gernest/requiemdb/internal/logger"
@@ -40,14 +39,13 @@ func newCacheTr(db *badger.DB, prefix []byte) (*cacheTr, error) {
 var _ Translate = (*cacheTr)(nil)
 
 func (b *cacheTr) Tr(key []byte) uint64 {
-	h := xxhash.Sum64(key)
-	if k, ok := b.cache.Get(h); ok {
+	if k, ok := b.cache.Get(key); ok {
 		return k.(uint64)
 	}
 	k, err := b.tr.TranslateKey(key)
 	if err != nil {
 		logger.Fail("failed translating key", "key", string(key), "err", err)
 	}
-	b.cache.Set(h, k, 8)
+	b.cache.Set(key, k, 8)
 	return k
 }
diff --git a/internal/snippets/snippets.go b/internal/snippets/snippets.go
index e9b52a7..34d8c1e 100644
--- a/internal/snippets/snippets.go
+++ b/internal/snippets/snippets.go
@@ -1,7 +1,6 @@
 package snippets
 
 import (
-	"github.com/cespare/xxhash/v2"
 	"github.com/dgraph-io/ristretto"
 	"github.com/dop251/goja"
 )
@@ -27,8 +26,7 @@ func (s *Snippets) Close() {
 }
 
 func (s *Snippets) GetProgramData(data []byte) (*goja.Program, error) {
-	hash := xxhash.Sum64(data)
-	if o, ok := s.hashed.Get(hash); ok {
+	if o, ok := s.hashed.Get(data); ok {
 		return o.(*goja.Program), nil
 	}
 	program, err := goja.Compile("index.js", string(data), true)
@@ -36,6 +34,6 @@ func (s *Snippets) GetProgramData(data []byte) (*goja.Program, error) {
 		return nil, err
 	}
 	cost := len(data)
-	s.hashed.Set(hash, program, int64(cost))
+	s.hashed.Set(data, program, int64(cost))
 	return program, nil
 }
diff --git a/internal/store/store.go b/internal/store/store.go
index 3ea5e44..e9ab1ac 100644
--- a/internal/store/store.go
+++ b/internal/store/store.go
@@ -4,7 +4,6 @@ import (
 	"context"
 	"time"
 
-	"github.com/cespare/xxhash/v2"
 	"github.com/dgraph-io/badger/v4"
 	"github.com/dgraph-io/ristretto"
 	"github.com/gernest/rbf"
@@ -56,15 +55,14 @@ func NewStore(db *badger.DB, rdb *shards.Shards, tr *translate.Translate, seq *s
 }
 
 func (s *Storage) Translate(key []byte) uint64 {
-	h := xxhash.Sum64(key)
-	if v, ok := s.columnsCache.Get(h); ok {
+	if v, ok := s.columnsCache.Get(key); ok {
 		return v.(uint64)
 	}
 	v, err := s.translate.TranslateKey(key)
 	if err != nil {
 		logger.Fail("BUG: failed tp translate column", "err", err)
 	}
-	s.columnsCache.Set(h, v, 8)
+	s.columnsCache.Set(key, v, 8)
 	return v
 }
 
-- 
2.43.0


From 5a26426eaf5d7f926e31c3a5ccc77d051eee6c13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:01 +0000
Subject: [PATCH 21/39] fix: reading or closing a finished compression stream
 must not panic

---
 internal/compress/grpc.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/internal/compress/grpc.go b/internal/compress/grpc.go
index d2398f8..73155df 100644
--- a/internal/compress/grpc.go
+++ b/internal/compress/grpc.go
@@ -36,6 +36,9 @@ type writeCodec struct {
 }
 
 func (w *writeCodec) Close() (err error) {
+	if w.Encoder == nil {
+		return nil
+	}
 	err = w.Encoder.Close()
 	w.Reset(nil)
 	putEncoder(w.Encoder)
@@ -48,6 +51,9 @@ type readCodec struct {
 }
 
 func (r *readCodec) Read(p []byte) (n int, err error) {
+	if r.Decoder == nil {
+		return 0, io.EOF
+	}
 	n, err = r.Decoder.Read(p)
 	if err != nil {
 		r.Reset(nil)
@@ -58,6 +64,9 @@ func (r *readCodec) Read(p []byte) (n int, err error) {
 }
 
 func (r *readCodec) WriteTo(w io.Writer) (n int64, err error) {
+	if r.Decoder == nil {
+		return 0, nil
+	}
 	n, err = r.Decoder.WriteTo(w)
 	r.Reset(nil)
 	putDecoder(r.Decoder)
-- 
2.43.0


From 8debcefe859bbb8d1c240323e0feff71824f9429 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:01 +0000
Subject: [PATCH 22/39] fix: relative time ranges are relative to the
 evaluation time of the scan

---
 internal/js/scan.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/internal/js/scan.go b/internal/js/scan.go
index b3f90a1..b0a8970 100644
--- a/internal/js/scan.go
+++ b/internal/js/scan.go
@@ -160,6 +160,9 @@ func (s *Scan) rangeTS(from, to time.Time) {
 }
 
 func (s *Scan) ts() time.Time {
+	if s.scan.Now != nil {
+		return s.scan.Now.AsTime()
+	}
 	return s.o.GetNow()
 }
 
-- 
2.43.0


From bbc9bd63f5526f62d82e8f63893d18e8894131f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:01 +0000
Subject: [PATCH 23/39] fix: trim scan results with the clock of the runtime

---
 internal/js/rq.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/js/rq.go b/internal/js/rq.go
index 42352a6..ffcaf2e 100644
--- a/internal/js/rq.go
+++ b/internal/js/rq.go
@@ -90,7 +90,7 @@ func (r *JS) Scan(a *v1.Scan) (*v1.Data, error) {
 		vs := visit.New()
 		defer vs.Release()
 
-		start, end := x.TimeBounds(x.UTC, a)
+		start, end := x.TimeBounds(r.GetNow, a)
 		vs.SetTimeRange(uint64(start.UnixNano()), uint64(end.UnixNano()))
 		vs.Compile(a.Filters...)
 		return vs.Visit(data), nil
-- 
2.43.0


From 07561e377deac83cdbc64b77ae37042fe1b25c3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:01 +0000
Subject: [PATCH 24/39] fix: remove the temporary package when setting it up
 fails

---
 internal/compile/compile.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/internal/compile/compile.go b/internal/compile/compile.go
index 0b99183..3c5afc4 100644
--- a/internal/compile/compile.go
+++ b/internal/compile/compile.go
@@ -42,10 +42,12 @@ func createPackage(data []byte) (string, map[string]string, error) {
 	}
 	alias, err := setup(f)
 	if err != nil {
+		os.RemoveAll(f)
 		return "", nil, err
 	}
 	err = os.WriteFile(filepath.Join(f, "index.ts"), data, 0600)
 	if err != nil {
+		os.RemoveAll(f)
 		return "", nil, err
 	}
 	return f, alias, nil
-- 
2.43.0


From 2d77ed3be6090b69a8c4e13cd856bff4de2f76a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:09 +0000
Subject: [PATCH 25/39] fix: Float64 reads the value it checks

---
 internal/rows/row.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/rows/row.go b/internal/rows/row.go
index 906b73e..ec93ab8 100644
--- a/internal/rows/row.go
+++ b/internal/rows/row.go
@@ -103,7 +103,7 @@ func (v Value) Int() uint64 {
 }
 
 func (v Value) Float64() float64 {
-	if v.int != nil {
+	if v.double != nil {
 		return *v.double
 	}
 	return 0
-- 
2.43.0


From 705c9b7e292b8d0170b17180eea0aa1e37c51467 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:25 +0000
Subject: [PATCH 26/39] fix: columns of a data point include its resource and
 scope

---
 internal/f2/attr.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/internal/f2/attr.go b/internal/f2/attr.go
index ce42c2a..60e3b9d 100644
--- a/internal/f2/attr.go
+++ b/internal/f2/attr.go
@@ -25,12 +25,14 @@ func newAttr() *Attr {
 func (a *Attr) Resource(r *resouncev1.Resource) {
 	a.resource = a.resource[:0]
 	a.resource = append(a.resource, r.GetAttributes()...)
+	a.rb.Clear()
 	a.do(&a.rb, a.resource)
 }
 
 func (a *Attr) Scope(scope *v1.InstrumentationScope) {
 	a.scope = a.scope[:0]
 	a.scope = append(a.scope, scope.GetAttributes()...)
+	a.sb.Clear()
 	a.do(&a.sb, a.scope)
 }
 
@@ -75,7 +77,6 @@ func (a *Attr) name(name []byte) {
 }
 
 func (a *Attr) do(b *roaring64.Bitmap, kv []*v1.KeyValue) {
-	b.Clear()
 	for _, v := range kv {
 		a.b.Reset()
 		a.b.WriteString(v.Key)
-- 
2.43.0


From 6a157f55fd30643e5fa8954ef4c15f585cfd28e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:27 +0000
Subject: [PATCH 27/39] fix: values of sums are counters, and a data point
 without a value has none

---
 internal/f2/metrics.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/internal/f2/metrics.go b/internal/f2/metrics.go
index 652a7a2..9d9f430 100644
--- a/internal/f2/metrics.go
+++ b/internal/f2/metrics.go
@@ -113,6 +113,7 @@ func (m *Metrics) gauge(mx *v1.Metric, a *Attr, g *metricsv1.Gauge) {
 		mx.StartTimeUnixNano = dp.StartTimeUnixNano
 		mx.TimeUnixNano = dp.TimeUnixNano
 		mx.Exemplars = dp.Exemplars
+		mx.Gauge = nil
 		switch e := dp.Value.(type) {
 		case *metricsv1.NumberDataPoint_AsDouble:
 			mx.Gauge = &e.AsDouble
@@ -140,12 +141,13 @@ func (m *Metrics) sum(mx *v1.Metric, a *Attr, g *metricsv1.Sum) {
 		mx.StartTimeUnixNano = dp.StartTimeUnixNano
 		mx.TimeUnixNano = dp.TimeUnixNano
 		mx.Exemplars = dp.Exemplars
+		mx.Counter = nil
 		switch e := dp.Value.(type) {
 		case *metricsv1.NumberDataPoint_AsDouble:
-			mx.Gauge = &e.AsDouble
+			mx.Counter = &e.AsDouble
 		case *metricsv1.NumberDataPoint_AsInt:
 			f := float64(e.AsInt)
-			mx.Gauge = &f
+			mx.Counter = &f
 		}
 		mx.Attributes, columns, mx.Hash = a.Attr(name, dp.Attributes)
 		id := m.id.Next()
-- 
2.43.0


From 5b4a8e7b411c880ec14e05139959a790c29c4881 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:52 +0000
Subject: [PATCH 28/39] fix: scan honours limit and reverse

---
 internal/store/scan.go | 25 +++++++++++++++++++++++++
 1 file changed, 25 insertions(+)

diff --git a/internal/store/scan.go b/internal/store/scan.go
index 52ffd98..0835b82 100644
--- a/internal/store/scan.go
+++ b/internal/store/scan.go
@@ -5,6 +5,7 @@ import (
 	"errors"
 	"fmt"
 	"log/slog"
+	"slices"
 
 	"github.com/dgraph-io/badger/v4"
 	v1 "github.com/gernest/requiemdb/gen/go/rq/v1"
@@ -55,6 +56,7 @@ func (s *Storage) Scan(ctx context.Context, scan *v1.Scan) (result *v1.Data, err
 		samples.Clear()
 		samples.Add(last)
 	}
+	limitSamples(samples, scan.Limit, scan.Reverse)
 	var rs []*v1.Data
 	switch resource {
 	case v1.RESOURCE_METRICS:
@@ -72,9 +74,32 @@ func (s *Storage) Scan(ctx context.Context, scan *v1.Scan) (result *v1.Data, err
 	if len(rs) == 0 {
 		return data.Zero(resource), nil
 	}
+	if scan.Reverse {
+		slices.Reverse(rs)
+	}
 	return data.Collapse(rs), nil
 }
 
+// limitSamples removes samples past the limit, from the latest ones unless reverse
+// is set. There is no limit when it is 0.
+func limitSamples(samples *bitmaps.Bitmap, limit uint64, reverse bool) {
+	size := samples.GetCardinality()
+	if limit == 0 || limit >= size {
+		return
+	}
+	if reverse {
+		first, err := samples.Select(size - limit)
+		if err == nil {
+			samples.RemoveRange(0, first)
+		}
+		return
+	}
+	end, err := samples.Select(limit)
+	if err == nil {
+		samples.RemoveRange(end, samples.Maximum()+1)
+	}
+}
+
 func (s *Storage) CompileFilters(scan *v1.Scan, r *bitmaps.Bitmap) error {
 	lbl := labels.NewLabel()
 	defer lbl.Release()
-- 
2.43.0


From b2c527cdd580bcdbb6d39506d43627118897c70f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:52 +0000
Subject: [PATCH 29/39] fix: a partially written or outdated script must not be
 used from cache

---
 internal/commands/query/query.go | 23 +++++++++++++++++++++--
 1 file changed, 21 insertions(+), 2 deletions(-)

diff --git a/internal/commands/query/query.go b/internal/commands/query/query.go
index 61b012b..f9df1ac 100644
--- a/internal/commands/query/query.go
+++ b/internal/commands/query/query.go
@@ -16,6 +16,7 @@ import (
 	"github.com/gernest/requiemdb/internal/compile"
 	"github.com/gernest/requiemdb/internal/js"
 	"github.com/gernest/requiemdb/internal/logger"
+	"github.com/gernest/requiemdb/internal/version"
 	"github.com/urfave/cli/v3"
 )
 
@@ -77,7 +78,8 @@ func run(ctx context.Context, cmd *cli.Command) error {
 
 func build(log *slog.Logger, data []byte) (*goja.Program, error) {
 	hash := xxhash.Sum64(data)
-	key := filepath.Join(commands.Cache(), fmt.Sprint(hash))
+	// cached scripts include the @requiemdb/rq package of this version
+	key := filepath.Join(commands.Cache(), fmt.Sprintf("%s-%d", version.VERSION, hash))
 	cached, err := os.ReadFile(key)
 	if err != nil {
 		if os.IsNotExist(err) {
@@ -86,7 +88,7 @@ func build(log *slog.Logger, data []byte) (*goja.Program, error) {
 			if err != nil {
 				return nil, err
 			}
-			err = os.WriteFile(key, cached, 0600)
+			err = writeFile(key, cached)
 			if err != nil {
 				return nil, err
 			}
@@ -98,3 +100,20 @@ func build(log *slog.Logger, data []byte) (*goja.Program, error) {
 	}
 	return goja.Compile("scan.js", string(cached), true)
 }
+
+// writeFile makes sure that path either has all of the data or it doesn't exist.
+func writeFile(path string, data []byte) error {
+	f, err := os.CreateTemp(filepath.Dir(path), "tmp-*")
+	if err != nil {
+		return err
+	}
+	_, err = f.Write(data)
+	err = errors.Join(err, f.Close())
+	if err == nil {
+		err = os.Rename(f.Name(), path)
+	}
+	if err != nil {
+		os.Remove(f.Name())
+	}
+	return err
+}
-- 
2.43.0


From 55bfdc70a415161afc57e98489d68a4e42fb5bb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:52 +0000
Subject: [PATCH 30/39] fix: save acknowledged samples before shutting down

---
 internal/service/service.go | 35 ++++++++++++++++++++++++++---------
 1 file changed, 26 insertions(+), 9 deletions(-)

diff --git a/internal/service/service.go b/internal/service/service.go
index 80e548f..0b97e5b 100644
--- a/internal/service/service.go
+++ b/internal/service/service.go
@@ -34,6 +34,8 @@ type Service struct {
 	store    *store.Storage
 	dataMu   sync.Mutex
 	data     *samples.List
+	saveMu   sync.Mutex
+	closed   bool
 	seq      *seq.Seq
 	stats    struct {
 		processed metric.Int64Counter
@@ -87,19 +89,30 @@ func (s *Service) start(ctx context.Context) {
 		case <-ctx.Done():
 			return
 		case <-tick.C:
-			s.dataMu.Lock()
-			ls := s.data
-			s.data = samples.Get()
-			s.dataMu.Unlock()
-			err := s.store.SaveSamples(ctx, ls)
-			if err != nil {
-				slog.Error("Failed to save samples", "err", err)
-			}
-			ls.Release()
+			s.flush(ctx)
 		}
 	}
 }
 
+// flush saves all samples received so far. Samples have been acknowledged by then,
+// so they are saved even when ctx is already cancelled.
+func (s *Service) flush(ctx context.Context) {
+	s.saveMu.Lock()
+	defer s.saveMu.Unlock()
+	if s.closed {
+		return
+	}
+	s.dataMu.Lock()
+	ls := s.data
+	s.data = samples.Get()
+	s.dataMu.Unlock()
+	err := s.store.SaveSamples(context.WithoutCancel(ctx), ls)
+	if err != nil {
+		slog.Error("Failed to save samples", "err", err)
+	}
+	ls.Release()
+}
+
 func (s *Service) Save(data *v1.Data) error {
 	s.dataMu.Lock()
 	defer s.dataMu.Unlock()
@@ -111,6 +124,10 @@ func (s *Service) Save(data *v1.Data) error {
 }
 
 func (s *Service) Close() {
+	s.flush(context.Background())
+	s.saveMu.Lock()
+	s.closed = true
+	s.saveMu.Unlock()
 	s.store.Close()
 	s.snippets.Close()
 }
-- 
2.43.0


From 1a63f2a57f51b1663d7b972312d1a382a4fda7a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:59 +0000
Subject: [PATCH 31/39] fix: an item without a time must not reset the time
 bounds of its sample

---
 internal/transform/transform.go | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/internal/transform/transform.go b/internal/transform/transform.go
index 2e041b2..eaa8a4b 100644
--- a/internal/transform/transform.go
+++ b/internal/transform/transform.go
@@ -183,11 +183,7 @@ func (c *Context) attributes(prefix v1.PREFIX, kv []*commonv1.KeyValue) {
 }
 
 func (c *Context) Timestamp(ts uint64) {
-	if c.minTs == 0 {
-		c.minTs = ts
-	}
-	c.minTs = min(c.minTs, ts)
-	c.maxTs = max(c.maxTs, ts)
+	c.Range(ts, ts)
 }
 
 func (c *Context) Reset() {
@@ -198,10 +194,10 @@ func (c *Context) Reset() {
 	c.label = labels.Label{}
 }
 
+// Range extends the time bounds of the sample. 0 means that the time is not known.
 func (c *Context) Range(start, end uint64) {
-	if c.minTs == 0 {
+	if start != 0 && (c.minTs == 0 || start < c.minTs) {
 		c.minTs = start
 	}
-	c.minTs = min(c.minTs, start)
 	c.maxTs = max(c.maxTs, end)
 }
-- 
2.43.0


From 06ad1b493b56cb1fb137dcb65c28325240c1b5ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:16 +0000
Subject: [PATCH 32/39] fix: a malformed id in a filter must not be ignored

---
 internal/js/rq.go       |  5 ++++-
 internal/visit/visit.go | 13 +++++++++----
 2 files changed, 13 insertions(+), 5 deletions(-)

diff --git a/internal/js/rq.go b/internal/js/rq.go
index ffcaf2e..905f293 100644
--- a/internal/js/rq.go
+++ b/internal/js/rq.go
@@ -92,7 +92,10 @@ func (r *JS) Scan(a *v1.Scan) (*v1.Data, error) {
 
 		start, end := x.TimeBounds(r.GetNow, a)
 		vs.SetTimeRange(uint64(start.UnixNano()), uint64(end.UnixNano()))
-		vs.Compile(a.Filters...)
+		err = vs.Compile(a.Filters...)
+		if err != nil {
+			return nil, err
+		}
 		return vs.Visit(data), nil
 	}
 	return nil, errors.New("RQ.Scan is not implemented")
diff --git a/internal/visit/visit.go b/internal/visit/visit.go
index 3e54197..d89135c 100644
--- a/internal/visit/visit.go
+++ b/internal/visit/visit.go
@@ -84,8 +84,9 @@ func New() *All {
 
 var allPool = &sync.Pool{New: func() any { return new(All) }}
 
-func (o *All) Compile(filters ...*v1.Scan_Filter) {
+func (o *All) Compile(filters ...*v1.Scan_Filter) error {
 	for _, f := range filters {
+		var err error
 		switch e := f.Value.(type) {
 		case *v1.Scan_Filter_Base:
 			switch e.Base.Prop {
@@ -100,11 +101,11 @@ func (o *All) Compile(filters ...*v1.Scan_Filter) {
 			case v1.Scan_NAME:
 				o.SetName(e.Base.Value)
 			case v1.Scan_TRACE_ID:
-				o.SetTraceID(e.Base.Value)
+				err = o.SetTraceID(e.Base.Value)
 			case v1.Scan_SPAN_ID:
-				o.SetSpanID(e.Base.Value)
+				err = o.SetSpanID(e.Base.Value)
 			case v1.Scan_PARENT_SPAN_ID:
-				o.SetParentSpanID(e.Base.Value)
+				err = o.SetParentSpanID(e.Base.Value)
 			case v1.Scan_LOGS_LEVEL:
 				o.SetLogLevel(e.Base.Value)
 			}
@@ -118,7 +119,11 @@ func (o *All) Compile(filters ...*v1.Scan_Filter) {
 				o.SetAttr(e.Attr.Key, e.Attr.Value)
 			}
 		}
+		if err != nil {
+			return err
+		}
 	}
+	return nil
 }
 
 func (a *All) Reset() {
-- 
2.43.0


From 9a0e6a2a64535fd2fe90a433763a032db9e6bfd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:08:54 +0000
Subject: [PATCH 33/39] fix: close what was opened when the address is in use

---
 cmd/rq/main.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmd/rq/main.go b/cmd/rq/main.go
index d99c0a0..63436b9 100644
--- a/cmd/rq/main.go
+++ b/cmd/rq/main.go
@@ -118,7 +118,7 @@ func run(ctx context.Context, cmd *cli.Command) (exit error) {
 	otelAddress := cmd.String("otlpListen")
 	otelGRPC, err := net.Listen("tcp", otelAddress)
 	if err != nil {
-		logger.Fail("failed listening otlp address", "addr", otelAddress, "err", err)
+		return fmt.Errorf("failed listening otlp address %q: %w", otelAddress, err)
 	}
 	defer otelGRPC.Close()
 
-- 
2.43.0


From 2ca2aa4149f26d6a963741bca00771285ba841b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:32:27 +0000
Subject: [PATCH 34/39] fix: keep the trace state of links of own spans

---
 internal/self/trace/tracetransform/span.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/internal/self/trace/tracetransform/span.go b/internal/self/trace/tracetransform/span.go
index ce69cfa..91ce823 100644
--- a/internal/self/trace/tracetransform/span.go
+++ b/internal/self/trace/tracetransform/span.go
@@ -149,6 +149,7 @@ func links(links []tracesdk.Link) []*tracepb.Span_Link {
 		sl = append(sl, &tracepb.Span_Link{
 			TraceId:                tid[:],
 			SpanId:                 sid[:],
+			TraceState:             otLink.SpanContext.TraceState().String(),
 			Attributes:             KeyValues(otLink.Attributes),
 			DroppedAttributesCount: uint32(otLink.DroppedAttributeCount),
 		})
-- 
2.43.0


From b4f6c0e04a932d24b38d4bd1cce4f45a534601c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:00:09 +0000
Subject: [PATCH 35/39] fix: log the address that is connected to

---
 internal/commands/query/query.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/commands/query/query.go b/internal/commands/query/query.go
index f9df1ac..1b48033 100644
--- a/internal/commands/query/query.go
+++ b/internal/commands/query/query.go
@@ -48,7 +48,7 @@ func run(ctx context.Context, cmd *cli.Command) error {
 
 	logger.Setup(cmd.Root().String("logLevel"), os.Stderr)
 	log := slog.Default().With("file", file)
-	log.Debug("opening remote connection", "target", cmd.String("hostPort"))
+	log.Debug("opening remote connection", "target", cmd.String("remoteAddress"))
 	conn, err := commands.Conn(cmd)
 	if err != nil {
 		return err
-- 
2.43.0


From 75238cd64486dbf736ab63204495dc4d4dde5862 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:07:35 +0000
Subject: [PATCH 36/39] fix: do not read a flag that is not declared

---
 cmd/rq/main.go              | 3 +--
 internal/service/service.go | 2 +-
 2 files changed, 2 insertions(+), 3 deletions(-)

diff --git a/cmd/rq/main.go b/cmd/rq/main.go
index 63436b9..796903d 100644
--- a/cmd/rq/main.go
+++ b/cmd/rq/main.go
@@ -105,11 +105,10 @@ func run(ctx context.Context, cmd *cli.Command) (exit error) {
 	}
 	defer sequence.Release()
 
-	lsn := cmd.String("listen")
 	now := func() time.Time {
 		return time.Now().UTC()
 	}
-	api, err := service.NewService(ctx, db, tr, sequence, idx, now, lsn, cmd.Duration("retentionPeriod"))
+	api, err := service.NewService(ctx, db, tr, sequence, idx, now, cmd.Duration("retentionPeriod"))
 	if err != nil {
 		return err
 	}
diff --git a/internal/service/service.go b/internal/service/service.go
index 0b97e5b..fbf95d9 100644
--- a/internal/service/service.go
+++ b/internal/service/service.go
@@ -49,7 +49,7 @@ func NewService(ctx context.Context,
 	seq *seq.Seq,
 	idx *shards.Shards,
 	now func() time.Time,
-	listen string, retention time.Duration) (*Service, error) {
+	retention time.Duration) (*Service, error) {
 	sn, err := snippets.New()
 	if err != nil {
 		return nil, err
-- 
2.43.0


From 5d3104b83b4e9d2a0b8462622daa6def75c1074d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:35:13 +0000
Subject: [PATCH 37/39] fix: store labels that are too long for a key under
 their digest

Keys of badger are limited to 65000 bytes. A longer attribute made
translating its label fail, which ends the server.
---
 internal/translate/translate.go | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/internal/translate/translate.go b/internal/translate/translate.go
index 2ce2f04..a378549 100644
--- a/internal/translate/translate.go
+++ b/internal/translate/translate.go
@@ -2,6 +2,7 @@ package translate
 
 import (
 	"bytes"
+	"crypto/sha256"
 	"encoding/binary"
 	"errors"
 	"slices"
@@ -76,11 +77,24 @@ func (b *Translate) TranslateBulkID(ids []uint64, f func(key []byte) error) (err
 	return
 }
 
+// maxKey is the size of the longest key that badger accepts.
+const maxKey = 65000
+
+// labelKey writes the key under which the id of a label is stored. Labels that
+// are too long for a key are stored under their digest.
+func (b *Translate) labelKey(g *bytes.Buffer, label []byte) {
+	g.Write(b.keys)
+	if len(b.keys)+len(label) > maxKey {
+		sum := sha256.Sum256(label)
+		label = sum[:]
+	}
+	g.Write(label)
+}
+
 func (b *Translate) TranslateKey(key []byte) (n uint64, err error) {
 	err = b.db.Update(func(txn *badger.Txn) error {
 		g := get()
-		g.Write(b.keys)
-		g.Write(key)
+		b.labelKey(g, key)
 		defer put(g)
 		it, err := txn.Get(g.Bytes())
 		if err != nil {
@@ -126,8 +140,7 @@ func (b *Translate) Find(key []byte) (n uint64, err error) {
 	err = b.db.Update(func(txn *badger.Txn) error {
 		g := get()
 		defer put(g)
-		g.Write(b.keys)
-		g.Write(key)
+		b.labelKey(g, key)
 		it, err := txn.Get(g.Bytes())
 		if err != nil {
 			return err
-- 
2.43.0


From 134fb689a26b14119766e5da391b966544cd4051 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:32:24 +0000
Subject: [PATCH 38/39] fix: declare log records, optional numbers and integers
 of scripts with their types

---
 packages/rq/src/otel.ts | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/packages/rq/src/otel.ts b/packages/rq/src/otel.ts
index 986773b..33b7ee8 100644
--- a/packages/rq/src/otel.ts
+++ b/packages/rq/src/otel.ts
@@ -76,7 +76,7 @@ export interface ResourceLogs {
 
 export interface ScopeLogs {
     scope: InstrumentationScope
-    log_records: LogRecord
+    log_records: LogRecord[]
     schema_url: string
 }
 
@@ -194,8 +194,8 @@ export interface HistogramDataPoint {
     bucket_counts: number[]
     explicit_bounds: number[]
     exemplars: Exemplar[]
-    min: number[]
-    max: number[]
+    min?: number
+    max?: number
 }
 
 export interface ExponentialHistogramDataPoint {
@@ -203,15 +203,15 @@ export interface ExponentialHistogramDataPoint {
     start_time_unix_nano: number
     time_unix_nano: number
     count: number
-    sum: number[]
+    sum?: number
     scale: number
     zero_count: number
     positive: Buckets
     negative: Buckets
     exemplars: Exemplar[]
-    min: number[]
-    max: number[]
-    zero_threshold: number[]
+    min?: number
+    max?: number
+    zero_threshold: number
 }
 
 export interface Buckets {
@@ -254,7 +254,7 @@ export interface KeyValue {
 export interface AnyValue {
     GetStringValue(): string
     GetBoolValue(): boolean
-    GetIntValue(): boolean
+    GetIntValue(): number
 }
 
 export interface InstrumentationScope {
-- 
2.43.0


From 5f2a40cd8790d41ec04f64537c3c4567e1c2e4b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:42:49 +0000
Subject: [PATCH 39/39] fix: scripts do not share a runtime

A runtime went back to the pool with the global variables of the script that
used it, and the next script could see them.
---
 internal/js/rq.go | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/internal/js/rq.go b/internal/js/rq.go
index 905f293..e15eee2 100644
--- a/internal/js/rq.go
+++ b/internal/js/rq.go
@@ -29,7 +29,10 @@ type JS struct {
 }
 
 func New() *JS {
-	return jsPool.Get().(*JS)
+	o := jsPool.Get().(*JS)
+	// scripts can change globals, they never share a runtime
+	o.Runtime = newRuntime(o)
+	return o
 }
 
 func (o *JS) WithNow(now NowFunc) *JS {
@@ -38,6 +41,7 @@ func (o *JS) WithNow(now NowFunc) *JS {
 }
 
 func (o *JS) Reset() {
+	o.Runtime = nil
 	o.Now = nil
 	o.Output = io.Discard
 	o.ScanFn = nil
@@ -56,12 +60,8 @@ func (o *JS) Release() {
 	jsPool.Put(o)
 }
 
-func newJS() *JS {
+func newRuntime(o *JS) *goja.Runtime {
 	r := goja.New()
-	o := &JS{
-		Runtime: r,
-		Output:  io.Discard,
-	}
 	r.SetFieldNameMapper(goja.TagFieldNameMapper("json", false))
 	err := errors.Join(
 		r.Set("SCAN", &Scan{o: o}),
@@ -70,10 +70,10 @@ func newJS() *JS {
 	if err != nil {
 		logger.Fail("failed creating new js runtime", "err", err)
 	}
-	return o
+	return r
 }
 
-var jsPool = &sync.Pool{New: func() any { return newJS() }}
+var jsPool = &sync.Pool{New: func() any { return &JS{Output: io.Discard} }}
 
 func (r *JS) Scan(a *v1.Scan) (*v1.Data, error) {
 	r.ScanRequest = a
-- 
2.43.0

