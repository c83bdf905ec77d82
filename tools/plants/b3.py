exec(open('/tmp/p/hdr.py').read())
DF='''package dataframe

import (
	"context"
	"testing"
	"time"

	v1 "github.com/gernest/requiemdb/gen/go/rq/v1"
	"github.com/gernest/requiemdb/internal/bitmaps"
	"github.com/gernest/requiemdb/internal/test"
	commonv1 "go.opentelemetry.io/proto/otlp/common/v1"
	logsv1 "go.opentelemetry.io/proto/otlp/logs/v1"
	tracev1 "go.opentelemetry.io/proto/otlp/trace/v1"
)

var _ = tracev1.Span{}

func logOf(id uint64, at time.Time, text string) *v1.Sample {
	ts := uint64(at.UnixNano())
	return &v1.Sample{Id: id, MinTs: ts, MaxTs: ts, Data: &v1.Data{Data: &v1.Data_Logs{Logs: &logsv1.LogsData{ResourceLogs: []*logsv1.ResourceLogs{{
		ScopeLogs: []*logsv1.ScopeLogs{{LogRecords: []*logsv1.LogRecord{{TimeUnixNano: ts,
			Body: &commonv1.AnyValue{Value: &commonv1.AnyValue_StringValue{StringValue: text}}}}}},
	}}}}}}
}

func traceOf(id uint64, at time.Time, name string) *v1.Sample {
	ts := uint64(at.UnixNano())
	return &v1.Sample{Id: id, MinTs: ts, MaxTs: ts, Data: &v1.Data{Data: &v1.Data_Traces{Traces: &tracev1.TracesData{ResourceSpans: []*tracev1.ResourceSpans{{
		ScopeSpans: []*tracev1.ScopeSpans{{Spans: []*tracev1.Span{{StartTimeUnixNano: ts, EndTimeUnixNano: ts, Name: name}}}},
	}}}}}}
}

func set(ids ...uint64) *bitmaps.Bitmap {
	b := bitmaps.New()
	for _, i := range ids {
		b.Add(i)
	}
	return b
}

'''
SH='''package shards

import (
	"path/filepath"
	"testing"
	"time"

	"github.com/gernest/rbf"
	"github.com/gernest/requiemdb/internal/bitmaps"
	"github.com/gernest/roaring"
)

var _ = filepath.Join
var _ = time.Now
var _ = bitmaps.New
var _ rbf.Tx

func put(t *testing.T, s *Shards, shard uint64, view string, v ...uint64) {
	t.Helper()
	b := roaring.NewBitmap(v...)
	err := s.Update(shard, func(tx *rbf.Tx) error {
		_, err := tx.AddRoaring(view, b)
		return err
	})
	if err != nil {
		t.Fatal(err)
	}
}

'''
SV='''package service

import (
	"context"
	"testing"
	"time"
	"strconv"
	"sync"

	v1 "github.com/gernest/requiemdb/gen/go/rq/v1"
	"github.com/gernest/requiemdb/internal/samples"
	"github.com/gernest/requiemdb/internal/seq"
	"github.com/gernest/requiemdb/internal/shards"
	"github.com/gernest/requiemdb/internal/test"
	"github.com/gernest/requiemdb/internal/translate"
	collector_logs "go.opentelemetry.io/proto/otlp/collector/logs/v1"
	logsv1 "go.opentelemetry.io/proto/otlp/logs/v1"
)

var _ sync.Mutex
var _ = time.Now
var _ = samples.Get
var _ v1.Data
var _ collector_logs.ExportLogsServiceRequest
var _ logsv1.LogsData

func testService(t *testing.T) *Service {
	t.Helper()
	db := test.DB(t)
	tr, err := translate.New(db, []byte(strconv.FormatUint(uint64(v1.RESOURCE_TRANSLATE_ID), 10)))
	if err != nil {
		t.Fatal(err)
	}
	t.Cleanup(func() { tr.Close() })
	sq, err := seq.New(db)
	if err != nil {
		t.Fatal(err)
	}
	t.Cleanup(func() { sq.Release() })
	rb := shards.New(t.TempDir(), nil)
	t.Cleanup(func() { rb.Close() })
	s, err := NewService(context.Background(), db, tr, sq, rb, test.Now, "", time.Hour)
	if err != nil {
		t.Fatal(err)
	}
	return s
}

'''
TD='''package data

import (
	"testing"

	commonv1 "go.opentelemetry.io/proto/otlp/common/v1"
	resourcev1 "go.opentelemetry.io/proto/otlp/resource/v1"
	tracev1 "go.opentelemetry.io/proto/otlp/trace/v1"
)

func td(service, scope, span string) *tracev1.TracesData {
	return &tracev1.TracesData{ResourceSpans: []*tracev1.ResourceSpans{{
		Resource: &resourcev1.Resource{Attributes: []*commonv1.KeyValue{{Key: "s", Value: &commonv1.AnyValue{Value: &commonv1.AnyValue_StringValue{StringValue: service}}}}},
		ScopeSpans: []*tracev1.ScopeSpans{{
			Scope: &commonv1.InstrumentationScope{Name: scope},
			Spans: []*tracev1.Span{{Name: span}},
		}},
	}}}
}

'''
B=[
dict(id="C06-wrong-set-loaded",prop="C06",needs="an hour that has samples of two kinds stored by separate saves",
 breaks="the set of trace rows of a unit is replaced by its set of log rows when the unit is appended to",
 edits=[("internal/dataframe/dataframe.go","txnValue(txn, tk, traces.UnmarshalBinary)","txnValue(txn, lk, traces.UnmarshalBinary)")],
 pkg="internal/dataframe",test=DF+'''func TestDemo(t *testing.T) {
	db := test.DB(t)
	d := New(db)
	ctx := context.Background()
	now := test.Now()
	for _, s := range []*v1.Sample{traceOf(0, now, "a"), logOf(1, now, "b"), logOf(2, now, "c")} {
		if err := d.Append(ctx, s); err != nil {
			t.Fatal(err)
		}
	}
	r, err := d.Traces(ctx, now, now, set(0, 1, 2))
	if err != nil {
		t.Fatal(err)
	}
	if len(r) != 1 || r[0].GetTraces() == nil {
		t.Fatal(r)
	}
}
'''),
dict(id="C07-rows-of-previous-unit",prop="C07",needs="a range that reads more than one unit",
 breaks="rows of units read before are read again from the next unit",
 edits=[("internal/dataframe/dataframe.go","buf = slices.Grow(buf, int(rowsSet.GetCardinality()))[:0]","buf = slices.Grow(buf, int(rowsSet.GetCardinality()))")],
 pkg="internal/dataframe",test=DF+'''func TestDemo(t *testing.T) {
	db := test.DB(t)
	d := New(db)
	ctx := context.Background()
	now := test.Now().UTC().Truncate(time.Hour)
	next := now.Add(time.Hour)
	if err := d.Append(ctx, logOf(0, now, "a")); err != nil {
		t.Fatal(err)
	}
	if err := d.Append(ctx, logOf(1, next, "b")); err != nil {
		t.Fatal(err)
	}
	r, err := d.Logs(ctx, now, next.Add(time.Hour), set(0, 1))
	if err != nil {
		t.Fatal(err)
	}
	if len(r) != 2 {
		t.Fatal(r)
	}
}
'''),
dict(id="C08-local-time",prop="C08",needs="a process whose local time zone is not UTC",
 breaks="records are stored under the unit of the local time while scans read units of UTC",
 edits=[("internal/dataframe/dataframe.go","q.Set(time.Unix(0, int64(s.MinTs)).UTC())","q.Set(time.Unix(0, int64(s.MinTs)))")],
 pkg="internal/dataframe",test=DF+'''func TestDemo(t *testing.T) {
	old := time.Local
	defer func() { time.Local = old }()
	time.Local = time.FixedZone("x", 5*3600)
	db := test.DB(t)
	d := New(db)
	ctx := context.Background()
	now := time.Date(2024, 4, 3, 14, 0, 0, 0, time.UTC)
	if err := d.Append(ctx, logOf(0, now, "a")); err != nil {
		t.Fatal(err)
	}
	r, err := d.Logs(ctx, now, now.Add(time.Minute), set(0))
	if err != nil {
		t.Fatal(err)
	}
	if len(r) != 1 {
		t.Fatal(r)
	}
}
'''),
dict(id="C05-shadowed-error",prop="C05",needs="a shard that can not be written",
 breaks="SaveSamples reports success when the index could not be updated",
 edits=[("internal/store/store.go","""		err = s.rdb.Update(shard, func(tx *rbf.Tx) error {""","""		err := s.rdb.Update(shard, func(tx *rbf.Tx) error {"""),
  ("internal/store/store.go","""			//TODO: delete sample ?
			return err
		}
	}
	return nil""","""			//TODO: delete sample ?
			break
		}
	}
	return err""")],
 pkg="internal/store",test='''package store

import (
	"context"
	"testing"

	v1 "github.com/gernest/requiemdb/gen/go/rq/v1"
	"github.com/gernest/requiemdb/internal/samples"
	"github.com/gernest/requiemdb/internal/test"
)

func TestDemo(t *testing.T) {
	store := testStore(t)
	// a shard can not be opened any more when the directory is gone and replaced by a file
	ls := samples.Get()
	for n, v := range test.MetricsSamples(t) {
		ls.Items = append(ls.Items, &v1.Sample{Id: uint64(n), Data: v})
	}
	if err := store.SaveSamples(context.Background(), ls); err != nil {
		t.Fatal(err)
	}
	if err := store.rdb.Close(); err != nil {
		t.Fatal(err)
	}
	if err := store.SaveSamples(context.Background(), ls); err == nil {
		t.Fatal("saving must fail on a closed index")
	}
}
'''),
dict(id="C13-new-scope-not-registered",prop="C13",needs="three inputs of the same resource, a scope first seen in the second",
 breaks="spans of a scope first seen on a later input are returned in two scopes",
 edits=[("internal/data/trace.go","""				scope, ok := xm.scope[sh]
				if !ok {
					xm.scope[sh] = sm
""","""				scope, ok := xm.scope[sh]
				if !ok {
""")],
 pkg="internal/data",test=TD+'''func TestDemo(t *testing.T) {
	r := CollapseTrace([]*tracev1.TracesData{td("a", "x", "1"), td("a", "y", "2"), td("a", "y", "3")})
	if len(r.ResourceSpans) != 1 || len(r.ResourceSpans[0].ScopeSpans) != 2 {
		t.Fatal(r)
	}
}
'''),
dict(id="C14-scope-of-other-resource",prop="C14",needs="two resources with the same scope, over several inputs",
 breaks="spans move to the same scope of another resource",
 edits=[("internal/data/sort.go","""	r.h.Reset()
	r.hashNum(resource)
	r.hashString(schema)
	if scope != nil {""","""	r.h.Reset()
	r.hashString(schema)
	if scope != nil {""")],
 pkg="internal/data",test=TD+'''func TestDemo(t *testing.T) {
	r := CollapseTrace([]*tracev1.TracesData{td("a", "x", "1"), td("b", "x", "2"), td("a", "x", "3"), td("b", "x", "4")})
	if len(r.ResourceSpans) != 2 || len(r.ResourceSpans[0].ScopeSpans[0].Spans) != 2 {
		t.Fatal(r)
	}
}
'''),
dict(id="C15-reverse-instant",prop="C15",needs="a scan without a time range that is reversed",
 breaks="a reversed instant scan returns every sample of the window instead of the last one",
 edits=[("internal/store/scan.go","	if isInstant {","	if isInstant && !scan.Reverse {")],
 pkg="internal/store",test='''package store

import (
	"context"
	"testing"
	"time"

	v1 "github.com/gernest/requiemdb/gen/go/rq/v1"
	"github.com/gernest/requiemdb/internal/samples"
	"github.com/gernest/requiemdb/internal/test"
	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/types/known/timestamppb"
)

func TestDemo(t *testing.T) {
	store := testStore(t)
	data := test.MetricsSamples(t)
	ls := samples.Get()
	for n, v := range data {
		ls.Items = append(ls.Items, &v1.Sample{Id: uint64(n), Data: v})
	}
	if err := store.SaveSamples(context.Background(), ls); err != nil {
		t.Fatal(err)
	}
	now, err := time.Parse("2006010215", "2024040314")
	if err != nil {
		t.Fatal(err)
	}
	res, err := store.Scan(context.Background(), &v1.Scan{
		Scope:   v1.Scan_METRICS,
		Reverse: true,
		Now:     timestamppb.New(now.Add(20 * time.Minute)),
	})
	if err != nil {
		t.Fatal(err)
	}
	if !proto.Equal(res, data[len(data)-1]) {
		t.Fatal("not the last sample")
	}
}
'''),
dict(id="C16-closed-shard",prop="C16",needs="a shard whose transaction can not begin, a search over it",
 breaks="a search over an index that can not be read returns matches of the others instead of an error",
 edits=[("internal/shards/shards.go","""		db, err = s.get(k)
		if err != nil {
			return
		}
		tx, err = db.Begin(false)
		if err != nil {
			return
		}
""","""		db, err = s.get(k)
		if err != nil {
			return
		}
		tx, err = db.Begin(false)
		if err != nil {
			err = nil
			continue
		}
""")],
 pkg="internal/shards",test=SH+'''func TestDemo(t *testing.T) {
	s := New(t.TempDir(), nil)
	put(t, s, 0, "std_2024040314", 1)
	if err := s.Close(); err != nil {
		t.Fatal(err)
	}
	cols := bitmaps.New()
	cols.Add(1)
	now := time.Date(2024, 4, 3, 14, 0, 0, 0, time.UTC)
	_, err := s.Rows(now, now, cols)
	if err == nil {
		t.Fatal("no error reading a closed index")
	}
}
'''),
dict(id="C17-hex-name",prop="C17",needs="ten or more shards, and a restart",
 breaks="shards from 10 on are stored under names that are read back as other shards, or not at all",
 edits=[("internal/shards/shards.go","strconv.FormatUint(shard, 10)","strconv.FormatUint(shard, 16)")],
 pkg="internal/shards",test=SH+'''func TestDemo(t *testing.T) {
	dir := t.TempDir()
	s := New(dir, nil)
	put(t, s, 12, "std", 1)
	if err := s.Close(); err != nil {
		t.Fatal(err)
	}
	s = New(dir, nil)
	defer s.Close()
	var got []uint64
	err := s.AllShards(func(_ *rbf.Tx, shard uint64) error {
		got = append(got, shard)
		return nil
	})
	if err != nil {
		t.Fatal(err)
	}
	if len(got) != 1 || got[0] != 12 {
		t.Fatal(got)
	}
}
'''),
dict(id="C18-id-outside-lock",prop="C18",needs="concurrent exports: one takes its id, another appends before it",
 breaks="samples of a batch are not in the order of their ids",
 edits=[("internal/service/service.go","""	s.dataMu.Lock()
	defer s.dataMu.Unlock()
	s.data.Items = append(s.data.Items, &v1.Sample{
		Id:   s.seq.SampleID(),
		Data: data,
	})""","""	sample := &v1.Sample{
		Id:   s.seq.SampleID(),
		Data: data,
	}
	s.dataMu.Lock()
	defer s.dataMu.Unlock()
	s.data.Items = append(s.data.Items, sample)""")],
 pkg="internal/service",test=SV+'''func TestDemo(t *testing.T) {
	s := testService(t)
	defer s.Close()
	s.dataMu.Lock()
	done := make(chan struct{})
	go func() {
		defer close(done)
		s.Save(&v1.Data{})
	}()
	time.Sleep(300 * time.Millisecond)
	// another sample is received first
	s.data.Items = append(s.data.Items, &v1.Sample{Id: s.seq.SampleID(), Data: &v1.Data{}})
	s.dataMu.Unlock()
	<-done
	if s.data.Items[0].Id > s.data.Items[1].Id {
		t.Fatal("ids not in order")
	}
	s.data.Items = nil
}
'''),
dict(id="C19-register-before-open",prop="C19",needs="a shard that fails to open, and a second use of it",
 breaks="a shard that failed to open is handed out as if it was open",
 edits=[("internal/shards/shards.go","""	err := r.Open()
	if err != nil {
		return nil, err
	}
	s.db[shard] = r
""","""	err := r.Open()
	s.db[shard] = r
	if err != nil {
		return nil, err
	}
""")],
 pkg="internal/shards",test=SH+'''func TestDemo(t *testing.T) {
	dir := t.TempDir()
	s := New(filepath.Join("/dev/null", dir), nil)
	for i := 0; i < 2; i++ {
		err := s.AllShards(func(tx *rbf.Tx, shard uint64) error { return nil })
		_ = err
		_, err = s.get(0)
		if err == nil {
			t.Fatal("shard that can not be opened is handed out", i)
		}
	}
}
'''),
dict(id="C20-close-empty",prop="C20",needs="closing before any shard was opened, then using it",
 breaks="Close returns with the lock held",
 edits=[("internal/shards/shards.go","""	s.mu.Lock()
	defer s.mu.Unlock()
	errs := make([]error, 0, len(s.db))""","""	s.mu.Lock()
	if len(s.db) == 0 {
		return nil
	}
	errs := make([]error, 0, len(s.db))"""),("internal/shards/shards.go","""		errs = append(errs, r.Close())
	}
""","""		errs = append(errs, r.Close())
	}
	s.mu.Unlock()
""")],
 pkg="internal/shards",test=SH+'''func TestDemo(t *testing.T) {
	s := New(t.TempDir(), nil)
	done := make(chan struct{})
	go func() {
		defer close(done)
		s.Close()
		s.Close()
	}()
	select {
	case <-done:
	case <-time.After(10 * time.Second):
		t.Fatal("blocked")
	}
}
'''),
dict(id="C21-list-before-lock",prop="C21",needs="an export that waits for the lock while a flush takes the list",
 breaks="the sample is added to a list that was already saved",
 edits=[("internal/service/service.go","""	s.dataMu.Lock()
	defer s.dataMu.Unlock()
	s.data.Items = append(s.data.Items, &v1.Sample{""","""	ls := s.data
	s.dataMu.Lock()
	defer s.dataMu.Unlock()
	ls.Items = append(ls.Items, &v1.Sample{""")],
 pkg="internal/service",test=SV+'''func TestDemo(t *testing.T) {
	s := testService(t)
	defer s.Close()
	s.dataMu.Lock()
	done := make(chan struct{})
	go func() {
		defer close(done)
		s.Save(&v1.Data{})
	}()
	time.Sleep(300 * time.Millisecond)
	s.data = samples.Get()
	s.dataMu.Unlock()
	<-done
	n := len(s.data.Items)
	s.data.Items = nil
	if n != 1 {
		t.Fatal("sample lost")
	}
}
'''),
dict(id="C22-rollback-after-eof",prop="C22",needs="an iteration that ends early",
 breaks="the transaction of the shard where the iteration ended is never closed",
 edits=[("internal/shards/shards.go","""		if err != nil {
			tx.Rollback()
			if errors.Is(err, io.EOF) {
				return nil
			}
			return err
		}""","""		if err != nil {
			if errors.Is(err, io.EOF) {
				return nil
			}
			tx.Rollback()
			return err
		}""")],
 pkg="internal/shards",test=SH.replace('import (','import (\n\t"io"')+'''func TestDemo(t *testing.T) {
	s := New(t.TempDir(), nil)
	put(t, s, 0, "std", 1)
	err := s.AllShards(func(_ *rbf.Tx, shard uint64) error { return io.EOF })
	if err != nil {
		t.Fatal(err)
	}
	if n := s.db[0].TxN(); n != 0 {
		t.Fatal("transactions left open", n)
	}
}
'''),
dict(id="C27-offset-seconds",prop="C27",needs="an offset below a second, or with a fraction of it",
 breaks="offsets lose their fraction of a second",
 edits=[("internal/js/scan.go","s.scan.Offset = durationpb.New(d)","s.scan.Offset = &durationpb.Duration{Seconds: int64(d.Seconds())}")],
 pkg="internal/js",test='''package js

import (
	"testing"
	"time"

	v1 "github.com/gernest/requiemdb/gen/go/rq/v1"
)

func TestDemo(t *testing.T) {
	s := &Scan{o: New(), scan: &v1.Scan{}}
	if err := s.Offset("1500ms"); err != nil {
		t.Fatal(err)
	}
	if s.scan.Offset.AsDuration() != 1500*time.Millisecond {
		t.Fatal(s.scan.Offset)
	}
}
'''),
dict(id="C28-second-bounds",prop="C28",needs="a range whose bounds are not whole seconds",
 breaks="results of a scan are trimmed at whole seconds instead of the requested instants",
 edits=[("internal/js/rq.go","vs.SetTimeRange(uint64(start.UnixNano()), uint64(end.UnixNano()))","vs.SetTimeRange(uint64(start.Unix()*1e9), uint64(end.Unix()*1e9))")],
 pkg="internal/js",test='''package js

import (
	"testing"
	"time"

	v1 "github.com/gernest/requiemdb/gen/go/rq/v1"
	logsv1 "go.opentelemetry.io/proto/otlp/logs/v1"
	"google.golang.org/protobuf/types/known/timestamppb"
)

func TestDemo(t *testing.T) {
	base := time.Unix(1700000000, 0).UTC()
	rec := base.Add(700 * time.Millisecond)
	o := New().WithData(&v1.Data{Data: &v1.Data_Logs{Logs: &logsv1.LogsData{ResourceLogs: []*logsv1.ResourceLogs{{
		ScopeLogs: []*logsv1.ScopeLogs{{LogRecords: []*logsv1.LogRecord{{TimeUnixNano: uint64(rec.UnixNano())}}}},
	}}}}})
	defer o.Release()
	r, err := o.Scan(&v1.Scan{Scope: v1.Scan_LOGS, TimeRange: &v1.Scan_TimeRange{
		Start: timestamppb.New(base.Add(500 * time.Millisecond)), End: timestamppb.New(base.Add(900 * time.Millisecond)),
	}})
	if err != nil {
		t.Fatal(err)
	}
	if l := r.GetLogs(); len(l.GetResourceLogs()) != 1 {
		t.Fatal(r)
	}
	r, err = o.Scan(&v1.Scan{Scope: v1.Scan_LOGS, TimeRange: &v1.Scan_TimeRange{
		Start: timestamppb.New(base.Add(-500 * time.Millisecond)), End: timestamppb.New(base.Add(500 * time.Millisecond)),
	}})
	if err != nil {
		t.Fatal(err)
	}
	if l := r.GetLogs(); len(l.GetResourceLogs()) != 0 {
		t.Fatal(r)
	}
}
'''),
dict(id="C36-empty-resources",prop="C36",needs="an export with a resource that has no scope logs",
 breaks="resources without scope logs are dropped from the stored sample",
 edits=[("internal/service/service.go",'''				ResourceLogs: req.ResourceLogs,''','''				ResourceLogs: slices.DeleteFunc(req.ResourceLogs, func(r *logsv1.ResourceLogs) bool {
					return len(r.ScopeLogs) == 0
				}),'''),("internal/service/service.go",'''	"log/slog"
''','''	"log/slog"
	"slices"
''')],
 pkg="internal/service",test=SV+'''func TestDemo(t *testing.T) {
	s := testService(t)
	defer s.Close()
	_, err := s.Logs().Export(context.Background(), &collector_logs.ExportLogsServiceRequest{
		ResourceLogs: []*logsv1.ResourceLogs{{SchemaUrl: "a"}, {SchemaUrl: "b", ScopeLogs: []*logsv1.ScopeLogs{{}}}},
	})
	if err != nil {
		t.Fatal(err)
	}
	n := len(s.data.Items[0].Data.GetLogs().ResourceLogs)
	s.data.Items = nil
	if n != 2 {
		t.Fatal("dropped")
	}
}
'''),
]
