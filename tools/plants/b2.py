exec(open('/tmp/p/hdr.py').read())
B=[dict(id="C01-last-record",prop="C01",needs="a log record without span id that is not the last one, with a trace id",
 breaks="the trace id of log records without a span id is not indexed",
 edits=[("internal/transform/logs.go","						WithKey(hex.EncodeToString(r.SpanId))\n				})\n			}\n			if r.TraceId != nil {","						WithKey(hex.EncodeToString(r.SpanId))\n				})\n			}\n			if r.TraceId != nil && r.SpanId != nil {")],
 pkg="internal/transform",
 test=TT+'''func TestDemo(t *testing.T) {
	ls := labelsOf(t, &v1.Sample{Data: &v1.Data{Data: &v1.Data_Logs{Logs: &logsv1.LogsData{ResourceLogs: []*logsv1.ResourceLogs{
		{ScopeLogs: []*logsv1.ScopeLogs{{LogRecords: []*logsv1.LogRecord{{TraceId: []byte{1, 2}}}}}},
	}}}}})
	if !has(ls, ":0102") {
		t.Fatal(ls)
	}
}
''')]
