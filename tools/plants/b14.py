B=[
dict(id="C26-option-renamed",prop="C26",needs="a script that renders JSON with the pretty option",breaks="The option of the host has another name than the one that the library passes: it is ignored.",
 edits=[("internal/render/render.go",'	Pretty bool `json:"pretty"`','	Pretty bool `json:"multiline,omitempty"`')],pkg="internal/js",test='''package js

import (
	"bytes"
	"testing"

	"github.com/dop251/goja"
	"github.com/gernest/requiemdb/internal/js/bundle"
	v1 "github.com/gernest/requiemdb/gen/go/rq/v1"
	metricsv1 "go.opentelemetry.io/proto/otlp/metrics/v1"
)

func TestDemo(t *testing.T) {
	var b bytes.Buffer
	o := New().WithOutput(&b).WithData(&v1.Data{Data: &v1.Data_Metrics{Metrics: &metricsv1.MetricsData{ResourceMetrics: []*metricsv1.ResourceMetrics{{SchemaUrl: "a"}}}}})
	defer o.Release()
	p, err := goja.Compile("x.js", "(function(){var module={};"+string(bundle.PKG[bundle.Base])+";var m=new module.exports.Metrics();module.exports.Metrics.renderJSON(m.query(),{pretty:true})})()", false)
	if err != nil {
		t.Fatal(err)
	}
	if err := o.Run(p); err != nil {
		t.Fatal(err)
	}
	if !bytes.Contains(b.Bytes(), []byte("\\n")) {
		t.Fatalf("not pretty: %s", b.String())
	}
}
'''),
dict(id="C26-bundle-swaps-scope-attribute",prop="C26",needs="a script that filters on an attribute of the scope; the sources of the library are right, what is bundled with the server is not",breaks="The bundled library hands key and value of scope attribute filters over in the wrong order.",
 edits=[("internal/js/bundle/index.js","scopeAttr(t,n){return this.ptr.ScopeAttr(t,n),this}","scopeAttr(t,n){return this.ptr.ScopeAttr(n,t),this}")],pkg="internal/js",test='''package js

import (
	"testing"

	"github.com/dop251/goja"
	"github.com/gernest/requiemdb/internal/js/bundle"
	v1 "github.com/gernest/requiemdb/gen/go/rq/v1"
)

func TestDemo(t *testing.T) {
	o := New().WithData(&v1.Data{})
	defer o.Release()
	p, err := goja.Compile("x.js", "(function(){var module={};"+string(bundle.PKG[bundle.Base])+";new module.exports.Logs().scopeAttr('key','value').scan()})()", false)
	if err != nil {
		t.Fatal(err)
	}
	if err := o.Run(p); err != nil {
		t.Fatal(err)
	}
	if a := o.ScanRequest.Filters[0].GetAttr(); a.GetKey() != "key" || a.GetValue() != "value" {
		t.Fatal(a)
	}
}
'''),
]
