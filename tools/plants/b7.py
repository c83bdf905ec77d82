exec(open('/tmp/p/b5.py').read().split("\nB=[")[0])
B=[
dict(id="C29-key-of-words",prop="C29",needs="two scripts that differ only in white space, such as spaces inside of a string literal, where the first was executed before the second",breaks="The name of a cached script is computed from its words only, so that a script which differs from an earlier one in the spaces inside of a string executes the earlier one.",
 edits=[("internal/commands/query/query.go","	hash := xxhash.Sum64(data)\n","	hash := xxhash.Sum64(bytes.Join(bytes.Fields(data), []byte{' '}))\n"),("internal/commands/query/query.go","import (\n","import (\n	\"bytes\"\n")],pkg="internal/commands/query",test='''package query

import (
	"bytes"
	"log/slog"
	"testing"

	"github.com/gernest/requiemdb/internal/js"
)

func TestDemo(t *testing.T) {
	t.Setenv("HOME", t.TempDir())
	for _, x := range []string{"a b", "a  b", "a b"} {
		p, err := build(slog.Default(), []byte("import { print } from \\"@requiemdb/rq\\";\\nprint(\\""+x+"\\")\\n"))
		if err != nil {
			t.Fatal(err)
		}
		var out bytes.Buffer
		if err := js.New().WithOutput(&out).Run(p); err != nil {
			t.Fatal(err)
		}
		if out.String() != x {
			t.Fatalf("printed %q, want %q", out.String(), x)
		}
	}
}
'''),
]
