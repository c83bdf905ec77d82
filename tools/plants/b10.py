B=[
dict(id="C39-index-elsewhere",prop="C39",needs="a data directory given on the command line",breaks="The directory given on the command line is used for records only, the index stays in the home directory, where servers of other directories use it as well.",
 edits=[("internal/commands/home.go","	h := filepath.Join(Data(base...), \"index\")\n","	h := filepath.Join(Data(base[1:]...), \"index\")\n")],pkg="internal/commands",test='''package commands

import (
	"path/filepath"
	"strings"
	"testing"
)

func TestDemo(t *testing.T) {
	t.Setenv("HOME", t.TempDir())
	dir := filepath.Join(t.TempDir(), "data")
	for _, p := range []string{DB(dir), Index(dir)} {
		if !strings.HasPrefix(p, dir) {
			t.Fatalf("%s is not in %s", p, dir)
		}
	}
}
'''),
dict(id="C39-level-of-empty-name",prop="C39",needs="the server started with RQ_LOG_LEVEL or --logLevel set to warn",breaks="The configured level is parsed after the logger was made with it, so that everything is logged at the default level.",
 edits=[("internal/logger/setup.go","	var level slog.Level\n	level.UnmarshalText([]byte(logLevel))\n	slog.SetDefault(\n","	var level slog.Level\n	defer level.UnmarshalText([]byte(logLevel))\n	slog.SetDefault(\n")],pkg="internal/logger",test='''package logger

import (
	"bytes"
	"log/slog"
	"testing"
)

func TestDemo(t *testing.T) {
	var out bytes.Buffer
	Setup("warn", &out)
	slog.Info("quiet")
	if out.Len() != 0 {
		t.Fatal(out.String())
	}
}
'''),
]
