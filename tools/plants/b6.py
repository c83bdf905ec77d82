exec(open('/tmp/p/b5.py').read().split("\nB=[")[0])
B=[
dict(id="C24-rest-not-shut-down",prop="C24",needs="the first provider fails to shut down, for example because its last export is refused or the context has ended",breaks="Shutting down stops at the first provider that fails: the metrics provider is left running, what it holds is never exported, and it goes on reporting to a closed service.",
 edits=[("internal/self/self.go","		e[i] = o[i].Shutdown(ctx)\n","		if e[i] = o[i].Shutdown(ctx); e[i] != nil {\n			break\n		}\n")],pkg="internal/self",test='''package self

import (
	"context"
	"errors"
	"testing"
)

type provider struct {
	err  error
	done int
}

func (p *provider) Shutdown(context.Context) error {
	p.done++
	return p.err
}

func TestDemo(t *testing.T) {
	a, b := &provider{err: errors.New("refused")}, &provider{}
	err := closers{a, b}.Shutdown(context.Background())
	if err == nil {
		t.Fatal("the error is lost")
	}
	if a.done != 1 || b.done != 1 {
		t.Fatalf("shut down %d and %d times", a.done, b.done)
	}
}
'''),
]
