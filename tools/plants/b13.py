B=[
dict(id="C25-failed-stream-keeps-decoder",prop="C25",needs="a damaged compressed message, and another read of the same stream after the error",breaks="A stream that failed keeps the decoder which it already gave back: reading it again takes data from the message of another request.",
 edits=[("internal/compress/grpc.go","		putDecoder(r.Decoder)\n		r.Decoder = nil\n	}\n	return","		putDecoder(r.Decoder)\n		if err == io.EOF {\n			r.Decoder = nil\n		}\n	}\n	return")],pkg="internal/compress",test='''package compress

import (
	"bytes"
	"io"
	"runtime/debug"
	"testing"
)

func TestDemo(t *testing.T) {
	debug.SetGCPercent(-1)
	good, err := Compress(bytes.Repeat([]byte("requiem "), 1000))
	if err != nil {
		t.Fatal(err)
	}
	bad := append([]byte{}, good...)
	bad[0] ^= 0xff
	first, err := codec{}.Decompress(io.MultiReader(bytes.NewReader(bad)))
	if err != nil {
		t.Fatal(err)
	}
	p := make([]byte, 16)
	if _, err = first.Read(p); err == nil || err == io.EOF {
		t.Fatal("damaged data was read", err)
	}
	second, err := codec{}.Decompress(bytes.NewReader(good))
	if err != nil {
		t.Fatal(err)
	}
	if n, err := first.Read(p); err == nil {
		t.Fatalf("the failed stream yields %q of another", p[:n])
	}
	all, err := io.ReadAll(second)
	if err != nil || len(all) != 8000 {
		t.Fatal(len(all), err)
	}
}
'''),
dict(id="C25-error-at-end-dropped",prop="C25",needs="a writer that fails; the data of a small message is only written when the compressor is closed",breaks="The error of the last part is dropped: the caller believes that everything was written.",
 edits=[("internal/compress/zstd.go","	e.Reset(w)\n	_, err := e.Write(data)\n	if err != nil {\n		return err\n	}\n	return e.Close()","	e.Reset(w)\n	defer e.Close()\n	_, err := e.Write(data)\n	return err")],pkg="internal/compress",test='''package compress

import (
	"errors"
	"testing"
)

type full struct{}

func (full) Write(p []byte) (int, error) { return 0, errors.New("no space") }

func TestDemo(t *testing.T) {
	if err := To(full{}, []byte("requiem")); err == nil {
		t.Fatal("nothing was written and no error returned")
	}
}
'''),
]
