exec(open('/tmp/p/b3.py').read().split("\nB=[")[0])
BT='''package batch

import (
	"testing"
	"time"

	"github.com/gernest/requiemdb/internal/bitmaps"
	"github.com/gernest/roaring/shardwidth"
)

var _ = shardwidth.ShardWidth
var _ = bitmaps.New
var _ = time.Now

'''
TR='''package translate

import (
	"sync"
	"testing"

	"github.com/dgraph-io/badger/v4"
)

var _ sync.Mutex

func open(t *testing.T) *Translate {
	db, err := badger.Open(badger.DefaultOptions("").WithInMemory(true).WithLogger(nil))
	if err != nil {
		t.Fatal(err)
	}
	t.Cleanup(func() { db.Close() })
	tr, err := New(db, []byte("2"))
	if err != nil {
		t.Fatal(err)
	}
	return tr
}

'''
B=[
dict(id="C09-filters-of-previous-shard",prop="C09",needs="a query whose labels are in two shards, both with matches",breaks="The list of labels required in a shard still holds those of the shards visited before, which no row of this shard has: samples that have all labels are not found.",
 edits=[("internal/shards/shards.go","		fs = slices.Grow(fs, len(f))[:0]\n","		fs = slices.Grow(fs, len(f))\n")],pkg="internal/shards",test=SH.replace('"github.com/gernest/roaring"','"github.com/gernest/requiemdb/internal/view"\n\t"github.com/gernest/roaring"\n\t"github.com/gernest/roaring/shardwidth"')+'''
func TestDemo(t *testing.T) {
	s := New(t.TempDir(), nil)
	defer s.Close()
	end := time.Now().UTC()
	start := end.Add(-time.Minute)
	const w = shardwidth.ShardWidth
	for _, v := range view.Search(start, end) {
		put(t, s, 0, v, 3*w+5, 4*w+5)
		put(t, s, 1, v, 3*w+7)
	}
	cols := bitmaps.New()
	cols.Add(5)
	cols.Add(w + 7)
	got, err := s.Rows(start, end, cols)
	if err != nil {
		t.Fatal(err)
	}
	if got.GetCardinality() != 1 || !got.Contains(3) {
		t.Fatalf("found %v, want the one row that has both labels", got.ToArray())
	}
}
'''),
dict(id="C04-shard-of-first-label",prop="C04",needs="a sample with labels in more than one shard",breaks="The shard is determined for the first label of a sample only: bits of labels with higher numbers are set in the shard of the first, in the column of another label.",
 edits=[("internal/batch/batch.go","			if col/shardWidth != shard {\n","			if shard == ^uint64(0) {\n")],pkg="internal/batch",test=BT+'''
func TestDemo(t *testing.T) {
	b := New()
	r := bitmaps.New()
	r.Add(1)
	r.Add(shardwidth.ShardWidth + 2)
	b.Add(12, time.Now().UTC(), r)
	f, err := b.Build()
	if err != nil {
		t.Fatal(err)
	}
	if len(f) != 2 {
		t.Fatalf("bits are in %d shards, want 2: %s", len(f), f)
	}
}
'''),
dict(id="C04-fragments-by-shard-low-bits",prop="C04",needs="more than 2^16 shards' worth of labels, or a sample with labels whose shards differ by a multiple of 256",breaks="Fragments of shards whose numbers agree in the low byte are merged, and stored under the wrong shard.",
 edits=[("internal/batch/batch.go","	key := shard\n","	key := shard & 0xff\n")],pkg="internal/batch",test=BT+'''
func TestDemo(t *testing.T) {
	b := New()
	r := bitmaps.New()
	r.Add(1)
	r.Add(256*shardwidth.ShardWidth + 2)
	b.Add(12, time.Now().UTC(), r)
	f, err := b.Build()
	if err != nil {
		t.Fatal(err)
	}
	if len(f) != 2 || f[256] == nil {
		t.Fatalf("bits are in %d shards, want 0 and 256: %s", len(f), f)
	}
}
'''),
dict(id="C33-keys-without-namespace",prop="C33",needs="a label whose bytes are ids followed by the eight bytes of a number that was given to another label",breaks="Keys of labels and keys of ids are no longer in separate namespaces: such a label is looked up in the record that translates the number back, and its bytes are taken for a number.",
 edits=[("internal/translate/translate.go","		keys: append(prefix, []byte(\"keys\")...),\n","		keys: prefix,\n")],pkg="internal/translate",test=TR+'''
func TestDemo(t *testing.T) {
	tr := open(t)
	defer tr.Close()
	a, err := tr.TranslateKey([]byte("longlabel"))
	if err != nil {
		t.Fatal(err)
	}
	b, err := tr.TranslateKey(append([]byte("ids"), u64tob(a)...))
	if err != nil {
		t.Fatal(err)
	}
	if k, err := tr.TranslateID(b); err != nil || k != "ids"+string(u64tob(a)) {
		t.Fatalf("%d translates to %q %v", b, k, err)
	}
}
'''),
]
