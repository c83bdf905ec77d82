exec(open('/tmp/p/b4.py').read().split("\nB=[")[0])
B=[
dict(id="C34-key-in-pooled-buffer",prop="C34",needs="several goroutines translate new labels at the same time, so that one takes the buffer of another from the pool before the transaction of the other is committed",breaks="The key of the record that translates a number back to its label is still in the pooled buffer when the buffer is given back: another caller overwrites it before the commit.",
 edits=[("internal/translate/translate.go","				ik := bytes.Clone(g.Bytes())\n","				ik := g.Bytes()\n")],pkg="internal/translate",test=TR.replace('"sync"','"fmt"\n\t"sync"').replace("var _ sync.Mutex\n","")+'''
func TestDemo(t *testing.T) {
	tr := open(t)
	defer tr.Close()
	const workers, each = 64, 300
	var wg sync.WaitGroup
	ids := make([][]uint64, workers)
	for w := range workers {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := range each {
				id, err := tr.TranslateKey([]byte(fmt.Sprintf("label-%d-%d", w, i)))
				if err != nil {
					t.Error(err)
					return
				}
				ids[w] = append(ids[w], id)
			}
		}()
	}
	wg.Wait()
	for w := range ids {
		for i, id := range ids[w] {
			want := fmt.Sprintf("label-%d-%d", w, i)
			got, err := tr.TranslateID(id)
			if err != nil || got != want {
				t.Fatalf("%d is %q (%v), want %q", id, got, err, want)
			}
		}
	}
}
'''),
]
