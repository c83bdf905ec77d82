package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---- labels and ids

func init() {
	register("C33", "the keys, values, conditions and transactions of every read and write of the translator are computed symbolically: both directions are written together, only where no id was found in the same update, with the next number of the sequence, and readers use the keys and encoding of the writer; caches hold what was translated", c33)
}

const seqNext = "(*github.com/dgraph-io/badger/v4.Sequence).Next"
const seqGet = "(*github.com/dgraph-io/badger/v4.DB).GetSequence"

// translator is what the constructor makes.
type translator struct {
	fields map[string]string // field to how it is made, with <prefix>
	db     map[string]bool   // fields that are the database
	seq    map[string]bool   // fields that are the sequence
	seqKey string
}

// keyText writes a key as text with names of the values in it.
func (e *Engine) keyText(k *Term, name func(*Term) string) string {
	var b strings.Builder
	one := func(t *Term) {
		if t.Op == OConst {
			if s, ok := unquote(t.Aux); ok {
				b.WriteString(s)
				return
			}
		}
		b.WriteString(name(t))
	}
	if k.Op != OSeq {
		one(k)
		return b.String()
	}
	for i, a := range k.Args {
		switch {
		case i == 0 && (a.Op == ONil || a.Op == OMake || a.Op == OZero):
		case a.Op == OSpread:
			one(a.Args[0])
		default:
			return "<?>" + e.Str(k)
		}
	}
	return b.String()
}

func (c *Check) newTranslator(fn *ssa.Function) *translator {
	e := c.engine()
	r := c.run(e, fn, "db", "prefix")
	t := &translator{fields: map[string]string{}, db: map[string]bool{}, seq: map[string]bool{}}
	name := func(x *Term) string { return "<" + e.path(x) + ">" }
	obj := e.extract(r.Val, 0)
	st, ok := elemOf(fn.Signature.Results().At(0).Type()).(*types.Struct)
	if !ok {
		panic(analysisError{"the translator is not a struct"})
	}
	var seqs []*Effect
	for _, f := range e.effects {
		if f.Kind == "call" && f.Callee == seqGet {
			seqs = append(seqs, f)
		}
	}
	success := e.bdd.And(r.Cond, e.successOf(e.extract(r.Val, 1)))
	for _, a := range e.alts(obj, success) {
		if a.T.Op == ONil {
			if d := e.missing(a.C, bF); d != bF {
				c.ob("new/nil", "a translator is made", false, fn.Pos(), "no translator is returned when %s", e.CondStr(d))
			}
			continue
		}
		for i := 0; i < st.NumFields(); i++ {
			n := st.Field(i).Name()
			v := e.at(r.St, a.T, n)
			for _, x := range v.arms() {
				x := x.T
				switch {
				case x == r.Args[0]:
					t.db[n] = true
				case len(seqs) == 1 && x == e.extract(seqs[0].Res, 0):
					t.seq[n] = true
				default:
					s := e.keyText(x, name)
					if old, ok := t.fields[n]; ok && old != s {
						s = "<?>" + s
					}
					t.fields[n] = s
				}
			}
		}
	}
	c.ob("new/sequence", "ids come from one sequence", len(seqs) == 1 && seqs[0].Args[0] == r.Args[0], fn.Pos(), "%d sequences are made", len(seqs))
	if len(seqs) == 1 {
		t.seqKey = e.keyText(seqs[0].Args[1], name)
	}
	c.errorsOf(e, r, shortName(fnName(fn)))
	return t
}

func elemOf(t types.Type) types.Type {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	return t.Underlying()
}

// text is a key of a method, with the fields of the translator replaced.
func (t *translator) text(e *Engine, recv, k *Term) string {
	return e.keyText(k, func(x *Term) string {
		if x.Op == OField && x.Args[0] == recv {
			if s, ok := t.fields[x.Aux]; ok {
				return s
			}
		}
		return "<" + e.path(x) + ">"
	})
}

// isField: x is one of the fields of the receiver.
func isField(x, recv *Term, fs map[string]bool) bool {
	return x.Op == OField && x.Args[0] == recv && fs[x.Aux]
}

// readInto: v is the value stored under a key that was read, decoded by codec.
func (e *Engine) readInto(v *Term, get *Effect) (codec string, ok bool) {
	val := func(t *Term) bool {
		return t.Op == OCall && t.Aux == "value" && t.Args[0] == e.extract(get.Res, 0)
	}
	if val(v) {
		return "", true
	}
	if v.Op == OSeq && len(v.Args) == 2 && v.Args[1].Op == OSpread && val(v.Args[1].Args[0]) {
		return "", true
	}
	if v.Op == OConv && val(v.Args[0]) {
		return "", true
	}
	if v.Op == OCall && strings.HasPrefix(v.Aux, "decode ") && len(v.Args) == 1 && val(v.Args[0]) {
		return strings.TrimPrefix(v.Aux, "decode "), true
	}
	return "", false
}

// labelText is the key of a label as text. A label may be replaced by its
// digest where that depends on nothing but the label; form tells when and how.
func (e *Engine) labelText(k, recv, label *Term, cond B, text func(*Term) string) (s, form string) {
	const dig = "digest "
	isDigest := func(t *Term) bool {
		return t.Op == OCall && strings.HasPrefix(t.Aux, dig) && t.Args[0] == label
	}
	plain, hashed := map[string]bool{}, map[string]bool{}
	var at B = bF
	arms := k.arms()
	if n := len(k.Args); k.Op == OSeq && n > 0 && k.Args[n-1].Op == OSpread && k.Args[n-1].Args[0].Op == OChoice {
		arms = nil
		for _, a := range k.Args[n-1].Args[0].arms() {
			args := append([]*Term{}, k.Args[:n-1]...)
			arms = append(arms, Arm{a.C, e.mk(OSeq, k.Aux, append(args, e.mk(OSpread, "", a.T))...)})
		}
	}
	for _, a := range arms {
		if e.bdd.And(a.C, cond) == bF {
			continue
		}
		n := len(a.T.Args)
		if a.T.Op != OSeq || n < 2 || a.T.Args[n-1].Op != OSpread || !isDigest(a.T.Args[n-1].Args[0]) {
			plain[text(a.T)] = true
			continue
		}
		d := a.T.Args[n-1].Args[0]
		args := append([]*Term{}, a.T.Args[:n-1]...)
		hashed[text(e.mk(OSeq, a.T.Aux, append(args, e.mk(OSpread, "", label))...))+"\x00"+d.Aux] = true
		at = e.bdd.Or(at, a.C)
	}
	if len(plain) == 1 && len(hashed) == 0 {
		return oneKey(plain), ""
	}
	if len(plain) == 1 && len(hashed) == 1 {
		p, alg, _ := strings.Cut(oneKey(hashed), "\x00")
		if p == oneKey(plain) {
			// only the label decides
			other := ""
			for _, v := range e.support(at) {
				for _, x := range findTerms(v, func(x *Term) bool { return len(x.Args) == 0 && x.Op != OConst }) {
					if x != recv && x != label {
						other = e.Str(x)
					}
				}
			}
			if other == "" {
				when, ok := e.linearCond(at)
				if !ok {
					when = e.CondStr(at)
				}
				return p, alg + " if " + when
			}
		}
	}
	return text(k), ""
}

func oneKey(m map[string]bool) string {
	for k := range m {
		return k
	}
	return ""
}

func c33(c *Check) {
	const (
		both  = "both directions are stored together"
		same  = "a label keeps its id"
		fresh = "different labels get different ids"
		back  = "an id translates back to its label"
	)
	pk := "internal/translate."
	t := c.newTranslator(c.fn(pk + "New"))
	// writing
	fn := c.fn(pk + "(*Translate).TranslateKey")
	e := c.engine()
	r := c.run(e, fn, "t", "key")
	recv, label := r.Args[0], r.Args[1]
	var gets, sets, nexts, upd, ends []*Effect
	for _, f := range e.effects {
		switch {
		case isCall(f, txnGet):
			gets = append(gets, f)
		case isCall(f, txnSet):
			sets = append(sets, f)
		case isCall(f, "Txn).Delete"), isCall(f, "Txn).SetEntry"):
			c.ob("write/other", both, false, f.Pos, "%s is called", shortName(f.Callee))
		case f.Kind == "call" && f.Callee == seqNext:
			nexts = append(nexts, f)
		case isCall(f, "DB).Update"):
			upd = append(upd, f)
		case f.Kind == "txnend":
			ends = append(ends, f)
		}
	}
	if !c.ob("write/shape", both, len(upd) == 1 && len(gets) == 1 && len(nexts) == 1 && len(sets) == 2, fn.Pos(), "TranslateKey makes %d updates with %d reads, %d new ids and %d writes, not 1, 1, 1 and 2", len(upd), len(gets), len(nexts), len(sets)) {
		return
	}
	tx, get, next := upd[0].Args[0], gets[0], nexts[0]
	id := e.extract(next.Res, 0)
	c.ob("write/db", both, isField(upd[0].Args[1], recv, t.db), upd[0].Pos, "labels are stored in %s", e.path(upd[0].Args[1]))
	c.ob("id/sequence", fresh, isField(next.Args[0], recv, t.seq), next.Pos, "ids are numbers of %s", e.path(next.Args[0]))
	name := func(key *Term) string { return t.text(e, recv, key) }
	kText, form := e.labelText(get.Args[1], recv, label, get.Cond, name)
	if form != "" {
		c.assume("different labels have different cryptographic digests, and no label is the digest of another")
	}
	c.ob("get/txn", same, get.Args[0] == tx, get.Pos, "the id is looked up in another transaction than it is stored in")
	d := e.missing(r.Cond, get.Cond)
	c.ob("get/always", same, d == bF && len(get.Loops) == 0, get.Pos, "no id is looked up when %s", trunc(e.CondStr(d), 300))
	c.ob("get/key", "keys of labels hold all of the label", strings.HasPrefix(kText, "<prefix>") && strings.HasSuffix(kText, "<key>") && strings.Count(kText, "<") == 2, get.Pos, "the id of a label is stored under %s", kText)
	// only when there is none
	none := e.bdd.And(get.Cond, e.notFound(e.extract(get.Res, 1)))
	e.Absent = true
	c.ob("create", "a label without an id gets one", none != bF, get.Pos, "labels without an id are not noticed")
	x := e.bdd.And(next.Cond, e.bdd.Not(none))
	c.ob("create/absent", same, x == bF || e.absurd(x), next.Pos, "a new id is made when %s", trunc(e.CondStr(x), 300))
	d = e.lacking(none, next.Cond)
	c.ob("create/always", "a label without an id gets one", d == bF, next.Pos, "no id is made when %s", trunc(e.CondStr(d), 300))
	made := e.bdd.And(next.Cond, e.nilErr(e.extract(next.Res, 1)))
	var forward, reverse string
	codec := ""
	for _, s := range sets {
		c.Counts["writes"]++
		k, sf := e.labelText(s.Args[1], recv, label, s.Cond, name)
		what := "back"
		if k == kText && sf == form {
			what = "label"
		}
		c.ob("set/"+what+"/txn", both, s.Args[0] == tx && len(s.Loops) == 0, s.Pos, "%s is written in another transaction", k)
		d := e.lacking(made, s.Cond)
		c.ob("set/"+what+"/always", both, d == bF, s.Pos, "%s is not written when %s", k, trunc(e.CondStr(d), 300))
		x := e.bdd.And(s.Cond, e.bdd.Not(made))
		c.ob("set/"+what+"/new", same, x == bF || e.absurd(x), s.Pos, "%s is written when %s", k, trunc(e.CondStr(x), 300))
		if what == "label" {
			forward = k
			v := s.Args[2]
			// the bytes of a number
			if v.Op == OSeq && len(v.Args) == 2 && v.Args[1].Op == OSpread {
				v = v.Args[1].Args[0]
			}
			if c.ob("set/label/value", fresh, v.Op == OU64 && v.Args[0] == id, s.Pos, "%s is stored for a label", e.Str(s.Args[2])) {
				codec = v.Aux
			}
			continue
		}
		reverse = k
		ids := findTerms(s.Args[1], func(x *Term) bool { return x.Op == OU64 && x.Args[0] == id })
		c.ob("set/back/key", back, len(ids) > 0 && strings.HasPrefix(k, "<prefix>") && strings.HasSuffix(k, "<"+e.path(ids[0])+">") && strings.Count(k, "<") == 2, s.Pos, "the label is stored under %s", k)
		lt := name(s.Args[2])
		c.ob("set/back/value", back, lt == "<key>", s.Pos, "%s is stored for an id", lt)
	}
	c.ob("set/both", both, forward != "" && reverse != "", fn.Pos(), "TranslateKey does not write a label and an id")
	// keys of different meaning
	consts := map[string]string{}
	for n, k := range map[string]string{"labels": kText, "ids": reverse, "sequence": t.seqKey} {
		s, ok := strings.CutPrefix(k, "<prefix>")
		if i := strings.IndexByte(s, '<'); i >= 0 {
			s = s[:i]
		}
		c.ob("name/"+n, "labels, ids and the sequence have keys of their own", ok, fn.Pos(), "%s are stored under %s", n, k)
		consts[n] = s
	}
	for _, p := range [][2]string{{"labels", "ids"}, {"labels", "sequence"}, {"ids", "sequence"}} {
		a, b := consts[p[0]], consts[p[1]]
		c.ob("distinct/"+p[0]+"/"+p[1], "labels, ids and the sequence have keys of their own", !strings.HasPrefix(a, b) && !strings.HasPrefix(b, a), fn.Pos(), "keys of %s start with %q and those of %s with %q", p[0], a, p[1], b)
		c.Counts["name spaces compared"]++
	}
	// the result
	c.idResult(e, r, "TranslateKey", get, codec, id, made)
	c.errorsOf(e, r, "TranslateKey")
	for _, f := range ends {
		ok := e.bdd.And(f.Cond, e.successOf(f.Args[1]))
		for _, src := range e.effects {
			if src.Kind != "error" || !c.isIO(src) || src.Seq > f.Seq || src.Seq < upd[0].Seq {
				continue
			}
			d := e.dropped(src, ok)
			c.ob("undone/"+shortName(src.Callee), both, d == bF, src.Pos, "the transaction is committed although %s failed, when %s", shortName(src.Callee), trunc(e.CondStr(d), 300))
		}
	}
	// reading
	for _, m := range []string{"Find", "TranslateID", "TranslateBulkID"} {
		c.translateRead(t, c.fn(pk+"(*Translate)."+m), m, kText, form, reverse, codec)
	}
	c.translationCaches()
	c.translationNames(t)
	c.Min["writes"] = 2
	c.Min["name spaces compared"] = 3
	c.Min["readers"] = 3
	c.Min["caches"] = 2
	c.Min["failing operations"] = 6
	c.assume("numbers of a badger sequence are never given out twice, and an update whose reads were changed by another one does not commit")
}

// idResult: the result of a lookup is the id that was read or made.
func (c *Check) idResult(e *Engine, r *Result, m string, get *Effect, codec string, id *Term, made B) {
	ok := e.bdd.And(r.Cond, e.successOf(e.extract(r.Val, 1)))
	found := e.bdd.And(get.Cond, e.nilErr(e.extract(get.Res, 1)))
	n := 0
	for _, a := range e.alts(e.extract(r.Val, 0), ok) {
		c1 := e.bdd.And(a.C, e.theory(a.C))
		if c1 == bF {
			continue
		}
		if cd, is := e.readInto(a.T, get); is {
			n++
			c.ob("result/"+m+"/codec", "an id is read as it was written", cd == codec && cd != "", r.Fn.Pos(), "%s decodes ids as %q, they are written as %q", m, cd, codec)
			x := e.bdd.And(c1, e.bdd.Not(found))
			c.ob("result/"+m+"/read", "the id of a label is returned", x == bF || e.absurd(x), r.Fn.Pos(), "%s returns what was not read, when %s", m, trunc(e.CondStr(x), 300))
			continue
		}
		if id != nil && a.T == id {
			n++
			x := e.bdd.And(c1, e.bdd.Not(made))
			c.ob("result/"+m+"/made", "the id of a label is returned", x == bF || e.absurd(x), r.Fn.Pos(), "%s returns a new id, when %s", m, trunc(e.CondStr(x), 300))
			continue
		}
		d := e.missing(c1, bF)
		// nothing was found
		d = e.bdd.And(d, e.bdd.Not(e.notFound(e.extract(get.Res, 1))))
		c.ob("result/"+m+"/other", "the id of a label is returned", d == bF, r.Fn.Pos(), "%s returns %s when %s", m, e.Str(a.T), trunc(e.CondStr(d), 300))
	}
	want := 1
	if id != nil {
		want = 2
	}
	c.ob("result/"+m, "the id of a label is returned", n == want, r.Fn.Pos(), "%s does not return the id", m)
	// finding nothing is not a success, unless an id was made
	if id == nil {
		none := e.bdd.And(e.bdd.And(get.Cond, e.bdd.Not(e.nilErr(e.extract(get.Res, 1)))), ok)
		c.ob("result/"+m+"/none", "a label without an id is not found", none == bF || e.absurd(none), r.Fn.Pos(), "%s succeeds without an id when %s", m, trunc(e.CondStr(none), 300))
	}
}

// translateRead checks a method that reads translations.
func (c *Check) translateRead(t *translator, fn *ssa.Function, m, labels, form, ids, codec string) {
	e := c.engine()
	byID := types.Identical(elemOf(fn.Params[1].Type()), types.Typ[types.Uint64])
	bulk := false
	if s, ok := fn.Params[1].Type().Underlying().(*types.Slice); ok && types.Identical(s.Elem(), types.Typ[types.Uint64]) {
		bulk, byID = true, true
	}
	r := c.run(e, fn, "t", "key", "f")
	recv, arg := r.Args[0], r.Args[1]
	c.Counts["readers"]++
	var gets []*Effect
	for _, f := range e.effects {
		switch {
		case isCall(f, txnGet):
			gets = append(gets, f)
		case isCall(f, txnSet), isCall(f, "Txn).Delete"), isCall(f, "Txn).SetEntry"), f.Kind == "call" && f.Callee == seqNext:
			c.ob("read/"+m+"/only", "looking up never creates or changes a translation", false, f.Pos, "%s calls %s", m, shortName(f.Callee))
		case isCall(f, "DB).Update"), isCall(f, "DB).View"):
			c.ob("read/"+m+"/db", "translations are read from where they are stored", isField(f.Args[1], recv, t.db), f.Pos, "%s reads %s", m, e.path(f.Args[1]))
		}
	}
	if !c.ob("read/"+m, "translations are read as they were written", len(gets) == 1, fn.Pos(), "%s reads %d keys", m, len(gets)) {
		return
	}
	get := gets[0]
	want, key := labels, arg
	if byID {
		want = ids
		if bulk {
			key = e.mk(OElem, "", arg)
		}
	}
	got, gf := e.labelText(get.Args[1], recv, arg, get.Cond, func(k *Term) string {
		return e.keyText(k, func(x *Term) string {
			if x.Op == OField && x.Args[0] == recv {
				if s, ok := t.fields[x.Aux]; ok {
					return s
				}
			}
			if x == key {
				return "<key>"
			}
			if x.Op == OU64 && x.Args[0] == key {
				return "<" + x.Aux + ">"
			}
			return "<?" + e.path(x) + ">"
		})
	})
	if !byID {
		c.ob("read/"+m+"/form", "translations are read from the key they were written to", gf == form, get.Pos, "%s reads labels by %q, they are written by %q", m, gf, form)
	}
	if byID {
		// only the encoding of the id matters
		i := strings.LastIndexByte(want, '<')
		want = want[:max(i, 0)] + "<" + codec + ">"
	}
	c.ob("read/"+m+"/key", "translations are read from the key they were written to", got == want, get.Pos, "%s reads %s, it is written to %s", m, got, want)
	if bulk {
		if c.ob("read/"+m+"/every", "every id is translated", len(get.Loops) == 1 && get.Loops[0].Over == arg && get.Loops[0].Kind == "range", get.Pos, "%s does not read every id in order", m) {
			why := e.allOf(get.Loops)
			for _, x := range get.Loops[0].Exits {
				// the consumer ends it
				d := e.missing(x.Cond, bF)
				c.ob("read/"+m+"/all", "every id is translated", why == "" || d == bF, get.Pos, "%s", why)
			}
		}
	}
	d := e.missing(r.Cond, get.Cond)
	if !bulk {
		c.ob("read/"+m+"/always", "translations are read as they were written", d == bF, get.Pos, "%s reads nothing when %s", m, trunc(e.CondStr(d), 300))
	}
	switch {
	case !byID:
		c.idResult(e, r, m, get, codec, nil, bF)
	case bulk:
		n := 0
		for _, f := range e.effects {
			if f.Kind != "call" || f.Callee != "dynamic" || f.Args[0] != r.Args[2] {
				continue
			}
			n++
			_, ok := e.readInto(f.Args[1], get)
			c.ob("read/"+m+"/value", "an id translates back to its label", ok && sameLoops(f.Loops, get.Loops), f.Pos, "%s gives %s", m, e.Str(f.Args[1]))
			d := e.lacking(e.bdd.And(get.Cond, e.nilErr(e.extract(get.Res, 1))), f.Cond)
			c.ob("read/"+m+"/given", "an id translates back to its label", d == bF, f.Pos, "%s does not give a label when %s", m, trunc(e.CondStr(d), 300))
		}
		c.ob("read/"+m+"/gives", "an id translates back to its label", n == 1, fn.Pos(), "%s gives a label %d times", m, n)
	default:
		ok := e.bdd.And(r.Cond, e.successOf(e.extract(r.Val, 1)))
		n := 0
		for _, a := range e.alts(e.extract(r.Val, 0), ok) {
			if _, is := e.readInto(a.T, get); is {
				n++
				continue
			}
			d := e.missing(a.C, bF)
			c.ob("read/"+m+"/other", "an id translates back to its label", d == bF, fn.Pos(), "%s returns %s when %s", m, e.Str(a.T), trunc(e.CondStr(d), 300))
		}
		c.ob("read/"+m+"/value", "an id translates back to its label", n == 1, fn.Pos(), "%s does not return the label", m)
	}
	c.errorsOf(e, r, m)
}

const cachePkg = "(*github.com/dgraph-io/ristretto.Cache)."

// translationCaches: what is cached for a label is its id.
func (c *Check) translationCaches() {
	tr := c.fn("internal/translate.(*Translate).TranslateKey")
	owners := map[string]string{}
	for _, fn := range c.P.All {
		if !c.P.isRepo(fnPkg(fn)) || fn.Synthetic != "" || fn.Parent() != nil || fn.TypeParams() != nil {
			continue
		}
		uses := false
		for _, g := range withClosures(fn) {
			for _, b := range g.Blocks {
				for _, in := range b.Instrs {
					if ci, ok := in.(ssa.CallInstruction); ok {
						if s := ci.Common().StaticCallee(); s != nil && (s == tr || strings.HasPrefix(fnName(s), cachePkg+"Set")) {
							uses = true
						}
					}
				}
			}
		}
		if !uses || !types.Identical(resultOf(fn), types.Typ[types.Uint64]) || len(fn.Params) != 2 {
			continue
		}
		c.Counts["caches"]++
		m := shortName(fnName(fn))
		e := c.engine()
		e.Opaque = func(f *ssa.Function) bool { return f == tr }
		r := c.run(e, fn, "s", "key")
		key := r.Args[1]
		var trs, gets []*Effect
		for _, f := range e.effects {
			switch {
			case f.Kind == "call" && f.Callee == fnName(tr):
				trs = append(trs, f)
			case f.Kind == "call" && f.Callee == cachePkg+"Get":
				gets = append(gets, f)
			}
		}
		if !c.ob("cache/"+m, "labels are translated", len(trs) == 1, fn.Pos(), "%s does not translate", m) {
			continue
		}
		x := trs[0]
		c.ob("cache/"+m+"/key", "the label itself is translated", x.Args[1] == key, x.Pos, "%s translates %s", m, e.path(x.Args[1]))
		id := e.extract(x.Res, 0)
		good := e.bdd.And(x.Cond, e.nilErr(e.extract(x.Res, 1)))
		for _, f := range e.effects {
			if f.Kind != "call" || !strings.HasPrefix(f.Callee, cachePkg+"Set") {
				continue
			}
			ok := f.Args[1] == key || stripIface(f.Args[1]) == key
			c.ob("cache/"+m+"/set", "an id is cached for its own label", ok && stripIface(f.Args[2]) == id, f.Pos, "%s is cached for %s", e.path(f.Args[2]), e.path(f.Args[1]))
			d := e.bdd.And(f.Cond, e.bdd.Not(good))
			c.ob("cache/"+m+"/failed", "nothing is cached when translating fails", d == bF || e.absurd(d), f.Pos, "an id is cached when %s", trunc(e.CondStr(d), 300))
			o := e.path(f.Args[0]) + " of " + types.TypeString(fn.Params[0].Type(), nil)
			c.ob("cache/"+m+"/own", "each translator has a cache of its own", owners[o] == "", f.Pos, "the cache is shared with %s", owners[o])
			owners[o] = m
			for _, g := range gets {
				c.ob("cache/"+m+"/same", "an id is looked up in the cache it was put in", g.Args[0] == f.Args[0], g.Pos, "%s is read, %s is written", e.path(g.Args[0]), e.path(f.Args[0]))
			}
		}
		for _, a := range e.alts(r.Val, r.Cond) {
			t := a.T
			if t == id {
				d := e.bdd.And(a.C, e.bdd.Not(x.Cond))
				c.ob("cache/"+m+"/new", "the id of the label is returned", d == bF || e.absurd(d), fn.Pos(), "the id is returned when %s", trunc(e.CondStr(d), 300))
				continue
			}
			ok := false
			for _, g := range gets {
				if (g.Args[1] == key || stripIface(g.Args[1]) == key) && t.Op == OAssert && t.Args[0] == e.extract(g.Res, 0) {
					d := e.bdd.And(a.C, e.bdd.Not(e.Cond(e.extract(g.Res, 1))))
					ok = d == bF || e.absurd(d)
				}
			}
			c.ob("cache/"+m+"/result", "the id of the label is returned", ok || e.missing(a.C, bF) == bF, fn.Pos(), "%s returns %s when %s", m, e.Str(t), trunc(e.CondStr(a.C), 300))
		}
	}
}

func stripIface(t *Term) *Term {
	for t.Op == OIface {
		t = t.Args[0]
	}
	return t
}

func resultOf(f *ssa.Function) types.Type {
	if f.Signature.Results().Len() != 1 {
		return types.Typ[types.Invalid]
	}
	return f.Signature.Results().At(0).Type()
}

func withClosures(f *ssa.Function) []*ssa.Function {
	out := []*ssa.Function{f}
	for _, g := range f.AnonFuncs {
		out = append(out, withClosures(g)...)
	}
	return out
}

// translationNames: the keys of the translator of the server are not those of
// anything else, and translations are never removed.
func (c *Check) translationNames(t *translator) {
	const rule = "translations have keys of their own"
	mk := c.fn("internal/translate.New")
	std := unitPrefix(c)
	others := []string{std}
	if c.prefixes == nil {
		c.prefixes = setPrefixes(c)
	}
	for _, p := range c.prefixes {
		others = append(others, p)
	}
	sort.Strings(others)
	n := 0
	for _, fn := range c.P.All {
		if !c.P.isRepo(fnPkg(fn)) || fn.Parent() != nil || fn.TypeParams() != nil {
			continue
		}
		direct := false
		for _, g := range withClosures(fn) {
			for _, b := range g.Blocks {
				for _, in := range b.Instrs {
					ci, ok := in.(ssa.CallInstruction)
					if !ok {
						continue
					}
					s := ci.Common().StaticCallee()
					if s == nil {
						continue
					}
					if s == mk {
						direct = true
					}
					nm := fnName(s)
					if strings.HasPrefix(nm, "(*github.com/dgraph-io/badger/v4.") {
						switch nm[strings.LastIndexByte(nm, '.')+1:] {
						case "Delete", "DeleteAt", "DropPrefix", "DropAll":
							c.ob("removed/"+shortName(fnName(fn)), "translations are never removed", false, in.Pos(), "%s calls %s", shortName(fnName(fn)), shortName(nm))
						}
					}
				}
			}
		}
		if !direct {
			continue
		}
		e := c.engine()
		e.Opaque = func(f *ssa.Function) bool {
			return f != fn && f.Pkg != nil && fnPkg(f) != fnPkg(fn) && c.P.isRepo(fnPkg(f)) && f.Parent() == nil
		}
		c.run(e, fn)
		for _, f := range e.effects {
			if f.Kind != "call" || f.Callee != fnName(mk) {
				continue
			}
			p, v := e.keyOf(f.Args[1])
			if v != nil && v.Op == OConst {
				if x, ok := unquote(v.Aux); ok {
					p, v = x, nil
				}
			}
			if v != nil || p == "" {
				if v != nil && v.Op == OParam {
					continue // chosen by the caller
				}
				c.ob("prefix/"+shortName(fnName(fn)), rule, false, f.Pos, "labels are stored under %s", e.Str(f.Args[1]))
				continue
			}
			n++
			for _, o := range others {
				c.ob(fmt.Sprintf("prefix/%q", o), rule, !strings.HasPrefix(o, p) && !strings.HasPrefix(p, o), f.Pos, "translations are stored under %q, records under %q", p, o)
			}
			c.ob("prefix/samples", rule, !strings.HasPrefix(p, "\x00"), f.Pos, "translations are stored under %q, the sequence of samples under zeros", p)
		}
	}
	c.Counts["translators"] = n
	c.Min["translators"] = 1
}

// linear writes t as a sum: texts of terms to factors, and a constant.
func (e *Engine) linear(t *Term, f int64, into map[string]int64) (int64, bool) {
	if k, ok := constInt(t); ok {
		return f * k, true
	}
	if t.Op == OBin && len(t.Args) == 2 && (t.Aux == "+" || t.Aux == "-") {
		g := f
		if t.Aux == "-" {
			g = -f
		}
		a, ok1 := e.linear(t.Args[0], f, into)
		b, ok2 := e.linear(t.Args[1], g, into)
		return a + b, ok1 && ok2
	}
	into[e.path(t)] += f
	return 0, true
}

// linearForm is a comparison as "sum of factors and terms > constant".
func (e *Engine) linearForm(f B) (map[string]int64, int64, bool) {
	at := e.support(f)
	if len(at) != 1 || at[0].Op != OLt {
		return nil, 0, false
	}
	x, y := at[0].Args[0], at[0].Args[1]
	m := map[string]int64{}
	// y - x > 0
	a, ok1 := e.linear(y, 1, m)
	b, ok2 := e.linear(x, -1, m)
	k := -(a + b)
	if f != e.Cond(at[0]) {
		// x - y > -1
		for n := range m {
			m[n] = -m[n]
		}
		k = -k - 1
	}
	return m, k, ok1 && ok2
}

func (e *Engine) linearCond(f B) (string, bool) {
	m, k, ok := e.linearForm(f)
	if !ok {
		return "", false
	}
	var ns []string
	for n, c := range m {
		if c != 0 {
			ns = append(ns, fmt.Sprintf("%d*%s", c, n))
		}
	}
	sort.Strings(ns)
	return fmt.Sprintf("%s > %d", strings.Join(ns, " + "), k), true
}
