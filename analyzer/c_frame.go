package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---- records of samples

func init() {
	register("C06", "every key written by appending samples is found with its value: the record and one set for each kind of data in one transaction; contents are traced to the previous record and sets, and to the new samples", c06)
	register("C07", "the number of rows written before a sample is computed from the rows of the previous record and the loop that fills gaps; rows that are read are the numbers of the ids", c07)
	register("C08", "the names of the records a sample is appended to, as functions of its time, and the first and last unit that a query reads, as calendar fields of the start and end of its range", c08)
}

// appendRun is the analysis of appending samples to the record store.
type appendRun struct {
	e     *Engine
	r     *Result
	items *Term
	sets  []*Effect
	txns  []*Effect
	view  *Term // name of the record
	group *Loop // visits the units
	list  *Term // samples of one unit
	units *Term // map from unit to samples, or nil
	ok    bool
}

const txnSet, txnGet = "Txn).Set", "Txn).Get"

func isCall(f *Effect, suffix string) bool {
	return f.Kind == "call" && strings.HasSuffix(f.Callee, suffix)
}

func (c *Check) appendRun() *appendRun {
	a := &appendRun{e: c.engine()}
	e := a.e
	fn := c.fn("internal/dataframe.(*DataFrame).Append")
	a.r = c.run(e, fn, "df", "ctx", "samples")
	a.items = a.r.Args[2]
	for _, f := range e.effects {
		if isCall(f, txnSet) {
			a.sets = append(a.sets, f)
		}
		if f.Kind == "txnend" {
			a.txns = append(a.txns, f)
		}
	}
	if len(a.sets) == 0 {
		return a
	}
	// the record is what is written under the name itself
	for _, s := range a.sets {
		p, v := e.keyOf(s.Args[1])
		if p == "" && v != nil {
			a.view = v
		}
		if len(s.Loops) > 0 {
			a.group = s.Loops[0]
		}
	}
	// samples are grouped by unit
	if a.group != nil && a.view != nil {
		for _, m := range mapsOf(e, a.group) {
			if x := e.mk(OKey, "", m); x == a.view {
				a.units, a.list = m, e.mk(OElem, "", m)
			} else if e.entryOf(a.group, m, a.view, e.mk(OIndex, "", m, a.view)) {
				a.units, a.list = m, e.mk(OIndex, "", m, a.view)
			}
		}
	}
	a.ok = a.view != nil && a.units != nil
	return a
}

// keyOf splits a key into the constant text it starts with and a name.
func (e *Engine) keyOf(k *Term) (prefix string, name *Term) {
	if k.Op != OSeq {
		return "", k
	}
	for i, a := range k.Args {
		if i == 0 {
			if a.Op != ONil && a.Op != OMake {
				return "", nil
			}
			continue
		}
		if a.Op != OSpread {
			return "", nil
		}
		if a.Args[0].Op == OConst {
			s, ok := unquote(a.Args[0].Aux)
			if !ok || name != nil {
				return "", nil
			}
			prefix += s
			continue
		}
		if name != nil {
			return "", nil
		}
		name = a.Args[0]
	}
	return
}

// given: operations without an error gave a result, and no text has zero bytes.
func (e *Engine) resultsGiven(f B) B {
	r := bT
	for _, a := range e.support(f) {
		if a.Op != OEq {
			continue
		}
		for i := range a.Args {
			x, y := a.Args[i], a.Args[1-i]
			if x.Op == ONil && y.Op == OExtract && y.Args[0].Op == OCall && !isErr(y) {
				n := 0
				fmt.Sscan(y.Aux, &n)
				if isErr(e.extract(y.Args[0], n+1)) {
					r = e.bdd.And(r, e.bdd.Not(e.Cond(a)))
				}
			}
			if x.Op == OConst && x.Aux == "0" && y.Op == OIndex && y.Args[0].Op == OCall && strings.HasPrefix(y.Args[0].Aux, "(time.Time).Format") {
				r = e.bdd.And(r, e.bdd.Not(e.Cond(a)))
			}
		}
	}
	return r
}

// lacking is the part of f that g does not cover, when nothing fails.
func (e *Engine) lacking(f, g B) B {
	d := e.bdd.And(f, e.bdd.Not(g))
	d = e.bdd.And(d, e.resultsGiven(d))
	return e.missing(d, bF)
}

// when lists what t can be, when c holds and nothing failed.
func (e *Engine) when(t *Term, c B) (out []Arm) {
	for _, a := range t.arms() {
		x := e.bdd.And(a.C, c)
		x = e.bdd.And(x, e.resultsGiven(x))
		if e.missing(x, bF) != bF {
			out = append(out, Arm{x, a.T})
		}
	}
	return
}

// body is the transaction an effect happens in.
func (a *appendRun) body(tx *Term) *Effect {
	for _, f := range a.e.effects {
		if f.Kind == "call" && len(f.Args) > 0 && f.Args[0] == tx && strings.HasSuffix(f.Callee, "DB).Update") {
			return f
		}
	}
	return nil
}

func (c *Check) sameUnit(a *appendRun, key string) bool {
	fn := a.r.Fn
	if !c.ob(key, "samples are appended to the record of each unit", a.ok, fn.Pos(), "the record of a unit is not written under the name of the unit") {
		return false
	}
	why := a.e.allOf([]*Loop{a.group})
	return c.ob(key+"/all", "samples are appended to the record of each unit", why == "", a.group.Pos, "%s", why)
}

func c06(c *Check) {
	const one = "the record and the sets of ids change together"
	a := c.appendRun()
	e, fn := a.e, a.r.Fn
	c.Min["keys written"] = 4
	c.Min["sets of ids"] = 3
	c.Min["failing operations"] = 5
	if !c.sameUnit(a, "units") {
		return
	}
	tx := a.sets[0].Args[0]
	body := a.body(tx)
	if !c.ob("txn", one, body != nil && len(body.Loops) == 1 && body.Loops[0] == a.group, fn.Pos(), "the record is not written in an update") {
		return
	}
	d := e.lacking(e.bdd.And(a.group.Entry, a.r.Cond), body.Cond)
	c.ob("txn/always", one, d == bF, body.Pos, "nothing is written when %s", trunc(e.CondStr(d), 300))
	prefixes := map[string]*Effect{}
	var names []string
	for _, s := range a.sets {
		c.Counts["keys written"]++
		p, v := e.keyOf(s.Args[1])
		k := fmt.Sprintf("key/%q", p)
		c.ob(k+"/name", "each unit has keys of its own", v == a.view, s.Pos, "the key %s is written", e.Str(s.Args[1]))
		c.ob(k+"/txn", one, s.Args[0] == tx, s.Pos, "%s is written in another transaction", e.path(s.Args[1]))
		c.ob(k+"/once", one, prefixes[p] == nil, s.Pos, "%s is written again", e.path(s.Args[1]))
		prefixes[p] = s
		names = append(names, p)
		d := e.lacking(body.Cond, s.Cond)
		c.ob(k+"/always", one, d == bF && sameLoops(s.Loops, body.Loops), s.Pos, "%s is not written when %s", e.path(s.Args[1]), trunc(e.CondStr(d), 300))
	}
	for _, f := range e.effects {
		if isCall(f, "Txn).Delete") {
			c.ob("delete", one, false, f.Pos, "%s is deleted", e.path(f.Args[1]))
		}
	}
	// keys of different meaning are different
	std := unitPrefix(c)
	sort.Strings(names)
	for i, p := range names {
		for j, q := range names {
			if i == j || !strings.HasPrefix(q, p) {
				continue
			}
			rest := q[len(p):]
			c.ob(fmt.Sprintf("distinct/%q/%q", p, q), "the record and each set have keys of their own", !strings.HasPrefix(rest, std) && !strings.HasPrefix(std, rest), prefixes[q].Pos, "keys starting with %q and %q can be the same", p, q)
		}
	}
	// the record that was there
	var had *Effect
	for _, f := range e.effects {
		if isCall(f, txnGet) && f.Args[0] == tx && f.Args[1] == a.view {
			had = f
		}
	}
	if !c.ob("previous", "what was stored is kept", had != nil, fn.Pos(), "the previous record is not read") {
		return
	}
	d = e.lacking(body.Cond, had.Cond)
	c.ob("previous/always", "what was stored is kept", d == bF, had.Pos, "the previous record is not read when %s", trunc(e.CondStr(d), 300))
	absent := e.bdd.And(body.Cond, e.notFound(e.extract(had.Res, 1)))
	e.Absent = true
	c.ob("previous/none", "samples of a new unit are stored", absent != bF, had.Pos, "nothing is stored in a unit without a record")
	present := e.bdd.And(body.Cond, e.nilErr(e.extract(had.Res, 1)))
	// sets
	kinds := map[string]bool{}
	for _, p := range names {
		if p == "" {
			continue
		}
		c.idSet(a, tx, prefixes[p], p, present, absent, kinds)
	}
	for _, k := range []string{"Metrics", "Traces", "Logs"} {
		c.ob("kind/"+k, "every kind has its set of ids", kinds[k], fn.Pos(), "no set of ids of %s is written", strings.ToLower(k))
	}
	c.record(a, tx, prefixes[""], had, present, absent)
	// readers use the same keys
	if c.prefixes == nil {
		c.prefixes = setPrefixes(c)
	}
	for _, k := range []string{"Metrics", "Traces", "Logs"} {
		e := c.engine()
		c.run(e, c.fn("internal/dataframe.(*DataFrame)."+k), "df", "ctx", "start", "end", "samples")
		found := map[string]bool{}
		for _, f := range e.effects {
			if isCall(f, txnGet) {
				p, v := e.keyOf(f.Args[1])
				if v == nil {
					p = e.Str(f.Args[1])
				}
				found[p] = true
			}
		}
		want := c.prefixes[strings.ToLower(k)]
		c.ob("read/"+k, "reading uses the set of ids of the kind", len(found) == 2 && found[""] && found[want] && want != "", fn.Pos(), "reading %s uses the keys %v, ids are in %q", strings.ToLower(k), found, want)
		c.Counts["readers"]++
	}
	c.Min["readers"] = 3
	// failures undo the transaction
	c.errorsOf(e, a.r, "Append")
	for _, t := range a.txns {
		ok := e.bdd.And(t.Cond, e.successOf(t.Args[1]))
		for _, src := range e.effects {
			if src.Kind != "error" || !c.isIO(src) || src.Seq > t.Seq || src.Seq < body.Seq {
				continue
			}
			d := e.dropped(src, ok)
			c.ob("undone/"+shortName(src.Callee), "nothing is kept of a transaction in which a step failed", d == bF, src.Pos, "the transaction is committed although %s failed, when %s", shortName(src.Callee), trunc(e.CondStr(d), 300))
		}
	}
}

// unitPrefix is how the name of every unit starts.
func unitPrefix(c *Check) string {
	s, _ := unquote(c.constVal("internal/view", "StdView"))
	return s + "_"
}

// idSet checks the content of a set of ids that is written.
func (c *Check) idSet(a *appendRun, tx *Term, s *Effect, p string, present, absent B, kinds map[string]bool) {
	e := a.e
	key := fmt.Sprintf("set/%q", p)
	v := s.Args[2]
	if v.Op == OExtract && v.Aux == "0" {
		v = v.Args[0]
	}
	if !c.ob(key, "sets of ids are written", v.Op == OCall && v.Aux == "bytes of bitmap", s.Pos, "%s is written", e.Str(v)) {
		return
	}
	c.Counts["sets of ids"]++
	set := v.Args[0]
	if !c.ob(key+"/ids", "sets hold the ids of the samples", set.Op == OLV && set.LV != nil && set.LV.Loop != nil, s.Pos, "%s is written", e.Str(set)) {
		return
	}
	lp := set.LV.Loop
	why := e.allOf([]*Loop{lp})
	c.ob(key+"/all", "sets hold the ids of all samples", why == "" && lp.Over == a.list, s.Pos, "ids are collected from %s %s", e.loopStr(lp), why)
	// what was there
	old := func(t *Term) bool {
		if t.Op != OCall || t.Aux != "bitmap of" {
			return false
		}
		x := t.Args[0]
		for _, g := range e.effects {
			if isCall(g, txnGet) && g.Args[0] == tx && g.Args[1] == s.Args[1] && anyTerm(x, func(y *Term) bool { return y == e.extract(g.Res, 0) }) {
				return true
			}
		}
		return false
	}
	for _, x := range e.when(set.LV.Init, present) {
		c.ob(key+"/kept", "ids that were stored are kept", old(x.T), s.Pos, "the new set starts with %s when there is a record", e.Str(x.T))
	}
	for _, x := range e.when(set.LV.Init, absent) {
		c.ob(key+"/fresh", "sets of a new record hold only its samples", x.T.Op == OZero, s.Pos, "the set of a new record starts with %s", e.Str(x.T))
	}
	// what is added
	sample := e.mk(OElem, "", a.list)
	id := e.field(sample, "Id")
	data := e.field(e.field(sample, "Data"), "Data")
	added := bF
	for _, x := range set.LV.Update.arms() {
		switch {
		case x.T == set:
		case x.T.Op == OSet && len(x.T.Args) == 2 && x.T.Args[0] == set && x.T.Args[1] == id:
			added = e.bdd.Or(added, x.C)
		default:
			c.ob(key+"/added", "only ids of samples are added", false, s.Pos, "a set becomes %s", e.Str(x.T))
		}
	}
	kind := ""
	for _, at := range e.support(added) {
		if at.Op == OTypeIs && at.Args[0] == data {
			is := e.Cond(at)
			if e.missing(added, is) == bF {
				kind = at.Aux[strings.LastIndexByte(at.Aux, '_')+1:]
				d := e.missing(is, added)
				c.ob(key+"/every", "the id of every sample of a kind is added to its set", d == bF, s.Pos, "the id of a sample of %s is not added when %s", strings.ToLower(kind), trunc(e.CondStr(d), 300))
			}
		}
	}
	c.ob(key+"/kind", "ids are added only to the set of their kind", kind != "" && !kinds[kind], s.Pos, "ids are added to the set when %s", trunc(e.CondStr(added), 300))
	kinds[kind] = true
}

// schemaCall is the method of the record schema an effect calls.
func schemaCall(f *Effect) string {
	if f.Kind != "call" {
		return ""
	}
	if i := strings.Index(f.Callee, "arrow3.Schema["); i >= 0 {
		return f.Callee[strings.LastIndexByte(f.Callee, '.')+1:]
	}
	return ""
}

// record checks the bytes that are written as record.
func (c *Check) record(a *appendRun, tx *Term, s, had *Effect, present, absent B) {
	e := a.e
	// writers of records
	type write struct {
		f    *Effect
		mark string
	}
	var writes []write
	var read *Effect
	for _, f := range e.effects {
		switch schemaCall(f) {
		case "WriteParquet", "WriteParquetRecords":
			m := "after " + f.Callee
			writes = append(writes, write{f, m[:strings.LastIndexByte(m, '.')]})
		case "Read":
			read = f
		}
	}
	c.ob("record/write", "the record is written", len(writes) > 0, s.Pos, "no record is made")
	if c.ob("record/read", "what was stored is kept", read != nil, s.Pos, "the previous record is not decoded") {
		src := anyTerm(read.Args[2], func(y *Term) bool { return y == e.extract(had.Res, 0) })
		c.ob("record/read/source", "what was stored is kept", src, read.Pos, "%s is decoded as previous record", e.Str(read.Args[2]))
		c.ob("record/read/columns", "what was stored is kept", read.Args[3].Op == ONil, read.Pos, "only the columns %s of the previous record are read", e.Str(read.Args[3]))
	}
	covered := map[bool]B{}
	for _, w := range writes {
		c.Counts["writes"]++
		f := w.f
		parts := ""
		if schemaCall(f) == "WriteParquet" {
			parts = "new"
		} else {
			for _, x := range e.listItems(f.Args[2]) {
				switch {
				case read != nil && x == e.extract(read.Res, 0):
					parts += "old"
				case x.Op == OCall && strings.Contains(x.Aux, ".NewRecord@"):
					parts += "new"
				default:
					parts += e.Str(x)
				}
			}
		}
		for _, was := range []bool{true, false} {
			cond, want := absent, "new"
			if was {
				cond, want = present, "oldnew"
			}
			x := e.bdd.And(f.Cond, cond)
			x = e.bdd.And(x, e.resultsGiven(x))
			if e.missing(x, bF) == bF {
				continue
			}
			c.ob("record/content/"+want, "the new record is the previous one followed by the new rows", parts == want, f.Pos, "the record that is written is made of %q", parts)
			if sameLoops(f.Loops, s.Loops) && f.Seq < s.Seq {
				covered[was] = e.bdd.Or(covered[was], f.Cond)
			}
		}
		// what is stored is what was written
		for _, x := range e.when(s.Args[2], f.Cond) {
			ok := anyTerm(x.T, func(t *Term) bool {
				if t.Op != OOpaque || !strings.HasPrefix(t.Aux, "after ") {
					return false
				}
				n := t.Aux[len("after "):]
				n = strings.ReplaceAll(n[:strings.IndexByte(n+"@", '@')], "github.com/gernest/arrow3.", "arrow3.")
				return strings.Contains(n, ").Write") && len(t.Args) > 0
			})
			c.ob("record/stored", "the record that was made is stored", ok, s.Pos, "%s is stored as record", trunc(e.Str(x.T), 200))
		}
	}
	for _, was := range []bool{true, false} {
		cond := absent
		if was {
			cond = present
		}
		d := e.lacking(cond, covered[was])
		c.ob(fmt.Sprintf("record/always/%v", was), "the record is written", d == bF, s.Pos, "no record is made when %s", trunc(e.CondStr(d), 300))
	}
}

// listItems are the elements of a list given one by one.
func (e *Engine) listItems(t *Term) (out []*Term) {
	if t.Op != OSeq {
		return []*Term{t}
	}
	for i, a := range t.Args {
		if i == 0 && (a.Op == ONil || a.Op == OMake) {
			continue
		}
		if a.Op == OItem {
			out = append(out, a.Args[0])
		} else {
			out = append(out, a)
		}
	}
	return
}

func c07(c *Check) {
	const rule = "a sample is at the row of its id"
	a := c.appendRun()
	e, fn := a.e, a.r.Fn
	c.Min["rows appended"] = 2
	c.Min["rows read"] = 3
	if !c.sameUnit(a, "units") {
		return
	}
	sample := e.mk(OElem, "", a.list)
	id := e.field(sample, "Id")
	var real, fill *Effect
	for _, f := range e.effects {
		if schemaCall(f) != "Append" {
			continue
		}
		c.Counts["rows appended"]++
		v := f.Args[1]
		switch {
		case v == e.field(sample, "Data"):
			c.ob("row/once", rule, real == nil, f.Pos, "a sample is appended twice")
			real = f
		case v.Op == OAlloc:
			c.ob("fill/once", "missing rows are filled with empty data", fill == nil, f.Pos, "rows are filled twice")
			fill = f
			empty := true
			for k := range e.writes(a.r.St) {
				if k.root == v {
					empty = false
				}
			}
			c.ob("fill/empty", "missing rows are filled with empty data", empty, f.Pos, "rows are filled with %s", e.Str(v))
		default:
			c.ob("row/what", rule, false, f.Pos, "%s is appended", e.Str(v))
		}
	}
	if !c.ob("row", rule, real != nil, fn.Pos(), "the data of samples is not appended") || !c.ob("fill", "missing rows are filled with empty data", fill != nil, fn.Pos(), "missing rows are not filled") {
		return
	}
	if !c.ob("row/loops", "every sample is appended", len(real.Loops) == 2 && real.Loops[0] == a.group && real.Loops[1].Over == a.list && e.allOf(real.Loops) == "", real.Pos, "samples are not appended one after the other") {
		return
	}
	d := e.lacking(real.Loops[1].Entry, real.Cond)
	c.ob("row/always", "every sample is appended", d == bF, real.Pos, "a sample is not appended when %s", trunc(e.CondStr(d), 300))
	inner := real.Loops[1]
	if !c.ob("fill/loops", "missing rows are filled with empty data", len(fill.Loops) == 3 && fill.Loops[1] == inner && fill.Seq < real.Seq, fill.Pos, "rows are not filled before each sample") {
		return
	}
	gap := fill.Loops[2]
	// the number of rows before a sample is appended
	count, after, why := e.filled(gap, inner, fill, id)
	if !c.ob("fill/count", "there are as many rows before a sample as its id", why == "", fill.Pos, "%s", why) {
		return
	}
	// afterwards there is one more
	next := true
	for _, x := range e.when(count.LV.Update, bT) {
		t := x.T
		ok := false
		if t.Op == OBin && t.Aux == "+" {
			for i := range t.Args {
				if y := t.Args[i]; t.Args[1-i].Op == OConst && t.Args[1-i].Aux == "1" && (y == id || after != nil && y == after) {
					ok = true
				}
			}
		}
		next = next && ok
	}
	c.ob("row/next", "the number of rows grows with every sample", next, real.Pos, "after a sample the number of rows is taken to be %s", trunc(e.Str(count.LV.Update), 300))
	// and at first those of the previous record
	var read, had *Effect
	for _, f := range e.effects {
		if schemaCall(f) == "Read" {
			read = f
		}
		if isCall(f, txnGet) && f.Args[1] == a.view {
			had = f
		}
	}
	if !c.ob("previous", "rows are counted from those of the previous record", read != nil && had != nil, fn.Pos(), "the previous record is not read") {
		return
	}
	ok := e.nilErr(e.extract(had.Res, 1))
	rec := e.extract(read.Res, 0)
	e.Absent = true
	n := 0
	for _, x := range e.when(count.LV.Init, e.bdd.And(inner.Entry, ok)) {
		t := e.stripConv(x.T)
		n++
		c.ob("previous/rows", "rows are counted from those of the previous record", t.Op == OCall && strings.HasPrefix(t.Aux, "(github.com/apache/arrow/go/v17/arrow.Record).NumRows") && t.Args[0] == rec, read.Pos, "with a previous record the number of rows is %s", e.Str(x.T))
	}
	for _, x := range e.when(count.LV.Init, e.bdd.And(inner.Entry, e.notFound(e.extract(had.Res, 1)))) {
		n++
		c.ob("previous/none", "rows are counted from those of the previous record", isZeroVal(x.T) || x.T.Op == OConst && x.T.Aux == "0", had.Pos, "without a previous record the number of rows is %s", e.Str(x.T))
	}
	c.ob("previous/cases", "rows are counted from those of the previous record", n >= 2, had.Pos, "%d cases", n)
	// the record has the appended rows
	for _, f := range e.effects {
		switch schemaCall(f) {
		case "WriteParquet", "NewRecord":
			c.ob("written/"+schemaCall(f), "all rows are part of the record", f.Seq > real.Seq && len(f.Loops) == 1 && f.Loops[0] == a.group, f.Pos, "the record is made before all samples were appended")
			c.Counts["records made"]++
		case "Release":
			c.ob("written/release", "all rows are part of the record", false, f.Pos, "the rows are released")
		}
	}
	c.Min["records made"] = 1
	// reading
	for _, k := range []string{"Metrics", "Traces", "Logs"} {
		c.rowsRead(k)
	}
	c.assume("samples of one batch have ascending ids (C18)")
}

// filled checks a loop that appends rows until there are id of them. It gives the
// number of rows before the loop and after it.
func (e *Engine) filled(gap, outer *Loop, fill *Effect, id *Term) (count, after *Term, why string) {
	isCount := func(t *Term) bool { return t.Op == OLV && t.LV != nil && t.LV.Loop == outer }
	if gap.Count && gap.Over != nil {
		// a number of times
		t := e.stripConv(gap.Over)
		if t.Op == OBin && t.Aux == "-" && e.stripConv(t.Args[0]) == id && isCount(t.Args[1]) {
			if d := e.lacking(gap.Entry, fill.Cond); d != bF {
				return nil, nil, "no row is appended when " + e.CondStr(d)
			}
			return t.Args[1], nil, ""
		}
		if why := e.allOf([]*Loop{gap}); why != "" {
			return nil, nil, why
		}
		return nil, nil, "rows are filled " + e.Str(gap.Over) + " times"
	}
	for _, at := range e.support(fill.Cond) {
		if at.Op != OLt {
			continue
		}
		k, b := at.Args[0], at.Args[1]
		if k.Op != OLV || k.LV == nil || k.LV.Loop != gap || b != id {
			continue
		}
		// goes on while k < id
		on := e.Cond(at)
		if d := e.lacking(e.bdd.And(gap.Entry, on), fill.Cond); d != bF {
			return nil, nil, "no row is appended when " + e.CondStr(d)
		}
		if d := e.lacking(fill.Cond, on); d != bF {
			return nil, nil, "a row is appended when " + e.CondStr(d)
		}
		for _, x := range gap.Exits {
			if d := e.lacking(x.Cond, e.bdd.Not(on)); d != bF {
				return nil, nil, "filling stops when " + e.CondStr(d)
			}
		}
		u := k.LV.Update
		if u.Op != OBin || u.Aux != "+" || !(u.Args[0] == k && u.Args[1].Aux == "1" || u.Args[1] == k && u.Args[0].Aux == "1") {
			return nil, nil, "the number of rows becomes " + e.Str(u) + " by one row"
		}
		if !isCount(k.LV.Init) {
			return nil, nil, "counting starts at " + e.Str(k.LV.Init)
		}
		return k.LV.Init, k, ""
	}
	return nil, nil, "rows are filled when " + e.CondStr(fill.Cond)
}

// gathers: t is a list to which every iteration of a loop appends the result of f.
func (e *Engine) gathers(t *Term, f *Effect) bool {
	if t.Op != OLV || t.LV == nil {
		return false
	}
	n := 0
	for _, x := range e.when(t.LV.Update, f.Cond) {
		u := x.T
		n++
		switch {
		case u.Op == OSeq && len(u.Args) == 2 && u.Args[0] == t && u.Args[1].Op == OSpread && u.Args[1].Args[0] == f.Res:
		case u.Op == OLV && u.LV != nil && u.LV.Init == t && u.LV.Loop != nil && u.LV.Loop.Over == f.Res && e.allOf([]*Loop{u.LV.Loop}) == "":
			v := u.LV.Update
			if v.Op != OSeq || len(v.Args) != 2 || v.Args[0] != u || v.Args[1].Op != OItem || v.Args[1].Args[0] != e.mk(OElem, "", f.Res) {
				return false
			}
		default:
			return false
		}
	}
	return n > 0
}

// rowsRead checks which rows of a record are decoded.
func (c *Check) rowsRead(k string) {
	const rule = "rows with the numbers of the ids are read"
	e := c.engine()
	var search []*snap
	c.snapshot(e, &search, "internal/view.Search")
	r := c.run(e, c.fn("internal/dataframe.(*DataFrame)."+k), "df", "ctx", "start", "end", "samples")
	var proto, read *Effect
	for _, f := range e.effects {
		switch schemaCall(f) {
		case "Proto":
			c.ob("read/"+k+"/once", rule, proto == nil, f.Pos, "rows are decoded twice")
			proto = f
		case "Read":
			read = f
		}
	}
	if !c.ob("read/"+k, rule, proto != nil && read != nil, r.Fn.Pos(), "no rows are decoded") {
		return
	}
	c.Counts["rows read"]++
	c.ob("read/"+k+"/record", rule, proto.Args[1] == e.extract(read.Res, 0), proto.Pos, "rows of %s are decoded", e.Str(proto.Args[1]))
	// rows: int(id) for every id of the set
	l := proto.Args[2]
	if !c.ob("read/"+k+"/rows", rule, l.Op == OLV && l.LV != nil && l.LV.Loop != nil && e.emptyList(l.LV.Init), proto.Pos, "the rows %s are decoded", trunc(e.Str(l), 300)) {
		return
	}
	why := e.allOf([]*Loop{l.LV.Loop})
	c.ob("read/"+k+"/all", "all samples that were found are read", why == "", proto.Pos, "%s", why)
	set := l.LV.Loop.Over
	u := l.LV.Update
	ok := u.Op == OSeq && len(u.Args) == 2 && u.Args[0] == l && u.Args[1].Op == OItem
	if ok {
		x := e.stripConv(u.Args[1].Args[0])
		ok = x.Op == OElem && x.Args[0] == set
		if x.Op == OChoice {
			// of each of the sets it can be
			ok = true
			for _, a := range x.Arms {
				is := bF
				for _, b := range set.arms() {
					if a.T.Op == OElem && b.T == a.T.Args[0] {
						is = e.bdd.Or(is, b.C)
					}
				}
				ok = ok && e.missing(a.C, is) == bF
			}
		}
	}
	c.ob("read/"+k+"/number", rule, ok, proto.Pos, "a row is added as %s", trunc(e.Str(u), 300))
	// the result has them all
	data := e.extract(r.Val, 0)
	for _, x := range e.alts(data, e.successOf(e.extract(r.Val, 1))) {
		if e.missing(x.C, bF) == bF {
			continue
		}
		got := e.gathers(x.T, proto)
		c.ob("read/"+k+"/result", "all samples that were read are returned", got, proto.Pos, "%s is returned", trunc(e.Str(x.T), 300))
	}
	why = e.allOf(proto.Loops)
	c.ob("read/"+k+"/views", "all samples that were read are returned", why == "", proto.Pos, "%s", why)
	// nothing that was found is skipped
	d := e.lacking(read.Cond, proto.Cond)
	c.ob("read/"+k+"/skip", "all samples that were read are returned", d == bF, proto.Pos, "rows are not decoded when %s", trunc(e.CondStr(d), 300))
	// early returns only when nothing was found
	var had *Effect
	for _, f := range e.effects {
		if isCall(f, txnGet) && had == nil {
			had = f
		}
	}
	if had == nil {
		return
	}
	found := e.bdd.And(had.Cond, e.nilErr(e.extract(had.Res, 1)))
	d = e.lacking(found, read.Cond)
	// nothing in the set, or in one it is the intersection of
	nothing := e.Cond(e.isEmpty(set))
	for _, x := range set.arms() {
		if x.T.Op == OInter {
			for _, y := range x.T.Args {
				nothing = e.bdd.Or(nothing, e.bdd.And(x.C, e.Cond(e.isEmpty(y))))
			}
		}
	}
	d = e.bdd.And(d, e.bdd.Not(nothing))
	c.ob("read/"+k+"/early", "all samples that were found are read", e.missing(d, bF) == bF, read.Pos, "a record is not read when %s", trunc(e.CondStr(d), 300))
}

// ---- time units

var layouts = []string{"2006", "200601", "20060102", "2006010215"}

const unitLetters = "YMDH"

// unitOf reads the name of a time unit: the time it is the unit of, and which unit.
func (e *Engine) unitOf(t *Term, prefix string) (at *Term, layout string) {
	p, name := e.keyOf(t)
	if p != prefix || name == nil {
		return nil, ""
	}
	cut := -1
	if name.Op == OSub {
		lo, ok1 := constInt(name.Args[1])
		hi, ok2 := constInt(name.Args[2])
		if !ok1 || !ok2 || lo != 0 {
			return nil, ""
		}
		cut, name = int(hi), name.Args[0]
	}
	if name.Op != OCall || !strings.HasPrefix(name.Aux, "(time.Time).Format") || len(name.Args) != 2 || name.Args[1].Op != OConst {
		return nil, ""
	}
	layout, ok := unquote(name.Args[1].Aux)
	if !ok {
		return nil, ""
	}
	if cut >= 0 {
		if cut > len(layout) || layout != "2006010215" {
			return nil, ""
		}
		layout = layout[:cut]
	}
	return name.Args[0], layout
}

// utcNano: t is the time of a number of nanoseconds, in utc.
func (e *Engine) utcNano(t, ns *Term) bool {
	if t.Op != OCall || !strings.HasPrefix(t.Aux, "(time.Time).UTC") {
		return false
	}
	t = t.Args[0]
	return t.Op == OCall && strings.HasPrefix(t.Aux, "time.Unix") && !strings.HasPrefix(t.Aux, "time.UnixM") && len(t.Args) == 2 && t.Args[0].Aux == "0" && e.stripConv(t.Args[1]) == ns
}

func c08(c *Check) {
	writerUnits(c)
	searchUnits(c)
	libraryUnits(c)
	// both the index and the records are searched in the units of the range
	for _, x := range []struct{ fn, what string }{{"internal/shards.(*Shards).Rows", "ApplyFilter"}} {
		e := c.engine()
		var search []*snap
		c.snapshot(e, &search, "internal/view.Search")
		r := c.run(e, c.fn(x.fn), "s", "start", "end", "columns")
		ok := len(search) > 0
		for _, s := range search {
			ok = ok && s.args[0] == r.Args[1] && s.args[1] == r.Args[2]
		}
		c.ob("index/range", "the index is searched in all units of the range", ok, r.Fn.Pos(), "%s does not search the units from start to end", x.fn)
		for _, f := range e.effects {
			if isCall(f, rbfTx+x.what) {
				c.Counts["index searches"]++
				v := f.Args[1]
				okv := ok && v.Op == OElem && v.Args[0] == search[0].res
				in := false
				for _, l := range f.Loops {
					in = in || ok && l.Over == search[0].res && e.allOf([]*Loop{l}) == ""
				}
				c.ob("index/units", "the index is searched in all units of the range", okv && in, f.Pos, "the index is searched in %s", e.Str(v))
				d := bF
				if n := len(f.Loops); n > 0 {
					d = e.lacking(f.Loops[n-1].Entry, f.Cond)
				}
				c.ob("index/always", "the index is searched in all units of the range", d == bF, f.Pos, "a unit is not searched when %s", trunc(e.CondStr(d), 300))
			}
		}
	}
	for _, k := range []string{"Metrics", "Traces", "Logs"} {
		e := c.engine()
		var search []*snap
		c.snapshot(e, &search, "internal/view.Search")
		r := c.run(e, c.fn("internal/dataframe.(*DataFrame)."+k), "df", "ctx", "start", "end", "samples")
		ok := len(search) == 1 && search[0].args[0] == r.Args[2] && search[0].args[1] == r.Args[3]
		if !c.ob("records/"+k+"/range", "the records of all units of the range are read", ok, r.Fn.Pos(), "reading %s does not search the units from start to end", k) {
			continue
		}
		for _, f := range e.effects {
			if isCall(f, txnGet) {
				c.Counts["record searches"]++
				okl := len(f.Loops) == 1 && f.Loops[0].Over == search[0].res
				why := e.allOf(f.Loops)
				_, v := e.keyOf(f.Args[1])
				c.ob("records/"+k+"/units", "the records of all units of the range are read", okl && why == "" && v == e.mk(OElem, "", search[0].res), f.Pos, "%s is read %s", e.path(f.Args[1]), why)
			}
		}
	}
	c.Min["units written"] = 4
	c.Min["ranges"] = 1
	c.Min["index searches"] = 1
	c.Min["record searches"] = 3
}

func writerUnits(c *Check) {
	const rule = "samples are appended to the records of the year, month, day and hour of their time"
	a := c.appendRun()
	e, fn := a.e, a.r.Fn
	if !c.sameUnit(a, "units") {
		return
	}
	sample := e.mk(OElem, "", a.items)
	prefix := unitPrefix(c)
	seen := map[string]bool{}
	for _, f := range e.effects {
		if f.Kind != "mapset" || f.Args[0] != a.units {
			continue
		}
		c.Counts["units written"]++
		at, layout := e.unitOf(f.Args[1], prefix)
		if !c.ob("name", rule, at != nil, f.Pos, "a record is named %s", e.Str(f.Args[1])) {
			continue
		}
		c.ob("time/"+layout, rule, e.utcNano(at, e.field(sample, "MinTs")), f.Pos, "the unit is that of the time %s", e.Str(at))
		c.ob("once/"+layout, "a sample is appended once to a record", !seen[layout], f.Pos, "a sample is appended twice to the record of %s", layout)
		seen[layout] = true
		v := f.Args[2]
		ok := v.Op == OSeq && len(v.Args) == 2 && v.Args[0].Op == OIndex && v.Args[0].Args[0] == a.units && v.Args[0].Args[1] == f.Args[1] && v.Args[1].Op == OItem && v.Args[1].Args[0] == sample
		c.ob("added/"+layout, "samples of a unit are kept together", ok, f.Pos, "the samples of the unit become %s", trunc(e.Str(v), 300))
		why := e.allOf(f.Loops)
		c.ob("all/"+layout, rule, len(f.Loops) == 1 && f.Loops[0].Over == a.items && why == "", f.Pos, "not every sample is appended %s", why)
		if len(f.Loops) > 0 {
			d := e.lacking(f.Loops[0].Entry, f.Cond)
			c.ob("always/"+layout, rule, d == bF, f.Pos, "a sample is not appended when %s", trunc(e.CondStr(d), 300))
		}
	}
	for _, l := range layouts {
		c.ob("unit/"+l, rule, seen[l], fn.Pos(), "nothing is appended to the record named by %s", l)
	}
	for l := range seen {
		c.ob("known/"+l, rule, contains(layouts, l), fn.Pos(), "samples are appended to %s", l)
	}
}

func contains(l []string, s string) bool {
	for _, x := range l {
		if x == s {
			return true
		}
	}
	return false
}

// civil is a time written as calendar fields in utc: each is the field of a base
// time plus a number, or a number.
type civil struct {
	base *Term
	off  [7]int  // year month day hour minute second nanosecond
	abs  [7]bool // the number only
	utc  bool    // the time is in utc
}

var fieldNames = []string{"Year", "Month", "Day", "Hour", "Minute", "Second", "Nanosecond"}

// civilOf reads t, which may be cut to its calendar fields.
func (e *Engine) civilOf(t *Term, c B) (civil, string) {
	var z civil
	if t.Op == OChoice {
		var out *civil
		for _, a := range e.alts(t, c) {
			x, why := e.civilOf(a.T, a.C)
			if why != "" {
				return z, why
			}
			if out != nil && *out != x {
				return z, "it depends on " + trunc(e.CondStr(a.C), 200)
			}
			out = &x
		}
		if out == nil {
			return z, "no value"
		}
		return *out, ""
	}
	if t.Op != OCall {
		z.base = t
		return z, ""
	}
	name := t.Aux
	if i := strings.IndexByte(name, '@'); i > 0 {
		name = name[:i]
	}
	switch name {
	case "(time.Time).UTC":
		x, why := e.civilOf(t.Args[0], c)
		x.utc = true
		return x, why
	case "time.Date":
		if len(t.Args) != 8 || !strings.Contains(e.Str(t.Args[7]), "time.UTC") {
			return z, "it is not in utc: " + e.Str(t.Args[7])
		}
		for i := 0; i < 7; i++ {
			b, k, abs, why := e.fieldOf(t.Args[i], fieldNames[i], c)
			if why != "" {
				return z, why
			}
			if !abs {
				if z.base != nil && z.base != b {
					return z, "it mixes times"
				}
				z.base = b
			}
			z.off[i], z.abs[i] = k, abs
		}
		z.utc = true
		return z, ""
	case "(time.Time).Truncate":
		x, why := e.civilOf(t.Args[0], c)
		if why != "" {
			return z, why
		}
		d, ok := constInt(t.Args[1])
		if !ok {
			return z, "it is truncated by " + e.Str(t.Args[1])
		}
		from := 0
		switch d {
		case 24 * 3600e9:
			from = 3
		case 3600e9:
			from = 4
		case 60e9:
			from = 5
		case 1e9:
			from = 6
		default:
			return z, fmt.Sprintf("it is truncated by %d", d)
		}
		for i := from; i < 7; i++ {
			x.off[i], x.abs[i] = 0, true
		}
		return x, ""
	case "(time.Time).AddDate":
		x, why := e.civilOf(t.Args[0], c)
		if why != "" {
			return z, why
		}
		for i := 0; i < 3; i++ {
			k, ok := constInt(t.Args[1+i])
			if !ok {
				return z, "it adds " + e.Str(t.Args[1+i])
			}
			x.off[i] += int(k)
		}
		return x, ""
	case "(time.Time).Add":
		x, why := e.civilOf(t.Args[0], c)
		if why != "" {
			return z, why
		}
		d, ok := constInt(t.Args[1])
		if !ok {
			return z, "it adds " + e.Str(t.Args[1])
		}
		switch {
		case d%(24*3600e9) == 0:
			x.off[2] += int(d / (24 * 3600e9))
		case d%3600e9 == 0:
			x.off[3] += int(d / 3600e9)
		default:
			return z, fmt.Sprintf("it adds %d", d)
		}
		return x, ""
	}
	z.base = t
	return z, ""
}

// fieldOf reads a calendar field.
func (e *Engine) fieldOf(t *Term, name string, c B) (base *Term, off int, abs bool, why string) {
	if t.Op == OChoice {
		as := e.alts(t, c)
		if len(as) == 1 {
			return e.fieldOf(as[0].T, name, c)
		}
		return nil, 0, false, "it depends on a condition"
	}
	if t.Op == OConv {
		return e.fieldOf(t.Args[0], name, c)
	}
	if k, ok := constInt(t); ok {
		return nil, int(k), true, ""
	}
	if t.Op == OBin && (t.Aux == "+" || t.Aux == "-") {
		x, y := t.Args[0], t.Args[1]
		if t.Aux == "+" && x.Op == OConst {
			x, y = y, x
		}
		k, ok := constInt(y)
		if !ok {
			return nil, 0, false, "it is " + e.Str(t)
		}
		if t.Aux == "-" {
			k = -k
		}
		b, o, abs, why := e.fieldOf(x, name, c)
		return b, o + int(k), abs, why
	}
	var of *Term
	switch {
	case t.Op == OCall && strings.HasPrefix(t.Aux, "(time.Time)."+name) && len(t.Args) == 1:
		of = t.Args[0]
	case t.Op == OExtract && t.Args[0].Op == OCall && strings.HasPrefix(t.Args[0].Aux, "(time.Time).Date"):
		if (map[string]string{"0": "Year", "1": "Month", "2": "Day"})[t.Aux] != name {
			return nil, 0, false, "a field is taken for another"
		}
		of = t.Args[0].Args[0]
	case t.Op == OExtract && t.Args[0].Op == OCall && strings.HasPrefix(t.Args[0].Aux, "(time.Time).Clock"):
		if (map[string]string{"0": "Hour", "1": "Minute", "2": "Second"})[t.Aux] != name {
			return nil, 0, false, "a field is taken for another"
		}
		of = t.Args[0].Args[0]
	default:
		return nil, 0, false, "a field is " + e.Str(t)
	}
	v, why := e.civilOf(of, c)
	if why != "" {
		return nil, 0, false, why
	}
	if !v.utc {
		return nil, 0, false, "fields are not those in utc"
	}
	for i, n := range fieldNames {
		if n == name && v.abs[i] {
			return nil, v.off[i], true, ""
		}
		if !v.abs[i] && v.off[i] != 0 {
			return nil, 0, false, "a field is that of a time that was moved"
		}
	}
	return v.base, 0, false, ""
}

// isStart tells which unit after that of t the civil time is the start of.
func (x civil) isStart(t *Term, unit int) (int, bool) {
	if x.base != t {
		return 0, false
	}
	for i := 0; i < 7; i++ {
		switch {
		case i < unit:
			if x.abs[i] || x.off[i] != 0 {
				return 0, false
			}
		case i == unit:
			if x.abs[i] {
				return 0, false
			}
		case i == 1 || i == 2:
			if !x.abs[i] || x.off[i] != 1 {
				return 0, false
			}
		default:
			if !x.abs[i] || x.off[i] != 0 {
				return 0, false
			}
		}
	}
	return x.off[unit], true
}

func searchUnits(c *Check) {
	const rule = "a query reads the units from the start to the end of its range"
	e := c.engine()
	r := c.run(e, c.fn("internal/view.Search"), "start", "end")
	start, end := r.Args[0], r.Args[1]
	var calls []*Effect
	for _, f := range e.effects {
		if f.Kind == "call" && strings.HasSuffix(f.Callee, "quantum.ViewsByTimeRange") {
			calls = append(calls, f)
		}
	}
	if !c.ob("search", rule, len(calls) > 0, r.Fn.Pos(), "Search does not list units") {
		return
	}
	covered := bF
	for _, a := range e.alts(r.Val, r.Cond) {
		var f *Effect
		for _, x := range calls {
			if x.Res == a.T {
				f = x
			}
		}
		if !c.ob("search/result", rule, f != nil, r.Fn.Pos(), "Search gives %s", e.Str(a.T)) {
			continue
		}
		covered = e.bdd.Or(covered, a.C)
		s, _ := unquote(f.Args[0].Aux)
		c.ob("search/name", "names of units are the same for writing and reading", f.Args[0].Op == OConst && s+"_" == unitPrefix(c), f.Pos, "units are named %s", e.Str(f.Args[0]))
		for _, q := range e.alts(f.Args[3], a.C) {
			l, ok := unquote(q.T.Aux)
			unit := strings.IndexByte(unitLetters, (l + " ")[len(l)-1+b2i(l == "")])
			good := ok && q.T.Op == OConst && unit >= 0
			for _, ch := range l {
				good = good && strings.ContainsRune(unitLetters, ch)
			}
			if !c.ob("search/unit/"+l, "queries read units that are written", good, f.Pos, "units %s are read", e.Str(q.T)) {
				continue
			}
			for i := range unitLetters {
				if strings.IndexByte(l, unitLetters[i]) >= 0 {
					unit = i // the smallest
				}
			}
			c.Counts["ranges"]++
			for _, x := range e.alts(f.Args[1], q.C) {
				v, why := e.civilOf(x.T, x.C)
				n, ok := v.isStart(start, unit)
				c.ob("search/first/"+l, rule, why == "" && ok && v.utc && n <= 0, f.Pos, "the first unit is that of %s %s", e.Str(x.T), why)
			}
			for _, x := range e.alts(f.Args[2], q.C) {
				v, why := e.civilOf(x.T, x.C)
				n, ok := v.isStart(end, unit)
				if !c.ob("search/last/"+l, rule, why == "" && ok && v.utc && n >= 0, f.Pos, "the last unit ends at %s %s", e.Str(x.T), why) || n > 0 {
					continue
				}
				// only when the range ends with the unit
				d := x.C
				for _, at := range e.support(d) {
					if k := e.notPast(at, end, unit); k != bT {
						d = e.bdd.And(d, e.bdd.Not(k))
					}
				}
				c.ob("search/end/"+l, rule, d == bF || e.absurd(d), f.Pos, "the last unit is left out when %s", trunc(e.CondStr(x.C), 300))
			}
		}
	}
	d := e.missing(r.Cond, covered)
	c.ob("search/always", rule, d == bF, r.Fn.Pos(), "no units are listed when %s", trunc(e.CondStr(d), 300))
}

func b2i(b bool) int {
	if b {
		return 1
	}
	return 0
}

// notPast: what an atom says about end being the start of its unit.
func (e *Engine) notPast(at, end *Term, unit int) B {
	startOf := func(t *Term) bool {
		v, why := e.civilOf(t, bT)
		if why != "" {
			return false
		}
		n, ok := v.isStart(end, unit)
		return ok && n == 0
	}
	is := func(t *Term) bool {
		for t.Op == OCall && strings.HasPrefix(t.Aux, "(time.Time).UTC") {
			t = t.Args[0]
		}
		return t == end
	}
	if at.Op != OCall || len(at.Args) != 2 {
		return bT
	}
	x, y := at.Args[0], at.Args[1]
	alts := func(t *Term) []*Term {
		var o []*Term
		for _, a := range t.arms() {
			o = append(o, a.T)
		}
		return o
	}
	any := func(t *Term) bool {
		for _, a := range alts(t) {
			if startOf(a) {
				return true
			}
		}
		return false
	}
	switch {
	case strings.HasPrefix(at.Aux, "(time.Time).Before") && any(x) && is(y), strings.HasPrefix(at.Aux, "(time.Time).After") && is(x) && any(y):
		return e.bdd.Not(e.Cond(at))
	case strings.HasPrefix(at.Aux, "(time.Time).Equal") && (any(x) && is(y) || is(x) && any(y)):
		return e.Cond(at)
	}
	return bT
}

// libraryUnits checks the formats which the library names units with.
func libraryUnits(c *Check) {
	n := map[string]bool{}
	for _, p := range c.P.Prog.AllPackages() {
		if !strings.HasSuffix(p.Pkg.Path(), "rbf/quantum") {
			continue
		}
		f := p.Func("ViewByTimeUnit")
		if f == nil {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				call, ok := in.(*ssa.Call)
				if !ok || call.Call.StaticCallee() == nil || call.Call.StaticCallee().String() != "(time.Time).Format" {
					continue
				}
				if k, ok := call.Call.Args[1].(*ssa.Const); ok {
					if s, ok := unquote(k.Value.ExactString()); ok {
						n[s] = true
					}
				}
			}
		}
	}
	if len(n) == 0 {
		c.assume("the library names units by year, year and month, up to the hour")
		return
	}
	for _, l := range layouts {
		c.ob("library/"+l, "names of units are the same for writing and reading", n[l], 0, "the library does not name units by %s", l)
	}
}

var _ = types.Typ
