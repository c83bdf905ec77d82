package main

// Reaching conditions are kept as reduced ordered binary decision diagrams over
// opaque atoms. They are only a canonical form: two differently written control
// structures with the same condition get the same node. No satisfiability of
// the atoms themselves is ever asked.

type B int32

const (
	bF B = 0
	bT B = 1
)

type bnode struct {
	v      int32
	lo, hi B
}

type BDD struct {
	nodes []bnode
	uniq  map[bnode]B
	ite   map[[3]B]B
	cof   map[[2]B]B
}

func newBDD() *BDD {
	return &BDD{
		nodes: []bnode{{v: 1 << 30}, {v: 1 << 30}},
		uniq:  map[bnode]B{},
		ite:   map[[3]B]B{},
		cof:   map[[2]B]B{},
	}
}

func (d *BDD) mk(v int32, lo, hi B) B {
	if lo == hi {
		return lo
	}
	n := bnode{v, lo, hi}
	if b, ok := d.uniq[n]; ok {
		return b
	}
	d.nodes = append(d.nodes, n)
	b := B(len(d.nodes) - 1)
	d.uniq[n] = b
	return b
}

func (d *BDD) Var(v int32) B { return d.mk(v, bF, bT) }

func (d *BDD) Ite(f, g, h B) B {
	switch {
	case f == bT:
		return g
	case f == bF:
		return h
	case g == h:
		return g
	case g == bT && h == bF:
		return f
	}
	k := [3]B{f, g, h}
	if r, ok := d.ite[k]; ok {
		return r
	}
	v := min(d.nodes[f].v, d.nodes[g].v, d.nodes[h].v)
	c := func(x B) (B, B) {
		if d.nodes[x].v == v {
			return d.nodes[x].lo, d.nodes[x].hi
		}
		return x, x
	}
	f0, f1 := c(f)
	g0, g1 := c(g)
	h0, h1 := c(h)
	r := d.mk(v, d.Ite(f0, g0, h0), d.Ite(f1, g1, h1))
	d.ite[k] = r
	return r
}

func (d *BDD) And(a, b B) B     { return d.Ite(a, b, bF) }
func (d *BDD) Or(a, b B) B      { return d.Ite(a, bT, b) }
func (d *BDD) Not(a B) B        { return d.Ite(a, bF, bT) }
func (d *BDD) Imp(a, b B) bool  { return d.Ite(a, b, bT) == bT }
func (d *BDD) Disj(a, b B) bool { return d.And(a, b) == bF }

// Cof is the generalised cofactor: a function equal to f wherever c holds.
func (d *BDD) Cof(f, c B) B {
	if c == bT || f == bT || f == bF {
		return f
	}
	if c == bF {
		return bF
	}
	if f == c {
		return bT
	}
	k := [2]B{f, c}
	if r, ok := d.cof[k]; ok {
		return r
	}
	nf, nc := d.nodes[f], d.nodes[c]
	var r B
	switch {
	case nc.v < nf.v:
		// restrict: drop variables f does not depend on
		r = d.Cof(f, d.Or(nc.lo, nc.hi))
	case nf.v < nc.v:
		r = d.mk(nf.v, d.Cof(nf.lo, c), d.Cof(nf.hi, c))
	default:
		if nc.lo == bF {
			r = d.Cof(nf.hi, nc.hi)
		} else if nc.hi == bF {
			r = d.Cof(nf.lo, nc.lo)
		} else {
			r = d.mk(nf.v, d.Cof(nf.lo, nc.lo), d.Cof(nf.hi, nc.hi))
		}
	}
	d.cof[k] = r
	return r
}

// Exists quantifies variable v away.
func (d *BDD) Exists(f B, v int32) B {
	return d.Or(d.restrict(f, v, false), d.restrict(f, v, true))
}

func (d *BDD) restrict(f B, v int32, val bool) B {
	if f <= 1 {
		return f
	}
	n := d.nodes[f]
	if n.v > v {
		return f
	}
	if n.v == v {
		if val {
			return n.hi
		}
		return n.lo
	}
	return d.mk(n.v, d.restrict(n.lo, v, val), d.restrict(n.hi, v, val))
}

func (d *BDD) Support(f B, out map[int32]bool) {
	seen := map[B]bool{}
	var rec func(B)
	rec = func(x B) {
		if x <= 1 || seen[x] {
			return
		}
		seen[x] = true
		n := d.nodes[x]
		out[n.v] = true
		rec(n.lo)
		rec(n.hi)
	}
	rec(f)
}
