package main

// Wide cases: the same promises on formulas with 40 to 140 operands, far
// beyond what truth tables reach.  A wide formula joins parts over disjoint
// blocks of variables, so assignments can be aimed: every part is made the
// only one which decides.

import (
	"os"
	"path/filepath"
	"slices"

	"github.com/booleworks/logicng-go/assignment"
	"github.com/booleworks/logicng-go/encoding"
	f "github.com/booleworks/logicng-go/formula"
	lio "github.com/booleworks/logicng-go/io"
	"github.com/booleworks/logicng-go/model"
	"github.com/booleworks/logicng-go/normalform"
	"github.com/booleworks/logicng-go/parser"
	"github.com/booleworks/logicng-go/sat"
	"github.com/booleworks/logicng-go/transformation"
)

func (n *Node) evalAt(a []bool) bool {
	switch n.K {
	case KFalse:
		return false
	case KTrue:
		return true
	case KLit:
		return a[n.L.V] == n.L.Pos
	case KNot:
		return !n.Ops[0].evalAt(a)
	case KImpl:
		return !n.Ops[0].evalAt(a) || n.Ops[1].evalAt(a)
	case KEquiv:
		return n.Ops[0].evalAt(a) == n.Ops[1].evalAt(a)
	case KAnd, KOr:
		for _, o := range n.Ops {
			if o.evalAt(a) == (n.K == KOr) {
				return n.K == KOr
			}
		}
		return n.K == KAnd
	}
	sum := 0
	for i, l := range n.Lits {
		if a[l.V] == l.Pos {
			if n.K == KCC {
				sum++
			} else {
				sum += n.Coefs[i]
			}
		}
	}
	return n.Cmp.Eval(sum, n.Rhs)
}

type wide struct {
	c     *Ctx
	w     *World
	n     *Node   // the whole
	parts []*Node // its operands, over disjoint variables
	first []int   // first variable of each part
	val   [2][]uint64
}

// newWide draws a conjunction or disjunction of k parts; pbc allows
// constraints among the parts, shape 1 keeps to literals, shape 2 to literals
// and terms of the other connective.
func newWide(c *Ctx, k int, kind Kind, shape int, pbc bool) *wide {
	r := c.R
	x := &wide{c: c, n: &Node{K: kind}}
	at := 0
	other := KAnd
	if kind == KAnd {
		other = KOr
	}
	for i := 0; i < k; i++ {
		var p *Node
		nv := 1
		lit := func(v int) *Node { return nLit(v, r.Bool()) }
		switch {
		case shape == 1 || r.P(45):
			p = lit(0)
		case shape == 2 || r.P(50):
			nv = r.Range(2, 3)
			p = &Node{K: other}
			for v := 0; v < nv; v++ {
				p.Ops = append(p.Ops, lit(v))
			}
		case pbc && r.P(30):
			nv = 3
			p = &Node{K: KPBC, Cmp: pick(r, LE, GE, LT, GT), Lits: []PLit{{0, r.Bool()}, {1, r.Bool()}, {2, r.Bool()}}, Coefs: []int{1, 2, r.Range(1, 3)}}
			p.Rhs = 2
		case r.P(50):
			nv = 2
			p = &Node{K: pick(r, KEquiv, KImpl), Ops: []*Node{lit(0), lit(1)}}
		default:
			nv = 3
			p = nNot(&Node{K: kind, Ops: []*Node{lit(0), {K: other, Ops: []*Node{lit(1), lit(2)}}}})
		}
		base := at
		var yes, no []uint64
		for a := uint64(0); a < 1<<uint(nv); a++ {
			if p.Eval(a) {
				yes = append(yes, a)
			} else {
				no = append(no, a)
			}
		}
		if len(yes) == 0 || len(no) == 0 {
			i--
			continue
		}
		x.val[1] = append(x.val[1], pick(r, yes...))
		x.val[0] = append(x.val[0], pick(r, no...))
		x.parts = append(x.parts, p.mapVars(func(v int) int { return base + v }))
		x.first = append(x.first, at)
		at += nv
	}
	x.first = append(x.first, at)
	x.n.Ops = x.parts
	x.w = NewWorldPlain(at, false)
	return x
}

// at is the assignment with the given truth value for every part.
func (x *wide) at(value func(i int) bool) []bool {
	a := make([]bool, x.first[len(x.parts)])
	for i := range x.parts {
		b := x.val[0][i]
		if value(i) {
			b = x.val[1][i]
		}
		for v := x.first[i]; v < x.first[i+1]; v++ {
			a[v] = b>>uint(v-x.first[i])&1 == 1
		}
	}
	return a
}

// aimed are assignments which every single part decides, and some others.
func (x *wide) aimed() [][]bool {
	neutral := x.n.K == KAnd
	as := [][]bool{x.at(func(int) bool { return true }), x.at(func(int) bool { return false })}
	for i := range x.parts {
		as = append(as, x.at(func(j int) bool { return (j != i) == neutral }))
	}
	for i := 0; i < 6; i++ {
		as = append(as, x.at(func(int) bool { return x.c.R.Bool() }))
	}
	x.c.Obs("wide assignments", len(as))
	return as
}

func (x *wide) same(got, want *Node, as [][]bool, what string) {
	for _, a := range as {
		if got.evalAt(a) != want.evalAt(a) {
			x.c.Failf("%s: a wide formula of %d operands changes its value under %v\nformula: %s\nresult: %s",
				what, len(x.parts), a, cut(want.String(), 1500), cut(got.String(), 1500))
		}
	}
}

func (x *wide) lits(a []bool) []f.Literal {
	ls := make([]f.Literal, len(a))
	for v := range a {
		ls[v] = x.w.Lit(PLit{v, a[v]})
	}
	return shuffled(x.c.R, ls)
}

func width(r *Rng) int { return pick(r, r.Range(20, 60), r.Range(60, 80), r.Range(100, 140)) }

func wideKind(r *Rng) Kind { return pick(r, KAnd, KOr) }

func (x *wide) nary(ops []f.Formula) f.Formula {
	if x.n.K == KAnd {
		return x.w.F.And(ops...)
	}
	return x.w.F.Or(ops...)
}

// plain is a part whose negation is not dissolved in the whole.
func (x *wide) plain() int {
	for {
		if i := x.c.R.Intn(len(x.parts)); x.parts[i].K != KNot {
			return i
		}
	}
}

func wide01(c *Ctx) {
	r := c.R
	x := newWide(c, width(r), wideKind(r), 0, true)
	fac := x.w.F
	ops := x.w.BuildAll(x.parts)
	sort := f.SortAnd
	if x.n.K == KOr {
		sort = f.SortOr
	}
	check := func(g f.Formula, what string) {
		got, ok := fac.NaryOperands(g)
		c.Check(ok && g.Sort() == sort, "%s: %d different operands give a formula of sort %d", what, len(ops), g.Sort())
		seen := map[f.Formula]bool{}
		for _, o := range got {
			c.Check(!seen[o], "%s: the operand %s occurs twice among %d", what, o.Sprint(fac), len(got))
			c.Check(o.Sort() != sort && o.Sort() != f.SortTrue && o.Sort() != f.SortFalse, "%s: an operand of sort %d in a formula of sort %d", what, o.Sort(), sort)
			seen[o] = true
		}
		x.same(x.w.From(g), x.n, x.aimed(), what)
	}
	g := x.nary(ops)
	check(g, "wide formula")
	// repeats, neutral constants, nested formulas of the same sort
	neutral := fac.Verum()
	if x.n.K == KOr {
		neutral = fac.Falsum()
	}
	more := append([]f.Formula{}, ops...)
	for i := r.Range(1, 10); i > 0; i-- {
		more = slices.Insert(more, r.Intn(len(more)+1), pick(r, ops[r.Intn(len(ops))], neutral, g))
	}
	check(x.nary(more), "wide formula with repeated operands")
	lo := r.Intn(len(ops) - 2)
	hi := r.Range(lo+2, len(ops))
	nest := append(append([]f.Formula{}, ops[:lo]...), x.nary(ops[lo:hi]))
	check(x.nary(append(nest, ops[hi:]...)), "wide formula with a nested one")
	// a complement anywhere
	opp := append([]f.Formula{}, ops...)
	opp = slices.Insert(opp, r.Intn(len(opp)+1), fac.Not(ops[x.plain()]))
	z := x.nary(opp)
	c.Check(z == neutral.Negate(fac), "%d operands with a complementary pair are %s", len(opp), cut(z.Sprint(fac), 200))
	c.Obs("wide formulas", 4)
}

func wide02(c *Ctx) {
	r := c.R
	x := newWide(c, width(r), wideKind(r), 0, true)
	ops := x.w.BuildAll(x.parts)
	g := x.nary(ops)
	c.Check(x.nary(append([]f.Formula{}, ops...)) == g, "the same %d operands give two formulas", len(ops))
	for k := 0; k < 12; k++ {
		i := x.plain()
		ch := append([]f.Formula{}, ops...)
		ch[i] = x.w.F.Not(ch[i])
		h := x.nary(ch)
		c.Check(h != g, "formulas of %d operands which differ in operand %d are the same handle", len(ops), i)
		got, _ := x.w.F.NaryOperands(h)
		c.Check(len(got) == len(ops) && slices.Contains(got, ch[i]) && !slices.Contains(got, ops[i]), "operand %d of %d is not the one given", i, len(ops))
	}
	c.Obs("wide formulas", 12)
}

func (x *wide) pbcNode(clean bool) *Node {
	r := x.c.R
	n := len(x.parts)
	p := &Node{K: KPBC, Cmp: pick(r, EQ, LE, LT, GE, GT)}
	sum := 0
	for v := 0; v < n; v++ {
		co := r.Range(1, 9)
		if !clean && r.P(30) {
			co = -co
		}
		p.Lits = append(p.Lits, PLit{v, r.Bool()})
		p.Coefs = append(p.Coefs, co)
		sum += co
	}
	p.Rhs = sum/2 + r.Range(-5, 5)
	return p
}

// near are assignments around the bound of a wide constraint.
func (x *wide) near(p *Node) [][]bool {
	r := x.c.R
	var as [][]bool
	for k := 0; k < 6; k++ {
		a := make([]bool, x.w.N)
		sum := 0
		for i, l := range p.Lits {
			a[l.V] = r.Bool()
			if a[l.V] == l.Pos {
				sum += p.Coefs[i]
			}
		}
		for _, i := range r.Perm(len(p.Lits)) {
			as = append(as, append([]bool{}, a...))
			l := p.Lits[i]
			on := a[l.V] == l.Pos
			if (sum < p.Rhs) == ((p.Coefs[i] > 0) != on) {
				a[l.V] = !a[l.V]
				if on {
					sum -= p.Coefs[i]
				} else {
					sum += p.Coefs[i]
				}
			}
		}
	}
	x.c.Obs("wide assignments", len(as))
	return as
}

func wide04(c *Ctx) {
	r := c.R
	x := newWide(c, width(r), wideKind(r), 0, true)
	g := x.w.Build(x.n)
	txt := g.Sprint(x.w.F)
	h, err := parser.New(x.w.F).Parse(txt)
	c.Check(err == nil, "the printed formula of %d operands does not parse: %v", len(x.parts), err)
	c.Check(h == g, "printing and parsing gives another formula of %d operands\n%s\n%s", len(x.parts), cut(txt, 1500), cut(h.Sprint(x.w.F), 1500))
	x = newWide(c, width(r), KAnd, 1, false)
	p := x.pbcNode(false)
	g = x.w.Build(p)
	txt = g.Sprint(x.w.F)
	h, err = parser.New(x.w.F).Parse(txt)
	c.Check(err == nil && h == g, "printing and parsing gives another constraint of %d literals: %s (%v)", len(x.parts), cut(txt, 1500), err)
	x.same(x.w.From(h), p, x.near(p), "printing and parsing")
	c.Obs("wide formulas", 2)
}

func wide05(c *Ctx) {
	r := c.R
	x := newWide(c, width(r), wideKind(r), 0, true)
	n := x.n
	as := x.aimed()
	if r.P(40) {
		x = newWide(c, width(r), KAnd, 1, false)
		n = x.pbcNode(false)
		as = x.near(n)
	}
	fac := x.w.F
	g := x.w.Build(n)
	for i := 0; i < 8; i++ {
		a := as[r.Intn(len(as))]
		ass, err := assignment.New(fac, x.lits(a)...)
		c.Check(err == nil, "assignment: %v", err)
		c.Check(assignment.Evaluate(fac, g, ass) == n.evalAt(a), "Evaluate on %s under %v", cut(n.String(), 1500), a)
		z := assignment.Restrict(fac, g, ass)
		c.Check(z == fac.Constant(n.evalAt(a)), "Restrict by a complete assignment gives %s for %s", cut(z.Sprint(fac), 300), cut(n.String(), 1500))
	}
	for i := 0; i < 3; i++ {
		a := as[r.Intn(len(as))]
		fixed := map[int]bool{}
		var ls []f.Literal
		pct := r.Range(5, 95)
		for v := range a {
			if r.P(pct) {
				fixed[v] = a[v]
				ls = append(ls, x.w.Lit(PLit{v, a[v]}))
			}
		}
		ass, err := assignment.New(fac, ls...)
		c.Check(err == nil, "assignment: %v", err)
		z := assignment.Restrict(fac, g, ass)
		for _, v := range x.w.VarIdxSet(f.Variables(fac, z).Content()) {
			_, is := fixed[v]
			c.Check(!is, "the restriction of %s still mentions v%d", cut(n.String(), 1500), v)
		}
		zn := x.w.From(z)
		for _, b := range as {
			full := append([]bool{}, b...)
			for v, t := range fixed {
				full[v] = t
			}
			c.Check(zn.evalAt(full) == n.evalAt(full), "the restriction of %s by %d literals has another value under %v: %s", cut(n.String(), 1500), len(ls), full, cut(zn.String(), 800))
		}
	}
	c.Obs("wide formulas", 1)
}

func wide06(c *Ctx) {
	r := c.R
	x := newWide(c, width(r), wideKind(r), pick(r, 0, 2), false)
	fac := x.w.F
	g := x.w.Build(x.n)
	n := x.n
	as := x.aimed()
	nn := g
	if r.P(40) {
		nn = fac.Not(g)
		n = nNot(n)
	}
	z := normalform.NNF(fac, nn)
	c.Check(normalform.IsNNF(fac, z), "NNF of a wide formula is none")
	x.same(x.w.From(z), n, as, "NNF")
	z = normalform.AIG(fac, nn)
	c.Check(normalform.IsAIG(fac, z), "AIG of a wide formula is none")
	x.same(x.w.From(z), n, as, "AIG")
	if (x.n.K == KAnd) == (nn == g) {
		z = normalform.FactorizedCNF(fac, nn)
		c.Check(normalform.IsCNF(fac, z), "factorised CNF of a wide formula is none")
		x.same(x.w.From(z), n, as, "factorised CNF")
	} else {
		z = normalform.FactorizedDNF(fac, nn)
		c.Check(normalform.IsDNF(fac, z), "factorised DNF of a wide formula is none")
		x.same(x.w.From(z), n, as, "factorised DNF")
	}
	c.Obs("wide formulas", 3)
}

func wide07(c *Ctx) {
	r := c.R
	// with a full assignment assumed, the definitions decide by propagation
	x := newWide(c, width(r), wideKind(r), 0, true)
	n := x.n
	as := x.aimed()
	if r.P(40) {
		n = nNot(n)
	}
	// the wide formula inside another one, so that it needs a definition
	v := x.w.N
	x.w = NewWorldPlain(v+2, false)
	m := n
	if r.P(70) {
		m = &Node{K: pick(r, KEquiv, KImpl, KOr), Ops: []*Node{nLit(v, r.Bool()), n}}
		if r.Bool() {
			m.Ops[0], m.Ops[1] = m.Ops[1], m.Ops[0]
		}
		if r.Bool() {
			m = nOr(nLit(v+1, r.Bool()), nAnd(m, nLit(v, r.Bool())))
		}
	}
	fac := x.w.F
	g := x.w.Build(m)
	var cnf f.Formula
	what := "FULL_PG on the solver"
	s := sat.NewSolver(fac, sat.DefaultConfig())
	switch r.Intn(5) {
	case 0:
		what = "Tseitin"
		cnf = normalform.TseitinCNFWithBoundary(fac, g, r.Intn(3))
	case 1:
		what = "Plaisted-Greenbaum"
		cnf = normalform.PGCNFWithBoundary(fac, g, r.Intn(3))
	default:
		cfg := sat.DefaultConfig()
		cfg.CNFMethod = pick(r, sat.CNFPG, sat.CNFFullPG)
		s = sat.NewSolver(fac, cfg)
		cnf = g
	}
	if what != "FULL_PG on the solver" {
		c.Check(normalform.IsCNF(fac, cnf), "%s of a wide formula is no CNF", what)
	}
	s.Add(cnf)
	for i := 0; i < 30; i++ {
		a := append(append([]bool{}, as[r.Intn(len(as))]...), r.Bool(), r.Bool())
		res := s.Call(sat.Params().Literal(x.lits(a)...))
		c.Check(res.Sat() == m.evalAt(a), "%s: assuming %v the solver says %v for %s", what, a, res.Sat(), cut(m.String(), 2000))
	}
	c.Obs("wide formulas", 1)
}

func wide10(c *Ctx) {
	r := c.R
	x := newWide(c, r.Range(12, 70), KAnd, 1, false)
	p := x.pbcNode(false)
	for i := range p.Coefs {
		if p.Coefs[i] > 4 {
			p.Coefs[i] = 2
		}
	}
	p.Rhs = 0
	for _, co := range p.Coefs {
		p.Rhs += co
	}
	p.Rhs = p.Rhs/2 + r.Range(-3, 3)
	if r.P(30) {
		p.K = KCC
		p.Cmp = pick(r, EQ, LE, LT, GE, GT)
		p.Rhs = r.Range(1, len(p.Lits)-1)
		for i := range p.Lits {
			p.Lits[i].Pos = true
			p.Coefs[i] = 1
		}
	}
	g := x.w.Build(p)
	as := x.near(p)
	fac := x.w.F
	neg := encoding.NegatePBC(fac, g)
	x.same(x.w.From(neg), nNot(p), as, "negation")
	s := sat.NewSolver(fac)
	s.Add(g)
	for i := 0; i < 30; i++ {
		a := as[r.Intn(len(as))]
		res := s.Call(sat.Params().Literal(x.lits(a)...))
		c.Check(res.Sat() == p.evalAt(a), "assuming %v the solver says %v for %s", a, res.Sat(), p)
	}
	c.Obs("wide constraints", 1)
}

func wide11(c *Ctx) {
	r := c.R
	x := newWide(c, width(r), KOr, 1, false)
	s := sat.NewSolver(x.w.F)
	s.Add(x.w.Build(x.n))
	as := x.aimed()
	for _, a := range as {
		res := s.Call(sat.Params().Literal(x.lits(a)...))
		c.Check(res.Sat() == x.n.evalAt(a), "assuming %v the solver says %v for %s", a, res.Sat(), x.n)
	}
	c.Obs("wide clauses", 1)
}

func wide27(c *Ctx) {
	r := c.R
	x := newWide(c, width(r), wideKind(r), 0, true)
	n := x.n
	as := x.aimed()
	con := r.P(40)
	if con {
		x = newWide(c, width(r), KAnd, 1, false)
		n = x.pbcNode(false)
		as = x.near(n)
	}
	fac := x.w.F
	g := x.w.Build(n)
	// every variable is swapped for a literal over another one of the formula
	perm := r.Perm(x.w.N)
	sub := transformation.NewSubstitution()
	img := map[int]PLit{}
	pct := pick(r, 20, 60, 100)
	for v := 0; v < x.w.N; v++ {
		img[v] = PLit{v, true}
		if pct == 100 || r.P(pct) {
			img[v] = PLit{perm[v], r.Bool()}
			if con && pct < 100 {
				img[v] = PLit{v, r.Bool()}
			}
			sub.AddVar(x.w.Var(v), x.w.Lit(img[v]).AsFormula())
		}
	}
	z, err := transformation.Substitute(fac, g, sub)
	c.Check(err == nil, "Substitute: %v", err)
	zn := x.w.From(z)
	for _, b := range as {
		// b is meant for the substituted variables: look for a preimage
		back := append([]bool{}, b...)
		if pct == 100 {
			for v := range b {
				back[img[v].V] = b[v] == img[v].Pos
			}
		}
		at := make([]bool, len(b))
		for v := range b {
			at[v] = back[img[v].V] == img[v].Pos
		}
		c.Check(zn.evalAt(back) == n.evalAt(at), "Substitute changes the meaning of %s under %v: %s", cut(n.String(), 1500), back, cut(zn.String(), 1500))
	}
	c.Obs("wide formulas", 1)
}

func wide28(c *Ctx) {
	r := c.R
	dir, err := os.MkdirTemp("", "lngio")
	c.Check(err == nil, "scratch directory: %v", err)
	defer os.RemoveAll(dir)
	x := newWide(c, width(r), KAnd, 2, false)
	fac := x.w.F
	g := x.w.Build(x.n)
	name := filepath.Join(dir, "x.cnf")
	ids, err := lio.WriteDimacs(fac, name, g)
	c.Check(err == nil, "WriteDimacs: %v", err)
	fac2 := f.NewFactory()
	cls, err := lio.ReadDimacs(fac2, name)
	c.Check(err == nil, "ReadDimacs: %v", err)
	c.Check(len(*cls) == len(x.parts), "%d clauses written, %d read", len(x.parts), len(*cls))
	var2 := map[int]bool{}
	for _, a := range x.aimed() {
		vals := map[string]bool{}
		for v := 0; v < x.w.N; v++ {
			id, ok := ids[x.w.Var(v)]
			c.Check(ok, "no number for v%d", v)
			var2[id] = true
			vals[vname(id)] = a[v]
		}
		all := true
		for _, cl := range *cls {
			one := false
			for _, l := range f.Literals(fac2, cl).Content() {
				nm, ph, _ := fac2.LitNamePhase(l)
				val, ok := vals[nm]
				c.Check(ok, "the file mentions %s, no number of a variable", nm)
				one = one || val == ph
			}
			all = all && one
		}
		c.Check(all == x.n.evalAt(a), "the written file means something else under %v: %s", a, cut(x.n.String(), 1500))
	}
	c.Check(len(var2) == x.w.N, "%d variables share %d numbers", x.w.N, len(var2))
	x = newWide(c, width(r), KAnd, 0, true)
	fac = x.w.F
	g = x.w.Build(x.n)
	name = filepath.Join(dir, "x.txt")
	split := r.Bool()
	c.Check(lio.WriteFormula(fac, name, g, split) == nil, "WriteFormula failed")
	h, err := lio.ReadFormula(fac, name)
	c.Check(err == nil && h == g, "a formula of %d operands (one line each: %v) is read back as %s (%v)", len(x.parts), split, cut(h.Sprint(fac), 800), err)
	if split {
		hs, err := lio.ReadFormulas(fac, name)
		c.Check(err == nil && len(hs) == len(x.parts), "%d lines written, %d read (%v)", len(x.parts), len(hs), err)
	}
	c.Obs("wide formulas", 2)
}

func wide38(c *Ctx) {
	r := c.R
	x := newWide(c, width(r), KAnd, 1, false)
	a := make([]bool, x.w.N)
	for v := range a {
		a[v] = r.P(pick(r, 10, 50, 90))
	}
	ls := x.lits(a)
	ass, err := assignment.New(x.w.F, ls...)
	c.Check(err == nil, "assignment: %v", err)
	c.Check(ass.Size() == len(a), "an assignment of %d literals has size %d", len(a), ass.Size())
	var pos, neg []int
	for v, t := range a {
		if t {
			pos = append(pos, v)
		} else {
			neg = append(neg, v)
		}
	}
	c.Check(eqInts(x.w.VarIdxSet(ass.PosVars()), pos), "positive variables %v, want %v", x.w.VarIdxSet(ass.PosVars()), pos)
	c.Check(eqInts(x.w.VarIdxSet(ass.NegVars()), neg), "negative variables %v, want %v", x.w.VarIdxSet(ass.NegVars()), neg)
	m := model.New(ls...)
	ass2, err := m.Assignment(x.w.F)
	c.Check(err == nil, "assignment of a model: %v", err)
	c.Check(ass2.Size() == len(a), "the assignment of a model of %d literals has size %d", len(a), ass2.Size())
	set := f.NewMutableLitSet(ls...)
	c.Check(set.Size() == len(ls), "a set of %d literals has size %d", len(ls), set.Size())
	for _, l := range ls {
		c.Check(set.Contains(l), "a set of %d literals misses one", len(ls))
		c.Check(!set.Contains(l.Negate(x.w.F)), "a set of %d literals has one too many", len(ls))
	}
	for i := r.Intn(len(ls)); i > 0; i-- {
		set.Remove(ls[i])
		c.Check(!set.Contains(ls[i]), "a removed literal is still in the set")
	}
	c.Obs("wide sets", 1)
}
