package main

import (
	"fmt"

	"github.com/booleworks/logicng-go/encoding"
	f "github.com/booleworks/logicng-go/formula"
	"github.com/booleworks/logicng-go/sat"
)

func runP10(c *Ctx) {
	if c.Idx%161 == 11 {
		wide10(c)
		return
	}
	r := c.R
	if r.P(8) {
		p10large(c)
		return
	}
	nv := r.Range(1, 7)
	if r.P(10) {
		nv = r.Range(8, 10)
	}
	w := NewWorld(r, nv, r.P(20))
	fac := w.F
	k := 1
	if r.P(25) {
		k = 2
	}
	all := TTConst(nv, true)
	var allNodes []*Node
	seen := map[int]bool{}
	for i := 0; i < k; i++ {
		n := genBigPBC(r, nv, nv > 7)
		g := w.Build(n)
		t := n.TT(nv)
		c.EqTT(w.TTOf(g), t, "%s as formula", n)
		if g.Sort() != f.SortPBC && g.Sort() != f.SortCC {
			c.Obs("constants", 1)
			continue
		}
		// normalisation and negation
		norm := encoding.Normalize(fac, g)
		c.Logf("%s normalised %s", n, cut(norm.Sprint(fac), 400))
		c.EqTT(w.TTOf(norm), t, "normalised form of %s is %s", n, norm.Sprint(fac))
		p10normal(c, w, g, w.From(norm))
		c.Check(encoding.Normalize(fac, g) == norm, "normalising %s twice gives different formulas", n)
		neg := encoding.NegatePBC(fac, g)
		c.EqTT(w.TTOf(neg), t.Not(), "negation of %s is %s", n, neg.Sprint(fac))
		c.Obs("normalised", 1)

		cfg := randEncConfig(r)
		maxc, sum := 0, 0
		for _, x := range n.Coefs {
			if x < 0 {
				x = -x
			}
			sum += x
			maxc = max(maxc, x)
		}
		for sum > 400 && (cfg.PBCEncoder == encoding.PBCSWC || cfg.PBCEncoder == encoding.PBCBest) {
			// the weight counter needs rhs*n variables
			cfg.PBCEncoder = encoding.PBCEncoder(r.Intn(4))
		}
		ns, how := encodeConstraint(c, w, g, cfg, true)
		what := fmt.Sprintf("%s encoded (%s; %s)", n, how, encName(cfg))
		c.EqTT(ProjTTNodes(nv, len(auxIdx(w, ns)) == 0, ns...), t, "%s", what)
		for a := range auxIdx(w, ns) {
			c.Check(!seen[a], "%s: auxiliary variable %s is shared", what, w.Extra[a-w.N])
			seen[a] = true
		}
		all = all.And(t)
		allNodes = append(allNodes, ns...)
		c.Obs("encoder "+cfg.PBCEncoder.String(), 1)
		if maxc > 1<<31 {
			c.Obs("coefficients beyond 32 bits", 1)
		}
		if maxc > 1000 {
			c.Obs("large coefficients", 1)
		}
		c.NT(what)
		c.Sample("%s", what)
		// on a solver
		if r.P(25) {
			fac.PutConfiguration(cfg)
			s := sat.NewSolver(fac, randSatConfig(r))
			s.Add(g)
			for j := 0; j < 16; j++ {
				a := uint64(r.Intn(1 << uint(nv)))
				p := sat.Params()
				for v := 0; v < nv; v++ {
					p.Literal(w.Lit(PLit{v, a>>uint(v)&1 == 1}))
				}
				got := s.Call(p).Sat()
				c.Check(got == t.Get(a), "%s on solver (%s): assignment %b accepted=%v", n, encName(cfg), a, got)
			}
			c.Obs("solver encodings", 1)
		}
	}
	if k == 2 {
		c.EqTT(ProjTTNodes(nv, false, allNodes...), all, "conjunction of 2 encodings on one factory")
	}
}

// p10large encodes constraints over many variables; the membership of
// assignments whose weight is at or next to the bound is asked from the
// reference solver.
func p10large(c *Ctx) {
	r := c.R
	cfg := randEncConfig(r)
	nv := r.Range(11, 24)
	if cfg.BinaryMergeUseGAC {
		nv = r.Range(11, 15)
	}
	w := NewWorld(r, nv, false)
	n := &Node{K: KPBC, Cmp: Cmp(r.Intn(5))}
	kind := r.Intn(5)
	neg := r.P(30)
	for v := 0; v < nv; v++ {
		co := 0
		switch kind {
		case 0:
			co = r.Range(1, 4)
		case 1:
			co = r.Range(1, 20)
		case 2:
			co = 1 << uint(r.Intn(6))
		case 3:
			co = pick(r, 1, 2, 5, 10, 11)
		default:
			co = pick(r, 1, 1, 1, 30, 31, 32)
		}
		if neg && r.P(40) {
			co = -co
		}
		n.Lits = append(n.Lits, PLit{v, r.P(75)})
		n.Coefs = append(n.Coefs, co)
	}
	weight := func(a []bool) int {
		s := 0
		for i, l := range n.Lits {
			if a[l.V] == l.Pos {
				s += n.Coefs[i]
			}
		}
		return s
	}
	random := func() []bool {
		a := make([]bool, nv)
		p := pick(r, 20, 50, 50, 80)
		for v := range a {
			a[v] = r.P(p)
		}
		return a
	}
	base := random()
	n.Rhs = weight(base) + r.Range(-1, 1)
	// the weight counter needs about bound*n variables
	if r.P(80) && (cfg.PBCEncoder == encoding.PBCSWC || cfg.PBCEncoder == encoding.PBCBest) {
		cfg.PBCEncoder = pick(r, encoding.PBCBinaryMerge, encoding.PBCAdderNetworks)
	}
	g := w.Build(n)
	what := fmt.Sprintf("%s (%s)", n, encName(cfg))
	c.Logf("%s", what)
	if g.Sort() != f.SortPBC {
		return
	}
	norm := w.From(encoding.Normalize(w.F, g))
	ns, _ := encodeConstraint(c, w, g, cfg, true)
	cur := base
	gen := func(i int) []bool {
		if i%4 == 3 {
			cur = random()
		}
		// walk towards the bound
		a := append([]bool{}, cur...)
		for k := 0; k < 12; k++ {
			v := r.Intn(nv)
			old := weight(a)
			a[v] = !a[v]
			d, o := weight(a)-n.Rhs, old-n.Rhs
			if d < 0 {
				d = -d
			}
			if o < 0 {
				o = -o
			}
			if d > max(o, 1) {
				a[v] = !a[v]
			}
		}
		cur = a
		c.Check(evalBig(norm, a) == n.Cmp.Eval(weight(a), n.Rhs), "normalised form of %s differs: %s", what, norm)
		return a
	}
	sampleProj(c, w, ns, func(a []bool) bool { return n.Cmp.Eval(weight(a), n.Rhs) }, gen, 24, what)
	c.NT("L" + what)
	c.Obs("large constraints", 1)
}

// p10normal checks the normal form: a <= constraint with positive
// coefficients over distinct variables (a conjunction of two for =).
func p10normal(c *Ctx, w *World, g f.Formula, n *Node) {
	ok := func(m *Node) bool {
		switch m.K {
		case KFalse, KTrue:
			return true
		case KCC, KPBC:
			if m.Cmp != LE || m.Rhs < 0 {
				return false
			}
			vs := map[int]bool{}
			for i, l := range m.Lits {
				if m.K == KPBC && m.Coefs[i] <= 0 || vs[l.V] {
					return false
				}
				vs[l.V] = true
			}
			return true
		}
		return false
	}
	if n.K == KAnd {
		for _, o := range n.Ops {
			c.Check(ok(o), "normalised form of %s contains %s", g.Sprint(w.F), o)
		}
		return
	}
	c.Check(ok(n), "normalised form of %s is %s", g.Sprint(w.F), n)
}

func genBigPBC(r *Rng, nv int, small bool) *Node {
	k := r.Range(1, nv)
	if r.P(15) {
		k = r.Range(1, nv+3)
	}
	p := r.Perm(nv)
	n := &Node{K: KPBC, Cmp: Cmp(r.Intn(5))}
	style := r.Intn(8)
	if small {
		style = r.Intn(4)
	}
	lo, hi := 0, 0
	for i := 0; i < k; i++ {
		v := p[i%nv]
		if r.P(10) {
			v = r.Intn(nv)
		}
		co := 0
		switch style {
		case 0:
			co = r.Range(-3, 3)
		case 1:
			co = 1
		case 2:
			co = 1 << uint(r.Intn(8))
		case 3:
			co = r.Range(1, 20)
		case 4:
			co = r.Range(-40, 40)
		case 5: // powers of two and their neighbours up to 2^27
			co = 1<<uint(r.Range(0, 27)) + r.Range(-1, 1)
		case 6:
			co = r.Range(-1<<27, 1<<27)
		case 7: // beyond 32 bits
			co = 1<<uint(r.Range(28, 40)) + r.Range(-1, 1)
			if r.P(20) {
				co = -co
			}
		}
		if style != 1 && r.P(5) {
			co = 0
		}
		n.Lits = append(n.Lits, PLit{v, r.P(65)})
		n.Coefs = append(n.Coefs, co)
		if co > 0 {
			hi += co
		} else {
			lo += co
		}
	}
	switch r.Intn(4) {
	case 0, 1: // the weight of some assignment, or next to it
		s := 0
		a := r.U64()
		for i, l := range n.Lits {
			if (a>>uint(l.V)&1 == 1) == l.Pos {
				s += n.Coefs[i]
			}
		}
		n.Rhs = s + r.Range(-1, 1)
	default:
		n.Rhs = r.Range(lo-1, hi+1)
	}
	return n
}

func init() {
	register(&PropDef{ID: "P10", Quick: 16000, Thorough: 300000, Run: runP10,
		Rule: "one case = 1-2 random pseudo-Boolean constraints over up to 10 variables (coefficients up to 2^40, negative, zero, repeated variables, bounds at or next to reachable weights); normal form, negation and the encoding with a random configuration (as formulas, into an own result, into a solver) are compared with the truth table; non-trivial = distinct constraint/configuration pairs",
		Need: []string{"normalised", "large coefficients", "coefficients beyond 32 bits", "encoder PBCSWC", "encoder PBCBinaryMerge", "encoder PBCAdderNetworks", "solver encodings", "large constraints", "boundary assignments accepted", "boundary assignments refused"}})
}

func init() {
	probe("pbc-equality-zero-coefficients", "P10", func(c *Ctx) {
		w := NewWorldPlain(4, false)
		ls := w.Lits([]PLit{{0, true}, {1, true}, {2, false}, {3, true}})
		for _, cs := range [][]int{{0, 2, 3, 1}, {2, 0, 3, 1}, {3, 2, 0, -1}, {0, 0, 2, 5}} {
			for rhs := 0; rhs < 6; rhs++ {
				g := w.F.PBC(f.EQ, rhs, ls, cs)
				n := encoding.Normalize(w.F, g)
				c.EqTT(w.TTOf(n), w.TTOf(g), "%s normalised to %s", g.Sprint(w.F), n.Sprint(w.F))
			}
		}
	})
	probe("pbc-adder-31-bits", "P10", func(c *Ctx) {
		for _, k := range []uint{30, 31, 32, 33, 40} {
			w := NewWorldPlain(2, false)
			cfg := encoding.DefaultConfig()
			cfg.PBCEncoder = encoding.PBCAdderNetworks
			g := w.F.PBC(f.LE, 1<<k, w.Lits([]PLit{{0, true}, {1, true}}), []int{1 << k, 1})
			fs, err := encoding.EncodePBC(w.F, g, cfg)
			c.Check(err == nil, "%v", err)
			c.EqTT(w.ProjTT(fs...), w.TTOf(g), "%s encoded", g.Sprint(w.F))
		}
	})
	probe("assumption-levels", "P12", func(c *Ctx) {
		for seed := 0; seed < 300; seed++ {
			r := NewRng(uint64(seed), "assumption-levels", 0)
			nv := r.Range(4, 8)
			w := NewWorldPlain(nv, false)
			cfg := sat.DefaultConfig()
			cfg.UseAtMostClauses = r.Bool()
			s := sat.NewSolver(w.F, cfg)
			t := TTConst(nv, true)
			for i := 0; i < nv; i++ {
				n := clausesNode(GenClauses(r, nv, 3, 2, 3))
				t = t.And(n.TT(nv))
				s.Add(w.Build(n))
			}
			for j := 0; j < 10; j++ {
				a := uint64(r.Intn(1 << uint(nv)))
				p := sat.Params()
				for k := 0; k < 3; k++ { // assumptions are repeated
					for v := 0; v < nv; v++ {
						p.Literal(w.Lit(PLit{v, a>>uint(v)&1 == 1}))
					}
				}
				c.Check(s.Call(p).Sat() == t.Get(a), "assignment %b with repeated assumptions", a)
			}
		}
	})
}
