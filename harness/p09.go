package main

import (
	"fmt"

	"github.com/booleworks/logicng-go/encoding"
	f "github.com/booleworks/logicng-go/formula"
	"github.com/booleworks/logicng-go/sat"
)

func runP09(c *Ctx) {
	r := c.R
	nv := r.Range(2, 9)
	if r.P(25) {
		nv = r.Range(10, 24)
	}
	w := NewWorld(r, nv, r.P(20))
	fac := w.F
	cfg := randEncConfig(r)
	upper := r.Bool()
	m := r.Range(2, nv)
	if nv > 3 {
		m = r.Range(3, nv)
	}
	sub := r.Perm(nv)[:m]
	vs := w.VarsOf(sub)
	bound := r.Range(0, m+1) // at most / at least
	if m >= 3 && r.P(80) {
		if bound = r.Range(1, m-1); !upper && bound == 1 {
			bound = 2
		}
	}
	cmp, rhs := LE, bound
	if upper {
		if r.P(40) {
			cmp, rhs = LT, bound+1
		}
	} else {
		cmp = GE
		if bound > 0 && r.P(40) {
			cmp, rhs = GT, bound-1
		}
	}
	g := fac.CC(csorts[cmp], uint32(rhs), vs...)
	what := fmt.Sprintf("%s (%s)", g.Sprint(fac), encName(cfg))
	c.Logf("incremental %s", what)

	// where the clauses go
	target := r.Intn(3)
	var rec *recResult
	var fe *encoding.FormulaEncoding
	var s *sat.Solver
	var data *encoding.CCIncrementalData
	var err error
	inFac := r.P(30) || target == 2
	var args []*encoding.Config
	if inFac {
		fac.PutConfiguration(cfg)
	} else {
		fac.PutConfiguration(randEncConfig(r))
		args = append(args, cfg)
	}
	extra := nTrueConst()
	switch target {
	case 0:
		rec = &recResult{fac: fac}
		data, err = encoding.EncodeIncremental(fac, g, rec, args...)
	case 1:
		fe = encoding.ResultForFormula(fac)
		data, err = encoding.EncodeIncremental(fac, g, fe, args...)
	case 2:
		sc := randSatConfig(r)
		sc.UseAtMostClauses = false
		s = sat.NewSolver(fac, sc)
		if r.Bool() {
			gc := stdCfg(r, nv)
			extra = Gen(r, gc)
			s.Add(w.Build(extra))
		}
		data, err = s.AddIncrementalCC(g)
	}
	trivial := false
	if upper {
		trivial = bound >= m || bound == 0
	} else {
		trivial = bound == 0 || bound == 1 || bound >= m
	}
	c.Check((err != nil) == trivial && (data == nil) == trivial, "%s: incremental data %v, error %v", what, data != nil, err)

	count := func(a func(int) bool) int {
		n := 0
		for _, v := range sub {
			if a(v) {
				n++
			}
		}
		return n
	}
	holds := func(k int, b int) bool {
		if upper {
			return k <= b
		}
		return k >= b
	}
	hist := []int{bound}
	verify := func() {
		step := fmt.Sprintf("%s with bounds %v", what, hist)
		if target == 2 {
			// ask the solver
			k := 1 << uint(min(nv, 30))
			if nv > 6 {
				k = 24
			}
			for i := 0; i < k; i++ {
				a := uint64(i)
				if nv > 6 {
					a = p09near(r, sub, nv, bound)
				}
				p := sat.Params()
				for v := 0; v < nv; v++ {
					p.Literal(w.Lit(PLit{v, a>>uint(v)&1 == 1}))
				}
				got := s.Call(p).Sat()
				want := holds(count(func(v int) bool { return a>>uint(v)&1 == 1 }), bound) && extra.Eval(a)
				c.Check(got == want, "%s on solver: assignment %b accepted=%v, expected %v", step, a, got, want)
			}
			c.Obs("states asked on solver", 1)
			return
		}
		var ns []*Node
		if rec != nil {
			ns = rec.Nodes(w)
		} else {
			for _, x := range fe.Formulas() {
				ns = append(ns, w.From(x))
			}
		}
		if nv <= 9 {
			t := NewTT(nv)
			for a := uint64(0); a < 1<<uint(nv); a++ {
				if holds(count(func(v int) bool { return a>>uint(v)&1 == 1 }), bound) {
					t.Set(a)
				}
			}
			c.EqTT(ProjTTNodes(nv, len(auxIdx(w, ns)) == 0, ns...), t, "%s", step)
		} else {
			sampleProj(c, w, ns, func(a []bool) bool { return holds(count(func(v int) bool { return a[v] }), bound) }, func(i int) []bool {
				x := p09near(r, sub, nv, bound)
				a := make([]bool, nv)
				for v := range a {
					a[v] = x>>uint(v)&1 == 1
				}
				return a
			}, 20, step)
		}
		c.Obs("states checked as clauses", 1)
	}
	verify()
	if data == nil {
		c.Obs("trivial constraints", 1)
		return
	}
	for step := 0; step < 5; step++ {
		nb := 0
		if upper {
			if bound == 0 {
				break
			}
			nb = bound - r.Range(1, max(1, min(bound, pick(r, 1, 2, bound))))
		} else {
			if bound == m {
				break
			}
			nb = bound + r.Range(1, max(1, min(m-bound, pick(r, 1, 2, m-bound))))
		}
		c.Logf("new bound %d", nb)
		if r.P(10) { // a bound that does not tighten is refused
			bad := bound + r.Range(0, 2)
			if !upper {
				bad = bound - r.Range(0, 2)
			}
			refused := true
			func() {
				defer func() { recover() }()
				if upper {
					data.NewUpperBoundForSolver(bad)
				} else {
					data.NewLowerBoundForSolver(bad)
				}
				refused = false
			}()
			c.Check(refused, "%s: bound %d after %v is accepted", what, bad, hist)
			c.Obs("illegal bounds refused", 1)
		}
		var fs []f.Formula
		switch {
		case upper && target != 1:
			data.NewUpperBoundForSolver(nb)
		case upper:
			fs = data.NewUpperBound(nb)
		case target != 1:
			data.NewLowerBoundForSolver(nb)
		default:
			fs = data.NewLowerBound(nb)
		}
		if target == 1 {
			c.Check(len(fs) == len(fe.Formulas()), "%s: NewUpperBound/NewLowerBound returns %d of %d formulas", what, len(fs), len(fe.Formulas()))
		}
		bound = nb
		hist = append(hist, nb)
		verify()
		if target == 2 && r.P(30) {
			gc := stdCfg(r, nv)
			gc.Depth = 1
			n := Gen(r, gc)
			s.Add(w.Build(n))
			extra = nAnd(extra, n)
		}
		c.Obs("tightenings", 1)
	}
	c.NT(fmt.Sprint(what, hist, target))
	c.Sample("%s bounds %v target %d", what, hist, target)
}

func nTrueConst() *Node { return &Node{K: KTrue} }

// p09near is an assignment whose number of true variables in sub is close to b.
func p09near(r *Rng, sub []int, nv, b int) uint64 {
	a := r.U64() & (1<<uint(nv) - 1)
	k := b + r.Range(-1, 1)
	for i, v := range shuffled(r, append([]int{}, sub...)) {
		if i < k {
			a |= 1 << uint(v)
		} else {
			a &^= 1 << uint(v)
		}
	}
	return a
}

func init() {
	register(&PropDef{ID: "P09", Quick: 16000, Thorough: 300000, Run: runP09,
		Rule: "one case = an incremental at-most or at-least constraint over up to 24 variables encoded as clauses, into an own result or on a solver (also with other formulas), then a random sequence of tightenings; after each step the admitted assignments are compared with the constraint (all of them up to 9 variables, boundary samples beyond); non-trivial = distinct constraint, configuration and bound history",
		Need: []string{"states asked on solver", "states checked as clauses", "tightenings", "illegal bounds refused"}})
}
