package main

import (
	"fmt"
	"sort"
	"strings"

	"github.com/booleworks/logicng-go/assignment"
	f "github.com/booleworks/logicng-go/formula"
	"github.com/booleworks/logicng-go/model"
)

func (w *World) partial(r *Rng, pct int) (lits []f.Literal, mask, val uint64) {
	for _, v := range r.Subset(w.N, pct) {
		p := r.Bool()
		lits = append(lits, w.Lit(PLit{v, p}))
		mask |= 1 << uint(v)
		if p {
			val |= 1 << uint(v)
		}
	}
	return shuffled(r, lits), mask, val
}

func runP05(c *Ctx) {
	if c.Idx%167 == 11 {
		wide05(c)
		return
	}
	r := c.R
	nv := r.Range(1, 7)
	w := NewWorld(r, nv, r.P(30))
	fac := w.F
	for k := 0; k < 6; k++ {
		cfg := stdCfg(r, nv)
		cfg.CCClean = r.P(70)
		cfg.MaxCoef = pick(r, 2, 5, 40)
		cfg.Huge = pick(r, 0, 0, 20)
		if r.P(60) {
			cfg.CC, cfg.PB = r.Intn(4), r.Intn(4)
		}
		n := Gen(r, cfg)
		g := w.Build(n)
		tt := n.TT(nv)
		txt := cut(g.Sprint(fac), 400)
		vars := n.Vars()
		for q := 0; q < 6; q++ {
			lits, mask, val := w.partial(r, pick(r, 10, 40, 60, 100))
			c.Logf("formula %s assignment %d/%d", txt, mask, val)
			a, err := assignment.New(fac, lits...)
			if err != nil {
				c.Failf("consistent assignment refused: %v", err)
			}
			as := a.Sprint(fac)
			// evaluation: unassigned = false
			c.Check(assignment.Evaluate(fac, g, a) == tt.Get(val), "%s evaluates to %v under %s", txt, !tt.Get(val), as)
			// restriction
			res := assignment.Restrict(fac, g, a)
			ct := tt
			for v := 0; v < nv; v++ {
				if mask>>uint(v)&1 == 1 {
					ct = ct.Cof(v, val>>uint(v)&1 == 1)
				}
			}
			rn := w.From(res)
			c.Check(w.OnlyBase(rn), "restricting %s by %s brings new variables: %s", txt, as, res.Sprint(fac))
			for _, v := range rn.Vars() {
				c.Check(mask>>uint(v)&1 == 0, "restricting %s by %s keeps %s: %s", txt, as, w.name[v], res.Sprint(fac))
			}
			c.EqTT(rn.TT(nv), ct, "restricting %s by %s to %s", txt, as, res.Sprint(fac))
			// constant evaluation
			m := map[f.Variable]bool{}
			total := true
			for _, l := range lits {
				m[l.Variable()] = l.IsPos()
			}
			for _, v := range vars {
				total = total && mask>>uint(v)&1 == 1
			}
			t, fl := assignment.EvaluatesToTrue(fac, g, m), assignment.EvaluatesToFalse(fac, g, m)
			c.Check(!t || ct.IsTrue(), "%s is said to evaluate to true under %s but does not", txt, as)
			c.Check(!fl || ct.IsFalse(), "%s is said to evaluate to false under %s but does not", txt, as)
			if total {
				c.Check(t == ct.IsTrue() && fl == ct.IsFalse(), "%s under the complete assignment %s: true=%v false=%v", txt, as, t, fl)
				c.Obs("complete evaluations", 1)
			} else {
				c.Obs("partial evaluations", 1)
			}
			if t || fl {
				c.Obs("constant verdicts", 1)
			}
			if rn.Size() > 1 {
				c.NT(txt + as)
			}
			p05API(c, w, r, a, lits, mask, val)
		}
		if k == 0 {
			c.Sample("%s", txt)
		}
	}
}

func p05API(c *Ctx, w *World, r *Rng, a *assignment.Assignment, lits []f.Literal, mask, val uint64) {
	fac := w.F
	c.Check(a.Size() == len(lits), "assignment of %d literals has size %d", len(lits), a.Size())
	var pos []string
	type nl struct{ n, s string }
	var all []nl
	var neg []string
	for _, l := range lits {
		n, p, _ := fac.LitNamePhase(l)
		if p {
			pos = append(pos, n)
			all = append(all, nl{n, n})
		} else {
			neg = append(neg, n)
			all = append(all, nl{n, "~" + n})
		}
	}
	sort.Strings(pos)
	sort.Strings(neg)
	sort.Slice(all, func(i, j int) bool { return all[i].n < all[j].n })
	var ss []string
	for _, x := range all {
		ss = append(ss, x.s)
	}
	c.Check(a.Sprint(fac) == "["+strings.Join(ss, ", ")+"]", "assignment prints %s, expected %v", a.Sprint(fac), ss)
	names := func(vs []f.Variable) string {
		var o []string
		for _, v := range vs {
			n, _ := fac.VarName(v)
			o = append(o, n)
		}
		sort.Strings(o)
		return fmt.Sprint(o)
	}
	c.Check(names(a.PosVars()) == fmt.Sprint(pos), "positive variables of %s are %s", a.Sprint(fac), names(a.PosVars()))
	if len(lits) > 0 {
		l := lits[r.Intn(len(lits))]
		c.Check(a.AddLit(fac, l) == nil && a.Size() == len(lits), "re-adding a literal changes the assignment")
		c.Check(a.AddLit(fac, l.Negate(fac)) != nil && a.Size() == len(lits), "complementary literal accepted or counted")
		_, err := assignment.New(fac, append(append([]f.Literal{}, lits...), l.Negate(fac))...)
		c.Check(err != nil, "assignment with complementary literals accepted")
	}
	// models
	m := model.New(append([]f.Literal{}, lits...)...)
	c.Check(m.Size() == len(lits) && names(m.PosVars()) == fmt.Sprint(pos) && names(m.NegVars()) == fmt.Sprint(neg), "model %s: size %d, positive %s, negative %s", m.Sprint(fac), m.Size(), names(m.PosVars()), names(m.NegVars()))
	for _, l := range m.NegLits() {
		c.Check(l.IsNeg(), "negative literals of a model contain %s", l.Sprint(fac))
	}
	c.Check(len(m.NegLits()) == len(neg), "%d negative literals instead of %d", len(m.NegLits()), len(neg))
	b, err := m.Assignment(fac)
	c.Check(err == nil && b.Sprint(fac) == a.Sprint(fac), "model %s becomes assignment %v", m.Sprint(fac), b)
	ft := TTConst(w.N, true)
	for v := 0; v < w.N; v++ {
		if mask>>uint(v)&1 == 1 {
			x := TTVar(w.N, v)
			if val>>uint(v)&1 == 0 {
				x = x.Not()
			}
			ft = ft.And(x)
		}
	}
	c.EqTT(w.TTOf(m.Formula(fac)), ft, "formula of model %s", m.Sprint(fac))
	m2 := model.FromAssignment(fac, *a)
	mk, vl, e := w.LitsAsg(m2.Literals)
	c.Check(e == "" && mk == mask && vl == val, "assignment %s becomes model %s", a.Sprint(fac), m2.Sprint(fac))
}

func init() {
	register(&PropDef{ID: "P05", Quick: 50000, Thorough: 900000, Run: runP05,
		Rule: "one case = 6 random formulas (incl. constraints with negative coefficients) x 6 random (partial) assignments; Evaluate, Restrict, EvaluatesToTrue/False and the assignment/model API against own evaluation and truth-table cofactors; non-trivial = distinct (formula, assignment) pairs whose restriction is not an atom",
		Need: []string{"complete evaluations", "partial evaluations", "constant verdicts"}})
	probe("assignment-negvars", "P05", func(c *Ctx) {
		fac := f.NewFactory()
		a, _ := assignment.New(fac, fac.Lit("a", false))
		v := a.NegVars()[0]
		c.Check(v == fac.Var("a"), "Assignment.NegVars returns the ID of the negative literal %d as variable instead of variable %d", v, fac.Var("a"))
	})
	probe("model-from-assignment", "P05", func(c *Ctx) {
		fac := f.NewFactory()
		a, _ := assignment.New(fac, fac.Lit("a", false), fac.Lit("b", true))
		m := model.FromAssignment(fac, *a)
		b, err := m.Assignment(fac)
		c.Check(err == nil && b.Sprint(fac) == a.Sprint(fac), "model of assignment %s is %s", a.Sprint(fac), m.Sprint(fac))
	})
}
