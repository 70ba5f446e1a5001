package main

import (
	"fmt"

	f "github.com/booleworks/logicng-go/formula"
	"github.com/booleworks/logicng-go/sat"
)

func runP12(c *Ctx) {
	r := c.R
	sc := randSatConfig(r)
	if r.P(40) {
		sc = hotSatConfig(r)
	}
	nv := r.Range(2, 7)
	steps := r.Range(6, 30)
	if r.P(30) {
		nv = r.Range(12, 30)
		steps = r.Range(10, 40)
		sc = hotSatConfig(r)
	}
	h := newSH(c, sc, nv)
	for i := 0; i < steps; i++ {
		switch x := r.Intn(100); {
		case x < 22:
			if len(h.acts) < h.maxAct {
				h.add()
			} else {
				h.load()
			}
		case x < 26:
			if h.pb {
				h.addInc()
			}
		case x < 31:
			h.tighten()
		case x < 42:
			h.save()
		case x < 54:
			h.load()
		case x < 56:
			h.loadBad()
		case x < 82:
			h.call(false)
		case x < 87:
			h.enumerate()
		case x < 92:
			h.backbone()
		case x < 96:
			h.optimise()
		default:
			h.readback()
		}
	}
	h.call(false)
	h.readback()
	c.Obs("steps", steps)
	if len(h.acts) > 1 {
		c.NT(h.what())
	}
	c.Sample("%s", fmt.Sprint(h.hist))
}

func init() {
	register(&PropDef{ID: "P12", Quick: 40000, Thorough: 200000, Run: runP12, CPU: 120,
		Rule: "random histories (additions, incremental bounds, saves, loads, calls, enumerations, backbones, optimisations, cancelled calls) on one solver under random configurations; every answer compared with the conjunction of the formulas that should be on the solver",
		Need: []string{"satisfiable calls", "unsatisfiable calls", "states loaded", "invalid states refused", "enumerated models", "backbones", "optimisations", "read-backs", "bounds tightened", "cores judged", "cancelled calls", "formulas sharing parts with earlier ones"},
	})
}

func init() {
	probe("formulas-on-solver-after-load", "P12", func(c *Ctx) {
		fac := f.NewFactory()
		s := sat.NewSolver(fac)
		a, b := fac.Variable("a"), fac.Variable("b")
		s.Add(fac.Or(a, b))
		st := s.SaveState()
		s.Add(a)
		s.Sat()
		c.Check(s.LoadState(st) == nil, "loading the state failed")
		got := s.FormulasOnSolver()
		for _, g := range got {
			c.Check(g == fac.Or(a, b), "solver with a | b after loading a state also reports %s", g.Sprint(fac))
		}
	})
	probe("backbone-on-proof-solver", "P14", func(c *Ctx) {
		fac := f.NewFactory()
		s := sat.NewSolver(fac, sat.DefaultConfig().Proofs(true))
		a, b, x := fac.Var("a"), fac.Var("b"), fac.Var("x")
		s.Add(fac.Or(a.AsFormula(), b.AsFormula()), fac.Or(a.AsFormula(), b.AsFormula().Negate(fac)), fac.Or(x.AsFormula(), b.AsFormula()))
		bb := s.ComputeBackbone(fac, []f.Variable{a, b, x})
		c.Check(bb.Sat && len(bb.Positive) == 1 && bb.Positive[0] == a, "backbone on a proof tracing solver: %+v", bb)
	})
	probe("duplicate-atmost-load", "P12", func(c *Ctx) {
		fac := f.NewFactory()
		s := sat.NewSolver(fac, sat.DefaultConfig().UseAtMost(true))
		a, b, x := fac.Var("a"), fac.Var("b"), fac.Var("x")
		s.Add(fac.Or(a.AsFormula(), b.AsFormula(), x.AsFormula()))
		st := s.SaveState()
		s.Add(fac.CC(f.LE, 2, a, a, b, x))
		s.Sat()
		c.Check(s.LoadState(st) == nil, "loading the state failed")
		c.Check(s.Sat(), "unsatisfiable after loading")
	})
	probe("atmost-on-proof-solver", "P13", func(c *Ctx) {
		fac := f.NewFactory()
		s := sat.NewSolver(fac, sat.DefaultConfig().Proofs(true).UseAtMost(true))
		a, b, x := fac.Var("a"), fac.Var("b"), fac.Var("x")
		amo := f.NewStandardProposition(fac.AMO(a, b, x))
		s.AddProposition(amo, f.NewStandardProposition(a.AsFormula()), f.NewStandardProposition(b.AsFormula()))
		res := s.Call(sat.WithCore())
		c.Check(!res.Sat(), "satisfiable")
		core := res.UnsatCore().Propositions
		c.Check(len(core) == 3, "core of {a+b+x<=1, a, b} has %d propositions", len(core))
	})
	probe("proof-variables", "P13", func(c *Ctx) {
		for k := 0; k < 400; k++ {
			r := NewRng(13, "proofvars", k)
			w := NewWorldPlain(12, false)
			s := sat.NewSolver(w.F, sat.DefaultConfig().Proofs(true))
			for i := 0; i < 40; i++ {
				var l []f.Formula
				for j := 0; j < 3; j++ {
					l = append(l, w.Lit(PLit{r.Intn(6), r.Bool()}).AsFormula())
				}
				s.AddProposition(f.NewStandardProposition(w.F.Or(l...)))
			}
			st := s.SaveState()
			_ = st
			for q := 0; q < 4; q++ {
				var x []f.Formula
				for i := 0; i < 12; i++ {
					x = append(x, w.F.Or(w.Lit(PLit{r.Intn(12), r.Bool()}).AsFormula(), w.Lit(PLit{r.Intn(12), r.Bool()}).AsFormula(), w.Lit(PLit{r.Intn(12), r.Bool()}).AsFormula()))
				}
				s.Call(sat.Params().Formula(x...).WithCore())
			}
			s.Call(sat.WithCore())
		}
	})
	probe("assumption-conflict-core", "P13", func(c *Ctx) {
		for k := 0; k < 6000; k++ {
			r := NewRng(13, "assumptioncore", k)
			w := NewWorldPlain(6, false)
			s := sat.NewSolver(w.F, sat.DefaultConfig().Proofs(true))
			rnd := func(n int) f.Formula {
				return w.F.Or(w.Lit(PLit{r.Intn(n), r.Bool()}).AsFormula(), w.Lit(PLit{r.Intn(n), r.Bool()}).AsFormula(), w.Lit(PLit{r.Intn(n), r.Bool()}).AsFormula())
			}
			for i := 0; i < 8; i++ {
				s.AddProposition(f.NewStandardProposition(rnd(3)))
			}
			for q := 0; q < 3; q++ {
				var x []f.Formula
				for i := 0; i < 4; i++ {
					x = append(x, rnd(6))
				}
				if q == 2 {
					x = nil
				}
				res := s.Call(sat.Params().Formula(x...).WithCore())
				c.Check(res.Sat() || len(res.UnsatCore().Propositions) > 0, "unsatisfiable call without a core")
			}
		}
	})
	probe("shared-definition-core", "P13", func(c *Ctx) {
		for _, m := range []sat.CNFMethod{sat.CNFPG, sat.CNFFullPG} {
			w := NewWorldPlain(5, false)
			s := sat.NewSolver(w.F, sat.DefaultConfig().Proofs(true).CNF(m))
			v := func(i int) f.Formula { return w.Lit(PLit{i, true}).AsFormula() }
			n := func(i int) f.Formula { return w.Lit(PLit{i, false}).AsFormula() }
			shared := w.F.And(v(0), v(1))
			s.AddProposition(f.NewStandardProposition(w.F.Or(v(2), shared)))
			s.Add(w.F.Or(v(3), shared))
			p := f.NewStandardProposition(n(0))
			q := f.NewStandardProposition(n(3))
			s.AddProposition(p, q)
			res := s.Call(sat.WithCore())
			c.Check(!res.Sat(), "satisfiable")
			e := NewRefEnc()
			for _, x := range res.UnsatCore().Propositions {
				e.Assert(w.From(x.Formula()))
			}
			ok, _ := e.S.Solve()
			c.Check(!ok, "core of a plain formula sharing a sub-formula with a proposition is satisfiable")
		}
	})
	probe("duplicate-literal-core", "P13", func(c *Ctx) {
		fac := f.NewFactory(true)
		for _, m := range []sat.CNFMethod{sat.CNFPG, sat.CNFFullPG, sat.CNFFactory} {
			s := sat.NewSolver(fac, sat.DefaultConfig().Proofs(true).CNF(m))
			x, b, y := fac.Variable("x"), fac.Variable("b"), fac.Variable("y")
			p := f.NewStandardProposition(fac.Or(x, fac.Equivalence(b, b.Negate(fac))))
			s.AddProposition(f.NewStandardProposition(fac.Or(x, y)), p)
			res := s.Call(sat.Params().Literal(fac.Lit("x", false)).WithCore())
			c.Check(!res.Sat() && len(res.UnsatCore().Propositions) == 2, "core of ~x and x | (b <=> ~b): %v", res.UnsatCore())
		}
	})
}
