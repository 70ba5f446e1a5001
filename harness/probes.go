package main

import (
	"fmt"

	"github.com/booleworks/logicng-go/event"
	f "github.com/booleworks/logicng-go/formula"
	"github.com/booleworks/logicng-go/handler"
	"github.com/booleworks/logicng-go/sat"
)

var _ = fmt.Sprint
var _ handler.Handler
var _ event.Event

// Regression guards for repaired defects and witnesses of known findings.
func init() {
	probe("pbc-slice-aliasing", "P02", func(c *Ctx) {
		fac := f.NewFactory()
		ls := []f.Literal{fac.Lit("a", true), fac.Lit("b", false)}
		cs := []int{2, 3}
		g := fac.PBC(f.LE, 4, ls, cs)
		t := g.Sprint(fac)
		ls[0], cs[0] = fac.Lit("z", true), -9
		_, _, l2, c2, _ := fac.PBCOps(g)
		c.Check(l2[0] == fac.Lit("a", true) && c2[0] == 2 && fac.PBC(f.LE, 4, []f.Literal{fac.Lit("a", true), fac.Lit("b", false)}, []int{2, 3}) == g, "constraint %s follows the caller's slices", t)
	})
	probe("solver-sorts-cc", "P02", func(c *Ctx) {
		fac := f.NewFactory()
		vs := []f.Variable{fac.Var("a"), fac.Var("b"), fac.Var("c")}
		g := fac.AMO(vs[2], vs[0], vs[1])
		cfg := sat.DefaultConfig()
		cfg.UseAtMostClauses = true
		s := sat.NewSolver(fac, cfg)
		s.Add(g)
		_, _, l, _, _ := fac.PBCOps(g)
		c.Check(l[0] == vs[2].AsLiteral() && l[1] == vs[0].AsLiteral(), "adding %s to a solver reordered the constraint", g.Sprint(fac))
		c.Check(fac.AMO(vs[2], vs[0], vs[1]) == g, "constraint is no longer found after adding it to a solver")
	})
	probe("cancelled-conflict-lost", "P16", func(c *Ctx) {
		for n := 1; n < 40; n++ {
			for _, sticky := range []bool{true, false} {
				fac := f.NewFactory()
				s := sat.NewSolver(fac)
				s.Add(sat.GeneratePigeonHole(fac, 3))
				h := &CancelAt{N: n, Sticky: sticky}
				res := s.Call(sat.WithHandler(h))
				if h.Fired > 0 {
					c.Check(res.Canceled(), "handler stopped at event %d (%s), result is sat=%v, OK", n, h.Cause.EventType(), res.Sat())
					c.Check(h.After <= 1, "solver went on for %d events after being stopped", h.After)
				}
				c.Check(!s.Sat(), "unsatisfiable problem reported satisfiable after a cancelled call (event %d)", n)
			}
		}
	})
	probe("assumption-core-order", "P13", func(c *Ctx) {
		fac := f.NewFactory()
		var vs []f.Variable
		for i := 0; i < 6; i++ {
			vs = append(vs, fac.Var(fmt.Sprint("v", i)))
		}
		cfg := sat.DefaultConfig()
		cfg.ProofGeneration = true
		s := sat.NewSolver(fac, cfg)
		p := f.NewStandardProposition(fac.Or(vs[0].Negate(fac).AsFormula(), vs[5].Negate(fac).AsFormula()))
		s.AddProposition(p)
		res := s.Call(sat.WithCore().Variable(vs[5], vs[0], vs[3], vs[2], vs[1]))
		c.Check(!res.Sat(), "satisfiable")
		var fs []f.Formula
		for _, q := range res.UnsatCore().Propositions {
			fs = append(fs, q.Formula())
		}
		c.Check(!sat.IsSatisfiable(fac, fac.And(fs...)), "core is satisfiable: %s", sprints(fac, fs))
	})
}
