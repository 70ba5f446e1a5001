HEAD='''package errorx_test

import (
	"testing"

%s
	f "github.com/booleworks/logicng-go/formula"
	"github.com/booleworks/logicng-go/parser"
)

var _ = parser.New
var _ = f.NewFactory
'''
def demo(imports, body):
    std=[i for i in imports if i.startswith("std:")]
    return HEAD % ("\n".join('\t"%s"'%i[4:] for i in std)+"\n"+"\n".join('\t"github.com/booleworks/logicng-go/%s"'%i for i in imports if i not in std))+body

SEEDS.append(dict(id="p12-state-id-reuse", property="P12",
 needs="saving two states, loading the first, saving again and then loading the second state, which the first load has made invalid",
 breaks="state identifiers are reused after a load, so an outdated state is taken for the new one instead of being rejected",
 edits=[("sat/core.go","	shrinkTo(&m.validStates, index+1)\n	m.completeBacktrack()","	shrinkTo(&m.validStates, index+1)\n	m.stateId = solverState.id + 1\n	m.completeBacktrack()"),
        ("sat/core.go","		if learnt.learntOnState <= solverState.id {","		if learnt.learntOnState < m.stateId {")],
 demo=demo(["sat"],'''
func TestDemo(t *testing.T) {
	fac := f.NewFactory()
	s := sat.NewSolver(fac)
	s.Add(fac.Clause(fac.Lit("a", true), fac.Lit("b", true)))
	s0 := s.SaveState()
	s.Add(fac.Lit("a", false).AsFormula())
	s1 := s.SaveState()
	if err := s.LoadState(s0); err != nil {
		t.Fatal(err)
	}
	s.Add(fac.Lit("c", true).AsFormula())
	s2 := s.SaveState()
	if err := s.LoadState(s1); err == nil {
		t.Fatal("a state which is not valid any more was loaded")
	}
	if err := s.LoadState(s2); err != nil {
		t.Fatal(err)
	}
}
''')))

SEEDS.append(dict(id="p22-bmo-boundary", property="P22",
 needs="weighted soft formulas in which a weight is exactly one smaller than the sum of all smaller weights, and the linear search with the BMO strategy",
 breaks="the problem is taken for a BMO problem and solved lexicographically, with a cost that is not the optimum",
 edits=[("maxsat/algorithm.go","		if m.orderWeights[i] < totalWeights {","		if m.orderWeights[i] < totalWeights-1 {")],
 demo=demo(["maxsat"],'''
func TestDemo(t *testing.T) {
	for n := 2; n < 8; n++ {
		fac := f.NewFactory()
		cfg := maxsat.DefaultConfig()
		cfg.BMO = true
		s := maxsat.LinearSU(fac, cfg)
		x := fac.Var("x")
		if err := s.AddSoftFormula(x.AsFormula(), n-1); err != nil {
			t.Fatal(err)
		}
		for i := 0; i < n; i++ {
			y := fac.Var(string(rune('a' + i)))
			s.AddHardFormula(fac.Clause(x.Negate(fac), y.Negate(fac)))
			if err := s.AddSoftFormula(y.AsFormula(), 1); err != nil {
				t.Fatal(err)
			}
		}
		if r := s.Solve(); !r.Satisfiable || r.Optimum != n-1 {
			t.Fatal(n, r.Optimum)
		}
	}
}
''')))

SEEDS.append(dict(id="p23-definitions-after-load", property="P23",
 needs="a nested formula added after a saved state, the load of that state, and the same formula added again",
 breaks="the definitions of the auxiliary variables are not added again after the load, so the formula constrains nothing",
 edits=[("maxsat/solver.go","	if m.pgTransformation != nil {\n		m.pgTransformation.clearCache()\n	}\n	return nil","	return nil")],
 demo=demo(["maxsat", "sat"],'''
func TestDemo(t *testing.T) {
	for _, mk := range []func(f.Factory, ...*maxsat.Config) *maxsat.Solver{maxsat.LinearSU, maxsat.OLL, maxsat.WBO} {
		fac := f.NewFactory()
		cfg := maxsat.DefaultConfig()
		cfg.CNFMethod = sat.CNFPG
		s := mk(fac, cfg)
		p := parser.New(fac)
		h := p.ParseUnsafe("(a & b & c) | (~a & d & e) | (~d & ~b & ~c & e)")
		s.AddHardFormula(p.ParseUnsafe("a | b | c | d | e"))
		st := s.SaveState()
		s.AddHardFormula(h)
		if r := s.Solve(); !r.Satisfiable {
			t.Fatal("not satisfiable")
		}
		if err := s.LoadState(st); err != nil {
			t.Fatal(err)
		}
		s.AddHardFormula(h)
		for _, x := range []string{"a", "d", "e"} {
			if err := s.AddSoftFormula(fac.Lit(x, false).AsFormula(), map[string]int{"a": 2, "d": 2, "e": 5}[x]); err != nil {
				t.Fatal(err)
			}
		}
		if err := s.AddSoftFormula(p.ParseUnsafe("~b"), 3); err != nil {
			t.Fatal(err)
		}
		r := s.Solve()
		if !r.Satisfiable || r.Optimum != 5 {
			t.Fatal(r.Satisfiable, r.Optimum)
		}
	}
}
''')))

SEEDS.append(dict(id="p12-atmost-unit-lost", property="P12",
 needs="at-most constraints handled by the solver itself, a constraint which fixes its only open literal when it is added, and a saved state afterwards",
 breaks="the fixed literal is not recorded, so that loading the state forgets it",
 edits=[("sat/core.go","			m.enqueueFunction(m, Not(ps[i]), nil)\n			m.unitClauses = append(m.unitClauses, Not(ps[i]))","			m.enqueueFunction(m, Not(ps[i]), nil)\n			if len(ps) > 1 {\n				m.unitClauses = append(m.unitClauses, Not(ps[i]))\n			}")],
 demo=demo(["sat"],'''
func TestDemo(t *testing.T) {
	fac := f.NewFactory()
	cfg := sat.DefaultConfig()
	cfg.UseAtMostClauses = true
	s := sat.NewSolver(fac, cfg)
	a, b := fac.Var("a"), fac.Var("b")
	s.Add(a.AsFormula())
	s.Add(fac.AMO(a, b))
	st := s.SaveState()
	if s.Call(sat.Params().Literal(b.AsLiteral())).Sat() {
		t.Fatal("b possible")
	}
	if err := s.LoadState(st); err != nil {
		t.Fatal(err)
	}
	if s.Call(sat.Params().Literal(b.AsLiteral())).Sat() {
		t.Fatal("b possible after the load")
	}
}
''')))

