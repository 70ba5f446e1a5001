exec(open("/verif/tools/seedspecs/c.py").read().split("SEEDS.append")[0])

SEEDS.append(dict(id="p33-bound-stale", property="P33",
 needs="an optimisation on a solver with a handler which looks at the models that are reported with better bounds, and two or more improvements",
 breaks="each better bound is reported with the model of the bound before",
 edits=[("sat/optimizer_function.go","		internalModel = s.core.Model()\n		betterBoundEvent := EventFoundBetterBound{func() *model.Model {\n			return s.core.CreateModel(s.fac, internalModel, relevantIndices)\n		}}","		previous := internalModel\n		internalModel = s.core.Model()\n		betterBoundEvent := EventFoundBetterBound{func() *model.Model {\n			return s.core.CreateModel(s.fac, previous, relevantIndices)\n		}}")],
 demo=demo(["std:fmt","event","sat"],'''
type bounds struct{ values []int }

func (b *bounds) ShouldResume(e event.Event) bool {
	if x, ok := e.(sat.EventFoundBetterBound); ok {
		b.values = append(b.values, len(x.Model().PosVars()))
	}
	return true
}

func TestDemo(t *testing.T) {
	seen := 0
	for n := 4; n <= 12; n++ {
		fac := f.NewFactory()
		s := sat.NewSolver(fac)
		var ls []f.Literal
		for i := 0; i < n; i++ {
			ls = append(ls, fac.Lit(fmt.Sprint("v", i), true))
		}
		for i := 0; i+2 < n; i++ {
			s.Add(fac.Clause(ls[i].Negate(fac), ls[i+1].Negate(fac), ls[i+2].Negate(fac)))
			s.Add(fac.Clause(ls[i], ls[i+1].Negate(fac), ls[(i+5)%n]))
		}
		b := &bounds{}
		m, _ := s.MaximizeWithHandler(ls, b)
		for i, v := range b.values {
			seen++
			if i > 0 && v <= b.values[i-1] {
				t.Fatal("not better:", b.values)
			}
		}
		if k := len(b.values); k > 0 && b.values[k-1] != len(m.PosVars()) {
			t.Fatal("last bound", b.values, "result", len(m.PosVars()))
		}
	}
	if seen == 0 {
		t.Fatal("no bounds")
	}
}
''')))

SEEDS.append(dict(id="p34-call-propositions", property="P34",
 needs="call parameters to which a list of propositions is added first and something else afterwards, where the list is part of a longer one",
 breaks="the elements behind the caller's list are overwritten",
 edits=[("sat/call.go","	p.addProps = append(p.addProps, proposition...)","	if p.addProps == nil {\n		p.addProps = proposition\n	} else {\n		p.addProps = append(p.addProps, proposition...)\n	}")],
 demo=demo(["sat"],'''
func TestDemo(t *testing.T) {
	fac := f.NewFactory()
	var ps []f.Proposition
	for _, n := range []string{"a", "b", "c"} {
		ps = append(ps, f.NewStandardProposition(fac.Lit(n, true).AsFormula(), n))
	}
	last := ps[2]
	s := sat.NewSolver(fac)
	s.Add(fac.Clause(fac.Lit("a", false), fac.Lit("b", false), fac.Lit("c", false)))
	if !s.Call(sat.Params().Proposition(ps[:2]...).Formula(fac.Lit("c", false).AsFormula())).Sat() {
		t.Fatal("unsatisfiable")
	}
	if ps[2] != last {
		t.Fatal("list of propositions changed")
	}
}
''')))

SEEDS.append(dict(id="p35-split-ties", property="P35",
 needs="model enumeration with the most common split variables where several variables occur equally often at the border of the chosen ones",
 breaks="which variables are split on depends on the iteration order of a map: models come in another order from run to run",
 edits=[("model/iter/split.go","			return vars[i] > vars[j]\n","			return false\n")],
 demo=demo(["std:fmt","model/enum","model/iter"],'''
func TestDemo(t *testing.T) {
	first := ""
	for k := 0; k < 60; k++ {
		fac := f.NewFactory()
		var vs []f.Variable
		var cls []f.Formula
		n := 8
		for i := 0; i < n; i++ {
			vs = append(vs, fac.Var(fmt.Sprint("v", i)))
		}
		for i := range vs {
			cls = append(cls, fac.Clause(vs[i].AsLiteral(), vs[(i+1)%n].AsLiteral(), vs[(i+2)%n].Negate(fac)))
		}
		cfg := &iter.Config{Handler: iter.HandlerWithLimit(10000), Strategy: iter.NewBasicStrategy(iter.DefaultMostCommonVarProvider(), 3)}
		ms, _ := enum.OnFormulaWithConfig(fac, fac.And(cls...), vs, cfg)
		s := ""
		for _, m := range ms {
			s += m.Sprint(fac) + ";"
		}
		if k == 0 {
			first = s
		}
		if s != first {
			t.Fatal("another order of models in run", k)
		}
	}
}
''')))

SEEDS.append(dict(id="p35-core-order", property="P35",
 needs="an unsatisfiable core of two or more propositions, computed twice on new solvers",
 breaks="the propositions of a core are listed in the iteration order of a map",
 edits=[("sat/unsat_core.go","	slices.SortFunc(propositions, f.PropComparator)\n	return e.NewUnsatCore(propositions, false)\n}\n\nfunc getF","	return e.NewUnsatCore(propositions, false)\n}\n\nfunc getF")],
 demo=demo(["std:fmt","sat"],'''
func TestDemo(t *testing.T) {
	first := ""
	for k := 0; k < 60; k++ {
		fac := f.NewFactory()
		cfg := sat.DefaultConfig()
		cfg.ProofGeneration = true
		s := sat.NewSolver(fac, cfg)
		for i := 0; i < 5; i++ {
			a, b := fac.Lit(fmt.Sprint("v", i), false), fac.Lit(fmt.Sprint("v", i+1), true)
			s.AddProposition(f.NewStandardProposition(fac.Clause(a, b), fmt.Sprint("p", i)))
		}
		s.AddProposition(f.NewStandardProposition(fac.Clause(fac.Lit("v0", true), fac.Lit("w", true)), "q"))
		s.AddProposition(f.NewStandardProposition(fac.Clause(fac.Lit("v0", true), fac.Lit("w", false)), "r"))
		s.AddProposition(f.NewStandardProposition(fac.Lit("v5", false).AsFormula(), "s"))
		res := s.Call(sat.Params().WithCore())
		if res.Sat() {
			t.Fatal("satisfiable")
		}
		x := ""
		for _, p := range res.UnsatCore().Propositions {
			x += p.Sprint(fac) + ";"
		}
		if k == 0 {
			first = x
		}
		if x != first {
			t.Fatal("another core in run", k, ":", x, "first", first)
		}
	}
}
''')))
