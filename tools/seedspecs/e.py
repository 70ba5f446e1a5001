exec(open("/verif/tools/seedspecs/c.py").read().split("SEEDS.append")[0])

SEEDS.append(dict(id="p36-core-check-late", property="P36",
 needs="a request for an unsatisfiable core on a solver without proof tracing, with the panic handled, and further use of the solver",
 breaks="the refusal comes after the computation was started: the solver counts as running and refuses every later call",
 edits=[("sat/call.go",'''	if param.coreIfUnsat && !s.config.ProofGeneration {
		panic(errorx.IllegalState("core computation on a SAT solver without proof tracing"))
	}
	call := initCall(s, param.hdl, param.addProps)''','''	call := initCall(s, param.hdl, param.addProps)
	if param.coreIfUnsat && !s.config.ProofGeneration {
		panic(errorx.IllegalState("core computation on a SAT solver without proof tracing"))
	}''')],
 demo=demo(["sat"],'''
func refused(fn func()) (yes bool) {
	defer func() { yes = recover() != nil }()
	fn()
	return
}

func TestDemo(t *testing.T) {
	fac := f.NewFactory()
	s := sat.NewSolver(fac)
	s.Add(fac.Or(fac.Variable("a"), fac.Variable("b")))
	if !refused(func() { s.Call(sat.WithCore()) }) {
		t.Fatal("core without proof")
	}
	if !s.Sat() || s.Call(sat.Params().Formula(fac.Literal("a", false), fac.Literal("b", false))).Sat() {
		t.Fatal("wrong answer")
	}
}
''')))

SEEDS.append(dict(id="p36-bound-set-first", property="P36",
 needs="an incremental at-least constraint, a lower bound that does not tighten (refused), then a valid one between the refused and the present bound",
 breaks="the refused bound is remembered: a later bound that does not tighten the constraint is accepted",
 edits=[("encoding/cc_incremental_data.go",'''	if rhs <= cc.currentRhs {
		panic(errorx.BadInput("new lower bound %d does not tighten the current bound of %d", rhs, cc.currentRhs))
	}
	cc.currentRhs = rhs''','''	oldRhs := cc.currentRhs
	cc.currentRhs = rhs
	if rhs <= oldRhs {
		panic(errorx.BadInput("new lower bound %d does not tighten the current bound of %d", rhs, oldRhs))
	}''')],
 demo=demo(["sat","std:fmt"],'''
func refused(fn func()) (yes bool) {
	defer func() { yes = recover() != nil }()
	fn()
	return
}

func TestDemo(t *testing.T) {
	fac := f.NewFactory()
	s := sat.NewSolver(fac)
	var vs []f.Variable
	for i := 0; i < 8; i++ {
		vs = append(vs, fac.Var(fmt.Sprint("v", i)))
	}
	d, err := s.AddIncrementalCC(fac.CC(f.GE, 5, vs...))
	if err != nil {
		t.Fatal(err)
	}
	if !refused(func() { d.NewLowerBoundForSolver(2) }) {
		t.Fatal("bound 2 accepted")
	}
	if !refused(func() { d.NewLowerBoundForSolver(4) }) {
		t.Fatal("bound 4 accepted although the present one is 5")
	}
	d.NewLowerBoundForSolver(6)
	if !s.Sat() {
		t.Fatal("unsatisfiable")
	}
}
''')))

SEEDS.append(dict(id="p36-count-superset", property="P36",
 needs="a model count over as many variables as the formula has, one of which does not occur in it while one of its own is missing",
 breaks="the list of variables is judged by its length: a count over the wrong variables is computed",
 edits=[("model/count/dnnf_counting.go","	if !vars.ContainsAll(f.Variables(fac, formulas...)) {","	if vars.Size() < f.Variables(fac, formulas...).Size() {")],
 demo=demo(["std:fmt","model/count"],'''
func refused(fn func()) (yes bool) {
	defer func() { yes = recover() != nil }()
	fn()
	return
}

func TestDemo(t *testing.T) {
	fac := f.NewFactory()
	var vs []f.Variable
	for i := 0; i < 4; i++ {
		vs = append(vs, fac.Var(fmt.Sprint("v", i)))
	}
	g := fac.Or(vs[0].AsFormula(), vs[1].AsFormula())
	for i := 0; i < 4; i++ {
		for j := i + 1; j < 4; j++ {
			bad := i > 0 || j > 1
			if refused(func() { count.Count(fac, []f.Variable{vs[i], vs[j]}, g) }) != bad {
				t.Fatal("count over", i, j, "refused:", !bad)
			}
		}
	}
}
''')))
