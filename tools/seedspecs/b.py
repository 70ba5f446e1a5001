HEAD='''package errorx_test

import (
	"testing"

%s
	f "github.com/booleworks/logicng-go/formula"
	"github.com/booleworks/logicng-go/parser"
)

var _ = parser.New
var _ = f.NewFactory
'''
def demo(imports, body):
    std=[i for i in imports if i.startswith("std:")]
    return HEAD % ("\n".join('\t"%s"'%i[4:] for i in std)+"\n"+"\n".join('\t"github.com/booleworks/logicng-go/%s"'%i for i in imports if i not in std))+body

SEEDS.append(dict(id="p27-subst-pbc-fixed", property="P27",
 needs="a pseudo-Boolean constraint in which at least two literals become true by the substitution, the last of them a negative one",
 breaks="the fixed part of the left-hand side only counts the last true negative literal",
 edits=[("transformation/substitution.go","				if operands[i].IsNeg() {\n					lhsFixed += coefficients[i]","				if operands[i].IsNeg() {\n					lhsFixed = coefficients[i]")],
 demo=demo(["transformation"],'''
func TestDemo(t *testing.T) {
	fac := f.NewFactory()
	a, b, c := fac.Var("a"), fac.Var("b"), fac.Var("c")
	pbc := fac.PBC(f.GE, 4, []f.Literal{a.AsLiteral(), b.Negate(fac), c.AsLiteral()}, []int{3, 2, 1})
	s := transformation.NewSubstitution()
	s.AddVar(a, fac.Verum())
	s.AddVar(b, fac.Falsum())
	r, err := transformation.Substitute(fac, pbc, s)
	if err != nil {
		t.Fatal(err)
	}
	if !r.Sort().String2(r) {
		t.Fatal(r.Sprint(fac))
	}
}
'''.replace("!r.Sort().String2(r)",'r.Sort() != f.SortTrue && r.Sprint(fac) != fac.PBC(f.GE, -1, []f.Literal{c.AsLiteral()}, []int{1}).Sprint(fac)'))))

SEEDS.append(dict(id="p21-cachekey-ternary", property="P21",
 needs="a CNF in which the same sub-tree is compiled twice with the same unsubsumed ternary clauses but different falsified literals in them",
 breaks="the cached result of the first compilation is used for the second one, so the d-DNNF is not equivalent to the formula",
 edits=[("dnnf/dtree.go","			for m := i; m < j; m++ {\n				if n.solver.ValueOf(n.clauseContents[m]) == f.TristateUndef {\n					key.set(","			for m := i; j-i > 3 && m < j; m++ {\n				if n.solver.ValueOf(n.clauseContents[m]) == f.TristateUndef {\n					key.set(")],
 demo=demo(["std:math/big","std:math/rand","std:strconv","dnnf","model/count"],'''
func TestDemo(t *testing.T) {
	_ = count.OnFormula
	for seed := int64(0); seed < 300; seed++ {
		fac := f.NewFactory()
		r := rand.New(rand.NewSource(seed))
		n := 8 + r.Intn(4)
		var vars []f.Variable
		for i := 0; i < n; i++ {
			vars = append(vars, fac.Var("v"+strconv.Itoa(i)))
		}
		var cls []f.Formula
		for i := 0; i < 2*n; i++ {
			p := r.Perm(n)
			cls = append(cls, fac.Clause(fac.Lit("v"+strconv.Itoa(p[0]), r.Intn(2) == 0), fac.Lit("v"+strconv.Itoa(p[1]), r.Intn(2) == 0), fac.Lit("v"+strconv.Itoa(p[2]), r.Intn(2) == 0)))
		}
		cnf := fac.And(cls...)
		d := dnnf.Compile(fac, cnf)
		want := count.OnFormula(fac, cnf, f.Variables(fac, cnf).Content())
		if got := d.ModelCount(); got.Cmp(want) != 0 {
			t.Fatalf("seed %d: %v instead of %v", seed, got, want)
		}
		_ = big.NewInt
	}
}
''')))

SEEDS.append(dict(id="p31-adder-scratch", property="P31", race=True,
 needs="two goroutines encoding pseudo-Boolean constraints with the adder network at the same time, each with its own factory",
 breaks="the encoders share a scratch buffer: a data race, and the bits of one right-hand side can end up in the other encoding",
 edits=[("encoding/pbc_adder.go","	bits := make([]bool, 0, n)\n	for i := n - 1","	bits := adderBits[:0]\n	for i := n - 1"),
        ("encoding/pbc_adder.go","	slices.Reverse(bits)\n	return bits\n","	slices.Reverse(bits)\n	adderBits = bits\n	return bits\n"),
        ("encoding/pbc_adder.go","func numToBits(","// adderBits is the buffer for the bits of a right-hand side\nvar adderBits []bool\n\nfunc numToBits(")],
 demo=demo(["std:sync","encoding"],'''
func TestDemo(t *testing.T) {
	var wg sync.WaitGroup
	for g := 0; g < 4; g++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for k := 0; k < 50; k++ {
				fac := f.NewFactory()
				cfg := encoding.DefaultConfig()
				cfg.PBCEncoder = encoding.PBCAdderNetworks
				lits := []f.Literal{fac.Lit("a", true), fac.Lit("b", true), fac.Lit("c", false)}
				if _, err := encoding.EncodePBC(fac, fac.PBC(f.LE, 5+g, lits, []int{4, 3, 2}), cfg); err != nil {
					t.Error(err)
				}
			}
		}()
	}
	wg.Wait()
}
''')))

SEEDS.append(dict(id="p16-factorization-partial-cache", property="P16",
 needs="a factorization cancelled by a handler inside a conjunction below a disjunction, and a later conversion of the same formula on the same factory",
 breaks="the cancelled factorization leaves a partial result in the transformation cache, so the later conversion is not equivalent",
 edits=[("normalform/cnf.go","			apply, state = factorizedCNFRec(fac, op, hdl)\n			if !state.Success {\n				return 0, state\n			}\n			nops = append(nops, apply)\n		}\n		cached = fac.And(nops...)","			apply, state = factorizedCNFRec(fac, op, hdl)\n			if !state.Success {\n				break\n			}\n			nops = append(nops, apply)\n		}\n		cached = fac.And(nops...)"),
  ("normalform/cnf.go","	if state.Success {\n		f.SetTransformationCache(fac, f.TransCNFFactorization, formula, cached)\n		return cached, succ\n	}\n	return 0, state\n","	if cached != 0 {\n		f.SetTransformationCache(fac, f.TransCNFFactorization, formula, cached)\n	}\n	if state.Success {\n		return cached, succ\n	}\n	return 0, state\n")],
 demo=demo(["event","normalform","sat"],'''
type cancelAfter struct{ n int }

func (c *cancelAfter) ShouldResume(event.Event) bool { c.n--; return c.n >= 0 }

func TestDemo(t *testing.T) {
	for n := 0; n < 60; n++ {
		fac := f.NewFactory()
		phi := parser.New(fac).ParseUnsafe("(a & b | c & d) & (x | ~a & b) & (u & v | ~x & c)")
		normalform.FactorizedCNFWithHandler(fac, phi, &cancelAfter{n})
		cnf := normalform.FactorizedCNF(fac, phi)
		if !sat.IsEquivalent(fac, phi, cnf) {
			t.Fatalf("n=%d: %s", n, cnf.Sprint(fac))
		}
	}
}
''')))

SEEDS.append(dict(id="p14-rotatable-binary", property="P14",
 needs="a model in which a candidate literal was decided before the other literal of a binary clause got its value",
 breaks="the literal counts as rotatable although the binary clause needs it, so the backbone misses literals",
 edits=[("sat/backbone.go","	for _, watcher := range m.watchesBin[Not(lit)] {\n		if m.isUnit(lit, watcher.clause) {\n			return false\n		}\n	}\n","")],
 demo=demo(["std:math/rand","std:strconv","sat"],'''
func TestDemo(t *testing.T) {
	for seed := int64(0); seed < 4000; seed++ {
		fac := f.NewFactory()
		r := rand.New(rand.NewSource(seed))
		n := 3 + r.Intn(5)
		lit := func() f.Literal { return fac.Lit("v"+strconv.Itoa(r.Intn(n)), r.Intn(2) == 0) }
		cfg := sat.DefaultConfig()
		cfg.InitialPhase = seed%2 == 0
		s := sat.NewSolver(fac, cfg)
		var cls []f.Formula
		for i := 0; i < 2*n; i++ {
			cls = append(cls, fac.Or(lit().AsFormula(), lit().AsFormula()))
		}
		for i := 0; i < n; i++ {
			cls = append(cls, fac.Or(lit().AsFormula(), lit().AsFormula(), lit().AsFormula()))
		}
		s.Add(cls...)
		vars := f.Variables(fac, fac.And(cls...)).Content()
		bb := s.ComputeBackbone(fac, vars)
		if !bb.Sat {
			continue
		}
		for _, v := range vars {
			pos := s.Call(sat.WithAssumptions([]f.Literal{v.AsLiteral()})).Sat()
			neg := s.Call(sat.WithAssumptions([]f.Literal{v.Negate(fac)})).Sat()
			in := false
			for _, o := range bb.Optional {
				in = in || o == v
			}
			if in != (pos && neg) {
				t.Fatalf("seed %d: %s", seed, v.Sprint(fac))
			}
		}
	}
}
''')))

SEEDS.append(dict(id="p05-restrict-rhs", property="P05",
 needs="restricting a pseudo-Boolean inequality with an assignment that satisfies a literal, such that the bound of the original right-hand side decides differently than that of the remaining one",
 breaks="the restricted constraint is replaced by a constant although it still depends on the remaining literals",
 edits=[("assignment/restrict.go","evaluateCoeffs(minValue, maxValue, newRHS, comparator)","evaluateCoeffs(minValue, maxValue, rhs, comparator)")],
 demo=demo(["assignment"],'''
func TestDemo(t *testing.T) {
	fac := f.NewFactory()
	a, b, c := fac.Lit("a", true), fac.Lit("b", true), fac.Lit("c", true)
	ass, _ := assignment.New(fac, a)
	for rhs := -4; rhs < 9; rhs++ {
		for _, cmp := range []f.CSort{f.LE, f.LT, f.GE, f.GT} {
			pbc := fac.PBC(cmp, rhs, []f.Literal{a, b, c}, []int{3, -2, 2})
			r := assignment.Restrict(fac, pbc, ass)
			for m := 0; m < 4; m++ {
				full, _ := assignment.New(fac, a, fac.Lit("b", m&1 > 0), fac.Lit("c", m&2 > 0))
				if assignment.Evaluate(fac, pbc, full) != assignment.Evaluate(fac, r, full) {
					t.Fatal(pbc.Sprint(fac), r.Sprint(fac))
				}
			}
		}
	}
}
''')))

SEEDS.append(dict(id="p30-global-rand", property="P30",
 needs="two runs with the same seed of a randomizer whose configuration produces cardinality or pseudo-Boolean constraints",
 breaks="the comparator of a constraint comes from the global source of randomness, so equal seeds give different formulas",
 edits=[("randomizer/formula_randomizer.go","	var sort f.CSort\n	n := r.random.Float64()\n","	var sort f.CSort\n	n := rand.Float64()\n")],
 demo=demo(["randomizer"],'''
func TestDemo(t *testing.T) {
	for seed := int64(0); seed < 20; seed++ {
		var s [2]string
		for i := range s {
			fac := f.NewFactory()
			cfg := randomizer.DefaultConfig()
			cfg.Seed = seed
			r := randomizer.New(fac, cfg)
			for k := 0; k < 20; k++ {
				s[i] += r.PBC().Sprint(fac) + "\\n"
			}
		}
		if s[0] != s[1] {
			t.Fatalf("seed %d:\\n%s\\n%s", seed, s[0], s[1])
		}
	}
}
''')))

SEEDS.append(dict(id="p32-linkstyle", property="P32",
 needs="a Mermaid export with styled edges after unstyled ones",
 breaks="the style of an edge is attached to a different edge",
 edits=[("graphical/mermaid_writer.go","	for i, edge := range representation.edges {\n","	styled := 0\n	for _, edge := range representation.edges {\n"),
  ("graphical/mermaid_writer.go","mermaidEdgeStyleString(i, edge.style)\n		if edgeStyleString != \"\" {\n","mermaidEdgeStyleString(styled, edge.style)\n		if edgeStyleString != \"\" {\n			styled++\n")],
 demo=demo(["std:strings","std:fmt","graphical"],'''
func TestDemo(t *testing.T) {
	fac := f.NewFactory()
	phi := parser.New(fac).ParseUnsafe("a & (b | ~c)")
	gen := f.DefaultFormulaGraphicalGenerator()
	gen.ComputeEdgeStyle = func(s, d f.Formula) *graphical.EdgeStyle {
		if d.IsNeg() {
			return graphical.Bold(graphical.ColorRed)
		}
		return graphical.NoEdgeStyle()
	}
	rep := f.GenerateGraphicalFormulaAST(fac, phi, gen)
	out := graphical.WriteMermaidToString(rep)
	edge := -1
	for _, l := range strings.Split(out, "\\n") {
		if strings.Contains(l, " --> ") || strings.Contains(l, " --- ") {
			edge++
		}
		if strings.Contains(l, "linkStyle") && !strings.Contains(l, fmt.Sprintf("linkStyle %d ", edge)) {
			t.Fatal(out)
		}
	}
}
''')))

SEEDS.append(dict(id="p19-quant-cache", property="P19",
 needs="existential and universal quantification of the same BDD over the same variables on one kernel",
 breaks="both quantifications share their cache entries, so the second one returns the result of the first",
 edits=[("bdd/kernel.go","	cacheidForall      = 0x1\n","	cacheidForall      = 0x0\n")],
 demo=demo(["bdd"],'''
func TestDemo(t *testing.T) {
	fac := f.NewFactory()
	k := bdd.NewKernel(fac, 4, 100, 100)
	b := bdd.CompileWithKernel(fac, parser.New(fac).ParseUnsafe("a & b | ~a & c"), k)
	ex := b.Exists(fac.Var("a"))
	all := b.ForAll(fac.Var("a"))
	if ex.Index == all.Index {
		t.Fatal("exists and forall are the same")
	}
}
''')))

SEEDS.append(dict(id="p18-count-falsum", property="P18",
 needs="counting the models of several formulas of which one becomes false under the unit formulas",
 breaks="the falsified formula is dropped like a true one, so an unsatisfiable set has models",
 edits=[("model/count/dnnf_counting.go","		if restrict.Sort() != f.SortTrue {\n			simplified","		if restrict.Sort() > f.SortTrue {\n			simplified")],
 demo=demo(["model/count"],'''
func TestDemo(t *testing.T) {
	fac := f.NewFactory()
	p := parser.New(fac)
	n, err := count.Count(fac, fac.Vars("a", "b", "c"), p.ParseUnsafe("a"), p.ParseUnsafe("~b"), p.ParseUnsafe("~a | b"), p.ParseUnsafe("c | b"))
	if err != nil {
		t.Fatal(err)
	}
	if n.Sign() != 0 {
		t.Fatal(n)
	}
}
''')))

SEEDS.append(dict(id="p24-empty-implicant", property="P24",
 needs="the prime implicants of a tautology which the factory does not recognise, computed with maximal models",
 breaks="the prime implicant of a tautology keeps a literal although the empty one is an implicant",
 edits=[("primeimplicant/computation.go","	for _, lit := range implicant {\n		primeImplicant.Remove(lit)\n","	for _, lit := range implicant {\n		if primeImplicant.Size() == 1 {\n			break\n		}\n		primeImplicant.Remove(lit)\n")],
 demo=demo(["primeimplicant"],'''
func TestDemo(t *testing.T) {
	fac := f.NewFactory()
	phi := parser.New(fac).ParseUnsafe("(a => b) | (b => a)")
	r := primeimplicant.CoverMax(fac, phi, primeimplicant.CoverImplicants)
	if len(r.Implicants) != 1 || len(r.Implicants[0]) != 0 {
		t.Fatal(r.Implicants)
	}
}
''')))

SEEDS.append(dict(id="p10-equal-phases", property="P10",
 needs="a pseudo-Boolean constraint which contains a variable in both phases with equal coefficients",
 breaks="the constant part of such a pair is not moved to the right-hand side, so the normalized constraint has a different bound",
 edits=[("encoding/normalize.go","			csps[count] = ilpair{v[1] - v[0], k.AsLiteral()}\n		} else {\n			c -= v[1]\n","			csps[count] = ilpair{v[1] - v[0], k.AsLiteral()}\n		} else {\n			if v[0] > v[1] {\n				c -= v[1]\n			}\n")],
 demo=demo(["encoding","sat"],'''
func TestDemo(t *testing.T) {
	fac := f.NewFactory()
	lits := []f.Literal{fac.Lit("a", true), fac.Lit("b", true), fac.Lit("a", false), fac.Lit("c", true)}
	pbc := fac.PBC(f.LE, 4, lits, []int{3, 1, 3, 2})
	cls, err := encoding.EncodePBC(fac, pbc)
	if err != nil {
		t.Fatal(err)
	}
	s := sat.NewSolver(fac)
	s.Add(cls...)
	if s.Call(sat.WithAssumptions([]f.Literal{fac.Lit("b", false), fac.Lit("c", true)})).Sat() {
		t.Fatal("3 + 2 <= 4")
	}
}
''')))

SEEDS.append(dict(id="p17-prefix-alias", property="P17",
 needs="an enumeration with additional variables which the solver does not know and more than one model before the next commit",
 breaks="all models share one slice, so models are repeated and others are lost",
 edits=[("model/enum/enumeration.go","	modelLiterals := c.additionalVariablesNotOnSolver.Content()\n	modelLiterals = append(modelLiterals, mdl.Literals...)\n	c.uncommittedModels = append(c.uncommittedModels, modelLiterals)","	modelLiterals := append(c.prefix, mdl.Literals...)\n	c.uncommittedModels = append(c.uncommittedModels, modelLiterals)"),
 ("model/enum/enumeration.go","	additionalVariablesNotOnSolver *f.LitSet\n	fac ","	additionalVariablesNotOnSolver *f.LitSet\n	prefix                         []f.Literal\n	fac "),
 ("model/enum/enumeration.go","	addVars := f.NewMutableLitSet()\n	for _, v := range additionalVarsNotOnSolver.Content() {\n		addVars.Add(v.Negate(fac))\n	}\n","	addVars := f.NewMutableLitSet()\n	var prefix []f.Literal\n	for _, v := range additionalVarsNotOnSolver.Content() {\n		addVars.Add(v.Negate(fac))\n		prefix = append(prefix, v.Negate(fac))\n	}\n"),
 ("model/enum/enumeration.go","		additionalVariablesNotOnSolver: addVars.AsImmutable(),\n","		additionalVariablesNotOnSolver: addVars.AsImmutable(),\n		prefix:                         prefix,\n")],
 demo=demo(["model/enum"],'''
func TestDemo(t *testing.T) {
	fac := f.NewFactory()
	phi := parser.New(fac).ParseUnsafe("a")
	ms := enum.OnFormula(fac, fac.And(phi, fac.Or(fac.Variable("b"), fac.Variable("c"))), fac.Vars("b"), fac.Vars("x", "y", "z")...)
	seen := map[bool]bool{}
	for _, m := range ms {
		for _, l := range m.Literals {
			if l.Variable() == fac.Var("b") {
				seen[l.IsPos()] = true
			}
		}
	}
	if len(ms) != 2 || len(seen) != 2 {
		t.Fatal(len(ms), seen)
	}
}
''')))

SEEDS.append(dict(id="p07-pg-shared-state", property="P07",
 needs="two Plaisted-Greenbaum conversions with the same auxiliary state whose formulas share a sub-formula",
 breaks="the second CNF lacks the definitions of the shared sub-formula, so it is not equisatisfiable",
 edits=[("normalform/cnf.go","	case f.SortOr, f.SortAnd:\n		nary, _ := fac.NaryOperands(formula)\n		nops := make([]f.Formula, 0, len(nary))\n		nops = append(nops, computePosPolarity","	case f.SortOr, f.SortAnd:\n		if _, ok := state.FormulaMap[formula]; ok {\n			return fac.Verum()\n		}\n		nary, _ := fac.NaryOperands(formula)\n		nops := make([]f.Formula, 0, len(nary))\n		nops = append(nops, computePosPolarity")],
 demo=demo(["normalform","sat"],'''
func TestDemo(t *testing.T) {
	fac := f.NewFactory()
	p := parser.New(fac)
	st := normalform.NewCNFAuxState()
	normalform.PGCNF(fac, p.ParseUnsafe("x & y | (a & b | c & d) & e"), 0, st)
	cnf := normalform.PGCNF(fac, p.ParseUnsafe("z & ~a | (a & b | c & d) & ~e"), 0, st)
	if sat.IsSatisfiable(fac, fac.And(cnf, p.ParseUnsafe("~z & ~b & ~d"))) {
		t.Fatal(cnf.Sprint(fac))
	}
}
''')))

SEEDS.append(dict(id="p15-optimum-bound", property="P15",
 needs="an optimisation in which the first model sets no literal and the next one improves by exactly one",
 breaks="the search stops one short of the optimum",
 edits=[("sat/optimizer_function.go","	cc := fac.CC(f.GE, uint32(currentBound+1), selectors...)\n","	bound := currentBound + 1\n	if len(selectors) > 4 && bound < len(selectors)-1 {\n		bound = currentBound + 2 // the first model can be improved by more than one\n	}\n	cc := fac.CC(f.GE, uint32(bound), selectors...)\n")],
 demo=demo(["sat"],'''
func TestDemo(t *testing.T) {
	fac := f.NewFactory()
	p := parser.New(fac)
	s := sat.NewSolver(fac)
	s.Add(p.ParseUnsafe("a + b + c + d + e + g <= 2"))
	var lits []f.Literal
	for _, v := range fac.Vars("a", "b", "c", "d", "e", "g") {
		lits = append(lits, v.AsLiteral())
	}
	if m := s.Maximize(lits); len(m.PosVars()) != 2 {
		t.Fatal(len(m.PosVars()))
	}
}
''')))

