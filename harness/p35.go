package main

import (
	"fmt"
	"hash/fnv"
	"sort"
	"strings"

	"github.com/booleworks/logicng-go/assignment"
	"github.com/booleworks/logicng-go/bdd"
	"github.com/booleworks/logicng-go/dnnf"
	"github.com/booleworks/logicng-go/encoding"
	"github.com/booleworks/logicng-go/event"
	"github.com/booleworks/logicng-go/explanation/mus"
	"github.com/booleworks/logicng-go/explanation/smus"
	f "github.com/booleworks/logicng-go/formula"
	"github.com/booleworks/logicng-go/graph"
	"github.com/booleworks/logicng-go/graphical"
	"github.com/booleworks/logicng-go/maxsat"
	"github.com/booleworks/logicng-go/model"
	"github.com/booleworks/logicng-go/model/count"
	"github.com/booleworks/logicng-go/model/enum"
	"github.com/booleworks/logicng-go/model/iter"
	"github.com/booleworks/logicng-go/normalform"
	"github.com/booleworks/logicng-go/np"
	"github.com/booleworks/logicng-go/primeimplicant"
	"github.com/booleworks/logicng-go/randomizer"
	"github.com/booleworks/logicng-go/sat"
	"github.com/booleworks/logicng-go/simplification"
	"github.com/booleworks/logicng-go/transformation"
)

// recorder keeps the events of a computation, and may cancel it.
type recorder struct {
	n    int
	stop int
	tr   []string
	sum  uint64
}

func (h *recorder) ShouldResume(e event.Event) bool {
	h.n++
	s := e.EventType()
	switch x := e.(type) {
	case iter.EventIteratorFoundModels:
		s += fmt.Sprint(" ", x.NumberOfModels)
	case maxsat.EventMaxSatNewUpperBound:
		s += fmt.Sprint(" ", x.Bound)
	case maxsat.EventMaxSatNewLowerBound:
		s += fmt.Sprint(" ", x.Bound)
	}
	if len(h.tr) < 12 {
		h.tr = append(h.tr, s)
	}
	x := fnv.New64a()
	fmt.Fprint(x, h.sum, s)
	h.sum = x.Sum64()
	return h.stop == 0 || h.n < h.stop
}

func (h *recorder) String() string { return fmt.Sprintf("%d events %v %x", h.n, h.tr, h.sum) }

// rec is a handler for the next computation.
func (j *job) rec() *recorder {
	h := &recorder{}
	if j.r.P(25) {
		h.stop = j.r.Range(1, 20)
	}
	return h
}

func (j *job) model(m *model.Model) string {
	if m == nil {
		return "none"
	}
	return j.lits(m.Literals)
}

func (j *job) models(ms []*model.Model) string {
	var s []string
	for _, m := range ms {
		s = append(s, j.model(m))
	}
	return strings.Join(s, " | ")
}

func (j *job) vars(vs []f.Variable) string {
	var s []string
	for _, v := range vs {
		s = append(s, v.Sprint(j.w.F))
	}
	return strings.Join(s, " ")
}

func (j *job) someVars(pct int) []f.Variable { return j.w.VarsOf(j.r.Subset(j.w.N, pct)) }

// handles shows that formulas also have the same identities.
func (j *job) ids(what string, xs ...f.Formula) { j.emit(what+" ids", xs) }

var p35jobs = []struct {
	name string
	run  func(j *job)
}{
	{"prime covers", func(j *job) {
		fac := j.w.F
		for i := 0; i < 2; i++ {
			x := j.formula(false)
			h := j.rec()
			fn := primeimplicant.CoverMinWithHandler
			if j.r.Bool() {
				fn = primeimplicant.CoverMaxWithHandler
			}
			p, st := fn(fac, x, pick(j.r, primeimplicant.CoverImplicants, primeimplicant.CoverImplicates), h)
			j.emit("prime cover", st.Success, h)
			if st.Success {
				for _, l := range append(p.Implicants, p.Implicates...) {
					j.emit("prime", j.lits(l))
				}
			}
			m, err := primeimplicant.Minimum(fac, normalform.FactorizedCNF(fac, x))
			j.emit("minimum implicant", j.lits(m), err)
		}
	}},
	{"explanations", func(j *job) {
		fac := j.w.F
		var ps []f.Proposition
		var fs []f.Formula
		for i := 0; i < j.r.Range(3, 9); i++ {
			x := j.formula(true)
			if i == 0 {
				x = j.w.Var(0).AsFormula()
			} else if i == 1 {
				x = fac.And(j.w.Var(0).Negate(fac).AsFormula(), j.w.Var(j.w.N-1).AsFormula())
			}
			fs = append(fs, x)
			ps = append(ps, f.NewStandardProposition(x, fmt.Sprint("p", i)))
		}
		show := func(ps []f.Proposition) (s string) {
			for _, p := range ps {
				s += p.Sprint(fac) + "; "
			}
			return
		}
		h := j.rec()
		a, st, err := mus.ComputeDeletionBasedWithHandler(fac, &ps, h)
		j.emit("deletion MUS", err, st.Success, h)
		if err == nil && st.Success {
			j.emit("deletion MUS", show(a.Propositions))
		}
		h = j.rec()
		a, st, err = mus.ComputeInsertionBasedWithHandler(fac, &ps, h)
		j.emit("insertion MUS", err, st.Success, h)
		if err == nil && st.Success {
			j.emit("insertion MUS", show(a.Propositions))
		}
		h = j.rec()
		b, st := smus.ComputeForFormulasWithHandler(fac, fs, h, j.formula(false))
		j.emit("SMUS", j.strs(b), st.Success, h)
	}},
	{"enumeration", func(j *job) {
		fac := j.w.F
		x := j.formula(true)
		str, name := randStrategy(j.r, j.w, nil)
		h := j.rec()
		ms, st := enum.OnFormulaWithConfig(fac, x, j.someVars(80), &iter.Config{Handler: h, Strategy: str}, j.someVars(20)...)
		j.emit("models of a formula "+name, j.models(ms), st.Success, h)
		sv := sat.NewSolver(fac, randSatConfig(j.r))
		sv.Add(x)
		h = j.rec()
		vs := j.someVars(80)
		ms, st = enum.OnSolverWithConfig(sv, vs, &iter.Config{Handler: h, Strategy: str})
		j.emit("models of a solver "+name, j.models(ms), st.Success, h)
		h = j.rec()
		n, st := count.OnSolverWithConfig(sv, vs, &iter.Config{Handler: h, Strategy: str})
		j.emit("count on a solver "+name, n, st.Success, h)
		h = j.rec()
		b, st := enum.ToBddOnSolverWithConfig(sv, vs, &iter.Config{Handler: h, Strategy: str})
		if st.Success {
			j.emit("models as a diagram", j.str(b.ToFormula(fac)), b.NodeCount(), h)
		}
		j.emit("model afterwards", sv.Sat())
		y := j.formula(false)
		j.emit("canonical", j.str(enum.CanonicalCNF(fac, y)), j.str(enum.CanonicalDNF(fac, y)))
	}},
	{"optimisation", func(j *job) {
		fac := j.w.F
		sv := sat.NewSolver(fac, randSatConfig(j.r))
		sv.Add(j.formula(true))
		var ls []f.Literal
		for i := 0; i < j.w.N; i++ {
			if j.r.P(80) {
				ls = append(ls, j.w.Lit(PLit{i, j.r.Bool()}))
			}
		}
		for i := 0; i < 2; i++ {
			h := j.rec()
			m, st := sv.MaximizeWithHandler(ls, h, j.someVars(60)...)
			j.emit("maximum", st.Success, h)
			if st.Success && m != nil {
				j.emit("maximal model", j.model(m))
			}
			h = j.rec()
			m, st = sv.MinimizeWithHandler(ls, h, j.someVars(60)...)
			j.emit("minimum", st.Success, h)
			if st.Success && m != nil {
				j.emit("minimal model", j.model(m))
			}
		}
		h := j.rec()
		bb, st := sv.ComputeBackboneWithHandler(fac, j.w.Vars(), h, pick(j.r, sat.BBBoth, sat.BBPos, sat.BBNeg))
		j.emit("backbone", st.Success, h)
		if st.Success && bb.Sat {
			j.emit("backbone literals", j.vars(bb.Positive), j.vars(bb.Negative), j.vars(bb.Optional), j.str(bb.ToFormula(fac)))
		}
		j.emit("formulas on the solver", j.strs(sv.FormulasOnSolver()))
		if res := sv.Call(sat.Params().WithUPZeros()); res.OK() {
			j.emit("units", j.lits(res.UpZeroLits()))
		}
	}},
	{"incremental constraints", func(j *job) {
		fac := j.w.F
		fac.PutConfiguration(randEncConfig(j.r))
		sv := sat.NewSolver(fac, randSatConfig(j.r))
		sv.Add(j.formula(false))
		vs := j.w.Vars()
		var cc f.Formula
		up := j.r.Bool()
		if up {
			cc = fac.CC(f.LE, uint32(max(2, j.w.N-1)), vs...)
		} else {
			cc = fac.CC(f.GE, 2, vs...)
		}
		if cc.Sort() != f.SortCC {
			return
		}
		d, err := sv.AddIncrementalCC(cc)
		if err != nil || d == nil {
			j.emit("incremental", err)
			return
		}
		for i := 0; i < 3; i++ {
			res := sv.Call(sat.Params().WithModel(vs))
			j.emit("incremental", res.Sat())
			if res.Sat() {
				j.emit("incremental model", j.model(res.Model()))
			}
			if up {
				d.NewUpperBoundForSolver(max(1, j.w.N-2-i))
			} else {
				d.NewLowerBoundForSolver(min(3+i, j.w.N))
			}
		}
		n := genCC(j.r, GenCfg{NV: j.w.N, MaxCC: 6, CCClean: true})
		cls, err := encoding.EncodeCC(fac, j.w.Build(n), randEncConfig(j.r))
		j.emit("constraint", j.strs(cls), err)
	}},
	{"solver histories", func(j *job) {
		fac := j.w.F
		cfg := hotSatConfig(j.r)
		sv := sat.NewSolver(fac, cfg)
		var sts []*sat.SolverState
		for i := 0; i < j.r.Range(3, 10); i++ {
			switch j.r.Intn(5) {
			case 0:
				sts = append(sts, sv.SaveState())
			case 1:
				if len(sts) > 0 {
					k := j.r.Intn(len(sts))
					j.emit("load", sv.LoadState(sts[k]))
					sts = sts[:k+1]
				}
			default:
				sv.AddProposition(f.NewStandardProposition(j.formula(true), fmt.Sprint("p", i)))
			}
			p := sat.Params().WithModel(j.w.Vars())
			h := j.rec()
			p.Handler(h)
			for _, v := range j.r.Subset(j.w.N, 30) {
				p.Literal(j.w.Lit(PLit{v, j.r.Bool()}))
			}
			if j.r.P(20) {
				p.Formula(j.formula(true))
			}
			if cfg.ProofGeneration {
				p.WithCore()
			}
			if j.r.P(20) {
				p.WithUPZeros()
			}
			res := sv.Call(p)
			j.emit("call", res.OK(), h)
			if !res.OK() {
				continue
			}
			j.emit("answer", res.Sat())
			j.emit("units", j.lits(res.UpZeroLits()))
			if res.Sat() {
				j.emit("model", j.model(res.Model()))
			} else if cfg.ProofGeneration {
				for _, p := range res.UnsatCore().Propositions {
					j.emit("core", p.Sprint(fac))
				}
			}
		}
		j.emit("known variables", j.vars(sv.CoreSolver().KnownVariables(fac).Content()))
		occ := sv.VarOccurrences(nil)
		var o []string
		for v, k := range occ {
			o = append(o, fmt.Sprint(v.Sprint(fac), k))
		}
		sort.Strings(o)
		j.emit("occurrences", o)
	}},
	{"maxsat", func(j *job) {
		fac := j.w.F
		cfg := randMaxSatConfig(j.r)
		weighted := j.r.Bool()
		var sv *maxsat.Solver
		switch k := j.r.Intn(9); {
		case k <= 1 && !weighted:
			sv = maxsat.MSU3(fac, cfg)
		case k <= 3 && !weighted:
			sv = maxsat.LinearUS(fac, cfg)
		case k <= 3 && weighted:
			sv = maxsat.WMSU3(fac, cfg)
		case k == 4:
			sv = maxsat.WBO(fac, cfg)
		case k == 5:
			sv = maxsat.IncWBO(fac, cfg)
		case k == 6:
			sv = maxsat.OLL(fac, cfg)
		default:
			sv = maxsat.LinearSU(fac, cfg)
		}
		for k := 0; k < j.r.Range(1, 3); k++ {
			for i := 0; i < j.r.Range(0, 3); i++ {
				sv.AddHardFormula(j.formula(true))
			}
			for i := 0; i < j.r.Range(1, 6); i++ {
				wt := 1
				if weighted {
					wt = j.r.Range(1, 6)
				}
				sv.AddSoftFormula(j.formula(false), wt)
			}
			st := sv.SaveState()
			h := j.rec()
			res, hs := sv.SolveWithHandler(h)
			j.emit("MaxSAT", hs.Success, h)
			if hs.Success {
				j.emit("optimum", res.Satisfiable, res.Optimum, j.model(res.Model))
			}
			if j.r.P(50) {
				j.emit("MaxSAT state", sv.LoadState(st))
			}
		}
	}},
	{"simplifiers", func(j *job) {
		fac := j.w.F
		x := j.formula(false)
		h := j.rec()
		cfg := &simplification.Config{RestrictBackbone: j.r.Bool(), FactorOut: j.r.Bool(), SimplifyNegations: j.r.Bool(), UseRatingFunction: j.r.Bool(), RatingFunction: simplification.DefaultRatingFunction}
		y, st := simplification.AdvancedWithHandler(fac, x, h, cfg)
		j.emit("advanced", st.Success, h)
		if st.Success {
			j.emit("advanced formula", j.str(y))
		}
		h = j.rec()
		y, st = simplification.QMCWithHandler(fac, x, h)
		j.emit("QMC", st.Success, h)
		if st.Success {
			j.emit("QMC formula", j.str(y))
		}
		y, err := simplification.CNFSubsumption(fac, normalform.FactorizedCNF(fac, x))
		j.emit("subsumed CNF", err, j.str(y))
		y, err = simplification.DNFSubsumption(fac, normalform.FactorizedDNF(fac, x))
		j.emit("subsumed DNF", err, j.str(y))
		j.emit("QE", j.str(transformation.ExistentialQE(fac, x, j.someVars(40)...)), j.str(transformation.UniversalQE(fac, x, j.someVars(40)...)))
		j.ids("simplified", x, y)
	}},
	{"compilation", func(j *job) {
		fac := j.w.F
		x := j.formula(false)
		h := j.rec()
		d, st := dnnf.CompileWithHandler(fac, x, h)
		j.emit("DNNF", st.Success, h)
		if st.Success {
			j.emit("DNNF formula", j.str(d.Formula), d.ModelCount())
		}
		h = j.rec()
		n, err, st := count.CountWithHandler(fac, j.w.Vars(), h, x, normalform.CNF(fac, j.formula(false)))
		j.emit("count", n, err, st.Success, h)
		h = j.rec()
		b, st := bdd.CompileWithHandler(fac, x, h)
		j.emit("BDD", st.Success, h)
		if st.Success {
			j.emit("BDD content", j.str(b.ToFormula(fac)), b.NodeCount(), j.str(b.CNF()), j.str(b.DNF()), j.vars(b.VariableOrder()))
			j.emit("BDD models", j.models(b.ModelEnumeration(j.w.Vars()...)))
			m, err := b.Model()
			if err == nil {
				j.emit("BDD model", j.model(m))
			}
			fm, err := b.FullModel()
			if err == nil {
				j.emit("BDD full model", j.model(fm))
			}
		}
		j.emit("forced order", j.vars(bdd.ForceOrder(fac, j.formula(false))))
	}},
	{"graphs", func(j *job) {
		fac := j.w.F
		fs := []f.Formula{j.formula(false), j.formula(false), j.formula(true)}
		g := graph.GenerateConstraintGraph(fac, fs...)
		j.emit("graph", g.Nodes())
		for _, c := range graph.ComputeConnectedComponents(g) {
			j.emit("component", j.vars(c))
		}
		for _, s := range graph.SplitFormulasByComponent(fac, fs, graph.ComputeConnectedComponents(g)) {
			j.emit("split", j.strs(s))
		}
		h, err := graph.HypergraphFromCNF(fac, normalform.FactorizedCNF(fac, fs[0]))
		if err == nil {
			for _, n := range h.Nodes {
				j.emit("hypergraph node", n.Content.Sprint(fac), len(n.Edges))
			}
		}
		j.emit("drawn", graphical.WriteDotToString(f.GenerateGraphicalFormulaDAG(fac, fs[2], f.DefaultFormulaGraphicalGenerator())))
		sets := [][]string{}
		for i := 0; i < j.r.Range(1, 7); i++ {
			var s []string
			for _, k := range j.r.Subset(7, 35) {
				s = append(s, fmt.Sprint("e", k))
			}
			sets = append(sets, s)
		}
		j.emit("set cover", np.MinimumSetCover(sets))
		rc := randomizer.DefaultConfig()
		rc.Seed = int64(j.r.Range(1, 9))
		rnd := randomizer.New(fac, rc)
		j.emit("random", j.str(rnd.Formula(3)), j.str(rnd.CC()), j.str(rnd.PBC()), j.str(rnd.EXO()))
	}},
	{"large clause sets", func(j *job) {
		w := NewWorldPlain(j.r.Range(8, 30), false)
		old := j.w
		j.w = w
		defer func() { j.w = old }()
		fac := w.F
		var cls []f.Formula
		for _, c := range GenClauses(j.r, w.N, j.r.Range(w.N*2, w.N*5), 2, 3) {
			cls = append(cls, fac.Clause(w.Lits(c)...))
		}
		x := fac.And(cls...)
		cfg := hotSatConfig(j.r)
		sv := sat.NewSolver(fac, cfg)
		for i, c := range cls {
			sv.AddProposition(f.NewStandardProposition(c, fmt.Sprint("c", i)))
		}
		for i := 0; i < 3; i++ {
			h := j.rec()
			p := sat.Params().WithModel(w.Vars()).Handler(h)
			if cfg.ProofGeneration {
				p.WithCore()
			}
			for _, v := range j.r.Subset(w.N, 20) {
				p.Literal(w.Lit(PLit{v, j.r.Bool()}))
			}
			res := sv.Call(p)
			j.emit("large call", res.OK(), h)
			if res.OK() && res.Sat() {
				j.emit("large model", j.model(res.Model()))
			} else if res.OK() && cfg.ProofGeneration {
				for _, p := range res.UnsatCore().Propositions {
					j.emit("large core", p.Sprint(fac))
				}
			}
		}
		h := j.rec()
		bb, st := sv.ComputeBackboneWithHandler(fac, w.Vars(), h)
		j.emit("large backbone", st.Success, h)
		if st.Success && bb.Sat {
			j.emit("large backbone", j.vars(bb.Positive), j.vars(bb.Negative), j.vars(bb.Optional))
		}
		h = j.rec()
		d, st := dnnf.CompileWithHandler(fac, x, h)
		j.emit("large DNNF", st.Success, h)
		if st.Success {
			j.emit("large DNNF", j.str(d.Formula))
		}
		vs := w.VarsOf(j.r.Subset(min(w.N, 8), 70))
		h = j.rec()
		ms, st := enum.OnSolverWithConfig(sv, vs, &iter.Config{Handler: h, Strategy: iter.NewBasicStrategy(iter.DefaultMostCommonVarProvider(), j.r.Range(3, 10))})
		j.emit("large enumeration", j.models(ms), st.Success, h)
		y, err := simplification.CNFSubsumption(fac, x)
		j.emit("large subsumption", j.str(y), err)
	}},
	{"functions", func(j *job) {
		fac := j.w.F
		x := j.formula(true)
		j.emit("sub-nodes", j.strs(f.SubNodes(fac, x)))
		j.emit("variables", j.vars(f.Variables(fac, x).Content()), j.lits(f.Literals(fac, x).Content()))
		a, _ := assignment.New(fac, j.w.Lit(PLit{j.r.Intn(j.w.N), j.r.Bool()}), j.w.Lit(PLit{0, true}))
		if a != nil {
			j.emit("assignment", a.Sprint(fac), j.str(assignment.Restrict(fac, x, a)))
		}
		j.ids("functions", x, x.Negate(fac), normalform.NNF(fac, x))
	}},
}

func (p p31plan) run35() *job {
	r := &Rng{p.seed}
	j := &job{w: NewWorld(r, p.nv, p.seed%4 == 0), r: r, kind: map[string]int{}, exact: true}
	for _, o := range p.ops {
		name, run := "", func() {}
		if o < len(p35jobs) {
			name, run = p35jobs[o].name, func() { p35jobs[o].run(j) }
		} else {
			k := o - len(p35jobs)
			name, run = p31jobs[k].name, func() { p31jobs[k].run(j, nil) }
		}
		j.emit("start", name)
		if e := caught(run); e != nil {
			j.emit("panic", e)
		}
	}
	j.emit("auxiliary", j.w.F.NewAuxVar(f.AuxCNF).Sprint(j.w.F))
	return j
}

func runP35(c *Ctx) {
	r := c.R
	n := len(p35jobs) + len(p31jobs)
	plan := func() p31plan {
		p := p31plan{seed: r.U64(), nv: r.Range(2, 6)}
		for k := r.Range(1, 4); k > 0; k-- {
			o := r.Intn(n)
			if r.P(50) {
				o = r.Intn(len(p35jobs))
			}
			p.ops = append(p.ops, o)
		}
		return p
	}
	p := plan()
	first := p.run35()
	for i := 0; i < r.Range(1, 3); i++ {
		how := "again"
		if r.Bool() { // something else in between
			q := plan()
			c.Logf("other work %v", q)
			q.run35()
			how = "after other work"
			c.Obs("repetitions after other work", 1)
		}
		j := p.run35()
		for k := 0; k < min(len(j.out), len(first.out)); k++ {
			if j.out[k] != first.out[k] {
				c.Check(false, "result %d, %s: first %s", k, how, diffAt(first.out[k], j.out[k]))
				return
			}
		}
		c.Check(len(j.out) == len(first.out), "%d results %s, first %d", len(j.out), how, len(first.out))
		c.Obs("repetitions", 1)
		c.Obs("results compared", len(j.out))
	}
	for k, v := range first.kind {
		if k != "start" {
			if strings.HasPrefix(k, "models of") || strings.HasPrefix(k, "count on") {
				k = strings.Join(strings.Fields(k)[:4], " ")
			}
			c.Obs("results: "+k, v)
		}
	}
	c.NT(strings.Join(first.out, ""))
}

// diffAt shows two texts around their first difference.
func diffAt(a, b string) string {
	i := 0
	for i < len(a) && i < len(b) && a[i] == b[i] {
		i++
	}
	s := max(0, i-60)
	head := a
	if k := strings.Index(a, ":"); k >= 0 {
		head = a[:k]
	}
	return fmt.Sprintf("%s: ...%s | then ...%s", head, cut(a[s:], 250), cut(b[s:], 250))
}

func init() {
	register(&PropDef{ID: "P35", Quick: 20000, Thorough: 1000000,
		Rule: "the same history repeated on fresh factories, with other work in between; every result and event trace compared as it is",
		Need: []string{"repetitions", "repetitions after other work"},
		Assume: []string{
			"random reordering of diagrams excluded (documented to be random)",
		},
		Run: runP35})
	// every repetition differs with a probability of at least one half if the
	// order of a map matters
	same := func(c *Ctx, run func() string) {
		first := run()
		for i := 0; i < 60; i++ {
			if s := run(); s != first {
				c.Check(false, "first %s, repetition %d %s", first, i, s)
				return
			}
		}
	}
	probe("minimum-implicant-order", "P35", func(c *Ctx) {
		for seed := uint64(0); seed < 60; seed++ {
			same(c, func() string {
				r := &Rng{seed}
				w := NewWorldPlain(5, false)
				cfg := encoding.DefaultConfig()
				cfg.AMOEncoder = pick(r, encoding.AMOLadder, encoding.AMOProduct, encoding.AMOBinary, encoding.AMOCommander, encoding.AMOBimander, encoding.AMONested)
				w.F.PutConfiguration(cfg)
				var cls []f.Formula
				for i := 0; i < 4; i++ {
					a, b := w.Lit(PLit{r.Intn(5), r.Bool()}), w.Lit(PLit{r.Intn(5), r.Bool()})
					if a.Variable() != b.Variable() {
						cls = append(cls, w.F.Clause(a, b), w.F.Clause(a.Negate(w.F), b.Negate(w.F)))
					}
				}
				m, err := primeimplicant.Minimum(w.F, w.F.And(cls...))
				s := fmt.Sprint(err)
				for _, l := range m {
					s += " " + l.Sprint(w.F)
				}
				return s
			})
		}
	})
	probe("set-cover-order", "P35", func(c *Ctx) {
		for k := 2; k <= 5; k++ {
			same(c, func() string {
				var sets [][]int
				for i := 0; i < k; i++ {
					for j := 0; j < k; j++ {
						sets = append(sets, []int{i, (i + j) % k, (i + 2*j) % k})
					}
				}
				return fmt.Sprint(np.MinimumSetCover(sets))
			})
		}
	})
	probe("known-variables-order", "P35", func(c *Ctx) {
		same(c, func() string {
			w := NewWorldPlain(6, false)
			fac := w.F
			cfg := sat.DefaultConfig()
			cfg.CNFMethod = sat.CNFFullPG
			s := sat.NewSolver(fac, cfg)
			for i := 0; i < 5; i++ {
				s.Add(fac.Or(fac.And(w.Var(i).AsFormula(), w.Var(i+1).AsFormula()), fac.And(w.Var((i+2)%6).AsFormula(), w.Var((i+3)%6).Negate(fac).AsFormula())))
			}
			t := ""
			for _, v := range s.CoreSolver().KnownVariables(w.F).Content() {
				t += v.Sprint(w.F) + " "
			}
			return t
		})
	})
}
